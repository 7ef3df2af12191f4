#!/bin/bash
# trybug.sh ID [check|nocheck] [extra run.py args]: confirms seeded/ID in a scratch copy mounted over /repo in a private namespace.
ID=$1; MODE=${2:-check}; shift; shift
D=/verif/seeded/$ID
PROP=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' $D/meta.json)
S=/tmp/seed-$ID
case $S in /tmp/seed-?*) ;; *) exit 9;; esac
rm -rf "$S"; cp -a /repo "$S" || exit 9
mkdir -p "$S.rep"
git -C "$S" apply "$D/patch.diff" || { echo "PATCH DOES NOT APPLY"; rm -rf "$S" "$S.rep"; exit 9; }
( cd /repo && timeout 300 bash $D/demo.sh >/tmp/seed-$ID.demo0 2>&1 </dev/null; echo "demo on clean: $? (want 0)" )
unshare -m bash -c "
mount --bind $S /repo; mount --bind $S.rep /opt/vp/reports; cd /repo
bash /opt/vp/build.sh >/tmp/seed-$ID.build 2>&1; echo \"build: \$?\"
bash /opt/vp/test.sh /tmp/seed-$ID.json >/tmp/seed-$ID.test 2>&1; tail -1 /tmp/seed-$ID.test
python3 /verif/tools/lost.py /tmp/seed-$ID.json
( timeout 300 bash $D/demo.sh >/tmp/seed-$ID.demo1 2>&1 </dev/null; echo \"demo with bug: \$? (want nonzero)\" ); tail -3 /tmp/seed-$ID.demo1
if [ $MODE = check ]; then
  cd /verif && timeout 900 python3 run.py $PROP $*; echo \"check rc: \$? (want 1)\"
fi"
rm -rf "$S" "$S.rep"
