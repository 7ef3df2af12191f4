#!/bin/bash
# mkdemo.sh ID PROPERTY NEEDS BREAKS [rt]: scaffolds seeded/ID (demo.py from stdin)
D=/verif/seeded/$1; mkdir -p $D
cp /verif/tools/demo/shim.py $D/; cp /verif/seeded/D04-no-prompt/demo.sh $D/demo.sh
if [ "$5" = rt ]; then mkdir -p $D/rt; touch $D/rt/__init__.py; cp /verif/tools/demo/er.py $D/; cp /verif/simlib/rt/{machine.py,arith.py,ease.py,env.py,host.py,blocks.json} $D/rt/; else cp /verif/tools/demo/proj.py $D/; fi
cat > $D/demo.py
python3 - "$@" <<'P'
import json,sys
_,i,p,n,b=sys.argv[:5]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(f"/verif/seeded/{i}/meta.json","w"))
P
