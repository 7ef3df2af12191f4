#!/bin/bash
# mknat.sh ID PROPERTY NEEDS BREAKS REPLAY...: a demonstration that runs the callbacks of minimised replays against their interpretation
D=/verif/seeded/$1; mkdir -p $D/rt; touch $D/rt/__init__.py
cp /verif/tools/demo/shim.py $D/; cp /verif/tools/demo/nat.py $D/demo.py; cp /verif/seeded/D04-no-prompt/demo.sh $D/demo.sh
cp /verif/simlib/rt/{machine.py,arith.py,ease.py,env.py,host.py,blocks.json,cfg.py,cfggen.py} $D/rt/
python3 - "$@" <<'P'
import json,sys
_,i,p,n,b,*reps=sys.argv
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(f"/verif/seeded/{i}/meta.json","w"))
cs=[]
for r in reps:
    pl=json.load(open(r))["plan"]
    cs+= [{"prog":pl["prog"]}] if "prog" in pl else [{"prog":q["p"]} for q in pl["progs"]]
json.dump(cs,open(f"/verif/seeded/{i}/cases.json","w"))
P
