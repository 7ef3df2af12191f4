import json, sys
b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
o = set(json.load(open(sys.argv[1]))["passed"])
m = [x for x in b if x not in o]
print("stable tests lost:", len(m), m[:3])
