"""show.py PNN [i ...]: details of the recorded replays"""
import json
import os
import sys

p = sys.argv[1]
root = os.environ.get("VERIF_EVIDENCE", "/verif/evidence")
for i in map(int, sys.argv[2:] or [0]):
    f = "%s/replay/%s-%d.json" % (root, p, i)
    if not os.path.exists(f):
        continue
    v = json.load(open(f))
    print("=====", i, v["case"]["kind"], v["case"]["index"], v["msg"][:400])
    for k, x in v["detail"].items():
        print("--", k, ":")
        print((x if k != "traceback" else x[-900:])[:int(os.environ.get("N", 1500))] if isinstance(x, str) else json.dumps(x)[:1600])
