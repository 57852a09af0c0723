"""run the case of a replay file once and print its log: showlog.py FILE [tail lines]"""
import json, os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import driver, tree
j = json.load(open(sys.argv[1]))
c = driver.load(j["property"])
wd = tempfile.mkdtemp()
o = driver.one(c, j["case"], wd)
n = int(sys.argv[2]) if len(sys.argv) > 2 else 40
for f in sorted(os.listdir(wd)):
    if f.endswith(".log"):
        print("==", f)
        print("\n".join(open(os.path.join(wd, f), errors="replace").read().split("\n")[-n:]))
print(json.dumps(j["case"])[:600])
print(o.viol[:3])
