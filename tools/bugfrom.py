#!/usr/bin/env python3
"""bugfrom.py MUTANT BUG: turn a mutant of tools/mutants.py into seeded/BUG/patch.diff; build its runtime into /tmp/mut/bin/BUG"""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import mutants
R = "/tmp/mut/R"
m = [x for x in mutants.M if x[0] == sys.argv[1]][0]
subprocess.check_call(["git", "-C", R, "fetch", "-q"]); subprocess.check_call(["git", "-C", R, "reset", "-q", "--hard", "origin/HEAD"])
p = os.path.join(R, m[2]); s = open(p).read()
assert s.count(m[3]) == 1
open(p, "w").write(s.replace(m[3], m[4]))
d = V + "/seeded/" + sys.argv[2]
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "wb").write(subprocess.check_output(["git", "-C", R, "diff"]))
subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
