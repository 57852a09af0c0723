#!/usr/bin/env python3
"""sens.py: fills DESIGN.md's lists of defects and mutants (from tools/known.py and tools/results.txt: lines "mutant check caught|missed remark")"""
import os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H + "/tools"); sys.dont_write_bytecode = True
import known
d = open(H + "/DESIGN.md").read()
fx = "\n" + "\n".join("* %s `%s`: %s." % f for f in sorted(known.F)) + "\n"
d = re.sub(r"@@FIXED@@|<!--F-->.*?<!--/F-->", lambda m: "<!--F-->" + fx + "<!--/F-->", d, flags=re.S)
rows = {}
for l in open(H + "/tools/results.txt"):
    w = l.split(None, 3)
    if len(w) > 2: rows.setdefault(w[1], {"caught": [], "missed": [], "equivalent": []})[w[2]].append(w[0] + (" (%s)" % w[3].strip() if len(w) > 3 else ""))
t = "\n| check | caught | missed | no observable change |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % (c, ", ".join(r["caught"]), ", ".join(r["missed"]), ", ".join(r["equivalent"])) for c, r in sorted(rows.items()))
d = re.sub(r"@@SENS@@|<!--S-->.*?<!--/S-->", lambda m: "<!--S-->" + t + "<!--/S-->", d, flags=re.S)
open(H + "/DESIGN.md", "w").write(d)
