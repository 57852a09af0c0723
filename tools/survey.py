#!/usr/bin/env python3
"""survey.py ID N [KIND,...]: run N cases and group the violations (development aid; decides nothing)"""
import collections, multiprocessing as mp, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.dont_write_bytecode = True
from vlib import driver, tree
cid, n = sys.argv[1], int(sys.argv[2])
c = driver.load(cid)
if len(sys.argv) > 3:
    c.kinds = sys.argv[3].split(",")
tree.build(); driver.build_images(c); c.prepare(tree.BUILD)
def f(i):
    wd = driver.scratch(c, "survey")
    case = c.gen(driver.case_rng(5, cid, i), "quick", i)
    o = driver.one(c, case, wd)
    shutil.rmtree(wd, ignore_errors=True)
    return i, o.viol[:1], o.probes
with mp.get_context("fork").Pool(10) as p:
    res = p.map(f, range(n), 1)
g = collections.Counter(); ex = {}; pr = collections.Counter()
for i, v, probes in res:
    for k, x in probes.items():
        if isinstance(x, int): pr[k] += x
    for cls, text in v:
        t = text.replace("program: ", "")
        key = cls + " " + (cls if cls in ("early","late") else " ".join(t.split()[:1]) if cls == "boundary" else t[:60])
        g[key] += 1; ex.setdefault(key, (i, text))
for k, x in g.most_common():
    print(x, k, "| case", ex[k][0], "|", ex[k][1][:500])
print(sum(1 for r in res if not r[1]), "clean of", n)
print(dict(pr))
