#!/usr/bin/env python3
"""run.py check ID | thorough ID | replay FILE | setup | det ID N"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import driver, tree


def main(a):
    a = a or ['help']
    try:
        if a[0] == "check":
            return driver.do_check(a[1])
        if a[0] == "thorough":
            return driver.do_check(a[1], "thorough")
        if a[0] == "replay":
            return driver.do_replay(a[1])
        if a[0] == "replay-raw":
            return driver.do_replay(a[1], raw=True)
        if a[0] == "setup":
            tree.build()
            return 0
        if a[0] == "det":
            return determinism(a[1], int(a[2]))
    except tree.BuildError as e:
        print("BUILD ERROR: %s" % e)
        return 3
    print(__doc__)
    return 2


def determinism(cid, n):
    """every case of n seeds twice, compare digests"""
    import multiprocessing as mp, shutil
    c = driver.load(cid)
    tree.build(); driver.build_images(c); c.prepare(tree.BUILD)
    global _f
    def _f(i):
        wd = driver.scratch(c, "det")
        case = c.gen(driver.case_rng(99, cid, i), "quick", i)
        a = driver.one(c, case, wd); b = driver.one(c, case, wd)
        shutil.rmtree(wd, ignore_errors=True)
        return None if a.digest == b.digest else (i, a.digest[:200], b.digest[:200])
    with mp.get_context("fork").Pool(12) as p:
        bad = [x for x in p.map(_f, range(n)) if x]
    print("determinism %s: %d cases twice, %d differ %s" % (cid, n, len(bad), bad[:3]))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
