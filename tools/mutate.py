#!/usr/bin/env python3
"""mutate.py [-s SECS] [-j FILE] ID...: run the mutants of tools/mutants.py against the checks, in a scratch copy of /repo.
Each mutant is (id, property, file, old text, new text)."""
import importlib.util, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import mutants
R, B = os.environ.get("MUT_R", "/tmp/mut/R"), os.environ.get("MUT_B", "/tmp/mut/B")


def sh(*a, **k):
    return subprocess.run(a, **k)


def main():
    a = sys.argv[1:]
    secs = None
    chk = None
    while a and a[0].startswith("-"):
        if a[0] == "-s": secs = a[1]; a = a[2:]
        elif a[0] == "-c": chk = a[1]; a = a[2:]
        else: sys.exit("?")
    if not os.path.isdir(R):
        os.makedirs(os.path.dirname(R), exist_ok=True)
        sh("git", "clone", "-q", "/repo", R, check=True)
    sh("git", "-C", R, "fetch", "-q", check=True); sh("git", "-C", R, "reset", "-q", "--hard", "origin/HEAD", check=True)
    os.makedirs(B, exist_ok=True)
    if not os.path.isdir(B + "/tree"):
        sh("cp", "-a", V + "/.build/.", B)
    for m in mutants.M:
        mid, prop, f, old, new = m
        if a and not any(mid == x or mid.startswith(x) for x in a):
            continue
        sh("git", "-C", R, "checkout", "-q", "--", ".", check=True)
        p = os.path.join(R, f)
        s = open(p).read()
        if s.count(old) != 1:
            print("%-28s BAD PATTERN (%d occurrences)" % (mid, s.count(old))); continue
        open(p, "w").write(s.replace(old, new))
        for c in (chk or prop).split(","):
            t = time.time()
            e = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=B, VERIF_SEED="1", VERIF_TIER="quick")
            if secs: e["VERIF_BUDGET_S"] = secs
            r = sh(sys.executable, V + "/run.py", "check", c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e)
            out = r.stdout.decode("utf-8", "replace")
            l = [x for x in out.split("\n") if "VIOLATION" in x or "violat" in x.lower()]
            print("%-28s %s rc=%d %.0fs %s" % (mid, c, r.returncode, time.time() - t, (l or [out.strip().split("\n")[-1]])[0][:260]), flush=True)
    sh("git", "-C", R, "checkout", "-q", "--", ".")


main()
