"""C09: output streams pass every element on once, in order, or say so."""
import os
from checks.iorun import *


class C09(IoCheck):
    id = "C09"
    rule = ("a run is a seeded program of writes, flushes and changes of the buffering mode on a text or binary stream over a file or the standard output, whose writes take seeded parts, fail, meet a full disk or "
            "the death of the process at seeded points, with seeded collections; what is in the file is compared with the sequence of operations: those that returned count in full, those that raised with a "
            "beginning of their data; non-trivial when a write was disturbed; distinct by hash of the event sequence")
    stub = "outcome and size of each write"
    assumptions = ["an operation that raised an exception may have passed on a beginning of its data, and that part is in the stream once"]

    def gen(self, rng, tier, i):
        n = rng.choice([5, 20, 60, 150])
        hdr = {"limit_alloc": 2000000000}
        more = []
        x = rng.random()
        if x < 0.15:
            hdr["disk"] = rng.choice([0, 1, 4096, 5000, rng.randrange(200000)])
        elif x < 0.3:
            more.append(["C", "write", rng.randrange(rng.choice([4, 40])), "kill", rng.choice([0, 1, 100, rng.randrange(5000)])])
        return {"seed": rng.randrange(1 << 30), "n": n, "how": rng.choice([0, 0, 1, 1, 2, 3, 4]), "rt": geometry(rng) if rng.random() < 0.3 else [],
                "plan": {"hdr": hdr, "ev": self.faults(rng, n, "write", [EIO, EINTR, ENOSPC], more)}}

    def run(self, case, wd):
        o = Outcome()
        out = wd + "/out.dat"
        if os.path.exists(out):
            os.unlink(out)
        how = case["how"]
        pre = b"before" if how in (2, 3) else b""
        if pre:
            with open(out, "wb") as f:
                f.write(pre)
        r = run_sim(wd, image("iow"), ["w", case["seed"], case["n"], how, "out.dat"], case["plan"], rtargs=case["rt"], name="run")
        o.add(r)
        killed = r.code == 66
        died(o, r, (66,))
        F = r.out if how == 4 else open(out, "rb").read() if os.path.exists(out) else b""
        if not o.viol and not killed and "end" not in r.log:
            o.bad("crash", "no end of run: " + r.brief())
        if not F.startswith(pre):
            o.bad("output", "what was in the file before appending is gone: %r" % F[:20])
        if not o.viol:
            self.judge(F[len(pre):], len(pre), how, r.log, killed, o)
        o.sig = r.end.get("hash", "")
        o.nontrivial = any(k.endswith(":write") or k == "disk_full" for k in o.stats)
        return o

    def judge(self, F, base, how, log, killed, o):
        mode = 0 if how in (2, 3, 4 + 1) else 2
        beyond = False          # the accepted data may be longer than the file
        P = {0}                 # lengths of the accepted data that agree with the file
        nxt = 0                 # elements used by the program
        fault = []
        done = 0                # known to have reached the file
        full = False            # the last close or exit had no failure
        text = how in (0, 2, 4)
        over = False
        for l in log:
            if l.startswith("@F write ") or l.startswith("@F close "):
                w = l.split()
                if w[3] == "err":
                    fault.append(w[4])
                continue
            if l.startswith("A ") and l != "A closed":
                return o.bad("output", "closing twice or writing to the closed stream: " + l)
            if l in ("exit", "end"):
                over = True
            if l == "exit":
                fault, full = [], True
            if not l.startswith("O "):
                continue
            w = l.split(" ")
            op, k, ok, res = w[1], int(w[2]), w[3] == "=", w[4:]
            o.probes["ops"] = o.probes.get("ops", 0) + 1

            def bad(t):
                o.bad("output", "%s after %d elements: %s" % (l, nxt, t))
            if not ok:
                o.probes["errors"] = o.probes.get("errors", 0) + 1
                e = res[-1]
                if not (fault and e == fault[-1]) and not (e == str(ENOSPC)):
                    return bad("exception, but the device failed with %s" % fault)
            elif fault:
                return bad("the device failed with %s, but no exception was raised" % fault)
            fault = []
            k0 = k
            if op in ("output", "substr", "output1"):
                seg = segment(nxt, k)
                nxt += k
                Q, far = set(), beyond
                for p in P:
                    m = common(F, p, seg)
                    if m == k:
                        Q.add(p + k)
                    elif p + m == len(F):       # all that the file could show
                        far = True
                    if not ok:
                        Q.update(range(p, p + m + 1))
                beyond = far
                if not Q and not beyond:
                    p = max(P)
                    return bad("these elements are not in the file at %s (it has %r there, length %d)" % (sorted(P)[:3], F[p:p + 20], len(F)))
                P = Q
            if op == "mode" and ok:
                mode = k
            if not ok:
                continue
            if how == 4:
                if op in ("flush", "close"):
                    done = min(P) if P else 0
                    full = op == "close"
                continue
            size = int(res[0]) - base
            passed = op in ("flush", "close") or (op == "mode" and k == 0) or (mode == 0 and op in ("output", "output1", "substr"))
            if passed:
                P, beyond = {p for p in P if p == size}, False
                if not P:
                    return bad("%d bytes are in the file, which is not everything written" % size)
                done = size
            elif mode == 1 and text and op in ("output", "output1", "substr") and 10 in seg:
                i = seg.rfind(10) + 1
                P = {p for p in P if p - k + i <= size}
                beyond = beyond and size - i + k > len(F)
                if not P and not beyond:
                    return bad("%d bytes are in the file, a line is missing" % size)
            full = op == "close"
        if killed:              # the operation in which the process died
            seg = segment(nxt, 40000)
            for p in list(P):
                P.update(range(p, p + common(F, p, seg) + 1))
        if len(F) < done:
            o.bad("output", "%d elements had reached the file, which has only %d" % (done, len(F)))
        if len(F) not in P and not beyond:
            o.bad("output", "the file has %d elements, the program passed on at most %d" % (len(F), max(P)))
        elif full and not fault and not killed and "disk_full" not in o.stats and len(F) not in P:
            o.bad("output", "at the end the file has %d elements, which is not everything written" % len(F))
        o.probes["complete"] = int(len(F) in P)



CHECK = C09()
