"""C08: input streams deliver exactly what the device produced."""
import os
from checks.iorun import *


class C08(IoCheck):
    id = "C08"
    rule = ("a run is a seeded program of reads, look-aheads, questions and saved stream values on a text or binary stream over a file, whose reads return seeded pieces or fail at seeded points, with seeded "
            "collections; every answer is compared with the content of the file at the position the model gives; non-trivial when a read was disturbed; distinct by hash of the event sequence")
    stub = "outcome and size of each read"
    assumptions = ["a device that has answered end-of-stream keeps doing so (regular files)", "answers of canInput may be any number that can be read"]

    def gen(self, rng, tier, i):
        n = rng.choice([20, 60, 150])
        return {"seed": rng.randrange(1 << 30), "n": n, "bin": rng.randrange(2), "size": rng.choice([0, 1, rng.randrange(50), rng.randrange(9000), rng.randrange(40000), 4096, 8192]), "style": rng.randrange(4),
                "rt": geometry(rng) if rng.random() < 0.3 else [],
                "plan": {"hdr": {"limit_alloc": 2000000000}, "ev": self.faults(rng, n, "read", [EIO, EINTR, EAGAIN, EBADF])}}

    def run(self, case, wd):
        o = Outcome()
        data = content(case["seed"], case["size"], case["style"])
        with open(wd + "/in.dat", "wb") as f:
            f.write(data)
        r = run_sim(wd, image("iow"), ["r", case["seed"], case["n"], case["bin"], "in.dat"], case["plan"], rtargs=case["rt"], name="run")
        o.add(r)
        died(o, r)
        self.judge(data, r.log, o)
        if not o.viol and "end" not in r.log:
            o.bad("crash", "no end of run: " + r.brief())
        o.sig = r.end.get("hash", "")
        o.nontrivial = any(k.endswith(":read") for k in o.stats)
        return o

    def judge(self, data, log, o):
        S = Sums(data)
        pos = {0: 0}
        rewrapped = False
        ferr = []           # errors injected since the last answer
        closed = None
        for l in log:
            if o.viol:
                return
            if l.startswith("@F read "):
                w = l.split()
                if w[3] == "err":
                    ferr.append(w[4])
                continue
            if l[:2] not in ("I ", "C "):
                continue
            w = l.split(" ")
            s, op, k, how, res = int(w[1]), w[2], int(w[3]), w[4], w[5:]
            o.probes["ops"] = o.probes.get("ops", 0) + 1
            fault, ferr = ferr, []
            if op == "canInput" and fault == [str(EAGAIN)] and how == "=":
                fault = []          # would block: not an error
            p = pos.get(s, 0)
            rest = len(data) - p

            def bad(t):
                o.bad("input", "%s at position %d of %d: %s" % (l, p, len(data), t))
            if w[0] == "C":     # after the stream was closed: what had been read, the same each time
                if how == "!":
                    return bad("exception")
                n = int(res[0].split(":")[0])
                if p + n > len(data) or S.enc(p, p + n) != res[0]:
                    return bad("not a prefix of %r" % data[p:p + 40])
                if k == 0:
                    closed = res[0]
                elif closed != res[0]:
                    return bad("read again: %s, before: %s" % (res[0], closed))
                continue
            if how == "!":
                o.probes["errors"] = o.probes.get("errors", 0) + 1
                if op == "pos" and rewrapped and not fault and res == ["io", "RandomAccessNotSupported"]:
                    continue        # nothing is known about data that was given when the stream was made
                if not fault or res != ["io", fault[-1]]:
                    return bad("exception, but the device failed with %s" % fault)
                continue
            if fault:
                return bad("the device failed with %s, but no exception was raised" % fault)
            new = int(res[-1]) if s and op in ("input1", "inputN", "input", "inputAll", "inputLine") and len(res) == 2 else s

            def want(q):
                q = min(q, len(data))
                if res[0] != S.enc(p, q):
                    bad("expected %s, %r..." % (S.enc(p, q), data[p:q][:40]))
                else:
                    pos[new] = q
            if op in ("input1", "lookahead"):
                if res[0] != (str(data[p]) if rest else "none"):
                    return bad("expected %s" % (data[p:p + 1]))
                if op == "input1" and rest:
                    pos[new] = p + 1
            elif op == "inputN":
                want(p + k)
            elif op == "inputAll":
                want(len(data))
            elif op == "input":
                n = int(res[0].split(":")[0])
                if n > rest or (n == 0 and rest):
                    return bad("%d elements, but %d are left" % (n, rest))
                want(p + n)
            elif op == "inputLine":
                if not rest:
                    if res[0] != "none":
                        return bad("nothing is left")
                    continue
                j = data.find(b"\n", p)
                ln = S.enc(p, len(data), True) if j < 0 else S.enc(p, j + 1)
                if res[0] != ln:
                    return bad("expected %s, %r..." % (ln, data[p:j if j >= 0 else None][:40]))
                pos[new] = len(data) if j < 0 else j + 1
            elif op == "canInput":
                if res[0] != "none" and not 0 <= int(res[0]) <= min(k, rest):
                    return bad("%d are left" % rest)
            elif op == "eos":
                if res[0] != ("0" if rest else "1"):
                    return bad("%d are left" % rest)
            elif op == "pos":
                if int(res[0].replace("~", "-")) != p:
                    return bad("wrong position")
            elif op == "get":
                pos[int(res[0])] = p
            elif op == "rewrap":
                rewrapped = True
            elif op == "put":
                pos[0] = p


CHECK = C08()
