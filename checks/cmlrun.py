"""Shared by the checks of the thread system: plans, execution of the mix workload."""
from vlib.driver import Check, Outcome, run_sim, image
from checks.cmlhist import Hist

QUANTA = [1000, 2000, 10000, 20000, 20000, 50000]


def preempt_plan(rng, span, exact=True):
    """placements of the time-slice signal: none, few, storms, dense windows; at allocation positions or exact instructions"""
    ev = []
    mode = rng.randrange(7)

    def one(p):
        if exact and rng.random() < 0.25:
            ev.append(["A", p, "sigx", 14, rng.choice([rng.randint(0, 12), rng.randint(0, 60), rng.randint(0, 300)])])
        else:
            ev.append(["A", p, "sig", 14])
    if mode == 0:
        pass
    elif mode == 1:
        for _ in range(rng.randint(1, 8)):
            one(rng.randrange(span))
    elif mode == 2:
        for _ in range(rng.randint(10, 60)):
            one(rng.randrange(span))
    elif mode == 3:
        for _ in range(rng.randint(100, 500)):
            p = rng.randrange(span)
            ev.append(["A", p, "sig", 14])
    elif mode == 4:     # storm
        p = rng.randrange(span)
        step = rng.choice([60, 200, 600, 2000])
        for _ in range(rng.randint(20, 300)):
            ev.append(["A", p, "sig", 14])
            p += rng.randint(8, step)
    elif mode == 5:     # a slice every so many bytes
        step = rng.randint(300, 6000)
        p = rng.randrange(step)
        while p < span and len(ev) < 600:
            ev.append(["A", p, "sig", 14])
            p += step
    else:
        for _ in range(rng.randint(2, 10)):
            p = rng.randrange(span)
            for _ in range(rng.randint(2, 30)):
                one(p)
                p += rng.randint(8, 200)
    if rng.random() < 0.15:
        for _ in range(rng.randint(1, 20)):
            ev.append(["A", rng.randrange(span), "gc", rng.choice([0, 0, 1, 5])])
    return ev


def speed(rng, quantum):
    """virtual ns per byte allocated, such that a time slice is long compared with the work of switching threads"""
    return rng.choice([x for x in (20, 100, 100, 1000) if quantum * 1000 // x >= 10000])


def ended(o, r, want_end=True):
    if r.timeout or r.how == "limit":
        o.bad("hang", "the run does not end: " + r.brief())
    elif r.sig is not None or r.code != 0:
        o.bad("crash", "died: " + r.brief())
    elif want_end and not any(l.startswith("end") for l in r.log):
        o.bad("crash", "no end of run: " + r.brief())


class CmlCheck(Check):
    real = "C runtime system, Basis library, thread library (cml) and compiler output of /repo's working tree"
    stub = "arrival of time-slice signals, clock, timers and idle waiting"
    assumptions = ["AMD64/Linux code generator only", "user-level threads: preemption happens at time-slice signals, which the simulator places"]
    parts = ""
    mixes = []      # (kinds, choice)
    kinds2 = []

    def images(self):
        return {"cmlw": ("cml/cmlw.cm", "Main.main")}

    def mix(self, rng):
        th = rng.randint(2, 7)
        n = rng.choice([4, 8, 15, 25])
        kinds, choice = rng.choice(self.mixes)
        q = rng.choice(QUANTA)
        span = th * n * rng.choice([2500, 6000])
        return {"mode": "mix", "args": [rng.randrange(1 << 24), th, n, rng.randint(1, 3), rng.randint(1, 2), rng.randint(1, 2), rng.randint(1, 2), kinds, choice, q],
                "plan": {"hdr": {"logsig": True, "limit_alloc": 400000000, "nspb": speed(rng, q)}, "ev": preempt_plan(rng, span)}}

    def gen(self, rng, tier, i):
        return self.mix(rng)

    def judge(self, case, r, o):
        h = Hist(r.log, o)
        h.check(self.parts)
        for k in ("settled",):
            n = sum(1 for p in h.ops.values() if p.settled)
            if n:
                o.probes[k] = o.probes.get(k, 0) + n
        n = sum(1 for p in h.ops.values() if p.ret is None)
        if n:
            o.probes["blocked_for_ever"] = n
        for p in h.ops.values():
            if p.tree is not None and p.leaf:
                o.probes["commit_" + p.leaf[2]] = o.probes.get("commit_" + p.leaf[2], 0) + 1

    def run(self, case, wd):
        o = Outcome()
        r = run_sim(wd, image("cmlw"), [case["mode"]] + case["args"], case["plan"], timeout=60)
        o.add(r)
        # an error of the workload itself (uncaught exception in a thread) counts as a violation of the property under test
        ended(o, r)
        if not o.viol:
            self.judge(case, r, o)
        o.sig = r.end.get("hash", "")
        o.nontrivial = any(l[0] == "O" for l in r.log)
        return o

    def shrink(self, case):
        if case["mode"] == "mix":
            a = case["args"]
            for k, lo in ((1, 1), (2, 1)):
                for v in (a[k] // 2, a[k] - 1):
                    if lo <= v < a[k]:
                        yield dict(case, args=a[:k] + [v] + a[k + 1:])
