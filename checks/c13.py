"""C13: ready threads run, time-outs fire on time, nobody is forgotten."""
from checks.cmlrun import CmlCheck, preempt_plan
from checks.cmlhist import Hist


class C13(CmlCheck):
    id = "C13"
    quick_s = 42
    parts = "xcot"
    mixes = [("srtcCfj", "srtTaj"), ("tcf", "t!"), ("tcj", "srtTbk!"), ("srSRcmibywtfj", "srabtkgwij!"), ("mibtC", "kgwibt"), ("sry", "sr"), ("ctw", "tT")]
    rule = ("a run is a seeded set of computing, yielding, communicating and sleeping threads on the virtual clock with the time-slice timer and extra preemptions at seeded positions, or a random "
            "thread program; checked: the gap between two steps of a runnable thread and the lateness of a time-out stay below a bound in time slices, time-outs are never early, at the end nobody is "
            "blocked on an event that can happen; distinct by hash of the event sequence")

    def gen(self, rng, tier, i):
        if i % 3 == 2:
            return self.mix(rng)
        sc = rng.choice("ABCCDDE")
        nspb = rng.choice([50, 200, 1000])
        q = rng.choice([20000, 40000, 100000]) * nspb // 1000
        comp = rng.randint(1, 6) if sc in "ABDE" else 0
        yl = rng.randint(1, 4) if sc in "BE" else 0
        sl = rng.randint(1, 8) if sc in "CDE" else 0
        pairs = rng.randint(0, 3) if sc == "E" else 0
        n = comp + yl + 2 * pairs + sl
        span = (3 * self.bound(n, sc) if sc != "C" else 200) * q
        if rng.random() < 0.5:
            ev = [["A", rng.randrange(span * 1000 // nspb), "sig", 14] for _ in range(rng.choice([5, 50, 300]))]
        else:
            ev = []
        return {"mode": "sched", "sc": sc, "args": [rng.randrange(1 << 24), comp, yl, pairs, sl, span, rng.choice([span // 8, span // 30, 4 * q]), q],
                "plan": {"hdr": {"logsig": True, "limit_alloc": 800000000, "nspb": nspb}, "ev": ev}}

    @staticmethod
    def bound(n, sc):
        """time slices a runnable thread may have to wait"""
        return 25 * n + 60 if sc == "E" else 6 * n + 25

    def judge(self, case, r, o):
        if case["mode"] == "mix":
            h = Hist(r.log, o)
            h.check(self.parts)
            # only what this property says: nobody is left behind
            o.viol = [v for v in o.viol if v[0] in ("stuck", "blocked", "join", "hang", "crash", "exn")]
            return
        sc = case["sc"]
        seed, comp, yl, pairs, sl, span, maxd, q = case["args"]
        n = comp + yl + 2 * pairs + sl
        bound = self.bound(n, sc) * q
        late = (6 if sc == "C" else self.bound(n, sc)) * q
        if sc == "C":
            late += 2 * n * q      # the sleepers themselves compute a little
        last, seen = {}, set()
        tend = 0
        for l in r.log:
            w = l.split(" ")
            if w[0] == "P":
                t = int(w[2])
                tend = max(tend, t)
                if w[1] in last and t - last[w[1]] > bound:
                    o.bad("starved", "thread %s did not run between %d and %d us: %.1f time slices with %d threads" % (w[1], last[w[1]], t, (t - last[w[1]]) / q, n))
                last[w[1]] = max(t, last.get(w[1], 0))
            elif w[0] == "Z":
                k, d, t0, t1 = w[2], int(w[3]), int(w[4]), int(w[5])
                tend = max(tend, t1)
                o.probes["sleep_" + k] = o.probes.get("sleep_" + k, 0) + 1
                early = t0 + d - t1
                if early > (0 if k == "a" else 2 * q):
                    o.bad("early", "thread %s: a time-out of %d us (%s) asked for at %d was over at %d, %d us early" % (w[1], d, k, t0, t1, early))
                if -early > late:
                    o.bad("late", "thread %s: a time-out of %d us (%s) asked for at %d was over at %d: %.1f time slices late" % (w[1], d, k, t0, t1, -early / q))
            elif w[0] == "X":
                seen.add(w[1])
            elif w[0] == "lost":
                o.probes["timeout_lost"] = o.probes.get("timeout_lost", 0) + 1
        for k, cnt in (("c", comp), ("y", yl)):
            for i in range(1, cnt + 1):
                nm = k + str(i)
                if nm not in last:
                    o.bad("starved", "thread %s never ran" % nm)
        for i in range(1, pairs + 1):
            if "p%da" % i not in last:
                o.bad("starved", "thread p%da never ran" % i)
        for i in range(1, sl + 1):
            if "s%d" % i not in seen:
                o.bad("stuck", "sleeping thread s%d never came back" % i)

    def run(self, case, wd):
        o = super().run(case, wd)
        if case["mode"] == "sched":
            o.nontrivial = True
        return o


CHECK = C13()
