"""C07: time limits, interval timers, sleeps, clocks."""
from vlib.driver import Check, Outcome, run_sim, image
from checks.c01 import gc_events, geometry

EPOCH = 1700000000
ALRM = 14


class Judge:
    def __init__(self, o, slack):
        self.o, self.slack = o, slack          # slack: virtual ns that may pass without the program running (stalls, handlers)
        self.lim = {}                          # id -> (limit ns, start us)
        self.out = {}
        self.cur = None                        # what the timer is on for: ("L"|"I"|"A", id, ns)
        self.tmr = {}
        self.slp = {}
        self.alm = {}
        self.offs = [0]
        self.jumped = False
        self.arrived = 0                       # deliveries of ALRM since the timer was set
        self.intr = 0                          # deliveries of any signal since the sleep began
        self.rt = self.ct = None
        self.gcs, self.gc0, self.gccost = 0, 0, 0      # collections made so far, before the last look at the clock; user time (ns) of one
        self.lastue = None
        self.lastc = None
        self.lim_seen = None

    def bad(self, cls, t):
        self.o.bad(cls, t)

    def at(self, l):
        w = l.split(" ")
        k = w[0]
        if k == "@S":
            if w[2] in ("now", "late"):
                self.intr += 1
                if int(w[1]) == ALRM:
                    self.arrived += 1
            return
        if k == "@F":
            self.intr += 1
            return
        if k == "@COL":
            self.gcs += 1
            return
        if k == "@J":
            self.offs.append(int(w[1]))
            self.jumped = True
            return
        if k == "@IT":
            if w[1] == "fire":
                if self.cur is None:
                    self.bad("on", "the timer signalled although it should be off: " + l)
                return
            d, iv = int(w[2]), int(w[3])
            if self.cur and not self.cur[3] and d:
                want = self.cur[2]
                if d < want:
                    self.bad("early", "%s %s asked for %d ns, the timer was set to the shorter %d ns" % (self.cur[0], self.cur[1], want, d))
                elif d > want + 999:
                    self.bad("late", "%s %s asked for %d ns, the timer was set to %d ns" % (self.cur[0], self.cur[1], want, d))
                if iv != (0 if self.cur[0] == "A" else d):
                    self.bad("interval", "%s %s: the timer was set to %d ns with interval %d ns" % (self.cur[0], self.cur[1], d, iv))
                self.cur[3] = True
            return

    def line(self, l):
        if l.startswith("@"):
            return self.at(l)
        w = l.replace("~", "-").split(" ")
        k = w[0]
        if k == "L":
            i, t, n = map(int, w[1:4])
            self.lim[i] = (t, n)
            self.cur = ["L", i, t, False]
        elif k in "ROXE" and k != "E" or (k == "E" and int(w[1]) in self.lim and int(w[1]) not in self.out):
            i, n = int(w[1]), int(w[-1])
            if i in self.out:
                self.bad("twice", "the call with time limit no. %d ended twice: %s, then %s" % (i, self.out[i], l))
                self.cur = None
                return
            self.out[i] = l
            self.cur = None
            t, n0 = self.lim[i]
            el = (n - n0) * 1000
            if k == "E":
                self.bad("error", "time limit: " + l)
            elif k == "O":
                if el + 999 < t:
                    self.bad("early", "time limit of %d ns: abandoned after %d ns" % (t, el))
            elif k == "R" and int(w[2]) != i * 7 + 1:
                self.bad("result", "time limit: wrong result %s" % l)
            elif k == "X" and int(w[2]) != i:
                self.bad("result", "time limit: wrong exception %s" % l)
            if el > t + self.slack:
                self.bad("late", "time limit of %d ns: ended only after %d ns" % (t, el))
        elif k == "E":
            self.bad("error", "unexpected exception: " + l)
        elif k == ".":
            if int(w[1]) not in self.out:
                self.bad("result", "no outcome for no. " + w[1])
        elif k == "I":
            i, t, n = map(int, w[1:4])
            self.cur = ["I", i, t, False]
            self.tmr[i] = (t, n)
            self.arrived = 0
        elif k == "Is":
            pass
        elif k == "H":
            i = int(w[1])
            if self.cur is None or self.cur[1] != i:
                self.bad("on", "a timer signal was passed on after the timer was off: " + l)
        elif k == "Tb":
            pass
        elif k == "Ie":
            i, tot = int(w[1]), int(w[2])
            if tot != self.arrived:
                self.bad("count", "timer %d: %d expirations were signalled, the handler was told of %d" % (i, self.arrived, tot))
            self.cur = None
        elif k == "S":
            self.slp[int(w[1])] = (int(w[2]), int(w[3]))
            self.intr = 0
        elif k == "Z":
            n, t0 = self.slp[int(w[1])]
            el = (int(w[3]) - t0) * 1000
            if w[2] == "-":
                if el + 999 < n and not self.intr:
                    self.bad("sleep", "sleep of %d ns returned after %d ns without an interruption" % (n, el))
            else:
                rem = int(w[2])
                if rem == 0 and el + 999 < n:
                    self.bad("sleep", "sleep of %d ns returned 0 after %d ns" % (n, el))
                elif rem > 0 and not self.intr:
                    self.bad("sleep", "sleep of %d ns returned %d without an interruption" % (n, rem))
                elif rem > 0 and not (n - 1000 <= el + rem <= n + self.slack):
                    self.bad("sleep", "sleep of %d ns: %d ns passed and %d are said to remain" % (n, el, rem))
            if el > n + self.slack:
                self.bad("sleep", "sleep of %d ns took %d ns" % (n, el))
        elif k == "A":
            i, a, n = map(int, w[1:4])
            if i not in self.alm:
                self.alm[i] = None
                self.arrived = 0
            self.pend = (a, n)
            self.cur = ["A", i, a * 1000000000, False]
        elif k == "Ar":
            i, rem, n = int(w[1]), int(w[2]), int(w[3])
            a, n0 = self.pend
            old = self.alm[i]
            hi = lo = 0
            if old and old[0] and not (old[3] < self.arrived):
                lo = old[0] * 1000000000 - (n - old[1]) * 1000
                hi = old[0] * 1000000000 - (n0 - old[2]) * 1000
            if rem % 1000000000 or rem < max(0, lo - 1000) or (rem >= max(0, hi) + 1001000000):
                self.bad("alarm", "alarm: %d ns are said to have remained, it was between %d and %d" % (rem, lo, hi))
            self.alm[i] = (a, n0, n, self.arrived)
        elif k == "Ae":
            if int(w[2]) != self.arrived:
                self.bad("count", "alarm %s: %d expirations were signalled, the handler was told of %s" % (w[1], self.arrived, w[2]))
            self.cur = None
        elif k == "C":
            a, b, t = map(int, w[1:4])
            t -= EPOCH * 1000000000
            if not any(a * 1000 - 999 <= t - j <= b * 1000 + 999 for j in self.offs):
                self.bad("clock", "between %d and %d us the time was given as %d ns (clock set by %s)" % (a, b, t, self.offs))
            if not self.jumped and self.lastc is not None and t < self.lastc:
                self.bad("clock", "time ran backwards from %d to %d" % (self.lastc, t))
            self.lastc = t
            self.offs = self.offs[-1:]
        elif k in ("Cs", "Us"):
            self.t0 = int(w[1])
        elif k == "Ct":
            self.rt = (self.t0, int(w[1]))
        elif k == "Ut":
            self.ct = (self.t0, int(w[1]))
            self.gc0 = self.gcs
        elif k == "Ce":
            a, b, e = map(int, w[1:4])
            if not self.jumped and not (a - self.rt[1]) * 1000 - 2000 <= e <= (b - self.rt[0]) * 1000 + 2000:
                self.bad("clock", "real timer: %d ns, but %d to %d us passed" % (e, a - self.rt[1], b - self.rt[0]))
        elif k == "Ub":
            self.gcb = self.gcs
        elif k == "Ue":
            a, b, u, s, g = map(int, w[1:6])
            if not (a - self.ct[1]) * 1000 - 2000 <= u + s <= (b - self.ct[0]) * 1000 + 2000:
                self.bad("clock", "cpu timer: %d ns, but %d to %d us passed" % (u + s, a - self.ct[1], b - self.ct[0]))
            if u < 0 or s < 0 or g < 0 or g > (b - self.ct[0]) * 1000 + 2000 or (self.lastue and (u < self.lastue[0] or s < self.lastue[1] or g < self.lastue[2])):
                self.bad("clock", "cpu timer ran backwards: %s after %s" % ((u, s, g), self.lastue))
            # a part of the time between this and the last look
            if self.lastue and g - self.lastue[2] > (b - self.lasta) * 1000 + 2000:
                self.bad("clock", "the time of collections grew by %d ns in at most %d us" % (g - self.lastue[2], b - self.lasta))
            self.lasta = a
            # what the collections between this and the last look must have cost
            floor = (self.gcb - self.gc0) * (self.gccost - 2000)
            if self.gccost and g - (self.lastue[2] if self.lastue else 0) < floor:
                self.bad("clock", "%d collections of at least %d ns each, but the time of collections went from %s to %d ns" % (self.gcb - self.gc0, self.gccost, self.lastue and self.lastue[2], g))
            self.gc0 = self.gcs
            self.lastue = (u, s, g)


class C07(Check):
    id = "C07"
    quick_s = 40
    rule = ("a run is a seeded sequence of 10-120 uses of time limits (computations that end before, around and after the limit, raise, sleep, collect, throw), interval timers, sleeps, alarms and clocks under "
            "virtual time, with other signals at seeded positions, machine instructions and system calls, forced collections, stalls and clock jumps; non-trivial when a timer fired; distinct by hash of the event sequence")
    stub = "clock, timers, sleep and arrival of signals"
    assumptions = ["alarm is used with whole seconds only", "a limit may be overrun by 3 ms of virtual time plus the injected stalls"]

    def images(self):
        return {"timew": ("time/timew.cm", "Main.main")}

    def gen(self, rng, tier, i):
        n = rng.choice([10, 30, 60, 120])
        nspb = rng.choice([2, 4, 10])
        nspc = rng.choice([10, 100, 1000])
        span = n * 2000000 // nspb
        ev = []
        if rng.random() < 0.6:
            for _ in range(rng.randint(1, 60)):
                p = rng.randrange(span)
                if rng.random() < 0.5:
                    ev.append(["A", p, "sigx", rng.choice([10, 12, 1]), rng.randint(0, rng.choice([40, 400]))])
                else:
                    ev.append(["A", p, "sig", rng.choice([10, 12, 1])])
        if rng.random() < 0.3:
            for _ in range(rng.randint(1, 30)):
                ev.append(["P", rng.randrange(n * 4000), "sig", rng.choice([10, 12])])
        if rng.random() < 0.3:
            for _ in range(rng.randint(1, 8)):
                ev.append(["C", "nanosleep", rng.randrange(max(2, n // 4)), "eintr", rng.choice([10, 12])])
        ru = rng.choice([3000, 40000, rng.randrange(5000, 2000000), rng.randrange(5000000, 200000000)]) if rng.random() < 0.25 else 0
        if ru or rng.random() < 0.3:
            ev += gc_events(rng, span)[:150]
        if rng.random() < 0.25:
            for _ in range(rng.randint(1, 10)):
                ev.append(["A", rng.randrange(span), "adv", rng.choice([100000, 1000000, 20000000])])
        if rng.random() < 0.25:
            for _ in range(rng.randint(1, 10)):
                ev.append(["A", rng.randrange(span), "jump", rng.choice([-1, 1]) * rng.choice([1000, 3600000000000, rng.randint(1, 10**12)])])
        return {"seed": rng.randrange(1 << 30), "n": n, "rt": geometry(rng) if rng.random() < 0.3 else [],
                "plan": {"hdr": {"rucost": ru, "cpu0": rng.choice([0, rng.randrange(5 * 10**9), 10**9 - rng.randrange(1, 20000000)]), "logsig": True, "limit_alloc": 3000000000, "nspb": nspb, "nspc": nspc, "epoch": EPOCH}, "ev": ev}}

    def run(self, case, wd):
        o = Outcome()
        r = run_sim(wd, image("timew"), [case["seed"], case["n"]], case["plan"], rtargs=case["rt"], name="run", timeout=120)
        o.add(r)
        h = case["plan"]["hdr"]
        slack = 3000000 + 200 * h["nspc"] + sum(e[3] for e in case["plan"]["ev"] if e[0] == "A" and e[2] == "adv")
        j = Judge(o, slack if not h.get("rucost") else 10**12)     # collections that take their time may hold up anything
        j.gccost = h.get("rucost", 0) * 3 // 4
        for l in r.log:
            if not l.startswith(("!", "#")):
                j.line(l)
            if o.viol:
                break
        if not o.viol:
            if r.timeout or r.code == 97:
                o.bad("hang", "the run does not end: " + r.brief())
            elif r.sig is not None or r.code != 0 or "done" not in r.log:
                o.bad("crash", "died: " + r.brief())
        for i, l in j.out.items():
            o.probes["limit_" + l[0]] = o.probes.get("limit_" + l[0], 0) + 1
        o.sig = r.end.get("hash", "")
        o.nontrivial = any(l.startswith("@IT fire") for l in r.log)
        return o

    def shrink(self, case):
        if case["rt"]:
            yield dict(case, rt=[])
        for n in (case["n"] // 2, case["n"] * 3 // 4, case["n"] - 10, case["n"] - 1):
            if 0 < n < case["n"]:
                yield dict(case, n=n)


CHECK = C07()
