"""C05: signal delivery."""
from vlib.driver import Check, Outcome, run_sim, image

NUM = {"HUP": 1, "INT": 2, "USR1": 10, "USR2": 12, "ALRM": 14, "TERM": 15, "CHLD": 17, "WINCH": 28, "IO": 29, "GC": 30}
NAME = {v: k for k, v in NUM.items()}
SYS = [s for s in NUM if s != "GC"]
OTHER = ["CONT", "PIPE", "QUIT", "TSTP", "TTIN", "TTOU", "URG", "VTALRM"]
ALL = list(NUM) + OTHER


def signal_plan(rng, span, sigs, exact=True):
    ev = []
    mode = rng.randrange(6)

    def one(p):
        s = NUM[rng.choice(sigs)]
        if exact and rng.random() < 0.5:
            ev.append(["A", p, "sigx", s, rng.choice([rng.randint(0, 12), rng.randint(0, 40), rng.randint(0, 40), rng.randint(0, 150), rng.randint(0, rng.choice([150, 1500]))])])
        else:
            ev.append(["A", p, "sig", s])
    if mode == 0:
        for _ in range(rng.randint(1, 10)):
            one(rng.randrange(span))
    elif mode == 1:      # bursts
        for _ in range(rng.randint(1, 12)):
            p = rng.randrange(span)
            for _ in range(rng.randint(2, 12)):
                one(p + rng.choice([0, 0, 8, 16, rng.randint(0, 400)]))
    elif mode == 2:      # storm
        p = rng.randrange(span)
        for _ in range(rng.randint(20, 200)):
            one(p)
            p += rng.randint(8, 600)
    elif mode == 3:      # a second arrival while the first is being passed on
        for _ in range(rng.randint(5, 40)):
            p, s = rng.randrange(span), NUM[rng.choice(sigs)]
            ev.append(["A", p, "sig", s])
            ev.append(["A", p, "sigx", s if rng.random() < 0.8 else NUM[rng.choice(sigs)], rng.randint(0, rng.choice([60, 250, 250, 600]))])
    else:
        for _ in range(rng.randint(10, 120)):
            one(rng.randrange(span))
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 20)):
            ev.append(["P", rng.randrange(max(2, span // 100)), "sig", NUM[rng.choice(sigs)]])
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 8)):
            ev.append(["C", "any", rng.randrange(60), "sig", NUM[rng.choice(sigs)]])
    return ev


class Model:
    """reads the log; every uncertainty (an operation in progress) widens what is allowed"""

    def __init__(self, o, ign=()):
        self.o = o
        self.act = {s: {("IGN" if s == "GC" or s in ign else "DFL", None, None)} for s in NUM}   # possible worlds: (action, has the program's operation in progress happened, what it returned)
        self.mask = {s: 0 for s in ALL}
        self.op = {"M": None, "H": None}      # operation in progress per level
        self.lo = {s: 0 for s in NUM}         # arrivals that must be accounted for
        self.need = {s: 0 for s in NUM}       # lo at the start of the drain
        self.hi = {s: 0 for s in NUM}
        self.got = {s: 0 for s in NUM}
        self.win = {s: 0 for s in NUM}        # a masked arrival is waiting (adds one to lo when it opens)
        self.inq = None
        self.cur = None                       # running handler
        self.wait = {}                        # signal -> {other: calls since arrival, 'main': lines since arrival}

    def bad(self, cls, t):
        self.o.bad(cls, t)

    def maybe_changing(self, s):
        """some operation in progress may be changing the mask or action of s"""
        # (every signal is masked for a moment while an operation on masks or handlers is in progress)
        return any(op and op[0] in "HMU" for op in self.op.values())

    def opened(self):
        """an operation ended: what is unmasked now must be delivered"""
        for s in NUM:
            if self.mask[s] == 0 and not self.maybe_changing(s):
                self.win[s] = 0
                if self.lo[s] > self.got[s]:
                    self.wait.setdefault(s, {"main": 0})

    @staticmethod
    def new_action(kind, old, new):
        return "IGN" if kind == "over" and old == "IGN" else new

    def expand(self, s):
        """the program's own operation on s may happen at any moment while it is in progress"""
        op = self.op["M"]
        if op and op[0] == "H" and op[1] == s:
            for a, done, old in list(self.act[s]):
                if not done:
                    self.act[s].add((self.new_action(op[2], a, op[3]), True, a))
        return set(w[0] for w in self.act[s])

    def arrive(self, s, how):
        if how == "late":       # delivery by the system of an arrival already accounted for
            return
        ch = self.maybe_changing(s)
        hop = any(op and op[0] == "H" and op[1] == s for op in self.op.values())
        handled = all(w[0].startswith("h") for w in self.act[s])
        if hop:
            self.hi[s] += 1
            return
        if not handled:
            if ch or self.mask[s] > 0:
                self.hi[s] += 1     # stays pending in the system and is passed on if a handler is installed before it is unmasked
            return
        self.hi[s] += 1
        if ch:
            if not self.win[s]:
                self.win[s] = 1
                self.lo[s] += 1     # at least one call once it opens, if this is the only one
        elif self.mask[s] > 0:
            if not self.win[s]:
                self.win[s] = 1
                self.lo[s] += 1
        else:
            self.lo[s] += 1
            self.wait.setdefault(s, {"main": 0})

    def line(self, l):
        w = l.split(" ")
        k = w[0]
        if k == "@S":
            s = NAME.get(int(w[1]))
            if s:
                self.arrive(s, w[2])
            return
        if k == "@G":
            if int(w[1]) >= 1:
                self.gcarrive()
            return
        if k.startswith("@") or k.startswith("#") or k.startswith("!"):
            return
        if k != "hb" and not self.cur:
            for s, d in self.wait.items():
                if self.mask[s] == 0 and not self.maybe_changing(s):
                    d["main"] += 1
                    if d["main"] > 4:
                        self.bad("late", "signal %s arrived while unmasked but its handler had not run after %d further steps of the program" % (s, d["main"]))
                        d["main"] = -1000
        if k == "Mb":
            self.op[w[1]] = ("M", ALL if w[2] == "ALL" else w[3:])
        elif k == "Me":
            for s in self.op[w[1]][1]:
                self.mask[s] += 1
                if self.mask[s] == 1:
                    self.wait.pop(s, None)   # may now be held back
            self.op[w[1]] = None
            self.opened()
        elif k == "Ub":
            self.op[w[1]] = ("U", ALL if w[2] == "ALL" else w[3:])
        elif k == "Ue":
            sigs, self.op[w[1]] = self.op[w[1]][1], None
            for s in sigs:
                if self.mask[s] > 0:
                    self.mask[s] -= 1
            self.opened()
        elif k == "Hb":
            s = w[3]
            self.op[w[1]] = ("H", s, w[2], w[4])
            if w[1] == "M":
                self.act[s] = {(a, False, None) for a, _, _ in self.act[s]}
        elif k == "He":
            _, s, kind, new = self.op[w[1]]
            self.expand(s)
            old = w[2]
            if w[1] == "M":
                ws = {(a, None, None) for a, done, o in self.act[s] if done and o in (old, "?")}
                allowed = {o for a, done, o in self.act[s] if done}
            else:
                ws = {(self.new_action(kind, a, new), done, o) for a, done, o in self.act[s] if a in (old, "?")}
                allowed = {a for a, done, o in self.act[s]}
            if not ws:
                self.bad("oldaction", "installing an action for %s returned %s, but %s was installed" % (s, old, sorted(allowed)))
                return
            self.act[s] = ws
            if any(not a.startswith("h") for a, _, _ in ws) or not new.startswith("h"):
                # arrivals not yet handled may be discarded
                self.lo[s] = min(self.lo[s], self.got[s])
                self.need[s] = min(self.need[s], self.lo[s])
                self.win[s] = 0
                self.wait.pop(s, None)
            self.op[w[1]] = None
            self.opened()
            if self.inq and self.inq[0] == s:
                self.inq[1].update(x[0] for x in ws)
        elif k == "Ib":
            if w[1] == "M":
                self.inq = (w[2], set(x[0] for x in self.act[w[2]]))
        elif k == "Ie":
            s = w[2]
            self.expand(s)
            if w[1] == "M":
                seen, self.inq = self.inq[1], None
                if w[3] in seen:
                    return
            ws = {x for x in self.act[s] if x[0] in (w[3], "?")}
            if not ws:
                self.bad("inq", "inqHandler for %s gave %s, but %s is installed" % (s, w[3], sorted(x[0] for x in self.act[s])))
                return
            self.act[s] = ws
        elif k == "Qb":
            self.op[w[1]] = ("Q", self.snap())
        elif k == "Qe":
            before = self.op[w[1]][1]
            self.op[w[1]] = None
            if not any(self.op.values()):
                if self.snap() == before:
                    got = set(SYS + OTHER) if w[2] == "ALL" else set(w[3:]) - {"GC"}
                    want = set(s for s in SYS + OTHER if self.mask[s] > 0)
                    if got != want:
                        self.bad("masked", "masked() gave %s, but %s are masked" % (sorted(got), sorted(want)))
        elif k == "hb":
            s, cnt, hid, depth = w[1], int(w[2]), w[3], int(w[4])
            if depth != 0 or self.cur:
                self.bad("nested", "handler of %s ran while a handler of %s was running" % (s, self.cur))
            self.cur = s
            if self.mask[s] > 0 and not self.maybe_changing(s):
                self.bad("whilemasked", "handler of %s ran although %s is masked %d deep" % (s, s, self.mask[s]))
            ok = self.expand(s)
            if hid not in ok and "?" not in ok:
                self.bad("wronghandler", "signal %s was passed to %s, but %s is installed" % (s, hid, sorted(ok)))
            if cnt < 1:
                self.bad("count", "handler of %s called with count %d" % (s, cnt))
            self.got[s] += cnt
            if self.got[s] > self.hi[s]:
                self.bad("toomany", "handler calls for %s account for %d signals, only %d arrived" % (s, self.got[s], self.hi[s]))
                self.hi[s] = self.got[s]
            self.wait.pop(s, None)
            for t, d in self.wait.items():
                if self.mask[t] == 0 and not self.maybe_changing(t):
                    d[s] = d.get(s, 0) + 1
                    if d[s] > 2:
                        self.bad("starved", "signal %s waited while the handler of %s ran %d times" % (t, s, d[s]))
                        d[s] = -1000
        elif k == "he":
            self.cur = None
        elif k == "drain":
            self.need = dict(self.lo)

    def snap(self):
        return tuple(self.mask[s] for s in ALL)

    def gcarrive(self):
        if self.ambiguous:
            self.hi["GC"] += 1
        else:
            self.arrive("GC", "now")

    def finish(self):
        for s in NUM:
            if self.got[s] < self.need[s]:
                self.bad("lost", "%d arrivals of %s needed a handler call, only %d were accounted for" % (self.need[s], s, self.got[s]))


def is_ml(l):
    return l[:1] not in "@#!"


def near_gc_handler(log):
    """collections from the moment the handler of GC is chosen until it is left raise no signal:
    the indices of collections that may be among them"""
    amb = set()
    prev = ""
    cur = False
    pend = []
    for i, l in enumerate(log):
        if is_ml(l):
            if l.startswith("hb GC"):
                amb.update(pend)
                cur = True
            elif l.startswith("he GC"):
                cur = False
            pend = []
            prev = l
        elif l.startswith("@G"):
            if cur or prev.startswith("he GC"):
                amb.add(i)
            pend.append(i)
    return amb


class C05(Check):
    id = "C05"
    quick_s = 45
    rule = ("a run is a seeded history of mask, unmask, install, query, ignore, raise, pause and collection operations, by the program and by handlers, "
            "with a seeded set of signal arrivals (allocation position, exact instruction, system call, virtual time); non-trivial when a signal was delivered; "
            "distinct by hash of the event sequence")
    stub = "arrival of signals, signal mask and disposition table of the operating system, clock"
    assumptions = ["standard (non-queueing) signal semantics of POSIX in the stub",
                   "handlers undo the masks they set before they return"]

    def images(self):
        return {"sigw": ("sig/sigw.cm", "Main.main")}

    def gen(self, rng, tier, i):
        n = rng.choice([10, 30, 80, 200])
        sigs = rng.choice([SYS, rng.sample(SYS, rng.randint(1, 4))])
        span = n * 6000
        ev = signal_plan(rng, span, sigs)
        if rng.random() < 0.3:
            for _ in range(rng.randint(1, 30)):
                ev.append(["A", rng.randrange(span), "gc", rng.choice([0, 1, 1, 2, 5])])
        rt = ["@SMLalloc=%dk" % rng.choice([128, 512])] if rng.random() < 0.3 else []
        hdr = {"logsig": True, "limit_alloc": 400000000}
        ign = [s for s in SYS if rng.random() < 0.3] if rng.random() < 0.25 else []
        if ign:
            hdr["ign"] = " ".join(str(NUM[s]) for s in ign)
        return {"seed": rng.randrange(1 << 28), "n": n, "rt": rt, "ign": ign, "plan": {"hdr": hdr, "ev": ev}}

    def run(self, case, wd):
        o = Outcome()
        r = run_sim(wd, image("sigw"), [case["seed"], case["n"]], case["plan"], rtargs=case["rt"], name="run", timeout=60)
        o.add(r)
        if r.timeout:
            o.bad("hang", "the run does not end: " + r.brief())
        elif r.sig is not None or r.code != 0:
            o.bad("died", "the process was lost: %s %s" % (r.brief(), r.log[-1:]))
        m = Model(o, case.get("ign", ()))
        amb = near_gc_handler(r.log)
        for i, l in enumerate(r.log):
            m.ambiguous = i in amb
            m.line(l)
            if o.viol:
                break
        if not o.viol:
            if "done" not in r.log:
                o.bad("died", "no end of run in the log: " + r.brief())
            else:
                m.finish()
        o.sig = r.end.get("hash", "")
        o.nontrivial = any(l.startswith("hb") for l in r.log)
        return o

    def shrink(self, case):
        if case["rt"]:
            yield dict(case, rt=[])
        for n in (case["n"] // 2, case["n"] * 3 // 4, case["n"] - 1):
            if 0 < n < case["n"]:
                yield dict(case, n=n)


CHECK = C05()
