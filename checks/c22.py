"""C22: child processes."""
from vlib.driver import Outcome, run_sim, image
from checks.sysrun import SysCheck
from checks.c01 import gc_events, geometry
from checks.cmlrun import preempt_plan, speed, ended, QUANTA

EAGAIN, ENOMEM, EINTR, ECHILD, ESRCH = 11, 12, 4, 10, 3
OPS = ["fork", "fork", "wait", "waitpid", "waitpid", "waitnh", "waitnh", "kill", "system", "exec", "reap", "ukill", "busy", "sleep"]


def status(st):
    return "exit:%d" % (st >> 8) if st & 0x7f == 0 else "sig:%d" % (st & 0x7f)


class Kids:
    """the children as the simulated system sees them"""
    def __init__(self):
        self.st, self.end, self.done = {}, {}, {}     # pid -> status; ended; reaped
        self.last = None

    def line(self, w):
        kv = dict(x.split("=") for x in w[1:] if "=" in x)
        if w[0] == "@FORK":
            self.last = int(kv["pid"])
            self.st[self.last] = int(kv["status"])
        elif w[0] == "@CHILD":
            self.end[int(kv["pid"])] = True
        elif w[0] == "@KILL":
            p, s = int(kv["pid"]), int(kv["sig"])
            if s and p not in self.end:
                self.st[p], self.end[p] = s, True
        elif w[0] == "@REAP":
            self.done[int(kv["pid"])] = True
            return int(kv["pid"])
        return None


def judge(o, log):
    k = Kids()
    cur, reaps, forks, sigs, faults = None, [], [], 0, []
    execs, got = {}, {}
    rest0 = None
    for l in log:
        w = l.split(" ")
        if w[0].startswith("@"):
            p = k.line(w)
            if p is not None:
                reaps.append(p)
            if w[0] == "@FORK":
                forks.append(k.last)
            elif w[0] == "@S" and w[2] in ("now", "late"):
                sigs += 1
            elif w[0] == "@F" and w[3] == "err":
                faults.append(int(w[4]))
        elif w[0] == "B":
            cur, reaps, forks, faults = w[1:], [], [], []
            rest0 = [p for p in k.st if p not in k.done]
        elif w[0] == "R" and cur:
            op, a = cur[1], cur[2:]
            res = w[2:]
            what = "%s %s: %s" % (op, " ".join(a), " ".join(res))
            exn = res[0] == "exn"
            if exn and not res[1].isdigit():
                o.bad("error", what + " is no system error")
            elif exn and faults and int(res[1]) == faults[-1]:
                if reaps:
                    o.bad("lost", what + ", but child %s was reaped" % reaps)
                o.probes["refused"] = o.probes.get("refused", 0) + 1
            elif op == "fork":
                if exn or forks != [int(res[1])]:
                    o.bad("fork", what + ", the system made %s" % forks)
            elif op in ("wait", "waitpid", "waitnh"):
                want = int(a[0]) if a and a[0] != "any" else None
                left = [p for p in rest0 if want in (None, p)]
                if res[0] == "ok":
                    p = int(res[1])
                    if reaps != [p] or (want is not None and p != want):
                        o.bad("wrong", what + ", the system reaped %s" % reaps)
                    elif res[2] != status(k.st[p]):
                        o.bad("status", what + ", the child ended with " + status(k.st[p]))
                    else:
                        o.probes["reaped"] = o.probes.get("reaped", 0) + 1
                elif reaps:
                    o.bad("lost", what + ", but child %s was reaped" % reaps)
                elif res[0] == "none":
                    if op != "waitnh" or not left:
                        o.bad("none", what + ", children left: %s" % left)
                elif exn and int(res[1]) == ECHILD:
                    if left:
                        o.bad("nochild", what + ", children left: %s" % left)
                elif exn and int(res[1]) == EINTR:
                    if op == "waitnh" or not sigs:
                        o.bad("intr", what + " without an interruption")
                    o.probes["interrupted"] = o.probes.get("interrupted", 0) + 1
                else:
                    o.bad("error", what)
            elif op == "system":
                if exn or len(forks) != 1 or reaps != forks:
                    o.bad("system", what + ", the system made child %s and reaped %s" % (forks, reaps))
                else:
                    st = k.st[forks[0]]
                    if int(res[1]) != (st >> 8 if st & 0x7f == 0 else 1):
                        o.bad("status", what + ", the child ended with " + status(st))
                    o.probes["system"] = o.probes.get("system", 0) + 1
            elif op == "exec":
                if exn or len(forks) != 1:
                    o.bad("fork", what + ", the system made %s" % forks)
                else:
                    execs[cur[0]] = forks[0]
            elif op == "reap":
                p = execs[a[0]]
                st = k.st[p]
                val = st >> 8 if st & 0x7f == 0 else 256 + (st & 0x7f)
                gone = p not in rest0 and a[0] not in got      # reaped by another wait of the program
                if a[0] in got and got[a[0]] is None:
                    if reaps:
                        o.bad("lost", what + ", but child %s was reaped" % reaps)
                elif exn:
                    if not (int(res[1]) == ECHILD and gone):
                        o.bad("reap", what)
                    # the program took this child away by another wait; asking again may fail otherwise: the streams are closed already
                    got[a[0]] = None
                elif a[0] in got:
                    if got[a[0]] is not None and (res[1] != got[a[0]] or reaps):
                        o.bad("reap", what + ", before %s" % got[a[0]])
                elif reaps != [p]:
                    o.bad("wrong", what + ", the system reaped %s instead of %d" % (reaps, p))
                elif int(res[1]) != val:
                    o.bad("status", what + ", the child ended with " + status(st))
                else:
                    got[a[0]] = res[1]
                    o.probes["unix_reap"] = o.probes.get("unix_reap", 0) + 1
            elif op in ("kill", "ukill"):
                if exn and int(res[1]) != ESRCH:
                    o.bad("error", what)
            cur, sigs = None, 0
        if o.viol:
            return


class C22(SysCheck):
    id = "C22"
    kinds = ["proc"]
    rule = ("a run is either a seeded sequence of 60-500 process operations (fork, wait in all forms, exec in all forms, kill, alarm, sleep, exit statuses) through the Basis library, with seeded arguments, "
            "answered by the simulated system with seeded results, statuses and errors, with forced collections between a call and the use of its result; or a program (sequential, or with threads) "
            "whose simulated children end at seeded times with seeded statuses, waited for in every way the library offers, with signals, failing forks and time slices at seeded moments; "
            "non-trivial when a collection, error, signal or child ended; distinct by hash of the event sequence")
    assumptions = ["wait statuses are those of the linux encoding"]

    def images(self):
        return dict(SysCheck.images(self), procw=("proc/procw.cm", "Main.main"), cmlw=("cml/cmlw.cm", "Main.main"))

    def gen(self, rng, tier, i):
        if i % 3 == 0:
            return self.sim_case(rng)
        ch = [["K", rng.choice([0, 10, 200, rng.randrange(5000), rng.randrange(50000)]), rng.choice([0, 0, 256, 256 * rng.randrange(256), 9, 15, 11 + 128, rng.randrange(1, 31)])] for _ in range(rng.randint(1, 12))]
        hdr = {"logsig": True, "limit_alloc": 3000000000, "limit_calls": 3000000}
        ev = list(ch)
        if i % 3 == 1:
            n = rng.choice([20, 60, 150])
            span = n * 3000
            hs = [h for h in ("USR1", "USR2", "CHLD") if rng.random() < 0.6]
            for h, s in (("USR1", 10), ("USR2", 12)):
                if h in hs:
                    for _ in range(rng.choice([0, 5, 40])):
                        ev.append(["P", rng.randrange(n * 1000), "sig", s])
                    for _ in range(rng.choice([0, 2, 10])):
                        ev.append(["C", "waitpid", rng.randrange(n), "eintr", s])
                    for _ in range(rng.choice([0, 0, 10])):
                        ev.append(["A", rng.randrange(span), rng.choice(["sig", "sigx"]), s, rng.randrange(200)])
            for _ in range(rng.choice([0, 0, 1, 5])):
                ev.append(["C", "fork", rng.randrange(n // 3), "err", rng.choice([EAGAIN, ENOMEM])])
            if rng.random() < 0.4:
                ev += gc_events(rng, span)[:100]
            ops = OPS if rng.random() < 0.5 else rng.sample(OPS, rng.randint(3, 8)) + ["fork"]
            return {"mode": "kids", "seed": rng.randrange(1 << 30), "n": n, "ops": ops, "hs": hs, "rt": geometry(rng) if rng.random() < 0.3 else [], "plan": {"hdr": dict(hdr, nspb=rng.choice([2, 10, 50])), "ev": ev}}
        q = rng.choice(QUANTA)
        th, n = rng.randint(1, 5), rng.choice([2, 4, 8])
        for _ in range(rng.choice([0, 0, 1, 3])):
            ev.append(["C", "fork", rng.randrange(th * n), "err", rng.choice([EAGAIN, ENOMEM])])
        return {"mode": "cml", "seed": rng.randrange(1 << 24), "n": n, "th": th, "q": q, "rt": [],
                "plan": {"hdr": dict(hdr, nspb=speed(rng, q)), "ev": ev + preempt_plan(rng, th * n * 4000)}}

    def run(self, case, wd):
        if "mode" not in case:
            return self.run_sys(case, wd)
        o = Outcome()
        if case["mode"] == "kids":
            r = run_sim(wd, image("procw"), [case["seed"], case["n"], ",".join(case["ops"]), ",".join(case["hs"]) or "-"], case["plan"], rtargs=case["rt"], name="run", timeout=60)
            o.add(r)
            judge(o, r.log)
            if o.viol:
                pass
            elif r.timeout or r.how in ("limit", "stuck"):
                o.bad("hang", "the run does not end: " + r.brief())
            elif r.sig is not None or r.code != 0 or "done" not in r.log:
                o.bad("crash", "died: " + r.brief())
        else:
            r = run_sim(wd, image("cmlw"), ["proc", case["seed"], case["th"], case["n"], case["q"]], case["plan"], name="run", timeout=60)
            o.add(r)
            ended(o, r)
            if not o.viol:
                self.judge_cml(o, r.log, case)
        o.sig = r.end.get("hash", "")
        o.nontrivial = any(l.startswith(("@CHILD", "@F", "@KILL")) for l in r.log)
        return o

    def judge_cml(self, o, log, case):
        """  B th i kind now | R th i result now | T now (a thread that only computes)"""
        k = Kids()
        kid, ended_at, since, t = {}, {}, {}, 0
        q = case["q"]
        nth = case["th"] + 2
        # making a child costs up to about 30 KB of allocation without a time slice, which starts the slice anew
        slack = 8 * nth * q + nth * 100 * case["plan"]["hdr"]["nspb"] + 20000
        now, lastT = 0, None
        open_ = {}
        fault = None
        for l in log:
            w = l.split(" ")
            if w[0].startswith("@"):
                k.line(w)
                if w[0] == "@FORK":
                    fault = ("ok", k.last)
                elif w[0] == "@F" and w[1] == "fork":
                    fault = ("err", int(w[4]))
                elif w[0] in ("@CHILD", "@KILL"):
                    p = int(w[1].split("=")[1])
                    ended_at.setdefault(p, now)
            elif w[0] == "T":
                now = int(w[1])
                if lastT is not None and now - lastT > slack:
                    o.bad("starved", "a computing thread did not run between %d and %d us" % (lastT, now))
                lastT = now
            elif w[0] == "P":                # child made, or not
                now = int(w[-1])
                th = w[1]
                if w[3] == "exn":
                    if not fault or fault[0] != "err" or w[4] != str(fault[1]):
                        o.bad("fork", "thread %s: making a child failed: %s" % (th, l))
                    o.probes["refused"] = o.probes.get("refused", 0) + 1
                else:
                    if not fault or fault[0] != "ok":
                        o.bad("fork", "thread %s: no child was made, but %s" % (th, l))
                    else:
                        kid[(th, w[2])] = fault[1]
                fault = None
            elif w[0] == "R":
                now = int(w[-1])
                p = kid.get((w[1], w[2]))
                kind, res = w[3], w[4]
                if p is None:
                    o.bad("wrong", "a result for a child that was not made: " + l)
                    continue
                st = k.st[p]
                want = status(st) if kind == "reap" else ("ok" if st == 0 else "fail")
                if p not in k.done:
                    o.bad("wrong", "%s ended before child %d was reaped" % (l, p))
                elif res != want:
                    o.bad("status", "%s: child %d ended with %s" % (l, p, status(st)))
                if p in ended_at and now - max(ended_at[p], int(w[5])) > slack:
                    o.bad("late", "%s: child %d ended at about %d us" % (l, p, ended_at[p]))
                o.probes["cml_waits"] = o.probes.get("cml_waits", 0) + 1
                open_[(w[1], w[2])] = True
            if o.viol:
                return
        miss = [x for x in kid if x not in open_]
        if miss:
            o.bad("lost", "no result for the children of %s" % miss)

    def shrink(self, case):
        if "mode" not in case:
            yield from SysCheck.shrink(self, case)
            return
        if case["rt"]:
            yield dict(case, rt=[])
        for n in (case["n"] // 2, case["n"] * 3 // 4, case["n"] - 10, case["n"] - 1):
            if 0 < n < case["n"]:
                yield dict(case, n=n)


CHECK = C22()
