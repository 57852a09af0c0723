"""C14: thread systems start, stop and report cleanly."""
from checks.cmlrun import CmlCheck, preempt_plan, QUANTA, speed


class C14(CmlCheck):
    id = "C14"
    quick_s = 42
    rule = ("a run starts and stops the thread system several times in one process: seeded registrations of cleaners and servers, threads that spawn, join, communicate, return, exit or fail, and a seeded "
            "thread (or nobody) that shuts down, with time-slice signals at seeded positions; checked: status, order and number of clean-up actions, termination events, silence afterwards, clean channels and "
            "mailboxes in the next run; distinct by hash of the event sequence")

    def gen(self, rng, tier, i):
        runs, th, n = rng.randint(1, 4), rng.randint(1, 5), rng.choice([3, 8, 16])
        q = rng.choice(QUANTA)
        return {"mode": "run", "args": [rng.randrange(1 << 24), runs, th, n, q, rng.randint(0, 1)],
                "plan": {"hdr": {"logsig": True, "limit_alloc": 800000000, "nspb": speed(rng, q)}, "ev": preempt_plan(rng, runs * th * n * 4000 + 20000)}}

    def judge(self, case, r, o):
        cl, sv = [], []          # registered, newest first: (name, whens)
        cur = None
        runs = case["args"][1]
        done, quiet = {}, set()

        def ins(l, name, what):
            l[:] = [(name, what)] + [x for x in l if x[0] != name]
        for n, l in enumerate(r.log):
            w = l.split(" ")
            k = w[0]
            if k == "reg":
                if cur is not None:
                    cur["dirty"] = True
                ins(cl if w[1] == "c" else sv, w[2], w[3])
            elif k == "unreg":
                if cur is not None:
                    cur["dirty"] = True
                t = cl if w[1] == "c" else sv
                if not any(x[0] == w[2] for x in t):
                    o.bad("cleanup", "removed %s which was not registered" % w[2])
                t[:] = [x for x in t if x[0] != w[2]]
            elif k == "run":
                cur = {"k": w[1], "way": int(w[2]), "init": [x[0] for x in reversed(cl) if "init" in x[1].replace("initfn", "")], "shut": None, "L": [], "B": [], "T": [],
                       "servers": [x[0] for x in reversed(sv)], "dirty": False, "dead": {}, "main": False, "shutline": None, "joins": {}}
            elif k == "L":
                if w[1] != (cur or {}).get("k"):
                    o.bad("late", "cleaner ran outside its run: line %d %s" % (n, l))
                else:
                    cur["L"].append((w[2], w[3]))
                    if w[3] == "init" and cur["main"]:
                        o.bad("cleanup", "run %s: start-up cleaner %s ran after the main thread had started" % (cur["k"], w[2]))
            elif k in ("B", "T"):
                if w[1] != (cur or {}).get("k"):
                    o.bad("late", "server action outside its run: line %d %s" % (n, l))
                else:
                    cur[k].append(w[2])
                    if k == "B" and cur["main"]:
                        o.bad("cleanup", "run %s: server %s started after the main thread" % (cur["k"], w[2]))
            elif k == "main":
                if cur is None or cur["main"] or w[1] != cur["k"]:
                    o.bad("start", "main function called again: line %d" % n)
                else:
                    cur["main"] = True
            elif k == "shut":
                cur["shutline"] = n
            elif k == "D":
                if cur is None or w[1] != cur["k"] or w[1] in done:
                    o.bad("twice", "line %d: the call of doit returned again: %s" % (n, l))
                    break
                done[w[1]] = n
                want = "ok" if cur["way"] in (1, 3) and cur["shutline"] is not None else "fail"
                if w[2] != want:
                    o.bad("status", "run %s returned %s, expected %s (way %d, shutdown at %s)" % (cur["k"], w[2], want, cur["way"], cur["shutline"]))
                ini = [x for x, wh in cur["L"] if wh == "init"]
                sh = [x for x, wh in cur["L"] if wh == "shut"]
                if ini != cur["init"]:
                    o.bad("cleanup", "run %s: start-up cleaners %s, expected %s" % (cur["k"], ini, cur["init"]))
                if [x for x in cur["L"] if x[1] not in ("init", "shut")]:
                    o.bad("cleanup", "run %s: cleaners called for %s" % (cur["k"], cur["L"]))
                if cur["B"] != cur["servers"]:
                    o.bad("cleanup", "run %s: servers started %s, expected %s" % (cur["k"], cur["B"], cur["servers"]))
                if not cur["dirty"]:
                    want = [x[0] for x in cl if "shut" in x[1]]
                    if sh != want:
                        o.bad("cleanup", "run %s: shutdown cleaners %s, expected %s" % (cur["k"], sh, want))
                    want = [x[0] for x in sv]
                    if cur["T"] != want:
                        o.bad("cleanup", "run %s: servers stopped %s, expected %s" % (cur["k"], cur["T"], want))
                elif len(set(sh)) != len(sh) or len(set(cur["T"])) != len(cur["T"]):
                    o.bad("cleanup", "run %s: clean-up actions repeated: %s %s" % (cur["k"], sh, cur["T"]))
                # nobody may wait for a thread that has ended when everything was blocked
                if cur["shutline"] is None:
                    for (t, op), (kd, obj) in cur["joins"].items():
                        if obj in cur["dead"]:
                            o.bad("join", "run %s: thread %s waits for ever for thread %s, which has ended" % (cur["k"], t, obj))
                        if kd == "jt":
                            o.bad("stuck", "run %s: thread %s is blocked for ever although its time-out can happen" % (cur["k"], t))
                o.probes["way%d" % cur["way"]] = o.probes.get("way%d" % cur["way"], 0) + 1
            elif k in ("S", "X", "I", "O"):
                if cur is None or w[1].split(":")[0] != cur["k"] or cur["k"] in done:
                    o.bad("late", "a thread of an earlier run goes on: line %d %s" % (n, l))
                    break
                if k == "X":
                    if w[1] in cur["dead"]:
                        o.bad("twice", "thread %s ended twice" % w[1])
                    cur["dead"][w[1]] = n
                    o.probes["end_" + w[2]] = o.probes.get("end_" + w[2], 0) + 1
                elif k == "I":
                    cur["joins"][(w[1], w[2])] = (w[3], w[4])
                elif k == "O":
                    kd, obj = cur["joins"].pop((w[1], w[2]), (None, None))
                    if kd is None:
                        o.bad("twice", "operation returned twice: line %d %s" % (n, l))
                    elif w[3] == "ok" and obj not in cur["dead"]:
                        o.bad("join", "run %s: thread %s joined thread %s before it ended" % (cur["k"], w[1], obj))
            elif k == "F":
                o.bad("dirty", "run %s: %s" % (w[1], " ".join(w[2:])))
            elif k == "quiet":
                quiet.add(w[1])
        if not o.viol and (len(done) != runs or len(quiet) != runs):
            o.bad("return", "%d of %d runs returned" % (len(done), runs))

    def run(self, case, wd):
        o = super().run(case, wd)
        o.nontrivial = True
        return o


CHECK = C14()
