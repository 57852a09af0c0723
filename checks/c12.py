"""C12: synchronous variables, mailboxes and barriers."""
from checks.cmlrun import CmlCheck, preempt_plan, QUANTA, speed


class C12(CmlCheck):
    id = "C12"
    quick_s = 42
    parts = "o"
    mixes = [("m", "k"), ("mmc", "kgw"), ("mc", "kgw!"), ("bbb", "b"), ("bbc", "b"), ("bbcC", "b!"), ("mibcC", "kgwib!"), ("i", "i"), ("iicC", "i!"), ("mmmcCy", "kgwt"), ("bbcCyw", "bt"), ("mibwy", "k")]
    rule = ("a run is a seeded program of 2-7 threads over shared write-once variables, take/put variables and mailboxes (plain, polling and event forms), or of threads in lock step on a barrier, "
            "with time-slice signals at seeded positions; the history of every object must be linearizable against its sequential model, final contents included, nobody may be blocked on an object that "
            "could serve it; barrier rounds must complete only when all members arrived and give everyone that round's value; distinct by hash of the event sequence")

    def gen(self, rng, tier, i):
        if i % 5 == 4:
            th = rng.randint(1, 6)
            rounds = rng.choice([3, 6, 12])
            q = rng.choice(QUANTA)
            return {"mode": "bar", "args": [rng.randrange(1 << 24), th, rounds, rng.choice([0, 0, 2, 3]), q],
                    "plan": {"hdr": {"logsig": True, "limit_alloc": 400000000, "nspb": speed(rng, q)}, "ev": preempt_plan(rng, th * rounds * 5000)}}
        return self.mix(rng)

    def judge(self, case, r, o):
        if case["mode"] == "mix":
            return super().judge(case, r, o)
        every = case["args"][3]
        base, waits, resigned, inv, arr, left, dead = {}, {}, {}, {}, {}, {}, set()
        state, rounds_val = 0, {0: 0}
        calls = 0

        def val(rd):
            """state after round rd and its result"""
            st, c = 0, 0
            res = "0"
            for i in range(1, rd + 1):
                c += 1
                if every and c % every == 0:
                    res = "exn:update"
                else:
                    st += 1
                    res = str(st)
            return st, res
        started, ended = {}, 0         # rounds: number of members that have started to wait for it
        order = []
        for n, l in enumerate(r.log):
            w = l.split(" ")
            if w[0] == "E":
                base[w[1]] = int(w[2])
                waits[w[1]] = 0
                order.append(w[1])
            elif w[0] == "I" and w[3] in ("bw", "br", "bv", "bx"):
                nm = w[1]
                inv[(nm, w[2])] = w[3]
                if w[3] == "bw":
                    waits[nm] += 1
                elif w[3] == "br":
                    resigned.setdefault(nm, n)
            elif w[0] == "O":
                nm, k, res = w[1], inv.get((w[1], w[2])), " ".join(w[3:])
                if k == "bw":
                    rd = base[nm] + waits[nm]
                    if rd > ended:
                        o.probes["rounds"] = o.probes.get("rounds", 0) + 1
                        ended = rd
                        for m in base:
                            if m not in resigned and base[m] + waits[m] < rd:
                                o.bad("barrier", "round %d ended for %s (line %d) although member %s had not arrived" % (rd, nm, n, m))
                    if res != val(rd)[1]:
                        o.bad("barrier", "member %s got %s for round %d, expected %s" % (nm, res, rd, val(rd)[1]))
                elif k == "bx":
                    if res != "exn:barrier wait after resignation":
                        o.bad("barrier", "waiting after resigning gave %s" % res)
                elif k == "br":
                    if res != "ok":
                        o.bad("barrier", "resigning gave %s" % res)
                elif k == "bv":
                    rd = base[nm] + waits[nm]
                    if res not in (str(val(rd)[0]), str(val(rd)[0])):
                        o.bad("barrier", "value seen by %s after round %d: %s, expected %s" % (nm, rd, res, val(rd)[0]))
            elif w[0] == "X":
                dead.add(w[1])
        for m in base:
            if m not in dead:
                o.bad("barrier", "member %s never got through (waited %d times)" % (m, waits[m]))


CHECK = C12()
