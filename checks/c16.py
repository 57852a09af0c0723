"""C16: multicast and RPC helpers."""
from checks.cmlrun import CmlCheck, preempt_plan, QUANTA, speed


class C16(CmlCheck):
    id = "C16"
    quick_s = 40
    rule = ("a run is a seeded program of threads multicasting on 1-2 channels, opening ports, copying and reading them (plain and inside choices with time-outs), and of RPC clients against one server "
            "offering all four kinds of entry, with time-slice signals at seeded positions; checked: one common order respecting real time, every port a gapless segment of it to the end, copies start where "
            "the original stood, replies belong to their own calls and the server state passes through the calls one by one; distinct by hash of the event sequence")

    def gen(self, rng, tier, i):
        q = rng.choice(QUANTA)
        nch, snd, rd, n = rng.randint(1, 2), rng.randint(1, 4), rng.randint(0, 4), rng.choice([3, 8, 15])
        rpc = rng.choice([0, 1, 3, 5])
        return {"mode": "mc", "args": [rng.randrange(1 << 24), nch, snd, rd, n, rpc, q],
                "plan": {"hdr": {"logsig": True, "limit_alloc": 400000000, "nspb": speed(rng, q)}, "ev": preempt_plan(rng, (snd + rpc) * n * 5000)}}

    def judge(self, case, r, o):
        master, ports, ops, ends = {}, {}, {}, set()
        seqs = {}
        calls = []
        srv2 = []
        copies = []
        for n, l in enumerate(r.log):
            w = l.split(" ")
            if w[0] == "M":
                master[int(w[2])] = w[1]
                ports[w[1]] = int(w[2])
                seqs[w[1]] = []
            elif w[0] == "I":
                ops[(w[1], w[2])] = [w[3], w[4], w[5], n, None, None]
                if w[3] == "mp":
                    seqs[w[1]] = []
            elif w[0] == "O":
                x = ops.get((w[1], w[2]))
                if x is None or x[4] is not None:
                    o.bad("twice", "operation returned twice: line %d %s" % (n, l))
                    return
                x[4], x[5] = n, w[3]
                if x[0] == "mp":
                    ports[w[1]] = int(x[1])
            elif w[0] == "Y":
                ports[w[1]] = int(w[3])
                seqs[w[1]] = []
                copies.append((w[1], w[2], len(seqs[w[2]])))
            elif w[0] == "R":
                seqs[w[1]].append((int(w[2]), n))
            elif w[0] == "srv2":
                srv2.append(int(w[1]))
        nch, snd, rd, nops, rpc = case["args"][1:6]
        for (t, op), x in ops.items():
            if x[4] is None:
                o.bad("stuck", "operation %s %s of thread %s never returned" % (x[0], x[2], t))
        if o.viol:
            return
        for c, m in master.items():
            sent = {int(x[2]): (x[3], x[4]) for (t, op), x in ops.items() if x[0] == "mc" and int(x[1]) == c}
            G = [v for v, _ in seqs[m]]
            if sorted(G) != sorted(sent):
                o.bad("delivery", "channel %d: the first port got %s, multicast were %s" % (c, G, sorted(sent)))
                return
            pos = {v: i for i, v in enumerate(G)}
            for a in sent:
                for b in sent:
                    if sent[a][1] < sent[b][0] and pos[a] > pos[b]:
                        o.bad("order", "channel %d: %d was multicast before %d but delivered after it" % (c, a, b))
            for v, n in seqs[m]:
                if n < sent[v][0]:
                    o.bad("delivery", "message %d was delivered before it was sent" % v)
            start = {m: 0}
            for p, pc in ports.items():
                if pc != c or p == m:
                    continue
                s = [v for v, _ in seqs[p]]
                if s and G[len(G) - len(s):] != s:
                    o.bad("delivery", "port %s of channel %d got %s, which is not the end of the common sequence %s" % (p, c, s, G))
                    continue
                start[p] = len(G) - len(s)
                x = ops.get((p, "1"))
                if x is not None and x[0] == "mp":
                    # messages sent after the port existed must come; messages delivered before it was asked for must not
                    first = start[p]
                    for v in G[:first]:
                        if sent[v][0] > x[4]:
                            o.bad("delivery", "port %s was there before %d was sent but did not get it" % (p, v))
                    for v in G[first:]:
                        if sent[v][1] < x[3] and any(vv == v and nn < x[3] for q in seqs for vv, nn in seqs[q] if ports.get(q) == c):
                            o.bad("delivery", "port %s got %d, which had been delivered before the port was asked for" % (p, v))
            for new, old, k in copies:
                if ports[new] == c and new in start and old in start:
                    o.probes["copies"] = o.probes.get("copies", 0) + 1
                    if start[new] != start[old] + k:
                        o.bad("copy", "port %s, a copy of %s after %d messages of it (which began at %d), begins at %d" % (new, old, k, start[old], start[new]))
        # remote calls
        st = {1: [], 3: []}
        args2 = []
        for (t, op), x in sorted(ops.items()):
            if x[0] != "call":
                continue
            kd, a, res = int(x[1]), int(x[2]), int(x[5])
            o.probes["rpc%d" % kd] = o.probes.get("rpc%d" % kd, 0) + 1
            if kd == 0 and res != a * 3 or kd == 2 and res != a + 7 or kd in (1, 3) and res // 1000 != a:
                o.bad("reply", "call %d of kind %d by %s got %d" % (a, kd, t, res))
            if kd == 2:
                args2.append(a)
            if kd in (1, 3):
                st[kd].append((res % 1000, x[3], x[4], a))
        if sorted(args2) != sorted(srv2):
            o.bad("reply", "server handled %s, calls were %s" % (srv2, args2))
        for kd, l in st.items():
            if sorted(x[0] for x in l) != list(range(len(l))):
                o.bad("state", "server states seen by the calls of kind %d: %s" % (kd, sorted(x[0] for x in l)))
            for x in l:
                for y in l:
                    if x[2] < y[1] and x[0] > y[0]:
                        o.bad("state", "call %d ended before call %d began but saw a later server state" % (x[3], y[3]))


CHECK = C16()
