"""Oracle over the histories of the thread-system workload (ml/cml/mix.sml)."""
import sys
sys.setrecursionlimit(10000)


def parse_tree(s):
    """(L,1,s0:5) etc. -> nested tuples"""
    pos = 0

    def node():
        nonlocal pos
        assert s[pos] == "(", s[pos:]
        k = s[pos + 1]
        pos += 2
        if k == "C":
            kids = []
            while s[pos] == ",":
                pos += 1
                kids.append(node())
            assert s[pos] == ")"
            pos += 1
            return ("C", kids)
        assert s[pos] == ","
        e = s.index(",", pos + 1)
        i = int(s[pos + 1:e])
        pos = e + 1
        if k == "L":
            e = s.index(")", pos)
            lf = s[pos:e]
            pos = e + 1
            kind = lf[0]
            rest = lf[1:]
            obj, _, val = rest.partition(":")
            return ("L", i, kind, obj, int(val) if val else None)
        t = node()
        assert s[pos] == ")"
        pos += 1
        return (k, i, t)
    return node()


def leaves(t):
    if t[0] == "L":
        return [t]
    if t[0] == "C":
        return [l for k in t[1] for l in leaves(k)]
    return leaves(t[2])


def nodes(t, kind):
    if t[0] == "L":
        return []
    if t[0] == "C":
        return [n for k in t[1] for n in nodes(k, kind)]
    return ([t] if t[0] in kind else []) + nodes(t[2], kind)


def path(t, leaf):
    """list of nodes from the leaf outwards, or None"""
    if t[0] == "L":
        return [] if t[1] == leaf else None
    if t[0] == "C":
        for k in t[1]:
            p = path(k, leaf)
            if p is not None:
                return p
        return None
    p = path(t[2], leaf)
    return None if p is None else p + [t]


class Op:
    __slots__ = ("tid", "op", "kind", "obj", "val", "inv", "ret", "res", "tree", "leaf", "lines", "settled", "exn", "trail", "nacks")


class Hist:
    def __init__(self, log, o):
        self.o = o
        self.ops = {}
        self.init = {}
        self.left = {"m": {}, "i": {}, "b": {}}
        self.dead = {}
        self.end = None
        self.sigs = []
        self.spawned = []
        self.lines = []
        self.parse(log)

    def bad(self, cls, t):
        self.o.bad(cls, t)

    def parse(self, log):
        n = 0
        who = []            # (index, thread) of program lines
        for l in log:
            n += 1
            w = l.split(" ")
            k = w[0]
            if k == "@S":
                self.sigs.append(n)
                continue
            if k[0] in "@#!":
                continue
            if k == "I":
                p = Op()
                p.tid, p.op, p.kind, p.obj = w[1], w[2], w[3], w[4]
                p.val = None if w[5] == "-" else int(w[5])
                p.inv, p.ret, p.res, p.tree, p.leaf, p.settled, p.exn, p.trail = n, None, None, None, None, None, False, None
                p.lines, p.nacks = [], []
                if p.kind in "CK":
                    p.tree = parse_tree(p.obj)
                self.ops[(p.tid, p.op)] = p
                who.append((n, w[1], p))
            elif k == "O":
                p = self.ops.get((w[1], w[2]))
                if p is None or p.ret is not None:
                    self.bad("history", "operation %s of thread %s returned twice or was never started: %s" % (w[2], w[1], l))
                    continue
                p.ret, p.res = n, w[3]
                if p.tree is not None:
                    r = w[3]
                    if r.startswith("exn"):
                        p.exn, r = True, r[3:]
                    lf, v, tr = r[1:-1].split(",")
                    p.val = int(v)
                    p.trail = [int(x) for x in tr.split(".")] if tr else []
                    p.leaf = [x for x in leaves(p.tree) if x[1] == int(lf)]
                    if len(p.leaf) != 1:
                        self.bad("choice", "operation %s of thread %s committed an event that is not one of its own: %s" % (w[2], w[1], l))
                        p.leaf = None
                    else:
                        p.leaf = p.leaf[0]
                who.append((n, w[1], None))
            elif k in "GVH":
                p = self.ops.get((w[1], w[2]))
                if p is None:
                    self.bad("history", "unknown operation: " + l)
                else:
                    p.lines.append((k, int(w[3])))
                who.append((n, w[1], None))
            elif k == "N":
                p = self.ops.get((w[1], w[2]))
                if p is None:
                    self.bad("history", "unknown operation: " + l)
                else:
                    p.nacks.append((int(w[3]), n, p.ret is None))
                who.append((n, "?", None))
            elif k == "X":
                self.dead[w[1]] = n
                who.append((n, w[1], None))
            elif k == "S":
                self.spawned.append(w[2])
                who.append((n, w[1], None))
            elif k == "mi":
                self.init[w[1]] = int(w[2])
            elif k == "left":
                self.left[w[1]].setdefault(w[2], []).append(int(w[3]))
            elif k == "end":
                self.end = w[1]
            else:
                who.append((n, w[1] if len(w) > 1 else "?", None))
        self.n = n
        # when was each operation certainly waiting (or already committed)?
        import bisect
        for i, (ln, t, p) in enumerate(who):
            if p is None or (p.tree is not None and nodes(p.tree, "N")):
                continue
            j = i + 1
            while j < len(who) and who[j][1] == t and (p.ret is None or who[j][0] < p.ret):
                j += 1
            if j >= len(who) or who[j][1] == t or who[j][1] == "?":
                continue
            lo = who[max(0, i - 2)][0]
            a = bisect.bisect_left(self.sigs, lo)
            if a < len(self.sigs) and self.sigs[a] < who[j][0]:
                continue
            p.settled = who[j][0]

    # ---- channels
    def offers(self, p):
        """channel offers of a blocked operation: (direction, channel)"""
        if p.tree is None:
            if p.kind == "s" or p.kind == "sp":
                return [("s", p.obj)]
            if p.kind == "r" or p.kind == "rp":
                return [("r", p.obj)]
            return []
        return [(l[2], l[3]) for l in leaves(p.tree) if l[2] in "sr"]

    def channels(self):
        sends, recvs = {}, {}
        for p in self.ops.values():
            if p.ret is None:
                continue
            if p.tree is None:
                if p.kind == "s" or (p.kind == "sp" and p.res == "true"):
                    a = ("s", p.obj, p.val)
                elif p.kind == "r" or (p.kind == "rp" and p.res != "none"):
                    a = ("r", p.obj, int(p.res))
                else:
                    continue
            elif p.leaf and p.leaf[2] == "s":
                a = ("s", p.leaf[3], p.leaf[4])
            elif p.leaf and p.leaf[2] == "r":
                a = ("r", p.leaf[3], p.val)
            else:
                continue
            d = sends if a[0] == "s" else recvs
            key = (a[1], a[2])
            if key in d:
                self.bad("duplicate", "message %s on channel %s was %s twice: by thread %s and thread %s" % (
                    a[2], a[1], "sent" if a[0] == "s" else "received", d[key].tid, p.tid))
            d[key] = p
        for key, p in recvs.items():
            if key not in sends:
                self.bad("lost", "thread %s received %s on channel %s, but no send of it on that channel completed" % (p.tid, key[1], key[0]))
        for key, p in sends.items():
            if key not in recvs:
                self.bad("lost", "thread %s sent %s on channel %s but nobody received it" % (p.tid, key[1], key[0]))
        pairs = [(sends[k], recvs[k], k) for k in sends if k in recvs]
        partner = {}
        for s, r, k in pairs:
            partner[(s.tid, s.op)] = r
            partner[(r.tid, r.op)] = s
            if s.tid == r.tid and s.op == r.op:
                self.bad("self", "thread %s communicated with itself" % s.tid)
            if s.ret < r.inv or r.ret < s.inv:
                self.bad("rendezvous", "message %s on channel %s: send by thread %s lines %d-%d and receive by thread %s lines %d-%d do not overlap" % (
                    k[1], k[0], s.tid, s.inv, s.ret, r.tid, r.inv, r.ret))
            if s.kind == "sp" and r.kind == "rp":
                self.bad("poll", "two polling operations communicated: %s" % (k,))
            for a, b in ((s, r), (r, s)):
                if a.kind in ("sp", "rp") and b.inv > a.ret:
                    self.bad("poll", "a poll by thread %s took part with thread %s which started later" % (a.tid, b.tid))
        byc = {}
        for p in self.ops.values():
            for d, c in self.offers(p):
                if p.kind not in ("sp", "rp"):
                    if p.ret is None or ((p.tid, p.op) in partner and (p.tree is None or (p.leaf[2], p.leaf[3]) == (d, c))):
                        byc.setdefault((d, c), []).append(p)
        # order of service
        for (d, c), l in byc.items():
            for a in l:
                if a.settled is None:
                    continue
                pa = partner.get((a.tid, a.op)) if a.ret is not None else None
                for b in l:
                    if b is a or b.inv <= a.settled or b.ret is None:
                        continue
                    pb = partner.get((b.tid, b.op))
                    if pb is None:
                        continue
                    first = min(b.ret, pb.ret)
                    if a.ret is None:
                        self.bad("order", "thread %s waits to %s on channel %s since before line %d and is never served, but thread %s, which started at line %d, was" % (
                            a.tid, "send" if d == "s" else "receive", c, a.settled, b.tid, b.inv))
                    elif pa is not None and first < pa.inv:
                        self.bad("order", "thread %s waited to %s on channel %s before line %d but thread %s, which started at line %d, was served first" % (
                            a.tid, "send" if d == "s" else "receive", c, a.settled, b.tid, b.inv))
        # failed polls with a partner waiting
        for p in self.ops.values():
            if p.ret is not None and ((p.kind == "sp" and p.res == "false") or (p.kind == "rp" and p.res == "none")):
                d = "r" if p.kind == "sp" else "s"
                for a in byc.get((d, p.obj), []):
                    if a.settled is not None and a.settled <= p.inv and a.tid != p.tid:
                        pa = partner.get((a.tid, a.op))
                        if a.ret is None or (pa is not None and pa.inv > p.ret):
                            self.bad("poll", "poll by thread %s (lines %d-%d) failed although thread %s was waiting on channel %s since line %d" % (
                                p.tid, p.inv, p.ret, a.tid, p.obj, a.settled))
        # blocked for ever with a partner
        for (d, c), l in byc.items():
            if d != "s":
                continue
            for a in l:
                for b in byc.get(("r", c), []):
                    if a.ret is None and b.ret is None and a.tid != b.tid:
                        self.bad("stuck", "threads %s and %s are blocked for ever sending and receiving on channel %s" % (a.tid, b.tid, c))

    # ---- choices
    def choices(self):
        for p in self.ops.values():
            if p.tree is None or p.kind == "K":
                continue
            name = "choice %s of thread %s %s" % (p.op, p.tid, p.obj)
            g = sorted(i for k, i in p.lines if k == "G")
            want = sorted(x[1] for x in nodes(p.tree, "GN"))
            if g != want and (p.ret is not None or len(g) > len(want) or len(set(g)) != len(g)):
                self.bad("guard", "%s: guards evaluated %s, expected %s" % (name, g, want))
            vh = [(k, i) for k, i in p.lines if k in "VH"]
            if p.ret is None:
                if vh:
                    self.bad("wrap", "%s: wrappers %s ran but the choice did not return" % (name, vh))
                if p.nacks:
                    self.bad("nack", "%s: nack %s fired but the choice did not commit" % (name, p.nacks))
                bad = [l for l in leaves(p.tree) if l[2] in "taT"]
                if bad:
                    self.bad("stuck", "%s is blocked for ever although %s can happen" % (name, bad))
                continue
            if p.leaf is None:
                continue
            pa = path(p.tree, p.leaf[1])
            ex, exvh, extr = False, [], []
            for nd in pa:
                if nd[0] == "W" and not ex:
                    exvh.append(("V", nd[1])); extr.append(nd[1])
                elif nd[0] == "R" and not ex:
                    exvh.append(("V", nd[1])); extr.append(nd[1]); ex = True
                elif nd[0] == "H" and ex:
                    exvh.append(("H", nd[1])); extr.append(nd[1]); ex = False
            if vh != exvh or p.trail != extr or p.exn != ex:
                self.bad("wrap", "%s committed %s: wrappers and handlers that ran: %s result %s, expected %s %s%s" % (
                    name, p.leaf[1:], vh, p.res, exvh, extr, " and an exception" if ex else ""))
            if p.leaf[2] in "sat" and p.leaf[4] != p.val or p.leaf[2] == "n":
                self.bad("choice", "%s returned %s for %s" % (name, p.val, p.leaf[1:]))
            under = set(nd[1] for nd in pa if nd[0] == "N")
            fired = sorted(i for i, _, _ in p.nacks)
            want = sorted(nd[1] for nd in nodes(p.tree, "N") if nd[1] not in under)
            if fired != want:
                self.bad("nack", "%s committed %s: nacks enabled for %s, expected %s" % (name, p.leaf[1:], fired, want))

    # ---- variables and mailboxes
    def objects(self):
        hist = {}

        def add(t, obj, p, kind, val, res):
            hist.setdefault((t, obj), []).append((p.inv, p.ret, kind, val, res, p.tid))
        blocked = {}
        for p in self.ops.values():
            if p.tree is not None:
                if p.ret is None:
                    for l in leaves(p.tree):
                        if l[2] in "kgw" and p.kind != "K":
                            blocked.setdefault(("m", l[3]), []).append(p)
                        elif l[2] == "i":
                            blocked.setdefault(("i", l[3]), []).append(p)
                        elif l[2] == "b":
                            blocked.setdefault(("b", l[3]), []).append(p)
                elif p.leaf and p.kind != "K":
                    k = p.leaf[2]
                    if k in "kg":
                        add("m", p.leaf[3], p, {"k": "mt", "g": "mg"}[k], None, str(p.val))
                    elif k == "w":
                        add("m", p.leaf[3], p, "mw", p.leaf[4], str(p.val))
                    elif k == "i":
                        add("i", p.leaf[3], p, "ig", None, str(p.val))
                    elif k == "b":
                        add("b", p.leaf[3], p, "br", None, str(p.val))
                continue
            if p.kind[0] in "mib" and p.kind != "mi":
                if p.ret is None:
                    if p.kind in ("mp", "mtp", "mgp", "ip", "igp", "bs", "brp"):
                        self.bad("blocked", "operation %s on %s by thread %s never returned" % (p.kind, p.obj, p.tid))
                    else:
                        blocked.setdefault((p.kind[0], p.obj), []).append(p)
                else:
                    add(p.kind[0], p.obj, p, p.kind, p.val, p.res)
        for key, ps in blocked.items():
            if self.left[key[0]].get(key[1]):
                self.bad("stuck", "thread %s is blocked for ever on %s%s, which holds %s" % (ps[0].tid, key[0], key[1], self.left[key[0]][key[1]]))
        for key in set(list(hist) + [(t, ob) for t in "mib" for ob in self.left[t]]):
            t, ob = key
            init = self.init.get(ob) if t == "m" else (() if t == "b" else None)
            final = self.left[t].get(ob, [])
            final = tuple(final) if t == "b" else (final[0] if final else None)
            ok, why = linearizable(t, init, hist.get(key, []), final)
            if ok is False:
                self.bad("linear", "history of %s%s has no sequential explanation: %s" % (t, ob, why))

    def threads(self):
        for p in self.ops.values():
            if p.kind == "j" and p.ret is not None and not (p.obj in self.dead and self.dead[p.obj] < p.ret):
                self.bad("join", "thread %s joined thread %s before it ended" % (p.tid, p.obj))
            if p.tree is not None and p.leaf and p.leaf[2] == "j" and not (p.leaf[3] in self.dead and self.dead[p.leaf[3]] < p.ret):
                self.bad("join", "thread %s joined thread %s before it ended" % (p.tid, p.leaf[3]))
            if p.ret is None:
                if p.kind == "j" and p.obj in self.dead:
                    self.bad("join", "thread %s waits for ever for thread %s, which has ended" % (p.tid, p.obj))
                if p.kind == "z":
                    self.bad("stuck", "thread %s never woke up from a time-out" % p.tid)
                if p.tree is not None:
                    for l in leaves(p.tree):
                        if l[2] == "j" and l[3] in self.dead:
                            self.bad("join", "thread %s waits for ever for thread %s, which has ended" % (p.tid, l[3]))

        busy = set(p.tid for p in self.ops.values() if p.ret is None)
        for t in self.spawned:
            if t not in self.dead and t not in busy:
                self.bad("stuck", "thread %s neither ended nor waits for anything, but never ran again" % t)

    def check(self, parts="xcot"):
        if "x" in parts:
            self.channels()
        if "c" in parts:
            self.choices()
        if "o" in parts:
            self.objects()
        if "t" in parts:
            self.threads()


def step(t, st, kind, val, res):
    """possible next state or None"""
    if t == "m":
        if kind == "mp":
            if st is None:
                return (val,) if res == "ok" else None
            return (st,) if res == "exn" else None
        if kind in ("mtp", "mgp"):
            if st is None:
                return (None,) if res == "none" else None
            return ((None,) if kind == "mtp" else (st,)) if res == str(st) else None
        if st is None or res != str(st):
            return None
        return (None,) if kind == "mt" else ((st,) if kind == "mg" else (val,))
    if t == "i":
        if kind == "ip":
            if st is None:
                return (val,) if res == "ok" else None
            return (st,) if res == "exn" else None
        if kind == "igp" and st is None:
            return (None,) if res == "none" else None
        return (st,) if st is not None and res == str(st) else None
    if kind == "bs":
        return (st + (val,),)
    if kind == "brp" and not st:
        return ((),) if res == "none" else None
    if st and res == str(st[0]):
        return (st[1:],)
    return None


def linearizable(t, init, ops, final, budget=200000):
    ops = sorted(ops)
    n = len(ops)
    full = (1 << n) - 1
    seen = set()
    best = [0, None]
    stack = [(0, init, 0)]
    while stack:
        done, st, cnt = stack.pop()
        if done == full:
            if st == final:
                return True, ""
            best = [n + 1, "all %d operations fit but the object finally holds %s instead of %s" % (n, final, st)]
            continue
        if (done, st) in seen:
            continue
        seen.add((done, st))
        if len(seen) > budget:
            return None, "gave up"
        minret = min(ops[i][1] for i in range(n) if not done >> i & 1)
        tried = []
        for i in range(n):
            if done >> i & 1:
                continue
            if ops[i][0] > minret:
                break
            ns = step(t, st, ops[i][2], ops[i][3], ops[i][4])
            tried.append(ops[i])
            if ns is not None:
                stack.append((done | 1 << i, ns[0], cnt + 1))
        if cnt >= best[0]:
            best = [cnt, "after %d operations the object holds %s and none of %s is possible" % (cnt, st, [x[2:] for x in tried][:6])]
    return False, best[1]
