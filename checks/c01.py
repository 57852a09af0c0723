"""C01: garbage collection is invisible."""
from vlib.driver import Check, Outcome, run_sim, image
from vlib import tree
import os


def gc_events(rng, span, dense=None):
    """a swarm of collection placements over `span` bytes of allocation"""
    ev = []
    mode = rng.randrange(6)
    maxl = rng.choice([0, 1, 2, 3, 5, 9])

    def lvl():
        return 0 if rng.random() < rng.choice([0.3, 0.9]) else rng.randint(0, maxl)
    if mode == 0:      # a few, anywhere
        for _ in range(rng.randint(1, 12)):
            ev.append(["A", rng.randrange(span), "gc", lvl()])
    elif mode == 1:    # dense window: a collection every few bytes
        p = rng.randrange(span)
        step = rng.choice([8, 16, 24, 40, 64, 200])
        for _ in range(rng.randint(100, 1500)):
            ev.append(["A", p, "gc", lvl()])
            p += rng.randint(8, step)
    elif mode == 2:    # regular
        step = rng.randint(200, max(300, span // 20))
        p = rng.randrange(step)
        while p < span and len(ev) < 3000:
            ev.append(["A", p, "gc", lvl()])
            p += step
    elif mode == 3:    # pairs: promote, then collect soon after
        for _ in range(rng.randint(5, 120)):
            p = rng.randrange(span)
            ev.append(["A", p, "gc", rng.randint(0, maxl)])
            ev.append(["A", p + rng.randint(8, 2000), "gc", lvl()])
            if rng.random() < 0.5:
                ev.append(["A", p + rng.randint(8, 4000), "gc", rng.randint(0, maxl)])
    elif mode == 4:    # random
        for _ in range(rng.randint(50, 800)):
            ev.append(["A", rng.randrange(span), "gc", lvl()])
    else:              # several dense windows
        for _ in range(rng.randint(3, 10)):
            p = rng.randrange(span)
            for _ in range(rng.randint(10, 150)):
                ev.append(["A", p, "gc", lvl()])
                p += rng.randint(8, 64)
    return ev


def geometry(rng):
    a = []
    if rng.random() < 0.7:
        a.append("@SMLalloc=%dk" % rng.choice([128, 128, 160, 256, 512, 1024]))
    if rng.random() < 0.6:
        a.append("@SMLngens=%d" % rng.choice([1, 2, 3, 4, 5, 7, 10, 14]))
    if rng.random() < 0.3:
        a.append("@SMLvmcache=%d" % rng.choice([0, 1, 2]))
    return a


DECLS = [
    "val lit%d = [" + ", ".join('(%d, "lit%d", 0x%x)' % (i, i * 7, i * 1234567) for i in range(150)) + "]; val ll%d = length lit%d;",
    "val x%d = List.tabulate (%d, fn i => i * %d);",
    "fun f%d x = if x > %d then x - %d else f%d (x + 1);",
    "structure S%d = struct val a = ref %d fun inc () = (a := !a + %d; !a) end;",
    "signature SG%d = sig type t val v : t end functor F%d (X : SG%d) = struct val w = [X.v] end;",
    "datatype d%d = A%d of int | B%d of d%d * d%d; val v%d = B%d (A%d 3, A%d %d);",
    "val s%d = String.concat (map Int.toString (List.tabulate (%d, fn i => i)));",
    "val e%d = (hd [] : int) handle Empty => %d;",
    "val bad%d : int = \"type error %d\";",
    "val p%d = IntInf.pow (%d + 3, 50);",
    "raise Fail \"x%d %d\";",
    "val k%d = SMLofNJ.Cont.callcc (fn k => %d + SMLofNJ.Cont.throw k 5);",
]


def decl(rng, i):
    t = rng.choice(DECLS)
    # every name gets the same index
    out = ""
    parts = t.split("%d")
    out = parts[0]
    for j, p in enumerate(parts[1:]):
        prev = out[-1] if out else ""
        out += str(i) if (prev.isalpha() and prev not in " ") else str(rng.randint(1, 60))
        out += p
    return out


class C01(Check):
    id = "C01"
    quick_s = 45
    rule = ("a run is a seeded mutator program (or a seeded session of the interactive compiler) with a seeded set of forced collections "
            "(allocation position, generation level, C-call trigger) and heap geometry; non-trivial when at least one forced collection fired; "
            "distinct by hash of the sequence of (allocation clock, event) pairs")
    stub = "choice of when and how deep to collect; clock"
    assumptions = ["collections are placed at heap-check points and NeedGC calls only, which is where the runtime can collect",
                   "AMD64/Linux code generator only"]

    def images(self):
        return {"gcw": ("gc/gcw.cm", "Main.main")}

    def gen(self, rng, tier, i):
        if i % 400 == 13:      # the known finding (untagged arguments of long argument lists), and nothing else
            p = rng.randrange(0, 8000)
            return {"kind": "raw", "env": [], "seed": rng.randrange(1 << 30), "n": 40, "rt": [], "plan": {"hdr": {}, "ev": [["A", p + 40 * k, "gc", rng.choice([0, 1, 4])] for k in range(60)]}}
        if i % 12 == 11:
            ds = [decl(rng, j) for j in range(rng.randint(2, 7))]
            span = 6000000 * len(ds)
            ev = gc_events(rng, rng.choice([span, span // 3]))
            ev = ev[:rng.choice([20, 60, 200])]
            return {"kind": "repl", "src": ds, "rt": geometry(rng), "plan": {"hdr": {"autostart": True}, "ev": ev}}
        n = rng.choice([60, 120, 250, 500])
        span = n * 9000
        ev = gc_events(rng, span)
        if rng.random() < 0.5:
            base = rng.randrange(n)
            for k in range(rng.randint(1, 60)):
                ev.append(["N", rng.randrange(n * 2)])
        hdr = {}
        env = []
        if rng.random() < 0.3:
            hdr["grp"] = "%d %d" % (rng.choice([3, 50, 300, 1200, 3000]), rng.choice([4, 12, 40]))
        if rng.random() < 0.4:
            env = [rng.choice([5, 100, 3000, 4500, 6000]) for _ in range(rng.randint(1, 8))]
            if rng.random() < 0.3:
                env = [rng.choice([40, 200])] * rng.choice([60, 200])
        return {"kind": "mut", "env": env, "seed": rng.randrange(1 << 30), "n": n, "rt": geometry(rng), "plan": {"hdr": hdr, "ev": ev}}

    def run(self, case, wd):
        o = Outcome()
        if case["kind"] in ("mut", "raw"):
            args = [case["seed"], case["n"]] + (["raw"] if case["kind"] == "raw" else [])
            env = dict(("V%d" % k, "".join(chr(97 + (j * 7 + k) % 26) for j in range(n))) for k, n in enumerate(case["env"]))
            ref = run_sim(wd, image("gcw"), args, {"hdr": case["plan"]["hdr"]}, name="ref", timeout=120, env=env)
            r = run_sim(wd, image("gcw"), args, case["plan"], rtargs=case["rt"], name="run", timeout=120, env=env)
        else:
            src = ("\n".join(case["src"]) + "\n").encode()
            im = os.path.join(tree.T, "bin/.heap/sml")
            ref = run_sim(wd, im, (), {"hdr": {"autostart": True}}, name="ref", stdin=src, timeout=200)
            r = run_sim(wd, im, (), case["plan"], rtargs=case["rt"], name="run", stdin=src, timeout=200)
        if ref.code != 0 or [l for l in ref.log if l.startswith("!BAD")]:
            o.bad("reference", "reference run failed: %s %s" % (ref.brief(), [l for l in ref.log if l.startswith("!BAD")]))
        o.add(r)
        la = [l for l in ref.log if l[:1].isdigit() or l.startswith("final")]
        lb = [l for l in r.log if l[:1].isdigit() or l.startswith("final")]
        if r.timeout:
            o.bad("hang", "the run does not end: " + r.brief())
        elif r.sig is not None or r.code != ref.code:
            o.bad("crash", "died: " + r.brief())
        elif la != lb:
            d = [(x, y) for x, y in zip(la, lb) if x != y][:1]
            o.bad("result", "results differ from the undisturbed run at %s" % d)
        elif r.out != ref.out:
            k = 0
            while k < min(len(r.out), len(ref.out)) and r.out[k] == ref.out[k]:
                k += 1
            o.bad("output", "output differs: %r / %r" % (ref.out[max(0, k - 60):k + 60], r.out[max(0, k - 60):k + 60]))
        o.sig = r.end.get("hash", "")
        o.nontrivial = any(k.startswith("gc") for k in o.stats)
        return o

    def known(self, case, viol):
        if case["kind"] == "raw" and viol[0] in ("crash", "result", "output", "bad", "hang", "integrity"):
            return "rawargs"
        return None

    def shrink(self, case):
        if case["rt"]:
            yield dict(case, rt=[])
        if case["kind"] in ("mut", "raw"):
            if case["env"]:
                yield dict(case, env=[])
            for n in (case["n"] // 2, case["n"] * 3 // 4, case["n"] - 10, case["n"] - 1):
                if 0 < n < case["n"]:
                    yield dict(case, n=n)
        elif len(case["src"]) > 1:
            for j in range(len(case["src"])):
                yield dict(case, src=case["src"][:j] + case["src"][j + 1:])


CHECK = C01()
