"""C02: weak pointers and suspensions."""
from vlib.driver import Check, Outcome, run_sim, image
from checks.c01 import gc_events, geometry


class C02(Check):
    id = "C02"
    quick_s = 40
    rule = ("a run is a seeded history of making, dropping, moving and resurrecting objects of every kind of heap object, weak pointers to them and suspensions "
            "(some of which fail before they succeed), with seeded forced collections and heap geometry; the number of strong references is counted outside the "
            "structures under test; non-trivial when a forced collection fired; distinct by hash of the event sequence")
    stub = "choice of when and how deep to collect; clock"
    assumptions = ["weak pointers to code objects are not made (the runtime refuses them with a diagnostic; ordinary programs cannot make them)",
                   "two full collections in a row are what a program can do to find an object unreachable"]

    def images(self):
        return {"weakw": ("weak/weakw.cm", "Main.main")}

    def gen(self, rng, tier, i):
        n = rng.choice([100, 300, 600, 1500])
        ev = gc_events(rng, n * rng.choice([400, 1200]))
        return {"seed": rng.randrange(1 << 30), "n": n, "nobj": rng.choice([5, 20, 60, 300]), "nweak": rng.choice([3, 20, 100, 300]), "rt": geometry(rng), "plan": {"hdr": {"limit_alloc": 3000000000}, "ev": ev}}

    def run(self, case, wd):
        o = Outcome()
        r = run_sim(wd, image("weakw"), [case["seed"], case["n"], case["nobj"], case["nweak"]], case["plan"], rtargs=case["rt"], name="run", timeout=120)
        o.add(r)
        if r.timeout:
            o.bad("hang", "the run does not end: " + r.brief())
        elif r.sig is not None or r.code != 0:
            o.bad("crash", "died: " + r.brief())
        elif not o.viol and not any(l.startswith("done ") for l in r.log):
            o.bad("crash", "no end of run: " + r.brief())
        o.sig = r.end.get("hash", "")
        o.nontrivial = any(k.startswith("gc") for k in o.stats)
        for l in r.log:
            if l.startswith("done "):
                o.probes["weak_pointers_cleared"] = int(l.split()[1])
                o.probes["suspensions"] = int(l.split()[2])
        return o

    def shrink(self, case):
        if case["rt"]:
            yield dict(case, rt=[])
        for n in (case["n"] // 2, case["n"] * 3 // 4, case["n"] - 10, case["n"] - 1):
            if 0 < n < case["n"]:
                yield dict(case, n=n)
        for k in ("nobj", "nweak"):
            if case[k] > 1:
                yield dict(case, **{k: case[k] // 2})


CHECK = C02()
