"""C06: an interrupted computation resumes exactly where it was."""
from vlib.driver import Check, Outcome, run_sim, image
from checks.c05 import signal_plan
from checks.c01 import gc_events, geometry

SIGS = ["HUP", "INT", "USR1", "USR2", "ALRM", "TERM"]


class C06(Check):
    id = "C06"
    quick_s = 45
    rule = ("a run is a seeded program (mutable structures, floats, closures, exceptions, continuations, C calls) with signals at seeded allocation positions, "
            "exact machine instructions, system calls and virtual times, whose handlers allocate, collect, compute, call C, change handlers and resume, or transfer "
            "control elsewhere; the run is compared with the same program without signals; non-trivial when a signal was delivered; distinct by hash of the event sequence")
    stub = "arrival of signals, signal mask and disposition table of the operating system, clock"
    assumptions = ["AMD64/Linux code generator only"]

    def images(self):
        return {"gcw": ("gc/gcw.cm", "Main.main")}

    def gen(self, rng, tier, i):
        esc = i % 4 == 3
        n = rng.choice([30, 60, 120, 250])
        span = n * 9000
        ev = signal_plan(rng, span, rng.choice([SIGS, rng.sample(SIGS, 2), [rng.choice(SIGS)]]))
        if rng.random() < 0.4:
            ev += gc_events(rng, span)[:200]
        return {"esc": esc, "seed": rng.randrange(1 << 30), "n": n, "rt": geometry(rng) if rng.random() < 0.4 else [],
                "plan": {"hdr": {"logsig": True, "limit_alloc": 2000000000}, "ev": ev}}

    def run(self, case, wd):
        o = Outcome()
        args = [case["seed"], case["n"], "esc" if case["esc"] else "res"]
        r = run_sim(wd, image("gcw"), args, case["plan"], rtargs=case["rt"], name="run", timeout=120)
        o.add(r)
        if r.timeout:
            o.bad("hang", "the run does not end: " + r.brief())
        elif r.sig is not None or r.code != 0:
            o.bad("crash", "died: " + r.brief())
        lb = [l for l in r.log if l[:1].isdigit() or l.startswith("final")]
        if case["esc"]:
            got = [int(l.split()[1]) for l in r.log if l.startswith("handled ")]
            want = 0
            for l in r.log:
                if l.startswith("handled"):
                    break
                if l.startswith("@S ") and l.endswith(" now") or l.endswith(" late"):
                    want += 1
            if not o.viol and got and (got[0] > want or got[0] < want):
                o.bad("count", "%d signals arrived, handlers accounted for %d" % (want, got[0]))
            if not o.viol and "final 0" not in lb:
                o.bad("crash", "no end of run: " + r.brief())
        else:
            ref = run_sim(wd, image("gcw"), args, {"hdr": case["plan"]["hdr"]}, name="ref", timeout=120)
            la = [l for l in ref.log if l[:1].isdigit() or l.startswith("final")]
            if ref.code != 0 or [l for l in ref.log if l.startswith("!BAD")]:
                o.bad("reference", "reference run failed: %s %s" % (ref.brief(), [l for l in ref.log if l.startswith("!BAD")]))
            if not o.viol and la != lb:
                o.bad("result", "results differ from the uninterrupted run at %s" % [(x, y) for x, y in zip(la, lb) if x != y][:1])
        o.sig = r.end.get("hash", "")
        o.nontrivial = any(l.startswith("@S") for l in r.log)
        return o

    def shrink(self, case):
        if case["rt"]:
            yield dict(case, rt=[])
        for n in (case["n"] // 2, case["n"] * 3 // 4, case["n"] - 10, case["n"] - 1):
            if 0 < n < case["n"]:
                yield dict(case, n=n)


CHECK = C06()
