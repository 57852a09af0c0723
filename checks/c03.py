"""C03: refused memory."""
import os
from vlib.driver import Check, Outcome, run_sim, image
from checks.c01 import gc_events, geometry, decl
from checks.c04 import steps
from vlib import tree

ENOMEM, EAGAIN = 12, 11
MB = 1 << 20


class C03(Check):
    id = "C03"
    quick_s = 45
    rule = ("a run is a seeded program (mutator, program exporting itself and its image being loaded, interactive session, or operating-system calls) whose requests for "
            "memory are refused at seeded points: the n-th mapping or the n-th block of the C heap, bursts, everything from a point on, every request above a size, a "
            "ceiling on the memory mapped; with seeded collections and heap geometry; compared with the same program without refusals; distinct by hash of the event sequence")
    stub = "the operating system's answers to requests for memory; choice of collections; clock"
    assumptions = ["malloc is refused only in calls by the runtime system itself, not inside the C library", "no overcommit: granted memory exists"]

    def images(self):
        return {"gcw": ("gc/gcw.cm", "Main.main"), "sysw": ("sys/sysw.cm", "Main.main")}

    def gen(self, rng, tier, i):
        kind = rng.choice(["mut", "mut", "mut", "mut", "exp", "load", "sys", "repl"])
        n = rng.choice([40, 90, 200])
        hdr, ev = {}, []
        if kind in ("load", "repl") or (kind == "mut" and rng.random() < 0.1):
            hdr["autostart"] = True
        f = rng.randrange(7)
        cls = rng.choice(["mmap", "mmap", "malloc"])
        if kind == "sys":
            f, cls = rng.randrange(3), "malloc"
        if f < 2:
            top = rng.choice([4, 30, 150])
            for _ in range(rng.choice([1, 1, 2, 5])):
                ev.append(["C", cls, rng.randrange(top), "err", rng.choice([ENOMEM, ENOMEM, EAGAIN])])
        elif f == 2:
            a = rng.randrange(rng.choice([4, 30, 150]))
            ev += [["C", cls, a + k, "err", ENOMEM] for k in range(rng.choice([2, 3, 6, 40]))]
        elif f == 3:
            for k in range(rng.randrange(3), 200, rng.choice([1, 2, 2, 2, 3, 5])):
                ev.append(["C", "mmap", k, "err", ENOMEM])
        elif f == 4:
            hdr["memmax"] = int(MB * rng.choice([0.3, 0.6, 1, 1.3, 1.7, 2, 3, 5]))
        else:
            hdr["memcap"] = int(MB * rng.choice([2, 4, 6, 8, 10, 12, 16, 24, 32, 48]) * rng.uniform(0.7, 1.3))
        gc = []
        if rng.random() < 0.7:
            gc = gc_events(rng, n * 9000)[:rng.choice([10, 50, 400])]
        case = {"kind": kind, "seed": rng.randrange(1 << 30), "n": n, "rt": geometry(rng) if rng.random() < 0.6 else [], "plan": {"hdr": hdr, "ev": ev + gc}}
        if kind == "exp":
            k = rng.randrange(1, n)
            case["exp"] = [k, rng.choice(["ML", "Fn"])]
            if rng.random() < 0.6:
                case["plan"]["hdr"] = {}
                case["plan"]["ev"] = [["C", cls, rng.randrange(rng.choice([30, 200, 600])), "err", ENOMEM]] + gc
        if kind == "load":
            case["exp"] = [rng.randrange(1, n), "ML"]
        if kind == "repl":
            case["src"] = [decl(rng, j) for j in range(rng.randint(1, 4))]
            case["plan"]["ev"] = ev + [["A", rng.randrange(12000000), "gc", rng.randrange(6)] for _ in range(rng.randrange(8))]
        return case

    def judge(self, o, r, ref, what):
        """r with refusals, ref without"""
        o.add(r)
        hit = [l for l in r.log if l.startswith("@F m") or l.startswith("@MEM")]
        la, lb = steps(ref.log), steps(r.log)
        if r.timeout:
            o.bad("hang", "%s does not end: %s" % (what, r.brief()))
        elif r.sig is not None or b"bogus" in r.err:
            o.bad("crash", "%s died by a fault: %s" % (what, r.brief()))
        elif [l for l in r.log if l.startswith("!BAD")]:
            o.bad("bad", "%s: %s" % (what, [l for l in r.log if l.startswith("!BAD")][0]))
        elif lb != la[:len(lb)]:
            o.bad("result", "%s: results differ: %s" % (what, [(x, y) for x, y in zip(la, lb) if x != y][:1]))
        elif r.code == 0:
            if la != lb or r.out != ref.out:
                o.bad("lost", "%s ended with success, but without its results: %s" % (what, r.brief()))
        elif not r.err.strip() and not r.out.strip():
            o.bad("silent", "%s failed without a diagnostic: %s" % (what, r.brief()))
        elif not hit:
            o.bad("spurious", "%s failed though no memory was refused: %s" % (what, r.brief()))
        if hit:
            k = "survived" if r.code == 0 else "diagnosed"
            o.probes[k] = o.probes.get(k, 0) + 1
        return bool(hit)

    def run(self, case, wd):
        o = Outcome()
        kind, plan = case["kind"], case["plan"]
        gcs = {"hdr": {k: v for k, v in plan["hdr"].items() if k == "autostart"}}
        args = [case["seed"], case["n"]]
        hit = False
        if kind == "mut":
            ref = run_sim(wd, image("gcw"), args, gcs, name="ref", timeout=100)
            r = run_sim(wd, image("gcw"), args, plan, rtargs=case["rt"], name="run", timeout=100)
            hit = self.judge(o, r, ref, "the program")
        elif kind in ("exp", "load"):
            k = case["exp"][0]
            ref = run_sim(wd, image("gcw"), args, gcs, name="ref", timeout=100)
            r = run_sim(wd, image("gcw"), args + ["exp"] + case["exp"], plan if kind == "exp" else {"hdr": {}}, rtargs=case["rt"], name="run", timeout=100)
            want = steps(ref.log)

            class Sub:
                pass
            full = Sub()
            full.log, full.out = want, ref.out
            head = Sub()
            head.log, head.out = [l for l in want if not l.startswith("final") and int(l.split()[0]) <= k], r.out
            said = [l for l in r.log if l.startswith(("exported ", "failed "))]
            isfn = case["exp"][1] == "Fn"
            # an exporter of a function ends with the export
            hit = self.judge(o, r, head if isfn and not said and r.code == 0 else full, "the exporting program") if not (isfn and said) else True
            im = os.path.join(wd, "img%d" % k)
            done = any(l.startswith("exported ") for l in said) or (isfn and not said and r.code == 0)
            if not o.viol and done:
                if not os.path.exists(im + ".amd64-linux"):
                    o.bad("lost", "the export was reported as done, but there is no image")
                else:
                    tail = Sub()
                    tail.log, tail.out = [l for l in want if l.startswith("final") or int(l.split()[0]) > k], ref.out
                    l = run_sim(wd, im, ["x", "y"], plan if kind == "load" else {"hdr": {}}, rtargs=case["rt"], name="load", timeout=100)
                    if kind == "load":
                        hit = self.judge(o, l, tail, "the loaded image")
                    else:
                        self.judge(o, l, tail, "the image written under refusals")
        elif kind == "repl":
            src = ("\n".join(case["src"]) + "\n").encode()
            im = os.path.join(tree.T, "bin/.heap/sml")
            ref = run_sim(wd, im, (), gcs, name="ref", stdin=src, timeout=200)
            r = run_sim(wd, im, (), plan, rtargs=case["rt"], name="run", stdin=src, timeout=200)
            hit = self.judge(o, r, ref, "the interactive system")
        else:
            p = {"hdr": dict(plan["hdr"], vals=1 + (case["seed"] & 0xffff), limit_alloc=3000000000), "ev": plan["ev"]}
            r = run_sim(wd, image("sysw"), [case["seed"], case["n"], 1, 0, "file,env,proc,poll"], p, rtargs=case["rt"], name="run", timeout=100)
            o.add(r)
            hit = any(l.startswith("@F m") for l in r.log)
            if r.timeout:
                o.bad("hang", "operating-system calls do not end: " + r.brief())
            elif r.sig is not None or b"bogus" in r.err:
                o.bad("crash", "died by a fault in an operating-system call: " + r.brief())
            elif r.code != 0 and not r.err.strip():
                o.bad("silent", "failed without a diagnostic: " + r.brief())
            elif r.code != 0 and not hit:
                o.bad("spurious", "failed though no memory was refused: " + r.brief())
        o.sig = r.end.get("hash", "")
        o.nontrivial = hit
        return o

    def shrink(self, case):
        if case["rt"]:
            yield dict(case, rt=[])
        if case["kind"] in ("mut", "sys"):
            for n in (case["n"] // 2, case["n"] * 3 // 4, case["n"] - 10, case["n"] - 1):
                if 0 < n < case["n"]:
                    yield dict(case, n=n)


CHECK = C03()
