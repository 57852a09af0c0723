"""C04: heap images."""
import os
from vlib.driver import Check, Outcome, run_sim, image, counts
from checks.c01 import gc_events, geometry
from checks.c05 import signal_plan, NUM

EIO, ENOSPC, EINTR, EMFILE, EACCES, EFBIG = 5, 28, 4, 24, 13, 27
SIGS = ["HUP", "USR1", "USR2", "ALRM", "TERM"]


def steps(log):
    return [l for l in log if l[:1].isdigit() or l.startswith("final")]


def stepno(l):
    return 1 << 30 if l.startswith("final") else int(l.split()[0])


class C04(Check):
    id = "C04"
    quick_s = 45
    rule = ("a run is a chain of processes: a seeded program exports itself at seeded steps (as a whole or as a function), each image is loaded and carries the "
            "computation (and later exports) on, under seeded collections, heap geometry and faults of the image file: write and seek errors, full disk, short "
            "reads and writes, death of the exporter in the middle, truncated image, read errors; results compared step by step with the program run in one go; "
            "distinct by hash of the event sequences")
    stub = "the file below the runtime's image writer and reader (errors, capacity, partial transfers, death of the process); choice of collections; clock"
    assumptions = ["an image reaches the disk in the order in which it was written", "the same runtime loads the image"]

    def images(self):
        return {"gcw": ("gc/gcw.cm", "Main.main")}

    def gen(self, rng, tier, i):
        n = rng.choice([30, 60, 120, 200])
        ks = sorted(rng.sample(range(1, n), rng.choice([1, 1, 2, 3])))
        exps = [[k, rng.choice(["ML", "ML", "ML", "Fn", "Fn", "no"])] for k in ks]
        sg = rng.random() < 0.25
        case = {"seed": rng.randrange(1 << 30), "n": n, "exps": exps, "mode": "sexp" if sg else "exp", "rt": [geometry(rng) if rng.random() < 0.5 else [] for _ in range(4)],
                "fs": 0, "trunc": [], "plan": {"hdr": {}, "ev": []}}
        ev = case["plan"]["ev"]
        f = rng.randrange(9)
        if f == 0:
            for _ in range(rng.randint(1, 3)):
                ev.append(["C", rng.choice(["fwrite", "fwrite", "fwrite", "fclose", "fopen"]), rng.randrange(rng.choice([2, 6, 20, 60])), "err", rng.choice([EIO, ENOSPC, EFBIG])])
        elif f == 1:
            case["plan"]["hdr"]["disk"] = rng.choice([0, rng.randrange(5000), rng.randrange(200000), rng.randrange(2000000), 1150000 + rng.randrange(200000)])
        elif f == 2:
            ev.append(["C", rng.choice(["fwrite", "fwrite", "fclose"]), rng.randrange(rng.choice([2, 12, 60])), "kill", rng.randrange(5000)])
        elif f == 3:
            for _ in range(rng.randint(1, 8)):
                ev.append(["C", "fwrite", rng.randrange(50), "short", rng.choice([1, 100, rng.randint(1, 4096)])])
        elif f == 4:
            case["trunc"] = [rng.choice([rng.random(), rng.random() * 0.02, 1 - rng.random() * 0.01, rng.randrange(300), rng.randrange(3000)]) for _ in range(rng.randint(1, 4))]
        elif f == 8:
            # the last bytes of the last image do not reach the disk: position measured by a run without faults
            case["end"] = [rng.choice(["disk", "err", "err"]), rng.choice([0, 0, rng.randrange(3), rng.randrange(20)]), rng.choice([1, 1 + rng.randrange(100), 1 + rng.randrange(4096)])]
        elif f == 5:
            case["fs"] = rng.randint(1, 2)
            for _ in range(rng.randint(1, 4)):
                ev.append(["C", "fread", rng.randrange(rng.choice([3, 20, 120])), rng.choice(["err", "short"]), EIO])
            if rng.random() < 0.3:
                case["plan"]["hdr"] = {"autostart": True}
                ev.append(["C", rng.choice(["fopen", "fseek"]), rng.randrange(8), "err", rng.choice([EIO, EMFILE])])
            case["plan"]["hdr"]["autostart"] = True
        else:
            case["fs"] = rng.randint(0, 2)
        if rng.random() < 0.5:
            ev += gc_events(rng, n * 9000)[:rng.choice([50, 400])]
        if sg:
            ev += signal_plan(rng, n * 9000, SIGS)[:rng.choice([5, 40])]
        return case

    def run(self, case, wd):
        o = Outcome()
        args = [case["seed"], case["n"]]
        ref = run_sim(wd, image("gcw"), args + ["sexp"] if case["mode"] == "sexp" else args, {"hdr": {}}, name="ref", timeout=100)
        want = steps(ref.log)
        if ref.code != 0 or not want or [l for l in ref.log if l.startswith("!BAD")]:
            o.bad("reference", "reference run failed: " + ref.brief())
            return o
        good = {}           # step -> True: reported as written; False: left behind by a failure

        def stage(no, im, k0, first, expect, hdr=None):
            """one process; expect: 'right' or 'either' (the image may be refused)"""
            faulty = no == case["fs"]
            plan = case["plan"] if faulty else {"hdr": dict(hdr or {})}
            a = args + [case["mode"]] + [x for e in case["exps"] for x in e] if first else ["x", "y z"]
            r = run_sim(wd, im, a, plan, rtargs=case["rt"][no % 4], name="s%d" % no, timeout=100)
            o.add(r)
            hit = [l for l in r.log if l.startswith("@F ")]
            full = "disk_full" in r.end.get("st", "")
            got = steps(r.log)
            exp = [l for l in want if stepno(l) > k0]
            mine = [l for l in r.log if l[:1] not in "@#"]
            what = "run %d (%s)" % (no, "from the start" if first else "image of step %d" % k0)
            lost = None
            for l in r.log:
                w = l.split()
                if w[0] == "exported":
                    good[int(w[1])] = True
                    o.probes["exported"] = o.probes.get("exported", 0) + 1
                    if lost:
                        o.bad("unreported", "%s: the export of step %s was reported as done although %s" % (what, w[1], lost))
                elif w[0] == "export":
                    lost = None
                elif w[0] == "@F" and w[1] in ("fwrite", "fclose", "fopen") and w[3] == "err":
                    lost = "%s of the image failed with %s" % (w[1], w[4])
                elif w[0] == "failed":
                    good[int(w[1])] = False
                    o.probes["export_refused"] = o.probes.get("export_refused", 0) + 1
                    if not (hit or full):
                        o.bad("spurious", "%s: export of step %s failed with nothing wrong: %s" % (what, w[1], l))
                elif w[0] == "args" and w[1] != "x,y":
                    o.bad("args", "%s: arguments of the loaded program are %s" % (what, l))
            last = mine[-1].split() if mine else [""]
            inexp = last[0] == "export" and last[2] in ("Fn", "ML")
            if r.timeout:
                o.bad("hang", "%s does not end: %s" % (what, r.brief()))
            elif r.sig is not None:
                o.bad("crash", "%s died: %s" % (what, r.brief()))
            elif got != exp[:len(got)]:
                o.bad("result", "%s computed other results than the program run in one go: %s" % (what, [(x, y) for x, y in zip(exp, got) if x != y][:1]))
            elif r.how == "sigdfl" and not mine and not first:
                o.probes["signal_before_handlers"] = o.probes.get("signal_before_handlers", 0) + 1
            elif r.how == "kill":
                if inexp:
                    good[int(last[1])] = False
            elif r.code == 0:
                if inexp and last[2] == "Fn":
                    if lost:
                        o.bad("unreported", "%s: the export of step %s ended with success although %s" % (what, last[1], lost))
                    good[int(last[1])] = True
                    o.probes["exported"] = o.probes.get("exported", 0) + 1
                elif got != exp and not (last[0] == "failed" and [int(last[1]), "Fn"] in case["exps"]):
                    o.bad("result", "%s ended early: %s %s" % (what, mine[-1:], r.brief()))
            else:
                loaded = bool(mine)
                if not r.err.strip():
                    o.bad("silent", "%s failed without a diagnostic: %s" % (what, r.brief()))
                elif b"bogus" in r.err or b"fault" in r.err:
                    o.bad("crash", "%s died by a memory fault: %s" % (what, r.brief()))
                elif inexp and (hit or full):
                    good[int(last[1])] = False
                    o.probes["export_died"] = o.probes.get("export_died", 0) + 1
                elif not loaded and not first and (expect == "either" or [l for l in hit if " err " in l]):
                    o.probes["image_refused"] = o.probes.get("image_refused", 0) + 1
                else:
                    o.bad("failed", "%s failed: %s %s" % (what, mine[-1:], r.brief()))
            if not o.viol and expect == "refused" and mine:
                o.bad("accepted", "%s: a damaged image was executed: %s" % (what, mine[:2]))
            return r

        if case.get("end"):
            how, back, k = case["end"]
            r = run_sim(wd, image("gcw"), args + [case["mode"]] + [x for e in case["exps"] for x in e], {"hdr": {}, "ev": case["plan"]["ev"]}, rtargs=case["rt"][0], name="dry", timeout=100)
            o.add(r)
            nw = counts(r.end.get("cc")).get("fwrite", 0)
            if how == "err" and nw > back:
                case = dict(case, plan={"hdr": case["plan"]["hdr"], "ev": case["plan"]["ev"] + [["C", "fwrite", nw - 1 - back, "err", [EIO, ENOSPC][k % 2]]]})
            elif how == "disk":
                case = dict(case, plan={"hdr": dict(case["plan"]["hdr"], disk=max(0, int(r.end.get("dw", 0)) - k)), "ev": case["plan"]["ev"]})
        stage(0, image("gcw"), 0, True, "right")
        no = 0
        lastgood = None
        for k, kind in case["exps"]:
            p = os.path.join(wd, "img%d" % k)
            if k not in good or not os.path.exists(p + ".amd64-linux") or o.viol:
                continue
            no += 1
            if good[k]:
                lastgood = k
            stage(no, p, k, False, "right" if good[k] else "either")
        if lastgood is not None and not o.viol:
            src = os.path.join(wd, "img%d.amd64-linux" % lastgood)
            data = open(src, "rb").read()
            for j, t in enumerate(case["trunc"]):
                ln = min(len(data) - 1, t if isinstance(t, int) else int(len(data) * t))
                with open(os.path.join(wd, "cut.amd64-linux"), "wb") as f:
                    f.write(data[:ln])
                r = run_sim(wd, os.path.join(wd, "cut"), ["x", "y z"], {"hdr": {}}, name="t%d" % j, timeout=100)
                o.add(r)
                o.probes["truncated"] = o.probes.get("truncated", 0) + 1
                mine = [l for l in r.log if l[:1] not in "@#"]
                if r.timeout:
                    o.bad("hang", "image of %d bytes cut to %d: the process does not end: %s" % (len(data), ln, r.brief()))
                elif r.sig is not None or b"bogus" in r.err or b"fault" in r.err.replace(b"default", b""):
                    o.bad("crash", "image of %d bytes cut to %d: the process died: %s" % (len(data), ln, r.brief()))
                elif mine or r.code == 0:
                    o.bad("accepted", "image of %d bytes cut to %d was executed: %s %s" % (len(data), ln, mine[:2], r.brief()))
                elif not r.err.strip():
                    o.bad("silent", "image of %d bytes cut to %d was refused without a diagnostic: %s" % (len(data), ln, r.brief()))
        o.sig = o.digest
        return o

    def shrink(self, case):
        for j in range(len(case["exps"])):
            if len(case["exps"]) > 1:
                yield dict(case, exps=case["exps"][:j] + case["exps"][j + 1:])
        for j in range(len(case["trunc"])):
            if len(case["trunc"]) > 1:
                yield dict(case, trunc=[case["trunc"][j]])
        if any(case["rt"]):
            yield dict(case, rt=[[], [], [], []])
        top = max(e[0] for e in case["exps"])
        for n in (case["n"] // 2, case["n"] * 3 // 4, case["n"] - 1):
            if top < n < case["n"]:
                yield dict(case, n=n)


CHECK = C04()
