"""Seeded search over simulated runs: case generation, parallel execution, gating, minimisation, evidence."""
import hashlib, importlib, json, multiprocessing as mp, os, random, resource, shutil, signal, subprocess, sys, tempfile, time, traceback
from . import tree
from .tree import VERIF, BUILD, T, SIMRT

NPROC = int(os.environ.get("VERIF_NPROC", "8"))


class Result:
    """Outcome of one simulated process."""
    __slots__ = ("code", "sig", "log", "out", "err", "end", "timeout")

    def __init__(self):
        self.code = None; self.sig = None; self.log = []; self.out = b""; self.err = b""; self.end = {}; self.timeout = False

    @property
    def how(self):
        return self.end.get("how", "none")

    def brief(self):
        return "code=%s sig=%s timeout=%s end=%s err=%r" % (self.code, self.sig, self.timeout, self.how, self.err[-300:])


CPU_S = int(os.environ.get("VERIF_CPU_S", "25"))   # a run that uses this much processor time does not end (normal runs: a few seconds)


def cpu_limit():
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_S, CPU_S + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def plan_text(plan):
    l = []
    for k, v in sorted(plan.get("hdr", {}).items()):
        l.append("%s %s" % (k, v) if v is not True else k)
    ev = plan.get("ev", [])
    for e in sorted([e for e in ev if e[0] == "A"], key=lambda e: e[1]):
        l.append(" ".join(str(x) for x in e))
    for e in ev:
        if e[0] != "A":
            l.append(" ".join(str(x) for x in e))
    return "\n".join(l) + "\n"


def run_sim(wd, image, args=(), plan=None, timeout=30, stdin=b"", rtargs=(), cwd=None, name="r", env=None, keep_log=True):
    """Run one process of the system under the simulator."""
    r = Result()
    pf, of = os.path.join(wd, name + ".plan"), os.path.join(wd, name + ".log")
    with open(pf, "w") as f:
        f.write(plan_text(plan or {}))
    if os.path.exists(of):
        os.unlink(of)
    e = {"HOME": "/root", "LANG": "C.UTF-8", "PATH": "/usr/bin:/bin", "SIM_PLAN": pf, "SIM_OUT": of, "CM_VERBOSE": "false"}
    if env:
        e.update(env)
    # files, not pipes: what a process sees on its standard streams must not depend on when we serve them
    sf = os.path.join(wd, name + ".std")
    with open(sf + "in", "wb") as f:
        f.write(stdin)
    with open(sf + "in", "rb") as fi, open(sf + "out", "wb") as fo, open(sf + "err", "wb") as fe:
        p = subprocess.Popen([SIMRT, "@SMLload=" + image] + list(rtargs) + [str(a) for a in args], stdin=fi if stdin else subprocess.DEVNULL,
                             stdout=fo, stderr=fe, env=e, cwd=cwd or wd, start_new_session=True,
                             preexec_fn=cpu_limit)
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            r.timeout = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
    with open(sf + "out", "rb") as f:
        r.out = f.read()
    with open(sf + "err", "rb") as f:
        r.err = f.read()
    if p.returncode == -signal.SIGXCPU:
        r.timeout = True
    if p.returncode < 0:
        r.sig = -p.returncode
    else:
        r.code = p.returncode
    if os.path.exists(of) and keep_log:
        with open(of, "rb") as f:
            lines = f.read().decode("latin-1").split("\n")
        for l in lines:
            if l.startswith("#END "):
                for kv in l[5:].split():
                    if "=" in kv:
                        k, v = kv.split("=", 1)
                        r.end[k] = v
            elif l:
                r.log.append(l)
    return r


def counts(s):
    d = {}
    for kv in (s or "").split(","):
        if ":" in kv:
            k, v = kv.rsplit(":", 1)
            d[k] = d.get(k, 0) + int(v)
    return d


class Outcome:
    def __init__(self):
        self.viol = []        # list of (class, text)
        self.digest = ""      # deterministic digest of the run
        self.vt = 0           # virtual ns
        self.stats = {}       # fault counts
        self.probes = {}      # rare-condition probes
        self.sig = ""         # interleaving/state signature
        self.nontrivial = True
        self.sims = 0         # simulated processes

    def add(self, r):
        """account for a Result"""
        self.sims += 1
        for k, v in counts(r.end.get("st")).items():
            self.stats[k] = self.stats.get(k, 0) + v
        self.vt += int(r.end.get("vt", 0) or 0)
        self.digest += "%s|%s|%s|%s;" % (r.end.get("hash"), r.code, r.sig, r.how)
        for l in r.log:
            if l.startswith("!BAD "):
                w = l[5:].split(" ", 1)
                self.viol.append((w[0], l[5:]))
            elif l.startswith("!PROBE "):
                for k in l[7:].split():
                    self.probes[k] = self.probes.get(k, 0) + 1
        return r

    def bad(self, cls, text):
        self.viol.append((cls, text))


class Check:
    """One property.  Subclasses define: id, images(), gen(rng, tier, i) -> case (JSON), run(case, wd) -> Outcome."""
    id = None
    level = "exploration"
    quick_s = 40
    thorough_s = 600
    minimise_s = 60
    rule = ""
    real = "C runtime system, Basis library and compiler output of /repo's working tree"
    stub = "clock, timers, signals' arrival, readiness and outcomes of system calls"
    assumptions = []
    setup_extra = None

    def images(self):
        return {}

    def prebuild(self, src):
        """make sources of the workloads in src, a copy of ml"""

    def prepare(self, bd):
        """extra preparation after the images are built"""

    def gen(self, rng, tier, i):
        raise NotImplementedError

    def run(self, case, wd):
        raise NotImplementedError

    def shrink(self, case):
        """yield smaller variants of the case other than dropping plan events"""
        return iter(())

    def known(self, case, viol):
        return None


IMG = os.path.join(BUILD, "img")


def build_images(check, log=sys.stderr):
    """compile the ML workloads of a check with the tree's own compiler and export heap images"""
    os.makedirs(IMG, exist_ok=True)
    src = os.path.join(BUILD, "ml")
    imgs = check.images()
    jobs = []
    stamp = open(BUILD + "/stamp").read()
    for name, (cm, main) in sorted(imgs.items()):
        h = hashlib.sha256(stamp.encode())
        for root in ("ml/common", os.path.dirname("ml/" + cm)):
            for dp, dn, fn in sorted(os.walk(os.path.join(VERIF, root))):
                dn.sort()
                for f in sorted(fn):
                    if "/.cm" in dp:
                        continue
                    h.update(f.encode() + open(os.path.join(dp, f), "rb").read())
        key = h.hexdigest()
        out = os.path.join(IMG, name + ".amd64-linux")
        kf = os.path.join(IMG, name + ".key")
        if os.path.exists(out) and os.path.exists(kf) and open(kf).read() == key:
            continue
        jobs.append((name, cm, main, key, out, kf))
    if not jobs:
        return
    sh = ["rsync"] if False else ["cp", "-r", os.path.join(VERIF, "ml") + "/.", src]
    shutil.rmtree(src, ignore_errors=True)
    os.makedirs(src)
    tree.sh(sh)
    check.prebuild(src)
    for name, cm, main, key, out, kf in jobs:
        if os.path.exists(out):
            os.unlink(out)
        script = 'if CM.make "%s" then () else OS.Process.exit OS.Process.failure;\nSMLofNJ.exportFn ("%s", %s);\n' % (
            os.path.join(src, cm), os.path.join(IMG, name), main)
        o = tree.sml(script, cwd=src)
        if not os.path.exists(out) and tree.other_run():
            o = tree.sml(script, cwd=src)
        if not os.path.exists(out):
            raise tree.BuildError("workload %s does not build:\n%s" % (name, o[-4000:]))
        open(kf, "w").write(key)


def image(name):
    return os.path.join(IMG, name)


# ------------------------------------------------------------------ search

def case_rng(seed, cid, i):
    return random.Random(int.from_bytes(hashlib.sha256(("%s/%s/%s" % (seed, cid, i)).encode()).digest()[:8], "big"))


def one(check, case, wd):
    for f in os.listdir(wd):
        p = os.path.join(wd, f)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            os.unlink(p)
    return check.run(case, wd)


def scratch(check, tag):
    base = os.path.join(BUILD, "run")
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(prefix="%s-%s-" % (check.id, tag), dir=base)


def worker(check, seed, tier, wid, deadline, counter, stop, q):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    wd = scratch(check, "w%d" % wid)
    agg = {"runs": 0, "sims": 0, "vt": 0, "stats": {}, "probes": {}, "sigs": set(), "nontrivial": 0, "samples": [], "bad": [], "err": None, "known": {}, "slow": 0.0}
    try:
        while time.time() < deadline and not stop.value:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            case = check.gen(case_rng(seed, check.id, i), tier, i)
            tr = time.time()
            o = one(check, case, wd)
            agg["slow"] = max(agg["slow"], time.time() - tr)
            agg["runs"] += 1
            agg["sims"] += o.sims
            agg["vt"] += o.vt
            for k, v in o.stats.items():
                agg["stats"][k] = agg["stats"].get(k, 0) + v
            for k, v in o.probes.items():
                agg["probes"][k] = agg["probes"].get(k, 0) + v
            if o.nontrivial:
                s = hashlib.sha1((o.sig or o.digest).encode()).digest()[:8]
                agg["sigs"].add(s)
                agg["nontrivial"] += 1
            if len(agg["samples"]) < 2 and o.nontrivial:
                agg["samples"].append({"run": i, "case": case, "digest": o.digest[:200]})
            if o.viol:
                rest = []
                for v in o.viol:
                    k = check.known(case, v)
                    if k:
                        agg["known"][k] = agg["known"].get(k, 0) + 1
                    else:
                        rest.append(v)
                if rest:
                    agg["bad"].append((i, case, rest, o.digest))
                    stop.value = 1
                    break
    except Exception:
        agg["err"] = traceback.format_exc()
        stop.value = 1
    q.put(agg)
    shutil.rmtree(wd, ignore_errors=True)


def viol_classes(check, case, o):
    return set(v[0] for v in o.viol if not check.known(case, v))


def minimise(check, case, cls, wd, budget):
    """ddmin over the plan's events, then the check's own shrinkers; keeps the violation class"""
    t_end = time.time() + budget

    def fails(c):
        try:
            o = one(check, c, wd)
        except Exception:
            return False
        return cls in viol_classes(check, c, o)

    def with_ev(ev):
        c = json.loads(json.dumps(case))
        c["plan"]["ev"] = ev
        return c
    steps = 0
    changed = True
    while changed and time.time() < t_end:
        changed = False
        ev = case.get("plan", {}).get("ev", [])
        n = 2
        while len(ev) >= 1 and time.time() < t_end:
            size = max(1, len(ev) // n)
            hit = False
            i = 0
            while i < len(ev) and time.time() < t_end:
                cand = ev[:i] + ev[i + size:]
                steps += 1
                if fails(with_ev(cand)):
                    ev = cand
                    hit = True
                    changed = True
                else:
                    i += size
            if size == 1 and not hit:
                break
            if not hit:
                n = min(len(ev), n * 2) or 1
                if size == 1:
                    break
            else:
                n = max(2, n // 2)
        if "plan" in case:
            case = with_ev(ev)
        for cand in check.shrink(case):
            if time.time() > t_end:
                break
            steps += 1
            if fails(cand):
                case = cand
                changed = True
                break
    return case, steps


def write_replay(check, case, viol, digest, extra):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (check.id, hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]))
    with open(p, "w") as f:
        json.dump({"property": check.id, "case": case, "violations": [list(v) for v in viol], "digest": digest, **extra}, f, indent=1)
    return p


def fresh_replay(path):
    """replay in a fresh interpreter; returns (classes, digest)"""
    r = subprocess.run([sys.executable, os.path.join(VERIF, "run.py"), "replay-raw", path], stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=dict(os.environ, PYTHONHASHSEED="7"), timeout=300)
    try:
        j = json.loads(r.stdout.decode().strip().splitlines()[-1])
        return set(j["classes"]), j["digest"]
    except Exception:
        return None, r.stderr.decode()[-2000:]


def search(check, seed, tier, budget_s):
    ctx = mp.get_context("fork")
    counter = ctx.Value("l", 0)
    stop = ctx.Value("i", 0)
    q = ctx.Queue()
    deadline = time.time() + budget_s
    ps = [ctx.Process(target=worker, args=(check, seed, tier, w, deadline, counter, stop, q)) for w in range(NPROC)]
    for p in ps:
        p.start()
    aggs = [q.get() for _ in ps]
    for p in ps:
        p.join()
    return aggs


def merge(aggs):
    m = {"runs": 0, "sims": 0, "vt": 0, "stats": {}, "probes": {}, "sigs": set(), "nontrivial": 0, "samples": [], "bad": [], "known": {}, "err": None, "slow": 0.0}
    for a in aggs:
        m["slow"] = max(m["slow"], a["slow"])
        for k in ("runs", "sims", "vt", "nontrivial"):
            m[k] += a[k]
        for d in ("stats", "probes", "known"):
            for k, v in a[d].items():
                m[d][k] = m[d].get(k, 0) + v
        m["sigs"] |= a["sigs"]
        m["samples"] += a["samples"]
        m["bad"] += a["bad"]
        m["err"] = m["err"] or a["err"]
    m["bad"].sort(key=lambda b: b[0])
    return m


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def do_check(cid, tier=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    check = load(cid)
    binfo = tree.build()
    build_images(check)
    check.prepare(BUILD)
    shutil.rmtree(os.path.join(BUILD, "run"), ignore_errors=True)
    print("check %s tier=%s seed=%d build=%.1fs" % (cid, tier, seed, time.time() - t0), flush=True)
    budget = float(os.environ.get("VERIF_BUDGET_S", check.quick_s if tier == "quick" else check.thorough_s))
    # determinism probe: the first cases twice, in different processes
    ts = time.time()
    wd = scratch(check, "det")
    det = 0
    for i in range(4):
        case = check.gen(case_rng(seed, check.id, i), tier, i)
        a = one(check, case, wd)
        if a.viol:
            break       # left to the search
        b = one(check, case, wd)
        if a.digest != b.digest:
            if not (a.viol and b.viol):
                print("ERROR: run %d is not deterministic:\n %s\n %s" % (i, a.digest[:500], b.digest[:500]))
                return 2
        det += 1
    shutil.rmtree(wd, ignore_errors=True)
    m = merge(search(check, seed, tier, budget))
    search_s = time.time() - ts
    if m["err"]:
        print("ERROR in the machinery:\n" + m["err"])
        return 2
    rc = 0
    viols = 0
    done_cls = set()
    for i, case, viol, digest in m["bad"]:
        cls = viol[0][0]
        if cls in done_cls:
            continue
        done_cls.add(cls)
        wd = scratch(check, "min")
        # gate: the same case must fail again in the same way
        o2 = one(check, case, wd)
        if cls not in viol_classes(check, case, o2):
            print("ERROR: violation %s of run %d did not reproduce: %s" % (cls, i, viol[:2]))
            rc = max(rc, 2) if rc != 1 else 1
            continue
        n0 = len(case.get("plan", {}).get("ev", []))
        small, steps = minimise(check, case, cls, wd, check.minimise_s)
        o3 = one(check, small, wd)
        path = write_replay(check, small, o3.viol, o3.digest, {"seed": seed, "run": i, "tier": tier, "events_before": n0,
                            "events_after": len(small.get("plan", {}).get("ev", [])), "minimiser_steps": steps})
        shutil.rmtree(wd, ignore_errors=True)
        cl, dg = fresh_replay(path)
        if cl is None or cls not in cl:
            # fall back to the unminimised case
            path = write_replay(check, case, viol, digest, {"seed": seed, "run": i, "tier": tier})
            cl, dg = fresh_replay(path)
        if cl is None or cls not in cl:
            print("ERROR: violation %s does not replay from %s (%s)" % (cls, path, dg))
            if rc != 1:
                rc = 2
            continue
        viols += 1
        rc = 1
        for v in o3.viol[:5]:
            print("  " + v[1][:400])
        print("VIOLATION property=%s replay=%s" % (cid, path), flush=True)
        break
    for k in known_findings():
        if k.get("property") == cid and k.get("status") == "known":
            print("KNOWN-FINDING: property=%s %s" % (cid, k["what"]))
    hours = search_s / 3600.0
    ev = {"property": cid, "tier": tier, "seed": seed, "level": check.level,
          "coverage": {
              "evaluations": m["runs"], "distinct_nontrivial": len(m["sigs"]), "rule": check.rule,
              "samples": m["samples"][:3],
              "simulated_processes": m["sims"], "runs_per_hour": int(m["runs"] / hours) if hours > 0 else 0,
              "seeds_per_hour": int(m["runs"] / hours) if hours > 0 else 0,
              "simulated_seconds": round(m["vt"] / 1e9, 3),
              "faults_injected": dict(sorted(m["stats"].items())), "rare_condition_probes": dict(sorted(m["probes"].items())),
              "determinism_reruns": det, "slowest_run_s": round(m["slow"], 1), "known_finding_hits": m["known"],
              "real_components": check.real, "stub_components": check.stub, "build_s": round(binfo["build_s"], 1)},
          "assumptions": check.assumptions, "wall_s": round(time.time() - t0, 1), "violations": viols}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d runs, %d distinct, %.1f simulated s, faults %s, probes %s, slowest %.1f s, %.0f s%s" % (
        cid, m["runs"], len(m["sigs"]), m["vt"] / 1e9, m["stats"], m["probes"], m["slow"], time.time() - t0, "" if rc == 0 else " -> rc %d" % rc), flush=True)
    return rc


def load(cid):
    sys.path.insert(0, VERIF)
    mod = importlib.import_module("checks.%s" % cid.lower())
    return mod.CHECK


def do_replay(path, raw=False):
    j = json.load(open(path))
    check = load(j["property"])
    tree.build()
    build_images(check)
    check.prepare(BUILD)
    wd = scratch(check, "replay")
    o = one(check, j["case"], wd)
    shutil.rmtree(wd, ignore_errors=True)
    cl = sorted(viol_classes(check, j["case"], o))
    if raw:
        print(json.dumps({"classes": cl, "digest": o.digest}))
        return 0
    for v in o.viol:
        print("  " + v[1][:1000])
    same = o.digest == j.get("digest")
    print("replay: %s, digest %s" % ("VIOLATION " + ",".join(cl) if cl else "no violation", "identical" if same else "differs"))
    if cl:
        print("VIOLATION property=%s replay=%s" % (j["property"], path))
        return 1
    return 0
