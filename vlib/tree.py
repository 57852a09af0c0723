"""Build a private copy of /repo's working tree (outside /repo) and the simulation runtime.

The seed compiler (/opt/smlnj-boot/amd64) is a built copy of the original commit; we copy it,
overlay every file of /repo whose content differs, let the batch compiler and CM recompile what
is affected, and link the C runtime of /repo with sim/simrt.c.
"""
import filecmp, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = "/opt/smlnj-boot/amd64"
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
T = os.path.join(BUILD, "tree")
ARCH = "amd64-unix"
HEAP = os.path.join(T, "bin/.heap/sml.amd64-linux")
SIMRT = os.path.join(BUILD, "simrt")


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=600, check=True, inp=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL if inp is None else None,
                       input=inp, timeout=timeout)
    out = r.stdout.decode("utf-8", "replace")
    if check and r.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (r.returncode, cmd, out[-3000:]))
    return out


def repo_files():
    out = subprocess.run(["git", "-c", "safe.directory=*", "ls-files", "-z", "-c", "-o", "--exclude-standard"],
                         cwd=REPO, stdout=subprocess.PIPE, check=True).stdout
    return sorted(set(f.decode() for f in out.split(b"\0") if f))


def tree_hash(files):
    h = hashlib.sha256()
    for f in files:
        p = os.path.join(REPO, f)
        if os.path.isfile(p):
            h.update(f.encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def clean_env():
    e = {"HOME": "/root", "LANG": "C.UTF-8", "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
         "CM_VERBOSE": "false"}
    return e


def overlay(files):
    changed = []
    for f in files:
        src, dst = os.path.join(REPO, f), os.path.join(T, f)
        if os.path.islink(src) or not os.path.isfile(src):
            continue
        if os.path.isfile(dst) and filecmp.cmp(src, dst, shallow=False):
            continue
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        if os.path.exists(dst):
            os.chmod(dst, 0o644)
            os.unlink(dst)
        shutil.copyfile(src, dst)
        shutil.copymode(src, dst)
        changed.append(f)
    return changed


GEN = [("yacc", "base/cm/parse/cm.grm", ["sig", "sml"]), ("lex", "base/cm/parse/cm.lex", ["sml"]),
       ("yacc", "base/compiler/Parse/parse/ml.grm", ["sig", "sml"]),
       ("yacc", "base/compiler/Parse/parse/sml.grm", ["sig", "sml"]),
       ("lex", "base/compiler/Parse/lex/ml.lex", ["sml"]), ("lex", "base/compiler/Parse/lex/sml.lex", ["sml"])]


def generate(changed):
    tmp = os.path.join(BUILD, "gen")
    for kind, src, sufs in GEN:
        if src not in changed and all(os.path.exists(os.path.join(T, src + "." + s)) for s in sufs):
            continue
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        b = os.path.basename(src)
        shutil.copyfile(os.path.join(T, src), os.path.join(tmp, b))
        tool = [SEED + "/bin/ml-yacc", b] if kind == "yacc" else [SEED + "/bin/ml-ulex", "--ml-lex-mode", b]
        sh(tool, cwd=tmp, env=clean_env())
        for s in sufs:
            p = os.path.join(tmp, b + "." + s)
            if not os.path.exists(p):
                raise BuildError("no %s.%s generated" % (src, s))
            shutil.copyfile(p, os.path.join(T, src + "." + s))
    if any(c in changed for c in ("config/version", "config/releasedate", "base/system/smlnj/internal/version.template")):
        v = open(T + "/config/version").readline().strip()
        suffix = ""
        if "-" in v:
            v, suffix = v.split("-", 1)
        d = open(T + "/config/releasedate").readline().strip()
        t = open(T + "/base/system/smlnj/internal/version.template").read()
        t = t.replace("%V", v.replace(".", ","), ).replace("%S", suffix).replace("%D", d).replace("%F", "version.sml")
        open(T + "/base/system/smlnj/internal/version.sml", "w").write(t)
    shutil.rmtree(tmp, ignore_errors=True)


def build_runtime():
    objs = T + "/base/runtime/objs"
    env = clean_env()
    mk = ["make", "-f", "mk.amd64-linux"]
    sh("rm -f run.* *.o; make -f mk.amd64-linux clean; echo v-amd64-linux > v-amd64-linux", cwd=objs, env=env, check=False)
    # generated headers first (this stops at the first object that needs a later header), then in parallel
    sh(mk + ["RUNTIME=mlstate-offsets.h"], cwd=objs, env=env, check=False)
    out = sh(mk + ["-j8"], cwd=objs, env=env, check=False)
    if not os.path.exists(objs + "/run.amd64-linux"):
        out = sh(mk, cwd=objs, env=env, check=False)
    if not os.path.exists(objs + "/run.amd64-linux"):
        raise BuildError("runtime does not build\n" + out[-3000:])
    link = [l for l in out.splitlines() if " -o run.amd64-linux " in l]
    if not link:
        raise BuildError("no link line found")
    return link[-1].strip()


DEFS = ("-DARCH_AMD64 -DSIZE_64 -DOPSYS_UNIX -DOPSYS_LINUX -D_GNU_SOURCE -DGNU_ASSEMBLER -DDLOPEN "
        "-DINDIRECT_CFUNC").split()


def build_simrt(link):
    objs = T + "/base/runtime/objs"
    src = VERIF + "/sim/simrt.c"
    o = BUILD + "/simrt.o"
    sh(["gcc", "-std=gnu99", "-O2", "-g", "-m64", "-fno-strict-aliasing"] + DEFS
       + ["-I.", "-I../include", "-I../gc", "-c", "-o", o, src], cwd=objs, env=clean_env())
    text = open(src).read() + open(VERIF + "/sim/simos.c").read()
    syms = sorted(set(re.findall(r"__wrap_(\w+) \(", text)) - {"", "##name"})
    syms = sorted(set(syms) | set(re.findall(r"^SIMPLE[12]\((\w+),", text, re.M)))
    flags = " ".join("-Wl,--wrap=%s" % s for s in syms)
    cmd = link.replace("-o run.amd64-linux", "-o %s" % SIMRT).replace(" main.o ", " %s %s main.o " % (flags, o))
    if cmd == link:
        raise BuildError("cannot edit link line: " + link)
    sh(cmd, cwd=objs, env=clean_env())


ANCHORS = """basis.cm smlnj/basis
smlnj-lib.cm smlnj/smlnj-lib
pp-lib.cm smlnj/smlnj-lib
controls-lib.cm smlnj/smlnj-lib
ml-yacc-lib.cm smlnj/ml-yacc
cml %T/cml/src
cml-lib %T/cml/cml-lib/cm-descr
unix-lib.cm %T/smlnj-lib/Unix
inet-lib.cm %T/smlnj-lib/INet
reactive-lib.cm %T/smlnj-lib/Reactive
json-lib.cm %T/smlnj-lib/JSON
xml-lib.cm %T/smlnj-lib/XML
sexp-lib.cm %T/smlnj-lib/SExp
html-lib.cm %T/smlnj-lib/HTML
html4-lib.cm %T/smlnj-lib/HTML4
hash-cons-lib.cm %T/smlnj-lib/HashCons
regexp-lib.cm %T/smlnj-lib/RegExp
uuid-lib.cm %T/smlnj-lib/UUID
ml-lpt-lib.cm %T/ml-lpt/lib
"""

RUNS = (SEED + "/bin/.run/run.amd64-linux", T + "/base/runtime/objs/run.amd64-linux")


def other_run():
    """switch the image builder to the runtime system under test (a workload did not build with the seed's)"""
    cur = T + "/bin/.run/run.amd64-linux"
    if filecmp.cmp(cur, RUNS[1], shallow=False):
        return False
    os.unlink(cur)
    shutil.copy(RUNS[1], cur)
    return True


def build(verbose=True):
    """Returns dict of timing information; leaves tree T and SIMRT."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    files = repo_files()
    simsrc = open(VERIF + "/sim/simrt.c", "rb").read() + open(VERIF + "/sim/simos.c", "rb").read() + open(os.path.abspath(__file__), "rb").read()
    stamp = tree_hash(files) + hashlib.sha256(simsrc + BUILD.encode()).hexdigest()
    sp = BUILD + "/stamp"
    if os.path.exists(sp) and open(sp).read() == stamp and os.path.exists(SIMRT) and os.path.exists(HEAP):
        return {"stamp": stamp, "build_s": time.time() - t0, "reused": True}
    shutil.rmtree(BUILD, ignore_errors=True)
    os.makedirs(BUILD)
    sh(["cp", "-a", SEED, T])
    changed = overlay(files)
    generate(changed)
    link = build_runtime()
    build_simrt(link)
    env = clean_env()
    out = sh(["./cmb-make", "-64", SEED + "/bin/sml"], cwd=T + "/base/system", env=env, check=False)
    if "New boot directory has been built" not in out or "Error:" in out:
        raise BuildError("compiling the compiler failed\n" + out[-3000:])
    # The heap images are made with the seed's runtime system where possible, so that a fault of the
    # runtime system under test shows up in the simulated runs and not as a build that fails.
    for run in RUNS:
        for d in ("bin", "lib", "sml.boot." + ARCH, "sml." + ARCH, "sml.lib"):
            shutil.rmtree(os.path.join(T, d), ignore_errors=True)
        sh(["cp", "-r", "base/system/sml.boot." + ARCH, "."], cwd=T)
        os.makedirs(T + "/bin/.run")
        shutil.copy(run, T + "/bin/.run/")
        out = sh(["config/install.sh", "-64", "-nolib"], cwd=T, env=env, check=False)
        if os.path.exists(HEAP):
            break
    else:
        raise BuildError("no heap image\n" + out[-3000:])
    with open(T + "/lib/pathconfig", "a") as f:
        f.write(ANCHORS.replace("%T", T))
    open(sp, "w").write(stamp)
    return {"stamp": stamp, "build_s": time.time() - t0, "reused": False, "changed": changed}


def sml(script, cwd=None, timeout=300, args=()):
    """Run a script in the interactive system of the built tree; returns output."""
    r = subprocess.run([T + "/bin/sml"] + list(args), input=script.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       cwd=cwd, env=clean_env(), timeout=timeout)
    return r.stdout.decode("utf-8", "replace")


if __name__ == "__main__":
    print(build())
