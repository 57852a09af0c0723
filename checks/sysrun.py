"""Shared by C20, C22 and C23: runs of ml/sys/sysw.sml against the simulated operating system (sim/simos.c)."""
import calendar
import errno as E
import os
import time

from vlib.driver import Check, Outcome, run_sim, image
from checks.c01 import gc_events, geometry

ERRNOS = sorted(set(E.errorcode) - {E.EINTR})
ZONES = ["UTC0", "EST5", "PST8PDT,M3.2.0,M11.1.0", "XXX-5:45", "AEST-10AEDT,M10.1.0,M4.1.0/3", "NST3:30NDT,M3.2.0,M11.1.0", "LHS-13", "BBB12"]


def enc(b):
    if len(b) <= 24:
        return "x" + b.hex()
    h = 7
    for c in b:
        h = (h * 257 + c) % 1000003
    return "h%d:%d" % (len(b), h)


# values of this platform (linux, generic architecture ABI), for the constants tables
CONST = {
    "POSIX-FileSys": dict(A_EXEC=1, A_FILE=0, A_READ=4, A_WRITE=2, O_APPEND=0o2000, O_CREAT=0o100, O_DSYNC=0o10000, O_EXCL=0o200, O_NOCTTY=0o400, O_NONBLOCK=0o4000, O_RDONLY=0, O_RDWR=2,
                          O_RSYNC=0o4010000, O_SYNC=0o4010000, O_TRUNC=0o1000, O_WRONLY=1, irgrp=0o40, iroth=4, irusr=0o400, irwxg=0o70, irwxo=7, irwxu=0o700, isgid=0o2000, isuid=0o4000, iwgrp=0o20, iwoth=2,
                          iwusr=0o200, ixgrp=0o10, ixoth=1, ixusr=0o100),
    "POSIX-IO": dict(F_GETLK=5, F_RDLCK=0, F_SETLK=6, F_SETLKW=7, F_UNLCK=2, F_WRLCK=1, SEEK_CUR=1, SEEK_END=2, SEEK_SET=0, cloexec=1),
    "POSIX-Process": dict(WNOHANG=1, WUNTRACED=2),
    "POSIX-Signal": dict(abrt=6, alrm=14, bus=7, chld=17, cont=18, fpe=8, hup=1, ill=4, int=2, kill=9, pipe=13, quit=3, segv=11, stop=19, term=15, tstp=20, ttin=21, ttou=22, usr1=10, usr2=12),
}


def tty_consts():
    import termios as T
    d = {}
    for n in ("B0 B110 B1200 B134 B150 B1800 B19200 B200 B2400 B300 B38400 B4800 B50 B600 B75 B9600 BRKINT CLOCAL CREAD CS5 CS6 CS7 CS8 CSIZE CSTOPB ECHO ECHOE ECHOK ECHONL HUPCL ICANON ICRNL IEXTEN IGNBRK "
              "IGNCR IGNPAR INLCR INPCK ISIG ISTRIP IXOFF IXON NOFLSH OPOST PARENB PARMRK PARODD TCIFLUSH TCIOFF TCIOFLUSH TCION TCOFLUSH TCOOFF TCOON TCSADRAIN TCSAFLUSH TCSANOW TOSTOP").split():
        d[n] = getattr(T, n)
    for n in "EOF EOL ERASE INTR KILL MIN QUIT START STOP SUSP TIME".split():
        d[n] = getattr(T, "V" + n)
    d["NCCS"] = 32
    return d


CONST["POSIX-TTY"] = tty_consts()


def tmtuple(t):
    return "%d %d %d %d %d %d %d %d %d" % (t.tm_sec, t.tm_min, t.tm_hour, t.tm_mday, t.tm_mon - 1, t.tm_year, (t.tm_wday + 1) % 7, t.tm_yday - 1, t.tm_isdst)


class Zone:
    """the C library's own calendar, in this process"""
    def __init__(self, tz):
        self.tz = tz

    def __enter__(self):
        self.old = os.environ.get("TZ")
        os.environ["TZ"] = self.tz
        time.tzset()

    def __exit__(self, *a):
        if self.old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = self.old
        time.tzset()


def offset(sec):
    t = time.localtime(sec)
    return calendar.timegm(t) - sec      # local - UTC


def date_ok(line):
    """None or what is wrong with one D line"""
    l, _, res = line.partition(" -> ")
    w = l.split()
    nm, t = w[1], int(w[-1])
    sec = t // 1000000000
    if nm == "gm":
        want = tmtuple(time.gmtime(sec))
    elif nm == "local":
        want = tmtuple(time.localtime(sec))
    elif nm == "offset":
        # the offset is computed by reading the UTC calendar as local time: leave out the neighbourhood of a change
        o = -offset(sec)
        if any(-offset(sec + d) != o for d in range(-93600, 93601, 1800)):
            return None
        want = str(o)
    elif nm == "fmt":
        f = bytes.fromhex(w[3]).decode("latin1")
        want = time.strftime(f, time.gmtime(sec)).encode("latin1").hex()
        if len(want) // 2 >= 512:
            want = "exn"        # the runtime's documented failure: result does not fit
            if res != "exn" and res == time.strftime(f, time.gmtime(sec)).encode("latin1").hex():
                return None
    elif nm == "mk":
        o = offset(sec)
        if any(offset(sec + d) != o for d in range(-93600, 93601, 1800)):
            return None
        want = str(sec * 1000000000)
    elif nm == "date":
        want = time.strftime("%a %b %d %H:%M:%S %Y", time.gmtime(sec))
    else:
        return "unknown date operation"
    return None if res == want else "%s: got %s, the calendar says %s" % (l, res, want)


def pairs(log):
    """pair what the program saw (M) with what the system saw (@O); returns (n, first difference or None, names seen)"""
    O, M = [], []
    for l in log:
        if l.startswith("@O "):
            O.append(l[3:])
        elif l.startswith("M "):
            M.append(l[2:])
    names = {}
    k = 0
    for i, m in enumerate(M):
        m = m.rstrip()
        nm = m.split(" ", 1)[0]
        names[nm] = names.get(nm, 0) + 1
        while True:
            if k >= len(O):
                return i, "the program made '%s' but the system saw no such call" % m, names
            o = O[k].rstrip()
            k += 1
            if o == m or (nm == "sendto" and m.endswith(" -> *") and o.startswith(m[:-1]) and " -> err " not in o):
                break
            # a call interrupted by a signal may be made again: only the last answer counts
            h, _, res = o.partition(" -> ")
            if res.startswith("err 4 ") and k < len(O) and O[k].startswith(h + " -> "):
                continue
            return i, "program: %s | system: %s" % (m, o), names
    if k < len(O):
        return len(M), "the system saw a call the program did not make: " + O[k], names
    return len(M), None, names


ERRNAMES = ("perm noent srch intr io nxio toobig noexec badf child again nomem acces fault busy exist xdev nodev notdir isdir inval nfile mfile notty fbig nospc spipe rofs mlink pipe dom range "
            "deadlk nametoolong nolck nosys notempty loop badmsg msgsize notsup inprogress canceled").split()


def err_bad(n, k, name):
    """error number n was described as number k with this name"""
    num = {x: getattr(E, "E" + {"toobig": "2BIG"}.get(x, x.upper())) for x in ERRNAMES}
    if name == "<UNKNOWN>":
        return "error %d (%s) is not known" % (n, E.errorcode[n]) if n in num.values() else None
    if k != n:
        return "error %d has number %d" % (n, k)
    if name not in num:
        x = getattr(E, "E" + name.upper(), n)
        return None if x == n else "error %d is called %s" % (n, name)
    return None if num[name] == n else "error %d is called %s" % (n, name)


def check_log(o, r, tz):
    n, diff, names = pairs(r.log)
    if diff and not o.viol:
        o.bad("boundary", diff[:600])
    for k, v in names.items():
        o.probes["call_" + k] = v
    if any(l.startswith("D ") for l in r.log):
        with Zone(tz):
            for l in r.log:
                if l.startswith("D "):
                    o.probes["dates"] = o.probes.get("dates", 0) + 1
                    w = date_ok(l)
                    if w:
                        o.bad("boundary", "date " + w)
                        break
    for l in r.log:
        w = l.split(" ")
        if w[0] == "V":
            want = CONST[w[1]].get(w[2])
            o.probes["constants"] = o.probes.get("constants", 0) + 1
            if want is not None and str(want) != w[3]:
                o.bad("boundary", "constant %s %s is %s, the system's is %s" % (w[1], w[2], w[3], want))
        elif w[0] == "E":
            n = int(w[1])
            o.probes["errors_named"] = o.probes.get("errors_named", 0) + 1
            if w[2] == "exn":
                if n in E.errorcode:
                    o.bad("boundary", "no error for number %d" % n)
            else:
                bad = err_bad(n, int(w[2]), w[3])
                if bad:
                    o.bad("boundary", bad)
                if w[4] != enc(os.strerror(n).encode()):
                    o.bad("boundary", "error %d has another message" % n)
        elif w[0] == "L":
            bad = err_bad(int(w[1]), int(w[1]), w[2])
            if bad:
                o.bad("boundary", bad)
    return names


class SysCheck(Check):
    kinds = []
    quick_s = 40
    stub = ("the operating system behind the calls of this property: sim/simos.c answers with seeded values, strings, lists and errors; the C library below it is not called; "
            "choice of when and how deep to collect")
    components = None

    def images(self):
        return {"sysw": ("sys/sysw.cm", "Main.main")}

    def sim_case(self, rng, kinds=None):
        n = rng.choice([60, 200, 500])
        ev = gc_events(rng, n * rng.choice([300, 3000]))
        pe = rng.choice([0, 0.03, 0.15, 0.5])
        for k in range(n * 2):
            if rng.random() < pe:
                ev.append(["C", "os", k, "err", rng.choice(ERRNOS) if rng.random() < 0.9 else rng.choice([11, 2, 13, 4])])
        kinds = kinds or self.kinds
        if rng.random() < 0.4:
            kinds = [rng.choice(kinds)]
        return {"seed": rng.randrange(1 << 30), "n": n, "fat": rng.choice([1, 1, 3]), "consts": int(rng.random() < 0.1), "kinds": kinds, "rt": geometry(rng), "tz": rng.choice(ZONES),
                "plan": {"hdr": {"vals": rng.randrange(1, 1 << 40), "limit_alloc": 3000000000}, "ev": ev}}

    def gen(self, rng, tier, i):
        return self.sim_case(rng)

    def run(self, case, wd):
        return self.run_sys(case, wd)

    def run_sys(self, case, wd):
        o = Outcome()
        r = run_sim(wd, image("sysw"), [case["seed"], case["n"], case["fat"], case["consts"], ",".join(case["kinds"])], case["plan"], rtargs=case["rt"], name="run", timeout=120, env={"TZ": case["tz"], "LC_ALL": "C"})
        o.add(r)
        if r.timeout:
            o.bad("hang", "the run does not end: " + r.brief())
        elif r.sig is not None or r.code != 0:
            # what the two sides saw before is the better description
            n, diff, _ = pairs(r.log)
            o.bad("crash", "died: " + r.brief())
        else:
            check_log(o, r, case["tz"])
            want = ["HOME=/root", "LANG=C.UTF-8", "PATH=/usr/bin:/bin", "CM_VERBOSE=false", "TZ=" + case["tz"], "LC_ALL=C"]
            for l in r.log:
                if l.startswith("environ ") and sorted(l[8:].split("|")) != sorted(want):
                    o.bad("boundary", "the environment is given as %s, not %s" % (l[8:], "|".join(want)))
            if not o.viol and not any(l.startswith("done ") for l in r.log):
                o.bad("crash", "no end of run: " + r.brief())
        o.sig = r.end.get("hash", "")
        o.nontrivial = any(k.startswith("gc") or k.startswith("os") for k in o.stats)
        for l in r.log:
            if l.startswith("done "):
                w = l.split()
                o.probes["calls"], o.probes["errors_raised"], o.probes["results_kept"] = int(w[1]), int(w[2]), int(w[3])
        return o

    def shrink(self, case):
        if "kinds" not in case:
            return
        if case["rt"]:
            yield dict(case, rt=[])
        if len(case["kinds"]) > 1:
            for k in case["kinds"]:
                yield dict(case, kinds=[k])
        for n in (case["n"] // 2, case["n"] * 3 // 4, case["n"] - 10, case["n"] - 1):
            if 0 < n < case["n"]:
                yield dict(case, n=n)
        if case["fat"] > 1:
            yield dict(case, fat=1)
