"""C19: scanners made by ml-ulex and ml-lex give a function of the text, however it arrives."""
import os, re
from vlib import tree
from vlib.driver import Check, Outcome, run_sim, image
from checks.c01 import gc_events, geometry

EIO, EINTR, EAGAIN = 5, 4, 11
BOL = '<INITIAL>^"#"[^\\n]*	=> (tok ("dir", yytext, yypos, !yylineno));'

# (state, longest match, tag, state afterwards); the order is the rules' order
GR, CJ, EM = "\u0391-\u03c9", "\u4e00-\u9fff", "\U0001F600-\U0001F64F"
RULES = [
    ("INITIAL", " +", "skip", None), ("INITIAL", "\t", "continue", None), ("INITIAL", "\n", "nl", None), ("INITIAL", "if", "if", None),
    ("INITIAL", "re[a-z]*", "re", None), ("INITIAL", "[a-z]+!", "bang", None), ("INITIAL", "[a-z][a-z0-9]*", "id", None), ("INITIAL", "[0-9]+", "num", None),
    ("INITIAL", r"[0-9]+\.[0-9]+([eE][0-9]+)?", "real", None), ("INITIAL", r"\.\.\.", "dots", None), ("INITIAL", "<[a-z \n]*>", "tag", None),
    ("INITIAL", "#[^\n]*", "dir", None),
    ("INITIAL", "[%s]+" % GR, "gr", None), ("INITIAL", "[%s]+" % CJ, "cjk", None), ("INITIAL", "[%s]" % EM, "emo", None),
    ("INITIAL", '"', "q", "STR"), ("INITIAL", r"/\*", "c", "COM"), ("INITIAL", "[^\n]", "any", None),
    ("STR", r'[^"\\\n]+', "str", None), ("STR", r"\\[^\n]", "esc", None), ("STR", r"\\", "bs", None), ("STR", '"', "endq", "INITIAL"),
    ("STR", "\n", "openq", "INITIAL"), ("COM", r"\*/", "endc", "INITIAL"), ("COM", r"[^*]+", "com", None), ("COM", r"\*", "star", None)]
RE = {s: [(re.compile(p, re.S), t, n) for (s2, p, t, n) in RULES if s2 == s] for s in ("INITIAL", "STR", "COM")}
DOT = re.compile(r"\\.", re.S)         # a dot of ml-ulex stands for a newline, too
ULEX_ONLY = ("gr", "cjk", "emo", "continue")


def cstr(b):
    """String.toCString"""
    o = []
    sp = {7: "\\a", 8: "\\b", 9: "\\t", 10: "\\n", 11: "\\v", 12: "\\f", 13: "\\r", 34: '\\"', 92: "\\\\", 63: "\\?", 39: "\\'"}
    for c in b:
        o.append(sp[c] if c in sp else chr(c) if 32 <= c < 127 else "\\%03o" % c)
    return "".join(o)


def matches(rules, text, p):
    """(end, rule) in the order in which they are tried: longest first, then first rule"""
    c = []
    for i, (rx, tag, nxt) in enumerate(rules):
        m = rx.match(text, p)
        if m:
            c.append((m.end(), i))
            if tag in ("re", "id", "num"):      # shorter ones, for REJECT
                c += [(e, i) for e in range(p + 1, m.end()) if rx.fullmatch(text, p, e)]
    return sorted(c, key=lambda x: (-x[0], x[1]))


def model(kind, data):
    ulex = kind in "ft"
    text = data.decode("utf-8") if ulex else data.decode("latin-1")
    enc = "utf-8" if ulex else "latin-1"
    rules = {s: [((DOT, ) + r[1:] if ulex and r[1] == "esc" else r) for r in RE[s] if (ulex or r[1] not in ULEX_ONLY) and (kind == "o" or r[1] != "dir")] for s in RE}
    out, state, p, b, start, line, lastnl = [], "INITIAL", 0, 0, 0, 1, -1
    while p < len(text):
        bol = p == 0 or text[p - 1] == "\n"
        ms = matches(rules[state], text, p)
        for (e, i) in ms:
            tag, nxt = rules[state][i][1:]
            if tag == "re" and (e - p) % 2 == 1:
                continue
            if tag == "bang" and (e - p) % 3 == 0:
                continue
            if tag == "dir" and not bol:
                continue
            break
        else:
            raise AssertionError("model stuck")
        tx = text[p:e]
        tb = tx.encode(enc)
        nb = b + len(tb)
        if tag == "skip":
            start = nb if ulex else start
        elif tag != "continue":
            if ulex:
                l, c = (line + 1, 0) if tb[:1] == b"\n" else (line, b - lastnl)
                u = "".join(",%X" % ord(x) for x in tx) if tag in ("gr", "cjk", "emo", "any") else ""
                out.append("T %s %s %d %d%s %d %d %d" % (tag, cstr(tb), l, c, u, start, nb - 1, nb))
            else:
                out.append("T %s %s %d %d" % (tag, cstr(tb), b + 2, (line if kind == "m" else line - 1 + tx.count("\n"))))
            start = nb
        line += tx.count("\n")
        if "\n" in tx:
            lastnl = b + tb.rfind(b"\n")
        state = nxt or state
        p, b = e, nb
    if ulex:
        out.append("T eof  %d %d %d %d %d" % (line, b - lastnl, start, b - 1, b))
    else:
        out += ["T eof", "T eof"]
    return out


def in_string(data, p):
    """the token at byte p in start state STR, as ml-ulex scanners show it"""
    line = 1 + data.count(b"\n", 0, p)
    lastnl = data.rfind(b"\n", 0, p)
    text = data[p:].decode("utf-8")
    if not text:
        return "OT eof  %d %d %d %d %d" % (line, p - lastnl, p, p - 1, p)
    e, i = matches([((DOT, ) + r[1:] if r[1] == "esc" else r) for r in RE["STR"]], text, 0)[0]
    tb = text[:e].encode("utf-8")
    l, c = (line + 1, 0) if tb[:1] == b"\n" else (line, p - lastnl)
    return "OT %s %s %d %d %d %d %d" % (RE["STR"][i][1], cstr(tb), l, c, p, p + len(tb) - 1, p + len(tb))


class C19(Check):
    id = "C19"
    rule = ("a run is a seeded text given to a scanner that the tree's ml-ulex (functions, tables, ml-lex mode) or ml-lex made from a specification with start states, longest matches that back up, REJECT and "
            "multi-byte characters; the text arrives in seeded pieces, through an instream whose reads take seeded parts and fail, or through a reader, with retries after failures and seeded collections; tokens, texts, "
            "positions, lines and columns are compared with a reference tokenisation of the text; non-trivial when the text came in more than one piece or a read was disturbed; distinct by hash of the event sequence")
    real = "ml-ulex, ml-lex and their run-time library, Basis library, C runtime system and compiler of /repo's working tree"
    stub = "sizes and failures of the pieces of input"
    assumptions = ["a scanner whose input function raised an exception is asked again, and the input function has kept its place"]

    def images(self):
        return {"lex": ("lex/lex.cm", "Main.main")}

    def prebuild(self, src):
        d = src + "/lex/gen"
        os.makedirs(d, exist_ok=True)
        u, o = open(src + "/lex/u.lex").read(), open(src + "/lex/o.lex").read()
        for f, s, name, bol, opts in (("uf.lex", u, "Uf", "", ["--fn-based"]), ("ut.lex", u, "Ut", "", ["--table-based"]), ("m.lex", o, "M", "", ["--ml-lex-mode"]), ("o.lex", o, "O", BOL, None)):
            with open(d + "/" + f, "w") as h:
                h.write(s.replace("@NAME@", name).replace("@BOL@\n", bol and bol + "\n"))
            if opts is None:
                cwd, cm, run = tree.T + "/ml-lex", "ml-lex.cm", 'ExportLexGen.lexGen ("ml-lex", ["%s"])' % (d + "/" + f)
            else:
                cwd, cm, run = tree.T + "/ml-lpt/ml-ulex", "sources.cm", 'Main.main ("ml-ulex", [%s])' % ", ".join('"%s"' % a for a in opts + [d + "/" + f])
            script = '#set (CM.symval "NO_PLUGINS") (SOME 1);\nif CM.make "%s" then () else OS.Process.exit OS.Process.failure;\n%s;\n' % (cm, run)
            t = tree.sml(script, cwd=cwd)
            if not os.path.exists(d + "/" + f + ".sml"):
                raise tree.BuildError("scanner %s is not generated:\n%s" % (f, t[-3000:]))

    def text(self, rng, ulex):
        n = rng.choice([3, 20, 100, 400, 1500])
        o = []
        ids = ["a", "if", "iffy", "i", "re", "rea", "read", "reads", "red0", "x1", "zz9", "fi"]
        frag = [lambda: rng.choice(ids), lambda: "".join(rng.choice("reif01z") for _ in range(rng.choice([1, 3, 8, 30]))), lambda: str(rng.randrange(10 ** rng.choice([1, 3, 9]))),
                lambda: "%d.%d" % (rng.randrange(99), rng.randrange(999)), lambda: rng.choice(["1.5e7", "1.5e", "12.e5", "7..", "3...", "1.2.3", "0.0E00", "9."]), lambda: rng.choice([".", "..", "...", "....", "....."]),
                lambda: rng.choice(["<", "<a b", "<ab\ncd>", "<>", "<a\n\nb", "<aB>", "<" + "q" * rng.choice([1, 50, 700])]), lambda: " " * rng.choice([1, 1, 2, 40]), lambda: "\n" * rng.choice([1, 1, 2, 5]),
                lambda: '"' + rng.choice(["abc", "a\\\"b", "\\\\", "x" * rng.choice([3, 1030]), "\\n..", "open\n", "\\", "\\\n"]) + rng.choice(['"', '"', ""]),
                lambda: "/*" + rng.choice(["", "a", "**", "\n", "* /", "y" * rng.choice([9, 1100]), "/* in"]) + rng.choice(["*/", "*/", "*"]), lambda: rng.choice("!?/*\\;(){}|~@=+-"), lambda: "\n#dir " + rng.choice(["", "x", "<a>"]),
                lambda: "#", lambda: rng.choice(["a!", "ab!", "re!", "rea!", "if!", "reads!", "a0!", "zzzzz!", "zzzzzzzzz!!"])]
        if ulex:
            uni = lambda a, b: chr(rng.randrange(a, b + 1))
            frag += [lambda: "\t", lambda: "".join(uni(0x391, 0x3c9) for _ in range(rng.randrange(1, 9))), lambda: "".join(uni(0x4e00, 0x9fff) for _ in range(rng.randrange(1, 9))), lambda: uni(0x1f600, 0x1f64f),
                     lambda: rng.choice(["\u00e9", "\u07ff", "\u0800", "\uffff", "\U00010000", "\U0010ffff", "\u0080", "\u0390"])]
        else:
            frag += [lambda: chr(rng.randrange(128, 256)), lambda: "\r", lambda: "\x00"]
        w = [rng.choice([0, 1, 1, 3]) for _ in frag]
        if not any(w):
            w[0] = 1
        for _ in range(n):
            o.append(rng.choices(frag, w)[0]())
        if rng.random() < 0.1:
            o.insert(rng.randrange(len(o) + 1), rng.choice(["\n#", "/*", '"', "<", ""]) + rng.choice("abcrexyz") * rng.choice([1024, 4095, 4096, 5000, 9000]) + rng.choice(["", ">", "*/", '"', "!"]))
        b = "".join(o).encode("utf-8" if ulex else "latin-1")[:20000]
        return b.decode("utf-8", "ignore").encode("utf-8") if ulex else b

    def gen(self, rng, tier, i):
        kind = rng.choice("ftmo")
        src = rng.choice([0, 0, 1, 2])
        data = self.text(rng, kind in "ft")
        ev = gc_events(rng, 1500000) if rng.random() < 0.5 else []
        if src:
            n, size = 0, rng.choice([1, 1, 2, 3, 7, 100, 1024, 5000])
            for n in range(min(3 + len(data) // size, 400)):
                x = rng.random()
                if x < 0.75:
                    ev.append(["C", "read", n, "short", 1 + rng.randrange(size)])
                elif x < 0.85:
                    ev.append(["C", "read", n, "err", rng.choice([EIO, EINTR])])
        return {"kind": kind, "src": src, "seed": rng.randrange(1 << 30), "size": rng.choice([0, 1, 1, 2, 3, 10, 100, 1024, 1025, 4096, 6000]), "data": data.decode("latin-1"),
                "rt": geometry(rng) if rng.random() < 0.3 else [], "plan": {"hdr": {"limit_alloc": 2000000000}, "ev": ev}}

    def run(self, case, wd):
        o = Outcome()
        data = case["data"].encode("latin-1")
        with open(wd + "/in.dat", "wb") as f:
            f.write(data)
        r = run_sim(wd, image("lex"), [case["kind"], case["src"], case["seed"], case["size"], "in.dat"], case["plan"], rtargs=case["rt"], name="run")
        o.add(r)
        if r.timeout or r.sig or r.code != 0 or not any(l == "end" or l.startswith("X ") for l in r.log):
            o.bad("crash", "no normal end: " + r.brief())
        toks = [l for l in r.log if l.startswith("T ")]
        want = model(case["kind"], data)
        if not o.viol:
            x = [l for l in r.log if l.startswith("X ") or l == "long" or l.startswith("!BAD")]
            for i in range(max(len(toks), len(want))):
                a, b = toks[i] if i < len(toks) else "nothing", want[i] if i < len(want) else "nothing"
                if a != b:
                    o.bad("token", "scanner %s, source %d, piece size %d: token %d is %s, not %s %s" % (case["kind"], case["src"], case["size"], i, a, b, x[:1]))
                    break
            else:
                for l in r.log:
                    if l.startswith("OT ") and not o.viol:
                        w = in_string(data, int(l.split(" ")[-3]))
                        o.probes["other_state"] = o.probes.get("other_state", 0) + 1
                        if w != l:
                            o.bad("token", "scanner %s, source %d: from another start state %s, not %s" % (case["kind"], case["src"], l, w))
                if x and not o.viol:
                    o.bad("token", "scanner %s, source %d: %s" % (case["kind"], case["src"], x[0]))
        o.probes["tokens"] = len(toks)
        o.probes["retries"] = sum(l.startswith("E ") for l in r.log)
        o.probes["scanner_" + case["kind"]] = 1
        o.probes["source_%d" % case["src"]] = 1
        o.sig = r.end.get("hash", "")
        o.nontrivial = (case["src"] == 0 and 0 < case["size"] < len(data)) or any(k.endswith(":read") for k in o.stats)
        return o

    def shrink(self, case):
        d = case["data"]
        k = len(d) // 2
        while k >= 1 and len(d) > 1:
            for s in range(0, len(d), k):
                n = d[:s] + d[s + k:]
                if case["kind"] in "ft":
                    try:
                        n.encode("latin-1").decode("utf-8")
                    except UnicodeDecodeError:
                        continue
                yield dict(case, data=n)
                if k < 8 and s > 200:
                    break
            k //= 2


CHECK = C19()
