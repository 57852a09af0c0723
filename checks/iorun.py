"""Streams: model of what programs must see (input) and devices must get (output)."""
import os
from vlib.driver import Check, Outcome, run_sim, image
from checks.c01 import gc_events, geometry

EIO, EINTR, ENOSPC, EAGAIN, EBADF = 5, 4, 28, 11, 9


M = 1000000007


class Sums:
    """checksums of any part of the data"""
    def __init__(self, data):
        self.n, self.pw, self.ph = len(data), [1], [0]
        h, w = 0, 1
        for c in data:
            h = (h * 31 + c + 1) % M
            w = w * 31 % M
            self.ph.append(h)
            self.pw.append(w)

    def raw(self, p, q):
        n = q - p
        return (self.ph[q] - self.ph[p] * self.pw[n] + 7 * self.pw[n]) % M

    def enc(self, p, q, nl=False):
        q = min(q, self.n)
        h = self.raw(p, q)
        if nl:
            return "%d:%d" % (q - p + 1, (h * 31 + 11) % M)
        return "%d:%d" % (q - p, h)


def byte(i):
    x = (i * 7919 + (i // 251) * 31 + (i // 65536) * 3) % 97
    return 10 if x == 0 else 33 + x % 90


SEQ = bytearray()


def segment(i, k):
    while len(SEQ) < i + k:
        SEQ.extend(byte(j) for j in range(len(SEQ), len(SEQ) + 65536))
    return bytes(SEQ[i:i + k])


def common(F, p, seg):
    """length of the common beginning of F[p:] and seg"""
    lo, hi = 0, min(len(seg), len(F) - p)
    if F[p:p + hi] == seg[:hi]:
        return hi
    while hi - lo > 1:
        m = (lo + hi) // 2
        if F[p:p + m] == seg[:m]:
            lo = m
        else:
            hi = m
    return lo


def content(rng_seed, n, style):
    import random
    r = random.Random(rng_seed)
    if style == 0:
        return bytes(r.choice(b"abcdefgh \n") for _ in range(n))
    if style == 1:
        return bytes(r.randrange(256) for _ in range(n))
    if style == 2:      # long lines
        return bytes(10 if r.random() < 0.0005 else r.randrange(32, 127) for _ in range(n))
    return bytes(r.choice(b"\n\n\n\rx") for _ in range(n))


class IoCheck(Check):
    quick_s = 35

    def images(self):
        return {"iow": ("io/iow.cm", "Main.main")}

    def faults(self, rng, n, cls, errs, more=()):
        ev = []
        m = rng.randrange(5)
        if m:
            for _ in range(rng.randint(1, rng.choice([3, 30, 120]))):
                k = rng.randrange(rng.choice([10, max(2, n), 3 * n + 2]))
                if m == 1 or rng.random() < 0.6:
                    ev.append(["C", cls, k, "short", rng.choice([1, 2, 7, rng.randint(1, 4096), 4095])])
                else:
                    ev.append(["C", cls, k, "err", rng.choice(errs)])
        ev += list(more)
        if rng.random() < 0.4:
            ev += gc_events(rng, n * 6000)[:200]
        return ev

    def shrink(self, case):
        if case["rt"]:
            yield dict(case, rt=[])
        for n in (case["n"] // 2, case["n"] * 3 // 4, case["n"] - 3, case["n"] - 1):
            if 0 < n < case["n"]:
                yield dict(case, n=n)


def died(o, r, allow=()):
    if r.timeout:
        o.bad("hang", "the run does not end: " + r.brief())
    elif r.sig is not None or (r.code != 0 and r.code not in allow):
        o.bad("crash", "died: " + r.brief())
