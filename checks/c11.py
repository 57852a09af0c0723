"""C11: choices commit exactly one branch."""
from checks.cmlrun import CmlCheck


class C11(CmlCheck):
    id = "C11"
    quick_s = 42
    parts = "cx"
    mixes = [("cC", "srabtkgwij!"), ("srcC", "srt!"), ("cCmibfj", "srkgwibj!"), ("srcC", "sr!"), ("cCbm", "bkgw!"), ("ccCsrSR", "srt"), ("cCft", "srtTaj!"), ("cCi", "i!"), ("csr", "srn!")]
    rule = ("a run is a seeded program of 2-7 threads synchronising on random event expressions (choose, wrap, wrapHandler, guard, withNack over channel, variable, mailbox, join, time-out, "
            "always and never events) with time-slice signals at seeded positions; checked: one committed leaf, its wrappers and handlers exactly once innermost first, guards once, nacks of exactly "
            "the branches not chosen, no communication of other branches; distinct by hash of the event sequence")


CHECK = C11()
