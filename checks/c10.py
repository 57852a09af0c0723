"""C10: channel communication is an exactly-once rendezvous."""
from checks.cmlrun import CmlCheck


class C10(CmlCheck):
    id = "C10"
    quick_s = 42
    parts = "x"
    mixes = [("srSR", "sr"), ("ssrr", "sr"), ("srSRcC", "sr"), ("srSRcywfj", "srabtkgwij!"), ("srcC", "srt"), ("ssrrSRcy", "srn"), ("srC", "sr!"), ("srSRwy", "sr")]
    rule = ("a run is a seeded program of 2-7 threads sending, receiving, polling and choosing on 1-3 channels, with time-slice signals at seeded allocation positions and "
            "machine instructions; the recorded history must be a matching of sends and receives with overlapping intervals, service in the order of waiting and polls that take part "
            "exactly with partners already waiting; non-trivial when an operation returned; distinct by hash of the event sequence")


CHECK = C10()
