"""C20: descriptors, polling and sockets."""
from checks.sysrun import SysCheck


class C20(SysCheck):
    id = "C20"
    kinds = ["io", "sock", "poll", "net"]
    rule = ("a run is a seeded sequence of 60-500 descriptor, polling, socket and network-database operations through the Basis library, with seeded arguments, answered by the simulated system with "
            "seeded values, partial transfers or injected errors, with forced collections between a call and the use of its result; non-trivial when a collection or error was injected; "
            "distinct by hash of the event sequence")
    assumptions = ["descriptors given to poll are below FD_SETSIZE (the runtime uses select)", "numbers are within the range of the C type they become"]


CHECK = C20()
