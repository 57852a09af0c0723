"""C23: values cross the boundary between programs and the operating system intact."""
from checks.sysrun import SysCheck


class C23(SysCheck):
    id = "C23"
    kinds = ["file", "file", "env", "db", "tty", "date", "err"]
    rule = ("a run is a seeded sequence of 60-500 system operations on files, directories, the process environment, users and groups, terminals and dates through the Basis library, with seeded "
            "arguments of all magnitudes and lengths, answered by the simulated system with seeded values or injected errors, with forced collections between a call and the use of its result; "
            "non-trivial when a collection or error was injected; distinct by hash of the event sequence")
    assumptions = ["the linux/amd64 values of constants and error numbers are those of this machine's C library and Python",
                   "strings given to the system contain no zero byte; numbers are within the range of the C type they become"]


CHECK = C23()
