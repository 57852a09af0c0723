#!/usr/bin/env python3
"""Writes properties.jsonl (kept here in readable form)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                  "observe_at": list(observe), "hook_needed": hook}})

RT = "base/runtime/"
BI = "base/system/Basis/Implementation/"
prop("C01", "Garbage collection is invisible to programs",
 "The result of an SML program does not depend on when garbage collections happen, how many generations each one collects, how many generations the heap has or how large the allocation area is. In particular every object reachable through mutable arrays, refs, vectors, byte and real arrays, big objects, closures, continuations and exception handlers keeps its value and identity across any sequence of collections, including collections that start inside runtime-system allocation requests and C library calls.",
 ["schedules", "programs", "configurations"],
 "all placements of minor and major collections at heap-check points of the program, all heap geometries (@SMLalloc, @SMLngens), all mutation histories of the program",
 "The test-suite runs each program once with one heap geometry, so each allocation site meets a collection at a handful of fixed points; a missed root or store-list entry needs a collection at one particular instant.",
 [RT+"gc/minor-gc.c", RT+"gc/major-gc.c", RT+"gc/call-gc.c", RT+"gc/ml-objects.c", RT+"gc/flip.c", RT+"gc/big-objects.c", RT+"mach-dep/AMD64.prim.asm", RT+"kernel/run-ml.c"],
 [("minor collection: roots + store list + scan of generation 1", RT+"gc/minor-gc.c"), ("major collection, cards/dirty vector, big-object lists", RT+"gc/major-gc.c"), ("root gathering", RT+"gc/call-gc.c"), ("heap-limit checks with live-register descriptions", "base/compiler/CodeGen/cpscompile/invokegc.sml")],
 [("store list", "records of updates to mutable objects since the last collection", RT+"gc/minor-gc.c")],
 ["values computed by the program", "process exit status"])
prop("C02", "Weak pointers and lazy values stay exact across collections",
 "A weak pointer yields exactly the object it was made from as long as that object is strongly reachable, never any other or dangling value, and once it has yielded nothing it never yields an object again; after a full collection that found the object unreachable it yields nothing. A suspension is evaluated at most once successfully and every later force yields that same value, whatever collections intervene.",
 ["schedules", "histories"],
 "all interleavings of weak/strong/force/drop operations with collections of any depth, with weak pointers and targets in any pair of generations",
 "No test creates a weak pointer; exactness depends on which generations the pointer and its target are in when a collection runs.",
 [RT+"gc/minor-gc.c", RT+"gc/major-gc.c", RT+"gc/gc-util.c", BI+"NJ/weak.sml", BI+"NJ/susp.sml", "base/system/smlnj/init/target64-core.sml"],
 [("list of forwarded weak objects nulled at the end of a collection", RT+"gc/minor-gc.c MinorGC_ForwardSpecial, gc/gc-util.c ScanWeakPtrs"), ("special-object descriptor switch", BI+"NJ/weak.sml")],
 observe=["SMLofNJ.Weak.strong", "SMLofNJ.Susp.force"])
prop("C03", "Refused memory ends in a correct result or a clean failure",
 "When the operating system refuses memory to the runtime system at any request during a run, the program either still computes the correct result or the process terminates with a non-zero status and a diagnostic; it never continues with wrong data, reports success after losing work, or dies by a memory fault.",
 ["fault_sequences"],
 "every memory request of a run failing, alone or from some point on",
 "No test ever runs with failing allocations.",
 [RT+"gc/major-gc.c", RT+"gc/gc-util.c", RT+"gc/big-objects.c", RT+"memory/mem-mmap.c", RT+"gc/ml-objects.c", RT+"gc/flip.c", RT+"gc/import-heap.c", RT+"gc/export-heap.c"],
 [("MEM_AllocMemObj result checks", RT+"gc/gc-util.c"), ("Die on exhaustion", RT+"kernel/error.c")],
 observe=["exit status", "stderr", "program output"])
prop("C04", "Heap images round-trip, and failed exports or damaged images are caught",
 "A heap image written by a successful export, when loaded by the same runtime, runs with exactly the state (mutable data, sharing, big objects, handlers of the exported program) the exporting process had. An export that could not be written completely is reported as a failure (or kills the exporter) and never reported as success, and a truncated image is refused with a diagnostic and non-zero status rather than executed.",
 ["fault_sequences", "crash_points", "histories"],
 "every heap history before the export, every failing or short write during it, every truncation point of the image",
 "Tests use one image written without faults.",
 [RT+"gc/export-heap.c", RT+"gc/import-heap.c", RT+"gc/writer.c", RT+"gc/heap-out-util.c", RT+"gc/heap-in-util.c", RT+"c-libs/smlnj-runtime/export-heap.c", BI+"NJ/export.sml"],
 [("heap repair/relocation on import", RT+"gc/import-heap.c"), ("writer with sticky error flag", RT+"gc/writer.c")],
 observe=["SMLofNJ.exportML / exportFn result", "behaviour of the loaded image"])
prop("C05", "Signals are delivered exactly once, only while enabled and unmasked",
 "For every enabled signal the handler calls account for every arrival: the counts passed to its handler sum to the number of arrivals, except that arrivals while the signal is masked may coalesce into at least one later call. A handler never runs while its signal is masked or another handler is running, masks nest by counting, all pending signals are served without starving one another, and installing, querying or ignoring handlers at any moment never loses the process or an enabled signal.",
 ["schedules", "histories"],
 "all arrival times of signals (any machine instruction, in ML code, C code, collections, handlers and system calls) and all histories of mask, unmask and handler changes",
 "No test sends a signal.",
 [RT+"mach-dep/unix-signal.c", RT+"mach-dep/signal-util.c", RT+"mach-dep/AMD64.prim.asm", RT+"kernel/run-ml.c", BI+"NJ/internal-signals.sml"],
 [("received/handled counters", RT+"mach-dep/unix-signal.c CSigHandler, signal-util.c ChooseSignal"), ("pending check on entry to ML and zeroed heap limit", RT+"mach-dep/AMD64.prim.asm"), ("mask counts", BI+"NJ/internal-signals.sml")],
 [("vp_sigCounts", "per-signal received and handled counts", RT+"include/vproc-state.h")],
 ["calls of Signals.HANDLER functions", "Signals.masked, inqHandler"])
prop("C06", "An interrupted computation resumes exactly where it was",
 "When a signal handler returns its resumption continuation, the interrupted program continues as if nothing had happened: its results equal those of the uninterrupted run, whatever instruction the signal hit and whatever the handler allocated, collected or called. A handler that instead transfers control elsewhere abandons the interrupted code cleanly, and later signals are still handled.",
 ["schedules", "programs"],
 "all instructions at which a signal can arrive, in ML code with any mix of tagged, untagged and floating-point live values",
 "No test is ever interrupted.",
 [RT+"mach-dep/signal-util.c", RT+"kernel/run-ml.c", RT+"mach-dep/AMD64.prim.asm", "base/compiler/CodeGen/cpscompile/invokegc.sml"],
 [("resume closure holding the ML registers", RT+"mach-dep/signal-util.c MakeResumeCont/LoadResumeState")],
 observe=["values computed by the program"])
prop("C07", "Time limits, interval timers and sleeps respect their durations",
 "A computation under a time limit returns its own result or exception if it ends before the limit and otherwise is abandoned with the time-out exception, in bounded time and never before the limit has passed; afterwards the timer is off. The interval timer signals once per interval and not before the first interval has elapsed, sleeping returns only after the requested time or an interruption, and the real, processor and collection times reported are those that passed and never run backwards while the system clock does not.",
 ["schedules", "fault_sequences"],
 "all placements of the timer signal relative to the limited computation, all interruptions of sleeps, clock jumps",
 "No test uses a timer; the outcome depends on where the alarm lands.",
 ["smlnj-lib/Util/time-limit.sml", BI+"NJ/interval-timer.sml", RT+"c-libs/smlnj-runtime/setitimer.c", RT+"c-libs/posix-process/sleep.c", BI+"Posix/posix-process.sml", BI+"Unix/os-process.sml", BI+"time.sml", BI+"internal-timer.sml", RT+"kernel/timers.c"],
 [("escape continuation + alarm handler", "smlnj-lib/Util/time-limit.sml"), ("setitimer/nanosleep glue", RT+"c-libs/smlnj-runtime/setitimer.c")],
 observe=["TimeLimit.timeLimit", "OS.Process.sleep", "Posix.Process.sleep", "SMLofNJ.IntervalTimer"])
prop("C08", "Input streams deliver exactly what the device produced",
 "Whatever sizes the device returns data in, and wherever end-of-stream conditions, would-block answers and errors occur, the sequence of elements read from a text or binary input stream equals the data produced by the device, with nothing lost, duplicated or reordered, and lines split exactly at newlines. A functional stream value read twice gives the same answer both times, an error in the middle loses no data that was already or is later available, and look-ahead, positions and closing behave as specified.",
 ["fault_sequences", "histories", "inputs"],
 "all chunkings of the data, all positions of EOF, would-block and read errors, all histories of stream operations",
 "Tests read small regular files, where one read returns everything.",
 [BI+"IO/text-io-fn.sml", BI+"IO/bin-io-fn.sml", BI+"IO/prim-io-fn.sml", BI+"Unix/posix-text-prim-io.sml", BI+"Unix/posix-bin-prim-io.sml", RT+"c-libs/posix-io/read.c", RT+"c-libs/posix-io/readbuf.c"],
 [("lazy chain of buffers with EOF/terminated/link tails", BI+"IO/text-io-fn.sml")],
 observe=["TextIO/BinIO input functions", "StreamIO", "getReader"])
prop("C09", "Output streams pass every element on once, in order, or say so",
 "The elements written to an output stream reach the device exactly once and in order under every buffering mode and whatever partial writes the device makes: everything written before a successful flush or close has been passed on, a failed device write is raised to the caller and no element is duplicated or reordered by later retries, and data buffered at normal process exit is flushed. Closing is idempotent, and a closed stream takes no more.",
 ["fault_sequences", "histories"],
 "all sequences of output, flush, mode change, reposition and close with all partial-write and error patterns, and exit at any point",
 "Tests write to files that never fail and never accept a part only.",
 [BI+"IO/text-io-fn.sml", BI+"IO/bin-io-fn.sml", BI+"IO/clean-io.sml", BI+"Unix/posix-bin-prim-io.sml", RT+"c-libs/posix-io/writebuf.c"],
 [("flushBuffer / mode switch in output functions", BI+"IO/text-io-fn.sml"), ("clean-up registry for open streams", BI+"IO/clean-io.sml")],
 observe=["bytes accepted by the device", "IO.Io exceptions"])
prop("C10", "Channel communication is an exactly-once rendezvous",
 "Every message sent on a channel is received by exactly one receiver, every receive returns a message some thread sent on that channel, a send completes only together with its receive, and messages from one thread on one channel to one receiver arrive in order. Waiting senders and receivers are served in the order they started to wait, and polling operations never block and take part only with a partner already waiting.",
 ["schedules", "programs"],
 "all preemption points of the thread scheduler, all thread programs over shared channels",
 "The CML tests are not part of the test-suite and sample one schedule.",
 ["cml/src/core-cml/channel.sml", "cml/src/core-cml/scheduler.sml", "cml/src/core-cml/rep-types.sml", "cml/src/core-cml/event.sml"],
 [("atomic regions deferring preemption", "cml/src/core-cml/scheduler.sml"), ("two-queue channels with transaction ids", "cml/src/core-cml/channel.sml")],
 observe=["CML.send/recv/sendPoll/recvPoll"])
prop("C11", "Event choice commits exactly one branch, with exact wraps and nacks",
 "Synchronising on a choice commits exactly one base event; its wrappers run exactly once on its result, innermost first, and no communication of another branch takes place. Guards are evaluated once per synchronisation, and each negative acknowledgement in the chosen-from events becomes enabled exactly when its branch was not chosen.",
 ["schedules", "programs"],
 "all choice expressions built from channel, variable, mailbox, timeout and always events with wrap, guard, withNack and wrapHandler, under all schedules",
 "One schedule of a few sample programs cannot hit the window between polling and blocking.",
 ["cml/src/core-cml/event.sml", "cml/src/core-cml/channel.sml", "cml/src/core-cml/rep-types.sml"],
 [("transaction flag cleaned on commit", "cml/src/core-cml/rep-types.sml"), ("poll, then block on all branches with clean-up actions", "cml/src/core-cml/event.sml")],
 observe=["CML.select/sync/choose/guard/withNack"])
prop("C12", "Synchronous variables, mailboxes and barriers behave atomically",
 "Operations on write-once variables, take/put variables and mailboxes are linearizable: a write-once variable accepts one put and all reads return it, a take/put variable never holds two values or hands one value to two takers, and a mailbox delivers every message exactly once in the order of sending without ever blocking the sender. A barrier lets its members through only when every enrolled member has arrived or resigned, and gives everyone that round's value. Operations that must fail raise the documented exception and leave the object unchanged.",
 ["schedules", "histories"],
 "all schedules of concurrent get/put/take/swap/poll/send/recv histories, including their event forms inside choices",
 "Tests do not exercise them concurrently.",
 ["cml/src/core-cml/sync-var.sml", "cml/src/core-cml/mailbox.sml", "cml/src/core-cml/barrier.sml"],
 [("atomic regions, reader relay", "cml/src/core-cml/sync-var.sml"), ("priority flag and two-list queue", "cml/src/core-cml/mailbox.sml")],
 observe=["SyncVar.*", "Mailbox.*"])
prop("C13", "Ready threads run, timeouts fire on time, nobody is forgotten",
 "Under preemptive scheduling every ready thread runs again within a bounded number of time slices, a thread whose awaited event can happen is woken, and a timeout event becomes enabled after its time has come within a bounded number of time slices and never before (a relative timeout not more than one time slice early). Timeouts that lose a choice have no effect.",
 ["schedules", "histories"],
 "all schedules, timer placements and sets of sleeping threads",
 "Requires control over time slices and the clock.",
 ["cml/src/core-cml/scheduler.sml", "cml/src/core-cml/timeout.sml", "cml/src/glue/run-cml-fn.sml"],
 [("two-level ready queue", "cml/src/core-cml/scheduler.sml"), ("sorted waiting list checked at each slice and when idle", "cml/src/core-cml/timeout.sml")],
 observe=["progress of threads", "CML.timeOutEvt/atTimeEvt"])
prop("C14", "Thread systems start, stop and report cleanly",
 "Running a thread system returns exactly once with the status given to the first shutdown (or failure when no thread can ever run again), after registered clean-up actions and servers have been run once each in the documented order; afterwards a new run starts from a clean state. A thread's termination event is enabled exactly when that thread has ended, by returning, exiting or an uncaught exception, and an uncaught exception ends only its own thread.",
 ["schedules", "histories"],
 "all schedules and all points at which threads end, fail or shut the system down, over several runs in one process",
 "Single-run sample programs only.",
 ["cml/src/glue/run-cml-fn.sml", "cml/src/core-cml/thread.sml", "cml/src/core-cml/cleanup.sml", "cml/src/core-cml/running.sml", "cml/src/core-cml/scheduler.sml"],
 [("shutdown hook and clean-up lists", "cml/src/glue/run-cml-fn.sml"), ("thread dead condition", "cml/src/core-cml/thread.sml")],
 observe=["RunCML.doit result", "CML.joinEvt", "CML.exit", "uncaught-exception handlers"])
prop("C15", "Concurrent I/O blocks only the calling thread and loses no data",
 "A thread that reads from or writes to a device that is not ready waits without stopping other threads and continues when the device becomes ready; streams used by several threads deliver each element to exactly one reader and keep each write operation contiguous. Input and its event form agree, and data is neither lost nor duplicated when threads are preempted inside stream operations.",
 ["schedules", "fault_sequences"],
 "all schedules, all arrival times and chunkings of external data, all preemption points inside stream operations",
 "Needs simulated devices and control over preemption.",
 ["cml/src/IO/text-io-fn.sml", "cml/src/IO/bin-io-fn.sml", "cml/src/core-cml/io-manager.sml", "cml/src/Unix/syscall.sml", "cml/src/Unix/posix-text-prim-io.sml", "cml/src/Unix/posix-bin-prim-io.sml", "cml/src/IO/prim-io-fn.sml"],
 [("polling of descriptors by the scheduler", "cml/src/core-cml/io-manager.sml"), ("per-stream locks made of synchronous variables", "cml/src/IO/text-io-fn.sml")],
 observe=["CML TextIO/BinIO"])
prop("C16", "Multicast and RPC helpers deliver to everyone exactly once",
 "Every message multicast after a port was created is delivered to that port (read by one thread at a time) exactly once, in the one order common to all ports, and a copy of a port sees exactly what the original had still to see. Each call of a simple RPC gets exactly the reply computed for its own argument, and the server state is threaded through the calls in one sequential order.",
 ["schedules"],
 "all schedules of senders, port creation, copying and receiving; all schedules of RPC clients and server",
 "No test uses them concurrently.",
 ["cml/cml-lib/multicast.sml", "cml/cml-lib/simple-rpc.sml"],
 [("tee threads over a chain of write-once variables", "cml/cml-lib/multicast.sml"), ("reply variable per request", "cml/cml-lib/simple-rpc.sml")],
 observe=["Multicast.*", "SimpleRPC.*"])
prop("C17", "A crash or I/O error during a build never poisons later builds",
 "If a compilation-manager build or stabilisation dies or meets an I/O error at any point, then a later build over the files it left behind, without further faults, gives the same program as a build from scratch, needs no manual clean-up, and never loads a half-written compiled file.",
 ["crash_points", "fault_sequences"],
 "every system call of the build as crash or error point, including partially written files",
 "Tests never interrupt a build.",
 ["base/cm/util/safeio.sml", "base/cm/compile/compile.sml", "base/cm/stable/stabilize.sml", "base/cm/util/autodir.sml", "base/compiler/Execution/binfile/binfile.sml", "base/cm/smlfile/skel-io.sml"],
 [("clean-up of partial files on failure", "base/cm/util/safeio.sml"), ("time stamp written to the compiled file only after success", "base/cm/compile/compile.sml")],
 observe=["output of the program built afterwards"])
prop("C18", "Incremental builds equal clean builds after any edit history",
 "After any sequence of edits to source and description files, with time stamps as an ordinary file system produces them even across clock changes, rebuilding gives a program that behaves like one built from scratch from the current sources, and reports an error exactly when the build from scratch does.",
 ["histories"],
 "all histories of edits (implementations, interfaces, dependencies, added and removed files) and rebuilds, with steps of the clock between them",
 "Tests only build from a clean state.",
 ["base/cm/compile/compile.sml", "base/cm/depend/build.sml", "base/cm/smlfile/skel-io.sml", "base/cm/depend/to-portable.sml", "base/cm/paths/tstamp.sml", "base/compiler/Execution/binfile/binfile.sml"],
 [("time-stamp check plus interface fingerprints of imports", "base/cm/compile/compile.sml")],
 observe=["output of the rebuilt program", "CM.make result"])
prop("C19", "Generated scanners do not depend on how input arrives",
 "The tokens, their texts, positions, lines and columns that a scanner made by ml-ulex or ml-lex produces are a function of the input text alone, given by its rules (the longest match, of several the first rule, the next one after REJECT, in the current start state): they do not depend on the sizes of the pieces in which the input function delivers the text, nor on failures of the input function after which the scanner is asked again; a scanner of ml-ulex gives the same token whenever it is asked again at the same place.",
 ["inputs", "fault_sequences"],
 "all splittings of all inputs into pieces, with failing reads in between",
 "Tests read small files in one piece.",
 ["ml-lpt/ml-ulex/BackEnds/SML/template-ml-ulex.sml", "ml-lpt/lib/ulex-buffer.sml", "ml-lpt/ml-ulex/BackEnds/SML/sml-fun-output.sml", "ml-lex/lexgen.sml"],
 [("buffer refill keeping the longest match", "ml-lpt/lib/ulex-buffer.sml")],
 observe=["token stream"])
prop("C20", "Descriptor, poll and socket operations survive partial and broken I/O",
 "Polling reports for every descriptor exactly the conditions asked for that hold, within the requested time. Low-level and socket operations pass exactly the bytes, addresses, options, locks and offsets given by the program to the operating system and back, and transfers move the bytes they report and no others, whatever part of a request is done; failures of the operating system appear as system-error exceptions naming that error, and never as wrong data or a crash.",
 ["fault_sequences", "schedules"],
 "all patterns of partial transfers, interruptions, errors and readiness of sets of descriptors",
 "Tests do no socket or poll I/O.",
 [RT+"c-libs/posix-os/poll.c", RT+"c-libs/smlnj-sockets/sendbuf.c", RT+"c-libs/smlnj-sockets/recvbuf.c", BI+"Sockets/socket.sml", BI+"Unix/os-io.sml", BI+"Posix/posix-io.sml"],
 [("select glue", RT+"c-libs/posix-os/poll.c"), ("socket glue", RT+"c-libs/smlnj-sockets")],
 observe=["OS.IO.poll", "Socket.*", "NetHostDB, NetServDB, NetProtDB", "Posix.IO.*"])
prop("C21", "The interactive system survives interrupts at any moment",
 "An interrupt during compilation or evaluation in the interactive system abandons the current top-level declaration at most; the system stays usable, earlier bindings keep their values, the interrupted declaration is either completely bound or not at all, and later declarations evaluate normally.",
 ["schedules"],
 "all arrival times of the interrupt during a session",
 "Tests run sessions without interrupts.",
 ["base/compiler/TopLevel/interact/evalloop.sml", "base/compiler/TopLevel/interact/interact.sml", "base/system/smlnj/internal/int-sys.sml", "base/compiler/TopLevel/environ/environ.sml"],
 [("top-level continuation and environment commit", "base/compiler/TopLevel/interact/evalloop.sml")],
 observe=["session output"])
prop("C22", "Child processes are reaped once with their true status",
 "Waiting for a child process returns the status with which that child ended, exactly once per child and never another child's, whatever signals interrupt the wait and in whatever order children end; under the thread system only the waiting thread is blocked. A child that cannot be created is reported as an error, and an interrupted wait is not mistaken for termination.",
 ["schedules", "fault_sequences"],
 "all orders of child termination, all signal arrivals during waits, failing process creation",
 "Tests start no child processes.",
 [BI+"Unix/os-process.sml", BI+"Unix/unix.sml", BI+"Posix/posix-process.sml", RT+"c-libs/posix-process/waitpid.c", "cml/src/Unix/proc-manager.sml", "cml/src/Unix/os-process.sml", "cml/src/Unix/new-unix.sml"],
 [("status variable per process, polled by the scheduler", "cml/src/Unix/proc-manager.sml")],
 observe=["OS.Process.system", "Unix.reap", "Posix.Process.waitpid"])
prop("C23", "Values cross the boundary to the operating system intact",
 "Through the operating-system part of the Basis library (files and directories, the process environment, users and groups, terminals, dates and times, named constants, error names), the operating system receives exactly the numbers, strings and lists the program passed, and the program receives exactly those the operating system answered, of any magnitude and length and unchanged by later collections; a failing call raises a system error that names the operating system's error, and never returns a value.",
 ["inputs", "fault_sequences", "histories"],
 "all argument and result values, all error answers, all placements of collections between a call and the use of its result",
 "Tests make few system calls, all of which succeed, with small values, and no collection comes between a call and its result.",
 [RT+"c-libs/posix-filesys", RT+"c-libs/posix-procenv", RT+"c-libs/posix-sysdb", RT+"c-libs/posix-tty", RT+"c-libs/posix-error", RT+"c-libs/smlnj-date", RT+"c-libs/smlnj-time", RT+"gc/ml-objects.c", RT+"include/ml-values.h", BI+"Posix", BI+"Unix/os-filesys.sml", BI+"date.sml"],
 [("allocation of results on the ML heap", RT+"gc/ml-objects.c"), ("RAISE_SYSERR", RT+"c-libs/unix-raise-syserr.c")],
 observe=["Posix.FileSys, Posix.ProcEnv, Posix.SysDB, Posix.TTY, OS.FileSys, Date, Time, Posix.Error"])

NA = [
("N01", "Compiled programs behave as the Definition of Standard ML says",
 "Every program accepted by the compiler evaluates as the Definition of Standard ML prescribes, with the optimiser at any setting.", ["programs"], "all programs",
 ["base/compiler"], "pure function of the program text: no schedule, clock, I/O or fault takes part; deciding it needs translation validation or differential testing, not simulation"),
("N02", "Well-typed programs do not go wrong, ill-typed ones are rejected",
 "Elaboration accepts exactly the well-typed programs and assigns principal types.", ["programs"], "all programs",
 ["base/compiler/Elaborator"], "pure function of the program text"),
("N03", "Numeric conversions are exact and round-trip",
 "Converting integers, words and reals to and from text or each other is exact, or correctly rounded, and round-trips.", ["inputs"], "all numbers and strings",
 [BI+"Real"], "pure functions of their arguments; nothing to schedule or to fail"),
("N04", "Library containers implement their abstract models",
 "Maps, sets, queues, hash tables, priority queues and arrays of the library behave as finite maps, sets and sequences.", ["histories"], "all operation sequences",
 ["smlnj-lib/Util"], "sequential, in-memory and deterministic: no nondeterminism or fault for a simulator to control"),
("N05", "Parser generators produce parsers of exactly the given grammar",
 "ml-yacc, ml-antlr and ml-ulex/ml-lex accept exactly the language of the specification, or report conflicts.", ["inputs", "programs"], "all grammars and inputs",
 ["ml-yacc", "ml-lpt"], "pure functions of grammar and input (arrival of scanner input in pieces is C19)"),
("N06", "Regular-expression engines agree with the language they denote",
 "All matching engines agree with the denotation of the expression.", ["inputs"], "all expressions and strings",
 ["smlnj-lib/RegExp"], "pure functions of expression and string"),
("N07", "Structured-text libraries round-trip",
 "Parsing what the JSON, S-expression, XML and HTML libraries print gives back the value.", ["inputs"], "all values",
 ["smlnj-lib/JSON", "smlnj-lib/SExp", "smlnj-lib/XML", "smlnj-lib/HTML4"], "pure functions of the value"),
("N08", "C front end accepts, types and prints C correctly",
 "The C kit parses C programs, and pretty-printing and re-parsing preserves them.", ["inputs"], "all C programs", ["ckit"], "pure function of the program text"),
("N09", "MLRISC back ends emit code that means what the tree said",
 "Instruction selection, register allocation and emission preserve the meaning of the MLTree program.", ["programs"], "all MLTree programs", ["MLRISC"], "pure function of the program"),
]
for id, title, st, over, text, files, reason in NA:
    prop(id, title, st, over, text, "Tests sample a few inputs.", files, [("see files", files[0])])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(here + "/properties.jsonl", "w") as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
