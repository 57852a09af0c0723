#!/usr/bin/env python3
"""Writes known_findings.json (kept here in readable form)."""
import json, os
F = [
("C01", "7d28549", "floating-point values live across a heap check were lost in a collection (sameCallingConvention ignored the tails of unequal root lists)"),
("C01", "d2fd894", "getgrnam/getgrgid and the net database lookups held unrooted values across ML_CStringList, which may collect"),
("C01", "cb98afa", "environ/argv/group lists larger than the free allocation area overflowed it; the list was lost when a large string triggered a collection"),
("C05", "652b208", "a signal that was pending (or raised by the collector) when it was masked, ignored or reset was passed to ML all the same and killed the process with 'inconsistent state'"),
("C05", "3b3bc83", "a handler that ran in the middle of maskSignals/unmaskSignals and changed masks or handlers had its changes overwritten; the table and the system's mask went out of step"),
("C06", "b34b13a", "a signal pending on return from C code was never noticed by a loop that does not allocate (limit pointer set equal to the allocation pointer), nor was any later signal"),
("C07", "bbb57ac", "a time limit of zero turned the timer off: the computation ran without limit"),
("C11", "fe35cb9", "a handler wrapped around one event of a choice caught exceptions raised by the wrappers of another event of the choice"),
("C11", "9492cca", "a choice that had to signal nacks could lose the communication partner it had selected when preempted while signalling them"),
("C12", "090485e", "a second wait of the same thread on a barrier was refused or never ended; resigning did not complete the round for those waiting"),
("C14", "2adeaa5", "logChannel, logMailbox and logServer called while CML was running waited for ever for the lock they held"),
("C14", "715cc6a", "when the idle loop was preempted before entering its atomic region, the system was later taken for deadlocked and shut down although a thread was ready"),
("C04", "3242059", "an export whose last buffered part could not be written (full disk, I/O error, error at close) was reported as done; the image was incomplete"),
('C20', 'c656644', "after a failing lseek the runtime went on and returned a position instead of raising the error"),
('C20', '20006ac', "the record returned by F_GETLK had its length and tag swapped: the fields read by the program were not those of the system"),
('C20', '710cd95', "the out-of-band, peek and don't-route flags of socket transfers were passed in the wrong order"),
('C20', '4505f04', "Socket.Ctl.getRCVBUF and setRCVBUF operated on the send buffer"),
('C20', '7170538', "Posix.IO.getfl returned the descriptor flags instead of the status flags"),
('C20', '1af8288', "OS.IO.poll returned undefined list elements (crash) when one descriptor had several conditions"),
('C20', '2049ee4', "Socket.familyOfAddr of any address was byte-swapped"),
('C20', '7a42b8b', "NetDB lookups by address misread the representation of the address family"),
('C20', '9a2bc88', "NetServDB.getByPort passed the port in host byte order"),
('C20', '287a184', "a long Unix-domain socket path overflowed the address on the C stack"),
('C20', 'f9663d2', "vectors read from descriptors and sockets were not padded: a string equal to a constant did not match the pattern of that constant"),
('C20', 'f405f50', "recvfrom: the sender's address was overwritten when less data than asked for arrived"),
('C20', 'e3ab604', "OS.IO.poll with more than about 170 ready descriptors overflowed the allocation space"),
('C20', 'b925dbb', "a host entry with a long list of addresses overflowed the allocation space"),
('C23', 'ed6fb85', "getgroups with a long list of groups overflowed the allocation space"),
('C22', '3ada2c4', "waitpid_nh with no child ready used an undefined status"),
('C22', '3bf8547', "exec, execp, exece: the argument vector could be moved by a collection it caused; that of exece was allocated too small"),
('C22', 'b0abee9', "kill with K_SAME_GROUP signalled every process (pid -1) instead of the own group (pid 0)"),
('C23', '20f7f47', "the record returned by tcgetattr had its length and tag swapped"),
('C23', '736a48a', "the date record returned by gmtime and localtime had its length and tag swapped"),
('C23', 'fcc03f2', "after a failing uname the runtime went on with undefined data instead of raising the error"),
('C23', 'd58718f', "after a failing localtime the runtime used a null pointer instead of raising the error"),
("C03", "d0d8d23", "a refused request for memory of the C heap (or of the heap while an image was read or written) was not noticed and ended in a memory fault"),
("C07", "16c09fa", "CPU timers counted the time of collections twice: once as user time, once as collection time"),
("C22", "4ad1a06", "OS.Process.system raised an error and forgot its child when a handled signal interrupted the wait"),
("C22", "c52a0e4", "under CML, making a child with preemption at the wrong moment, or a failing fork, left the thread system without its timer: one thread ran for ever"),
("C08", "faa2a00", "canInput dropped the data it had read when it needed more than one buffer"),
("C08", "b3115d9", "filePosIn left the file at another position than the stream's when a read failed on the way"),
("C19", "02784c9", "a scanner made by ml-lex lost its place when the input function raised an exception in the middle of a token"),
("C09", "4ede712", "after a write that failed in the middle of the buffer the elements already written were written again; output1 raised Subscript"),
('C23', '784b940', "integers of 2^30 or more became negative on their way to the program (Posix.ProcEnv.time)"),
]
K = [
("C01", "rawargs", "64-bit integers (Int64, Word64, Position) that do not fit into the argument registers of a call with more than four arguments are spilled into an ordinary record (argSpill/spillIn in base/compiler/CPS/convert/cpstrans.sml), where the collector takes even values for pointers or descriptors: ml/gc/gcw.sml rawWork, functions raw0 and raw1"),
]
if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    out = [{"property": p, "status": "fixed", "line": "fixed: property=%s %s %s" % (p, c, w), "what": w} for p, c, w in F]
    out += [{"property": p, "status": "known", "match": m, "what": w} for p, m, w in K]
    json.dump(out, open(here + "/known_findings.json", "w"), indent=1)
