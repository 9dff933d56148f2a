"""Registered checks: numbers of runs, rule, measure, components."""

REAL = ["ccsds_ndm (all modules, compiled from the working tree)", "xsdata", "lxml / libxml2",
        "expat", "CPython file objects and codecs", "kernel file system (tmpfs)"]

PLAN = {
    "C02": dict(
        quick=2000, thorough=30000,
        rule="seeded histories of 2-11 reads, conversions, saves, file replacements (also with "
             "unchanged size and time stamp), files removed, exchanged and links set anew, changes of "
             "the current directory, reads of absent files, long runs of other conversions, edits of "
             "messages and failed operations over fresh and reused I/O objects; the clock advances, "
             "stands and is set back; non-trivial: at least two operations",
        measure="sequences of (operation, interface, route, outcome class, document kinds)",
        real=REAL, stub=["none"]),
}

PLAN["C03"] = dict(
    quick=1500, thorough=30000,
    rule="an operation is cut short 1-3 times by an exception raised at a seeded event (line of the "
         "library, of the parsing library or of any Python code) or by a seeded call depth limit; "
         "then the same and other operations run; non-trivial: the fault was set up inside an "
         "operation in progress",
    measure="sequences of (operation, interface, fault kind, function hit, visible effect, "
            "operations that follow)",
    real=REAL, stub=["delivery of the asynchronous exception (raised by the trace hook)"])
PLAN["C04"] = dict(
    quick=1500, thorough=30000,
    rule="seeded programs of 2-8 reads, conversions, saves (also failing ones) and edits; after "
         "every step all live messages are compared with their last known content and no mutable "
         "part may belong to two messages; non-trivial: at least two steps",
    measure="sequences of (operation, interface, format, outcome kind, message type)",
    real=REAL, stub=["none"])
PLAN["C01"] = dict(
    quick=1400, thorough=30000,
    rule="2-4 caller threads with programs of 1-3 operations over one shared general interface or "
         "interfaces of their own, to the same and to similar file names (same folder, same stem, same "
         "name in several folders), in a process that has or has not used the library; the scheduler "
         "switches at seeded lines or bytecodes of the library, calls of the parsing library and "
         "lock operations (uniform with probability 0.005-0.5, or a few priority change points); "
         "non-trivial: more switches than threads",
    measure="programs and the exact list of (scheduling point, thread switched to)",
    time="virtual: sleeping threads yield; the library has no timers",
    real=REAL + ["caller threads (real threads, one runs at a time)"],
    stub=["thread scheduling", "threading.Lock/RLock/Condition (virtual)", "time.sleep"])
_ST = REAL + ["open/read/write/close system calls (real, behind the seam)"]
_SEAM = ["transfer sizes, interruptions and errors of system calls (LD_PRELOAD seam)"]
_STORE_RULE = ("seeded histories of 1-6 saves of generated messages (all types in turn, optional "
               "content 0-100 %, up to 400 data rows, Unicode and markup characters) over 1-3 files, "
               "with split and interrupted transfers, failing saves, texts and names that a format cannot "
               "hold (a save may refuse them, a reported success must be readable), crashes in the middle of other "
               "saves and stale content; every file whose last save was reported as successful is "
               "read by this and by a later process; non-trivial: at least one such file")
for _p in ("C05", "C06"):
    PLAN[_p] = dict(
        quick=1600, thorough=40000, rule=_STORE_RULE,
        measure="sequences of (step kind, message type, interface, path form, outcome, transfer "
                "faults, size and vocabulary class)",
        real=_ST, stub=_SEAM + ["process crash (_exit inside a system call)"])
PLAN["C07"] = dict(
    quick=2200, thorough=60000,
    rule="seeded reads and saves during which opening, the k-th transfer or closing fails (all error numbers of "
         "the system calls but EAGAIN), also after a partial transfer, at a quota, or as a delayed write "
         "error at close that loses the last write; then the same call is repeated without the "
         "fault; non-trivial: a hard fault fired inside the operation",
    measure="sequences of (operation, interface, path form, system call hit, action, errno, outcome)",
    real=_ST, stub=_SEAM)
PLAN["C08"] = dict(
    quick=2200, thorough=50000,
    rule="seeded saves of messages that cannot be converted (a value anywhere in the message whose "
         "text form raises, text that cannot be encoded, missing required value, several members "
         "to KVN, JSON, unknown format, no message) or can be, over absent, empty, short, long, "
         "linked and read-only destinations of many names next to neighbours with similar names (same "
         "stem, usual suffixes), and reads of files with odd line ends; the whole scratch tree (names, "
         "bytes, links, modes, time stamps, inodes) is compared before and after; non-trivial: a conversion that fails",
    measure="sequences of (operation, interface, way of failing, format, old content, path form, "
            "outcome, position of the failure)",
    real=_ST, stub=_SEAM + ["the value that fails to convert"])
PLAN["C09"] = dict(
    quick=1800, thorough=50000,
    rule="XML files torn by truncation at seeded and at consecutive bytes, zeroed, lost and stale "
         "blocks, or by a crash, full disk or power cut in the middle of a save over an old file, "
         "read through up to eight entry points; whether the remains are well-formed is decided by "
         "an XML parser outside the library; non-trivial: the file is no longer well-formed or the "
         "save was interrupted",
    measure="damage or (system call hit, state of the file, power-cut effect, transfer size, type) "
            "with the entry points used",
    real=_ST, stub=_SEAM + ["process crash (_exit inside a system call)", "loss of unsynchronised blocks"])
_DMG_RULE = ("messages of all types and sample documents, in both formats, damaged by truncation, cuts, "
             "zeroed, lost, doubled, swapped and stale blocks, flipped bits, lost, doubled, exchanged, "
             "moved, cut, joined and foreign lines, values that are missing, look-alike characters (1-3 per read, 6-16 reads per run, fresh or reused "
             "I/O object)")
PLAN["C10"] = dict(
    quick=2400, thorough=60000,
    rule=_DMG_RULE + "; every value of a result is looked up in the text under its keyword or element "
         "path by a scanner of its own; non-trivial: a damaged input was read successfully",
    measure="sequences of (damage kinds, outcome, type of the result or of the error)",
    real=REAL, stub=["storage and transfer damage"])
PLAN["C11"] = dict(
    quick=1400, thorough=40000,
    rule=_DMG_RULE + ", plus over a hundred kinds of fragments, alone and in succession, files of which a few lines, lines of "
         "one kind or lines in another order are left, and files grown by repetition; steps (lines of the library, calls of "
         "the parsing library) are counted against a bound linear in the size; then an intact input is read "
         "through the same object; non-trivial: the input differs from the intact one",
    measure="sequences of (damage kinds, outcome class)",
    real=REAL, stub=["storage and transfer damage"])
PLAN["C12"] = dict(
    quick=400, thorough=12000,
    rule="two processes in seeded environments (hash seed, text encoding of the locale, clock, time zone, "
         "current directory (also deleted), decimal settings of thread and process, optimisation level, randomness, process number, "
         "foreign classes of the same names, garbage collector, closed standard streams, interpreter flags, "
         "environment variables, also those that the process was seen to ask for, calling thread); one saves and reads, the other reads what the first saved; "
         "every outcome and every byte saved is compared with a process in a plain environment; non-trivial: "
         "at least one setting differs from the plain environment",
    measure="(settings that differ, operations with their settings)",
    time="the clock seen by the processes is shifted by up to +-31 years",
    real=REAL + ["whole interpreter processes"],
    stub=["text encoding of the locale (nl_langinfo), clock (both in the preloaded seam)"])
PLAN["C13"] = dict(
    quick=1000, thorough=25000,
    rule="histories of 1-8 reads, saves and conversions, intact, damaged, with values that cannot be converted, "
         "with storage errors, or cut short by an exception inside the parsing library; before and after each "
         "operation the process is inspected (descriptors, threads, children, files around it, 41 groups of "
         "settings); then the same history is repeated up to 90 times, or on new content 420 times, and nothing "
         "may pile up; non-trivial: an "
         "operation failed",
    measure="(operation, interface, route, outcome, faults, interruption, thread) per step",
    real=REAL, stub=["storage errors", "delivery of the asynchronous exception"])
PLAN["C14"] = dict(
    quick=1500, thorough=40000,
    rule="a document (intact or damaged) is delivered in 4-10 ways (text, bytes, file by absolute, relative, "
         "dotted, symbolic, hard-linked path, path up from a link, name with a meaning elsewhere, or pipe, as text or "
         "path object, through the general or the specific "
         "interface, LF or CRLF, transfers split from 1 byte up and interrupted), all outcomes are compared with "
         "each other and with a process of its own; saves are compared byte by byte with the text conversion; "
         "non-trivial: two deliveries compared or a transfer split",
    measure="(operation, format, interface, route, line ends, transfer behaviour, outcome) per delivery",
    real=REAL, stub=["splitting and interruption of transfers"])
PLAN["C15"] = dict(
    quick=1500, thorough=40000,
    rule="a read, conversion or save is stopped at 1-5 seeded events (lines of the library, of the parsing library or of any "
         "Python code; or once at every line it runs through) and another read, conversion or save is carried out in its "
         "midst, in the same thread, through the shared general object or one of its own, at times with a third one "
         "within; all results, files and messages are compared with those of operations done alone; a lock that "
         "can never become free is an error; non-trivial: an operation ran within another",
    measure="(outer operation, functions at whose lines others ran, those operations)",
    real=REAL, stub=["delivery of the signal or finalizer (the trace hook)", "threading.Lock/RLock/Condition (virtual)"])
PLAN["C16"] = dict(
    quick=1500, thorough=40000,
    rule="1-3 times, at seeded events of a read, conversion or save, a process is forked, by the same thread or by "
         "another one; the child carries out 1-3 operations through the same shared object, one in use in the parent or "
         "objects of its own; it stops at up to 3 seeded events of them until it gets the turn at a seeded event of the "
         "parent or at its end, or is killed at one; all results and files of "
         "parent and children are compared with those of operations done alone; non-trivial: a fork in the midst",
    measure="(operation of the parent, functions at whose lines it forked, thread, operations of the children)",
    real=REAL + ["processes (real forks, one runs at a time)"],
    stub=["thread scheduling", "threading.Lock/RLock/Condition (virtual)", "crash of a child (SIGKILL at a seeded event)"])
