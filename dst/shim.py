"""Control of the storage seam (shim.c, preloaded)."""
import ctypes
import errno
import os

OPEN, READ, WRITE, CLOSE, META = range(5)
KINDS = ["open", "read", "write", "close", "meta"]
ERR, SHORT, PARTERR, CRASH, CLOSELOSS = 1, 2, 3, 4, 5
ON = 256  # added to ERR: fails from that call on, not only once
ACT = {1: "error", 2: "short", 3: "partial+error", 4: "crash", 5: "delayed-write-error",
       6: "chunk", 7: "disk-full", 9: "EINTR"}

_lib = ctypes.CDLL(None)
try:
    PRESENT = _lib.dst_present() == 4711
except AttributeError:
    PRESENT = False
if PRESENT:
    _lib.dst_reset.argtypes = [ctypes.c_char_p, ctypes.c_uint64, ctypes.c_int, ctypes.c_int,
                               ctypes.c_int, ctypes.c_long]
    _lib.dst_fired.restype = ctypes.c_long
    _lib.dst_clock.argtypes = [ctypes.c_double]
    _lib.dst_sim.argtypes = [ctypes.c_char_p, ctypes.c_int64, ctypes.c_uint64, ctypes.c_int]
    _lib.dst_advance.argtypes = [ctypes.c_int64]
    _lib.dst_now.restype = ctypes.c_int64

simulated = False
EPOCH = 2_000_000_000 * 10 ** 9     # when simulated machines start (May 2033)


def reset(prefix, plan=None):
    """plan: {"seed", "chunk_r", "chunk_w", "eintr", "quota", "faults": [[kind,nth,act,arg,errno]]}"""
    plan = plan or {}
    _lib.dst_reset(prefix.encode(), plan.get("seed", 1), plan.get("chunk_r", 0),
                   plan.get("chunk_w", 0), plan.get("eintr", 0), plan.get("quota", -1))
    for kind, nth, act, arg, err in plan.get("faults", []):
        _lib.dst_fault(KINDS.index(kind), nth, act, arg, getattr(errno, err) if err else 0)


def clear():
    _lib.dst_clear()


def sim(prefix, seed=1, start=EPOCH, pid=4711):
    """From here on this process runs on the simulated machine: its clock moves by a microsecond
    each time it is read and by what the run says; files below the prefix carry its times."""
    global simulated
    simulated = True
    _lib.dst_sim(prefix.encode(), start, seed, pid)


def forks():
    """From here on processes that this one forks have process numbers and random numbers of their
    own, as on a real machine."""
    n = [0]

    def before():
        n[0] += 1
        _lib.dst_fork(n[0])

    def in_child():
        n[0] = 0
    os.register_at_fork(before=before, after_in_parent=_lib.dst_forked, after_in_child=in_child)


def advance(seconds):
    _lib.dst_advance(int(seconds * 10 ** 9))


def now_ns():
    """Simulated time in nanoseconds; -1 outside the simulation."""
    return _lib.dst_now()


def clock(off):
    _lib.dst_clock(float(off))


class armed:
    def __enter__(self):
        _lib.dst_arm(1)

    def __exit__(self, *a):
        _lib.dst_arm(0)


def arm(on):
    _lib.dst_arm(1 if on else 0)


def open_tracked():
    return _lib.dst_open_tracked()


def counts():
    return {k: _lib.dst_count(i) for i, k in enumerate(KINDS)}


FIRED = ["EINTR", "error", "short", "partial+error", "crash", "delayed-write-error", "chunked",
         "disk-full"]


def fired():
    return {n: _lib.dst_fired(i) for i, n in enumerate(FIRED) if _lib.dst_fired(i)}


def log(strip=""):
    out = []
    k, fd, err, fault, flags = (ctypes.c_int() for _ in range(5))
    res = ctypes.c_long()
    path = ctypes.create_string_buffer(200)
    for i in range(_lib.dst_nlog()):
        _lib.dst_log(i, ctypes.byref(k), ctypes.byref(fd), ctypes.byref(res), ctypes.byref(err),
                     ctypes.byref(fault), ctypes.byref(flags), path)
        p = path.value.decode(errors="replace")
        outside = bool(flags.value & (1 << 30))
        if strip:
            p = p.replace(strip, "$S")
        e = KINDS[k.value]
        if p:
            e += " " + p
        if k.value == OPEN and flags.value & 3:
            e += " (w)"
        if outside:
            e += " OUTSIDE"
        e += " -> %d" % (res.value if k.value != OPEN else (0 if res.value >= 0 else -1))
        if err.value:
            e += " " + errno.errorcode.get(err.value, str(err.value))
        if fault.value:
            e += " [%s]" % ACT.get(fault.value, fault.value)
        out.append(e)
    return out
