"""Simulated runs: one forked process per run, a pristine reference server, results.

A run is a pure function of its case (JSON).  The worker process has imported the library but
never used it; every run happens in a fork of it, inside a scratch directory of its own.
"""
import ctypes
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import sys
import time
import traceback

from . import shim

CPU_LIMIT = 40
AFTER_FOUND = 20
WALL_LIMIT = 75
MEM_LIMIT = 6 << 30


def engine(pid):
    """Engine (module attribute ENGINES[pid]) deciding a property."""
    from . import engines
    table = {
        "C01": "threads", "C02": "history", "C03": "interrupt", "C04": "aliasing",
        "C05": "store", "C06": "store", "C07": "faults", "C08": "footprint", "C09": "torn",
        "C10": "damage", "C11": "damage", "C12": "environ", "C13": "hygiene", "C14": "delivery",
        "C15": "nested", "C16": "nested",
    }
    mod = importlib.import_module("dst.engines." + table[pid])
    return mod.ENGINES[pid]


class Env:
    """What a run may use: scratch directory, reference server, counters, verdicts."""

    def __init__(self, root, ref=True):
        self.root = root
        self.S = os.path.join(root, "s")
        shutil.rmtree(self.S, ignore_errors=True)
        for d in ("w", "t", "h", "r"):
            os.makedirs(os.path.join(self.S, d))
        os.chdir(os.path.join(self.S, "w"))
        os.environ["TMPDIR"] = os.path.join(self.S, "t")
        os.environ["HOME"] = os.path.join(self.S, "h")
        import tempfile
        tempfile.tempdir = None
        shim.sim(root)
        random.seed(20330518)
        self.stats = {}
        self.trace = []
        self.viol = []
        self.sig = []
        self.nontrivial = False
        self.narrow = None
        self.refsrv = Ref(os.path.join(root, "ref")) if ref else None

    def path(self, name):
        return os.path.join(self.S, "w", name)

    def stat(self, name, n=1):
        if n:
            self.stats[name] = self.stats.get(name, 0) + n

    def tick(self, seconds):
        """Lets simulated time pass (or jump back)."""
        if seconds:
            shim.advance(seconds)
            self.stat("simulated_ms", max(0, int(seconds * 1000)))
            if seconds < 0:
                self.stat("fault:clock set back")

    def log(self, line):
        if len(self.trace) < 400:
            self.trace.append(self.norm(str(line))[:300])

    def norm(self, s):
        return s.replace(self.S, "$S").replace(self.root, "$R")

    def violate(self, cls, detail):
        if len(self.viol) < 5:
            self.viol.append({"class": cls, "detail": self.norm(str(detail))[:1500]})

    def note(self, *sig):
        """Contribution to the measure of distinct runs."""
        self.sig.append(repr(sig))

    def ref(self, name, *args):
        return self.refsrv(name, *args)

    def result(self):
        sig = hashlib.sha1("\n".join(self.sig).encode()).hexdigest()[:16]
        r = {"viol": self.viol, "stats": self.stats, "trace": self.trace, "sig": sig,
             "nontrivial": bool(self.nontrivial)}
        if self.viol and self.narrow:
            r["narrow"] = self.narrow  # a part of the case that shows the violation
        return r


class Ref:
    """Server forked before the run touches the library; every request is answered by a
    fork of its own, i.e. by a process in which nothing else has happened."""

    def __init__(self, scratch):
        self.scratch = scratch
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w1)
            os.close(r2)
            try:
                self._serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def _serve(self, r, w):
        while True:
            req = _recv(r)
            if req is None:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    shutil.rmtree(self.scratch, ignore_errors=True)
                    os.makedirs(self.scratch)
                    os.chdir(self.scratch)
                    name, args = pickle.loads(req)
                    from . import ops
                    res = ("ok", getattr(ops, name)(*args))
                except BaseException:
                    res = ("harness-error", traceback.format_exc())
                _send(w, pickle.dumps(res))
                os._exit(0)
            _, st = os.waitpid(pid, 0)
            if st != 0:
                _send(w, pickle.dumps(("died", st)))

    def __call__(self, name, *args):
        _send(self.w, pickle.dumps((name, args)))
        d = _recv(self.r)
        if d is None:
            raise RuntimeError("reference server gone")
        st, v = pickle.loads(d)
        if st == "harness-error":
            raise RuntimeError("reference: " + v)
        if st == "died":
            raise RuntimeError("reference process died: %r" % v)
        return v

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)


def _send(fd, data):
    data = struct.pack("<Q", len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _recv(fd):
    h = b""
    while len(h) < 8:
        c = os.read(fd, 8 - len(h))
        if not c:
            return None
        h += c
    n = struct.unpack("<Q", h)[0]
    b = bytearray()
    while len(b) < n:
        c = os.read(fd, min(1 << 20, n - len(b)))
        if not c:
            return None
        b += c
    return bytes(b)


def fork_call(fn, cpu=CPU_LIMIT, wall=WALL_LIMIT):
    """Runs fn() in a fork of this process; returns as Zygote.call does."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            os.close(r)
            data = _limited(fn, cpu)
            while data:
                n = os.write(w, data)
                data = data[n:]
        finally:
            os._exit(0)
    os.close(w)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    buf = bytearray()
    end = time.monotonic() + wall
    late = False
    while True:
        left = end - time.monotonic()
        rl = left > 0 and select.select([r], [], [], left)[0]
        if not rl:
            late = True
            break
        c = os.read(r, 1 << 20)
        if not c:
            break
        buf += c
    os.close(r)
    if late:
        _kill_group(pid)
    _, st = os.waitpid(pid, 0)
    _kill_group(pid)  # whatever it left behind
    return _outcome(late, st, bytes(buf))


def _limited(fn, cpu):
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    try:
        res = fn()
    except BaseException:
        res = {"error": traceback.format_exc()}
    sys.settrace(None)
    return json.dumps(res).encode()


def _kill_group(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass


def _outcome(late, st, data):
    """("ok", result) / ("cpu",) / ("wall",) / ("died", status)"""
    if late:
        return ("wall",)
    if os.WIFSIGNALED(st):
        if os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL):
            return ("cpu",)
        return ("died", "signal %d" % os.WTERMSIG(st))
    if not data:
        return ("died", "exit status %d" % os.WEXITSTATUS(st))
    return ("ok", json.loads(data))


class Zygote:
    """Process forked once the library is imported, before anything else happens.  Every run is
    a fork of it, so that memory too is the same at the beginning of every run of a case: in a
    batch, when it is confirmed, minimised or replayed."""

    def __init__(self, eng, root):
        self.eng, self.root = eng, root
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w1)
            os.close(r2)
            try:
                self._serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def _serve(self, r, w):
        while os.read(r, 1):        # one byte, an object that exists already
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    self._run(r)
                finally:
                    os._exit(0)
            try:
                os.setpgid(pid, pid)
            except OSError:
                pass
            os.write(w, b"P%20d" % pid)
            st = os.waitpid(pid, 0)[1]
            os.write(w, b"S%20d" % st)

    def _run(self, r):
        req = json.loads(_recv(r))

        def go():
            env = Env(self.root, ref=self.eng.REF)
            self.eng.run(req["case"], env)
            if env.refsrv:
                env.refsrv.close()
            return env.result()
        data = _limited(go, req["cpu"])
        with open(os.path.join(self.root, "result"), "wb") as f:
            f.write(data)

    def _tell(self, kind, wall):
        """Next message of the zygote, or None when it does not come in time."""
        end = time.monotonic() + wall
        buf = b""
        while len(buf) < 21:
            left = end - time.monotonic()
            if left <= 0 or not select.select([self.r], [], [], left)[0]:
                return None
            c = os.read(self.r, 21 - len(buf))
            if not c:
                raise RuntimeError("zygote gone")
            buf += c
        assert buf[:1] == kind, buf
        return int(buf[1:])

    def call(self, case, cpu=CPU_LIMIT, wall=WALL_LIMIT):
        out = os.path.join(self.root, "result")
        try:
            os.unlink(out)
        except FileNotFoundError:
            pass
        os.write(self.w, b"g")
        _send(self.w, json.dumps({"case": case, "cpu": cpu}).encode())
        pid = self._tell(b"P", 60)
        st = self._tell(b"S", wall)
        late = st is None
        if late:
            _kill_group(pid)
            st = self._tell(b"S", 60)
        _kill_group(pid)  # whatever it left behind
        try:
            with open(out, "rb") as f:
                data = f.read()
        except FileNotFoundError:
            data = b""
        return _outcome(late, st, data)


def run_case(zyg, case):
    """One simulated run.  Hangs and deaths of the process are verdicts once they repeat under a
    larger limit; anything wrong in the harness itself is an error."""
    first = zyg.call(case)
    if first[0] == "ok":
        return first[1]
    second = zyg.call(case, CPU_LIMIT * 2, WALL_LIMIT * 2)
    if second[0] == "ok":
        return second[1]
    cls = {"cpu": "no-termination", "wall": "no-termination", "died": "process-died"}
    if cls[first[0]] == cls[second[0]]:
        d = {"cpu": "the operation did not end within %d s of processor time" % (CPU_LIMIT * 2),
             "wall": "the operation did not end within %d s" % (WALL_LIMIT * 2),
             "died": "the process was ended: %s" % (second[1:],)}[second[0]]
        return {"viol": [{"class": cls[first[0]], "detail": d}], "stats": {}, "trace": [],
                "sig": "x", "nontrivial": True}
    return {"error": "unstable: %r then %r" % (first, second)}


def rng_for(pid, seed, index):
    return random.Random(f"{pid}/{seed}/{index}")


def worker(cfg, eng, zyg):
    """Runs every W-th case; returns counts, distinct signatures, violations."""
    out = {"runs": 0, "nontrivial": 0, "sigs": [], "stats": {}, "viol": [], "errors": [],
           "samples": [], "hashes": {}}
    sigs = set()
    end = time.monotonic() + cfg["budget"]
    stop_file = os.path.join(cfg["root"], "stop")
    late_file = os.path.join(cfg["root"], "found")
    for i in range(cfg["w"], cfg["n"], cfg["W"]):
        if time.monotonic() > end or os.path.exists(stop_file):
            break
        if os.path.exists(late_file):
            # something was found: a little more, for other kinds of violations
            end = min(end, time.monotonic() + AFTER_FOUND)
        case = eng.gen(rng_for(cfg["id"], cfg["seed"], i), i, cfg["tier"])
        case = json.loads(json.dumps(case))
        t0 = time.monotonic()
        res = run_case(zyg, case)
        out.setdefault("slow", []).append((round(time.monotonic() - t0, 2), i))
        out["slow"] = sorted(out["slow"])[-3:]
        if "error" in res:
            out["errors"].append({"index": i, "case": case, "error": res["error"]})
            if len(out["errors"]) >= 3:
                break
            continue
        out["runs"] += 1
        if cfg.get("hashes"):
            out["hashes"][i] = hashlib.sha1(json.dumps(res, sort_keys=True).encode()).hexdigest()
        for k, v in res["stats"].items():
            out["stats"][k] = out["stats"].get(k, 0) + v
        if res["nontrivial"]:
            out["nontrivial"] += 1
            sigs.add(res["sig"])
        if len(out["samples"]) < 2 and res["nontrivial"]:
            out["samples"].append({"index": i, "case": case, "trace": res["trace"][:25]})
        if res["viol"]:
            out["viol"].append({"index": i, "case": case, "viol": res["viol"],
                                "trace": res["trace"], "narrow": res.get("narrow")})
            if not os.path.exists(late_file):
                open(late_file, "w").close()
            hung = any(v["class"] in ("no-termination", "process-died") for v in res["viol"])
            if hung or len(out["viol"]) >= 8:
                open(stop_file, "w").close()
                break
    out["sigs"] = sorted(sigs)
    return out


def minimise(eng, zyg, case, cls, budget):
    """Greedy minimisation: any simpler case that still violates in the same way."""
    end = time.monotonic() + budget
    best = None
    tried = 0
    seen = set()
    again = True
    while again and time.monotonic() < end:
        again = False
        for cand in eng.shrink(case):
            cand = json.loads(json.dumps(cand))
            key = json.dumps(cand, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            if time.monotonic() > end:
                break
            tried += 1
            try:
                got = zyg.call(cand, 20, 40)
            except Exception:
                continue
            if got[0] != "ok" or "error" in got[1]:
                continue
            res = got[1]
            if any(v["class"] == cls for v in res["viol"]):
                case, best, again = cand, res, True
                break
    return case, best, tried

