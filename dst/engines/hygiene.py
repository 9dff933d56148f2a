"""C13: what an operation leaves behind in its process and around it."""
import atexit
import builtins
import codecs
import contextvars
import copyreg
import csv
import decimal
import faulthandler
import gc
import io
import locale
import logging
import os
import random
import re
import resource
import signal
import socket
import sys
import tempfile
import threading
import tracemalloc
import warnings
import weakref
import xml.etree.ElementTree
from pathlib import Path

from lxml import etree
from xsdata.formats.converter import converter

from .. import cases, gen, ops, shim
from ..sched import _real_sleep

EXC = {"ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError,
       "SystemExit": SystemExit, "RecursionError": RecursionError}


class AtCall:
    """Raises at the k-th call of a function of the parsing library (never on the way into or
    out of a block that protects a resource, where Python itself cannot keep one safe)."""

    def __init__(self, k, exc):
        self.k, self.exc, self.n = k, exc, 0

    def tracer(self, frame, event, arg):
        if "/xsdata/" in frame.f_code.co_filename:
            self.n += 1
            if self.n == self.k:
                sys.settrace(None)
                raise self.exc("injected")
        return None


def descriptors():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            out[int(n)] = os.readlink("/proc/self/fd/" + n)
        except OSError:
            pass
    me = "/proc/%s/fd" % os.readlink("/proc/self")
    return {k: v for k, v in out.items() if not v.startswith(me)}


def children():
    out = set()
    for t in os.listdir("/proc/self/task"):
        try:
            with open("/proc/self/task/%s/children" % t) as f:
                out.update(f.read().split())
        except OSError:
            pass
    return out


def tasks():
    """Threads of the process; one that has just ended may take an instant to go."""
    for _ in range(200):
        n = len(os.listdir("/proc/self/task"))
        if n <= threading.active_count():
            break
        _real_sleep(.005)
    return n


def files(root):
    return {os.path.relpath(os.path.join(d, x), root) for d, ds, fs in os.walk(root) for x in ds + fs}


def context(c):
    return (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp,
            sorted(str(t) for t, v in c.traps.items() if v))


def settings():
    um = os.umask(0o022)
    os.umask(um)
    try:
        cwd = os.getcwd()
    except OSError:
        cwd = None
    return {
        "current directory": cwd,
        "decimal context": context(decimal.getcontext()),
        "default decimal context": context(decimal.DefaultContext),
        "locale": locale.setlocale(locale.LC_ALL),
        "environment": sorted(os.environ.items()),
        "recursion limit": sys.getrecursionlimit(),
        "signal handlers": [str(signal.getsignal(s)) for s in sorted(signal.valid_signals())],
        "signal mask": sorted(signal.pthread_sigmask(signal.SIG_BLOCK, [])),
        "interval timer": signal.getitimer(signal.ITIMER_REAL)[0] > 0,
        "warning filters": [str(x[:3]) + str(x[4]) for x in warnings.filters],
        "warning display": id(warnings.showwarning),
        "module search path": list(sys.path),
        "import hooks": [len(sys.meta_path), len(sys.path_hooks)],
        "standard streams": [id(sys.stdin), id(sys.stdout), id(sys.stderr)],
        "hooks": [id(sys.excepthook), id(threading.excepthook), id(sys.unraisablehook),
                  id(sys.displayhook), str(sys.gettrace()), str(sys.getprofile())],
        "umask": um,
        "switch interval": sys.getswitchinterval(),
        "digits limit": sys.get_int_max_str_digits(),
        "garbage collector": [gc.isenabled(), gc.get_threshold(), gc.get_debug()],
        "random numbers": hash(random.getstate()),
        "logging": [logging.root.level, len(logging.root.handlers), logging.root.manager.disable,
                    logging.raiseExceptions],
        "priority": os.nice(0),
        "work at exit": atexit._ncallbacks(),
        "socket timeout": socket.getdefaulttimeout(),
        "directory for temporary files": tempfile.tempdir,
        "thread settings": [threading.stack_size(), id(threading.gettrace()), id(threading.getprofile())],
        "fault handler": faulthandler.is_enabled(),
        "limits": [resource.getrlimit(k) for k in LIMITS],
        "processors": sorted(os.sched_getaffinity(0)),
        "process group": [os.getpgrp(), os.getsid(0)],
        "loggers": [(n, x.level, x.disabled, x.propagate, len(x.handlers), len(x.filters)) for n, x in LOGGERS],
        "XML parser": [id(etree.get_default_parser()), witness(),
                       sorted(xml.etree.ElementTree._namespace_map.items())],
        "converters": sorted((str(k), str(type(v))) for k, v in converter.registry.items()),
        "error handlers of encodings": [id(codecs.lookup_error(n)) for n in ("strict", "replace", "ignore")],
        "trace limit": [getattr(sys, "tracebacklimit", None), sys.dont_write_bytecode],
        "work at exit or when objects go": len(weakref.finalize._registry),
        "context variables": len(contextvars.copy_context()),
        "pickling": sorted(str(k) for k in copyreg.dispatch_table),
        "limits of formats": [csv.field_size_limit(), sys.getdlopenflags()],
        "names of builtins": hash(tuple(sorted(dir(builtins)))),
        "builtins": [id(open), id(print), id(__import__), id(len)],
    }


LIMITS = [getattr(resource, k) for k in sorted(dir(resource)) if k.startswith("RLIMIT_")]
LOGGERS = [(n, logging.getLogger(n)) for n in ("ccsds_ndm", "ccsds_ndm.ndm_io", "xsdata", "lxml", "app")]


def witness():
    """How the XML library writes names of somebody else's."""
    e = etree.Element("{urn:app}root")
    for u in ("urn:ccsds:schema:ndmxml", "urn:a", "urn:b", "http://www.w3.org/2001/XMLSchema",
              "urn:ccsds:recommendation:navigation:schema:ndmxml", "http://sanaregistry.org/r/ndmxml"):
        etree.SubElement(e, "{%s}e" % u)
    return etree.tostring(e)


class Quiet(UserWarning):
    pass


def _handler(*a):
    pass


def own_settings(env, rng):
    """The caller has settings of its own, different from those a process starts with."""
    c = decimal.getcontext()
    for what in (
            lambda: (setattr(c, "prec", 11), setattr(c, "rounding", decimal.ROUND_UP)),
            lambda: c.traps.__setitem__(decimal.FloatOperation, True),
            lambda: setattr(decimal.DefaultContext, "prec", 40),
            lambda: sys.setrecursionlimit(2345),
            lambda: [locale.setlocale(x, "C.utf8") for x in (locale.LC_NUMERIC, locale.LC_TIME)],
            lambda: locale.setlocale(locale.LC_COLLATE, "C.utf8"),
            lambda: locale.setlocale(locale.LC_ALL, "C"),
            lambda: os.environ.update(TZ="Asia/Kolkata", DEBUG="1", TMPDIR=env.path("")[:-1]),
            lambda: [signal.signal(x, _handler) for x in (
                signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGXFSZ)],
            lambda: signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGUSR1]),
            lambda: signal.setitimer(signal.ITIMER_REAL, 3000),
            lambda: warnings.simplefilter("always", Quiet),
            lambda: setattr(warnings, "showwarning", _handler),
            lambda: sys.path.append(env.path("")),
            lambda: (setattr(sys, "stdout", io.StringIO()), setattr(sys, "stderr", io.StringIO())),
            lambda: setattr(sys, "excepthook", _handler),
            lambda: os.umask(0o027),
            lambda: sys.setswitchinterval(.02),
            lambda: sys.set_int_max_str_digits(5000),
            gc.disable,
            lambda: gc.set_threshold(1234, 5, 6),
            lambda: random.seed(4711),
            lambda: (logging.root.setLevel(logging.DEBUG), logging.root.addHandler(logging.NullHandler())),
            lambda: logging.disable(logging.INFO)):
        if rng.random() < .4:
            what()


class Hygiene:
    REF = True

    def gen(self, rng, i, tier):
        prog = []
        for _ in range(rng.choice([1, 2, 3, 5, 8])):
            r = rng.random()
            if r < .55:
                doc = cases.rand_doc(rng, corpus=.25, damaged=.35, big_p=.1)
                o = {"o": "read", "doc": doc, "kind": cases.rand_io(rng, cases.doc_fmt(doc)),
                     "as": rng.choice(["path", "path", "pathobj", "rel", "str", "bytes"])}
                if o["kind"] == "kvn" and o["as"] == "bytes":
                    o["as"] = "str"
                errs = ["EIO", "EISDIR", "ESTALE", "ENOMEM"]
                kinds = ["open", "read", "read", "close"]
            else:
                fmt = rng.choice(["xml", "kvn"])
                o = {"o": rng.choice(["save", "save", "conv"]), "fmt": fmt,
                     "spec": gen.rand_spec(rng, small=True, ndm=fmt == "xml", big_p=.1),
                     "kind": cases.rand_io(rng, fmt), "as": rng.choice(["path", "pathobj", "rel"]),
                     "opts": rng.choice(cases.XML_OPTS) if fmt == "xml" else {},
                     "poison": [round(rng.random(), 4), rng.choice(sorted(EXC))]
                     if rng.random() < .4 else None}
                errs = ["EIO", "ENOSPC", "EDQUOT"]
                kinds = ["open", "write", "write", "close"]
            o["plan"] = {}
            if rng.random() < .35:
                k = rng.choice(kinds)
                o["plan"] = {"seed": 1, "chunk_r": rng.choice([0, 300]), "chunk_w": rng.choice([0, 300]),
                             "faults": [[k, rng.choice([0, 0, 1, 2]), rng.choice([shim.ERR, shim.ERR, shim.CLOSELOSS])
                                         if k == "close" else shim.ERR, 0, rng.choice(errs)]]}
            o["cut"] = [round(rng.random(), 5), rng.choice(["KeyboardInterrupt", "MemoryError", "SystemExit"])] \
                if rng.random() < .3 else None
            o["thread"] = rng.random() < .2
            o["io"] = rng.choice(["A", "new"])
            o["hold"] = rng.random() < .4      # whoever called keeps the error for a while
            o["dt"] = cases.rand_dt(rng)
            prog.append(o)
        return {"prog": prog, "repeat": rng.choice([0, 0, 0, 10, 20]), "own": rng.randrange(1, 1 << 30) if rng.random() < .5 else 0,
                "missing": rng.random() < .1, "vary": rng.random() < .03}

    def run(self, case, env):
        if case["own"]:
            own_settings(env, random.Random(case["own"]))
        calls = []
        ios = {}
        for n, o in enumerate(case["prog"]):
            env.tick(o.get("dt", 0))
            calls.append((n, o, self._prepare(env, n, o, ios, case["missing"])))
        for n, o, call in calls:
            self._one(env, n, o, call)
            if env.viol:
                return
        if case.get("vary"):
            self._vary(env, calls[-1])
        elif case["repeat"]:
            self._repeat(env, calls[-2:], case["repeat"])

    def _prepare(self, env, n, o, ios, missing):
        name = "f%d" % n
        p = env.path(name)
        target = {"path": p, "pathobj": Path(p), "rel": name}.get(o["as"])

        def get():
            if o["io"] == "new":
                return ops.IOS[o["kind"]]()
            return ios.setdefault(o["kind"], ops.IOS[o["kind"]]())

        if o["o"] == "read":
            data = cases.doc_bytes(env, o["doc"])
            if o["as"] in ("str", "bytes"):
                src = data if o["as"] == "bytes" else data.decode("utf-8", "replace")
                return lambda: ops.read(get(), o["as"], src)
            if not missing:
                with open(p, "wb") as f:
                    f.write(data)
            return lambda: get().from_path(target)
        msg = gen.build(o["spec"])
        if o["poison"]:
            lv = cases.leaves(msg)
            t, w = lv[min(len(lv) - 1, int(o["poison"][0] * len(lv)))]
            cases.put_leaf(t, w, cases.Poison(EXC[o["poison"][1]]))
        if o["o"] == "save":
            return lambda: ops.save(get(), msg, o["fmt"], target, o["opts"])
        return lambda: ops.conv(get(), msg, o["fmt"], o["opts"])

    @staticmethod
    def _go(o, call, env, dry=False, held=None):
        """Outcome kind of the call; nothing of its result or exception survives (but in ``held``)."""
        inj = None

        def body():
            nonlocal inj
            if o["cut"] and not dry:
                inj = AtCall(max(1, int(o["cut"][0] * o["calls"])), EXC[o["cut"][1]])
                sys.settrace(inj.tracer)
            try:
                call()
                return "ok"
            except BaseException as e:
                if held is not None:
                    held.append(e)
                return type(e).__name__
            finally:
                if inj:
                    sys.settrace(None)

        box = []
        shim.reset(env.S, o["plan"] if not dry else {})
        with shim.armed():
            if o["thread"]:
                t = threading.Thread(target=lambda: box.append(body()))
                t.start()
                t.join()
                del t
            else:
                box.append(body())
        return box[0]

    def _one(self, env, n, o, call):
        if o["cut"]:
            # how many calls there are: measured in a fork
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    inj = AtCall(-1, None)
                    sys.settrace(inj.tracer)
                    try:
                        call()
                    except BaseException:
                        pass
                    sys.settrace(None)
                    os.write(w, b"%d" % inj.n)
                finally:
                    os._exit(0)
            os.close(w)
            o["calls"] = int(os.read(r, 99) or 0)
            os.close(r)
            os.waitpid(pid, 0)
            env_file = env.path("f%d" % n)
            if o["o"] == "save" and os.path.exists(env_file):
                os.unlink(env_file)
        gc.collect()
        before = (descriptors(), tasks(), threading.active_count(), children(),
                  files(env.S), settings())
        held = [] if o.get("hold") else None
        got = self._go(o, call, env, held=held)
        fired = shim.fired()
        leak = shim.open_tracked()
        env.stat("steps", 1 + len(shim.log()))
        shim.clear()
        gc.collect()
        after = (descriptors(), tasks(), threading.active_count(), children(),
                 files(env.S), settings())
        if held:
            env.stat("probe:error kept by the caller")
            held.clear()
        for a, v in fired.items():
            env.stat("fault:" + a, v)
        if o["cut"] and got == o["cut"][1]:
            env.stat("fault:interrupted (%s)" % got)
        if o.get("poison"):
            env.stat("fault:poisoned value")
        if got != "ok":
            env.nontrivial = True
        env.stat("op:%s%s" % (o["o"], "" if got == "ok" else " (fails)"))
        env.log("%d %s -> %s" % (n, {k: v for k, v in o.items() if k not in ("spec", "doc", "calls")}, got))
        env.note(o["o"], o["kind"], o["as"], got, sorted(fired), bool(o["cut"]), o.get("poison") and
                 o["poison"][1], o["thread"], round((o["cut"] or [0])[0], 1))
        what = "step %d, %s %s (%s)" % (n, o["o"], o["kind"], got)
        new = {k: v for k, v in after[0].items() if before[0].get(k) != v}
        gone = {k: v for k, v in before[0].items() if k not in after[0]}
        if new or gone:
            env.violate("descriptors", "%s leaves open: %s; closed: %s" % (what, new, gone))
        elif leak and not any(k in ("error", "delayed-write-error") for k in fired):
            env.violate("descriptors", "%s leaves %d files open" % (what, leak))
        if after[1] > before[1] or after[2] > before[2]:
            env.violate("threads", "%s leaves threads: %s" % (what, [t.name for t in threading.enumerate()]))
        if after[3] - before[3]:
            env.violate("children", "%s leaves child processes" % what)
        extra = sorted(after[4] - before[4] - {"w/f%d" % n})
        if o["o"] != "save":
            extra = sorted(after[4] - before[4])
        if extra:
            env.violate("files", "%s leaves files behind: %s" % (what, extra))
        for k in before[5]:
            if before[5][k] != after[5][k]:
                env.violate("settings", "%s changes the %s: %s -> %s" % (
                    what, k, str(before[5][k])[:300], str(after[5][k])[:300]))

    def _vary(self, env, call):
        """The same operation on ever new content: no part of it may be kept.  (What is kept of
        the last few hundred calls only, as caches do, is full before it counts.)"""
        n, o, _ = call
        if o["o"] == "read":
            data = cases.doc_bytes(env, o["doc"])
            if not cases.is_utf8(data) or len(data) > 12000:
                return
            text = data.decode("utf-8")
            # every value of some length gets an end of its own
            parts = re.split(r"(?m)((?<=[a-z])(?=<)|(?<=[A-Z]{4})(?= *$))", text)[::2]
        else:
            if o["spec"].get("big"):
                return
            msg = gen.build(o["spec"])
            lv = [(t, w, getattr(t, w)) for t, w in cases.leaves(msg) if not isinstance(w, int)
                  and isinstance(getattr(t, w), str) and w not in ("id", "version", "epoch")]
        io = ops.IOS[o["kind"]]()
        got = set()

        def block(k):
            for _ in range(k):
                self.turn += 1
                if o["o"] == "read":
                    src = ("q%d" % self.turn).join(parts[:12]) + "".join(parts[12:])
                    if o["as"] in ("str", "bytes") or o["io"] == "new":
                        call = lambda: io.from_string(src)
                    else:
                        with open(env.path("f%d" % n), "w", encoding="utf-8") as f:
                            f.write(src)
                        call = lambda: io.from_path(env.path("f%d" % n))
                else:
                    for t, w, v in lv[:12]:
                        setattr(t, w, "%s%d" % (v, self.turn))
                    if o["o"] == "save":
                        call = lambda: ops.save(io, msg, o["fmt"], env.path("f%d" % n), o["opts"])
                    else:
                        call = lambda: ops.conv(io, msg, o["fmt"], o["opts"])
                try:
                    call()
                    got.add("ok")
                except Exception as e:
                    got.add(type(e).__name__)
                shim.clear()
            gc.collect()
            return tracemalloc.get_traced_memory()[0]
        self.turn = 0
        block(300)
        tracemalloc.start()
        try:
            a = [block(30) for _ in range(4)]
        finally:
            tracemalloc.stop()
        up = [y - x for x, y in zip(a[1:], a[2:])]
        env.stat("steps", 420)
        env.stat("probe:new content over and over", 420)
        env.nontrivial = True
        env.note("vary", o["o"], o["kind"], sorted(got))
        env.log("%s: memory %s" % (sorted(got), up))
        env.trace.pop()
        # (opening a file leaves some dozens of bytes behind now and then, in the interpreter)
        if min(up) >= 30 * (32 if o["o"] == "conv" or o["o"] == "read" and (
                o["as"] in ("str", "bytes") or o["io"] == "new") else 250):
            env.violate("accumulates", "every 30 operations (%s) on new content keep %s more bytes" % (o["o"], up))

    def _repeat(self, env, calls, reps):
        """The same operations over and over: nothing may pile up."""
        def block(k):
            for _ in range(k):
                for n, o, call in calls:
                    self._go(o, call, env)
                    shim.clear()
            gc.collect()
            return len(gc.get_objects()), len(descriptors())
        block(3)
        a = block(reps)
        b = block(reps)
        c = block(reps)
        env.stat("steps", 3 * reps * len(calls))
        env.stat("probe:repeated operations", 3 * reps * len(calls))
        env.log("objects after blocks of %d: %s %s %s" % (reps, "-", b[0] - a[0], c[0] - b[0]))
        env.trace.pop()       # (the numbers depend on the interpreter)
        if min(b[0] - a[0], c[0] - b[0]) >= reps:
            env.violate("accumulates", "%d more repetitions of the same operations keep %s"
                        % (reps, "at least one more object each in memory"))
        if c[1] > a[1]:
            env.violate("descriptors", "repeated operations use up descriptors")

    def shrink(self, c):
        for i in range(len(c["prog"])):
            if len(c["prog"]) > 1:
                yield dict(c, prog=[c["prog"][i]])
        for i in range(len(c["prog"])):
            if len(c["prog"]) > 1:
                yield dict(c, prog=c["prog"][:i] + c["prog"][i + 1:])
        if c["repeat"]:
            yield dict(c, repeat=0)
        for k in ("own", "missing", "vary"):
            if c[k]:
                yield dict(c, **{k: 0})
        for i, o in enumerate(c["prog"]):
            def put(**kw):
                return dict(c, prog=c["prog"][:i] + [dict(o, **kw)] + c["prog"][i + 1:])
            for k, v in (("cut", None), ("poison", None), ("plan", {}), ("thread", False), ("hold", False)):
                if o.get(k):
                    yield put(**{k: v})
            if o["o"] == "read":
                for x in cases.shrink_doc(o["doc"]):
                    yield put(doc=x)
            else:
                for x in gen.shrink_spec(o["spec"]):
                    yield put(spec=x)


ENGINES = {"C13": Hygiene()}
