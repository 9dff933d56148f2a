"""C03: an exception arrives at an arbitrary instant of an operation (keyboard interrupt,
memory shortage, exhausted call stack); afterwards everything has to work as before."""
import os
import pickle
import random
import sys

from .. import cases, gen, ops, oracle, boot

_EXC = {"KI": KeyboardInterrupt, "MEM": MemoryError, "REC": RecursionError}
_HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Injector:
    """Counts events (lines of the code in scope) and raises at the k-th."""

    def __init__(self, scope, k, exc):
        self.scope, self.k, self.exc = scope, k, exc
        self.n = 0
        self.where = None
        self.seen = None
        self.cache = {}

    def _in(self, code):
        c = self.cache.get(code)
        if c is None:
            f = code.co_filename
            if f.startswith(_HERE):
                c = False
            elif self.scope == "lib":
                c = f.startswith(boot.REPO + "/ccsds_ndm/")
            elif self.scope == "parse":
                c = f.startswith(boot.REPO + "/ccsds_ndm/") or "/xsdata/" in f
            else:
                c = not f.startswith("<frozen importlib")
            self.cache[code] = c
        return c

    def tracer(self, frame, event, arg):
        if not self._in(frame.f_code):
            return None
        self._hit(frame)
        return self.local

    def local(self, frame, event, arg):
        if event != "exception":
            self._hit(frame)
        return self.local

    def _hit(self, frame):
        self.n += 1
        if self.seen is not None:
            at = self.seen.setdefault((frame.f_code.co_filename, frame.f_lineno), [])
            if len(at) < 40:
                at.append(self.n)
            else:
                at[self.n * 7919 % 40] = self.n
        if self.n == self.k:
            f = frame.f_code
            self.where = "%s:%s" % (os.path.basename(f.co_filename), f.co_name)
            sys.settrace(None)
            raise self.exc("injected")


def _count(fn, scope):
    """Number of events of fn(), measured in a fork (so that this process stays unused)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            inj = Injector(scope, -1, None)
            sys.settrace(inj.tracer)
            try:
                fn()
            except Exception:
                pass
            sys.settrace(None)
            os.write(w, b"%d" % inj.n)
        finally:
            os._exit(0)
    os.close(w)
    d = os.read(r, 100)
    os.close(r)
    os.waitpid(pid, 0)
    return int(d or 1)


def _lines(fn, scope):
    """Events of fn() by source line: [[event numbers]], measured in a fork."""
    def go():
        inj = Injector(scope, -1, None)
        inj.seen = {}
        sys.settrace(inj.tracer)
        try:
            fn()
        except Exception:
            pass
        sys.settrace(None)
        return [sorted(v) for k, v in sorted(inj.seen.items())]
    return _forked(go)


def _forked(go):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            d = pickle.dumps(go())
            while d:
                d = d[os.write(w, d):]
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        d = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(d)


def _depth(fn):
    """Deepest call of fn() above the caller, measured in a fork."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            base, best = _level(), [0]

            def tr(frame, event, arg):
                d, f = 0, frame
                while f is not None:
                    d, f = d + 1, f.f_back
                best[0] = max(best[0], d - base)
                return None
            sys.settrace(tr)
            try:
                fn()
            except Exception:
                pass
            sys.settrace(None)
            os.write(w, b"%d" % best[0])
        finally:
            os._exit(0)
    os.close(w)
    d = os.read(r, 100)
    os.close(r)
    os.waitpid(pid, 0)
    return int(d or 1)


def _level():
    d, f = 0, sys._getframe(1)
    while f is not None:
        d, f = d + 1, f.f_back
    return d


class Interrupt:
    REF = True

    def gen(self, rng, i, tier):
        c = self._gen(rng, i, tier)
        if i % 21 == 0:
            # the same operation cut short 3 times at every line that it runs through; in turn
            # reading and writing KVN messages with all that their type can hold, and others
            j = i // 21 % 48
            c["sweep"] = {"scope": "lib", "lo": 0.0, "hi": 1.0, "max": 500, "seed": rng.randrange(1 << 30)}
            if j < 32:
                t, j = list(gen.ROOTS)[j % 8], j // 8
                fmt = "kvn"
                c["hit"] = {"o": "read", "d": 0, "via": "str"} if j < 2 else {
                    "o": "conv", "m": 0, "fmt": fmt, "opts": {}}
                c["docs"] = [{"k": "gen", "fmt": fmt, "spec": {
                    "t": t, "seed": rng.randrange(1 << 30), "opt": 1, "com": .3, "ml": 2, "units": 1,
                    "voc": "ascii", "tagged": True, "odd": 0}}]
                c["specs"] = [dict(c["docs"][0]["spec"])]
                c["hit"]["kind"] = cases.rand_io(rng, fmt)
                c["sweep"].update({"lo": .5} if j % 2 else {"hi": .5})
            elif j < 44:
                spec = gen.rand_spec(rng, types=["Ndm"] if j < 36 else None, small=True, voc="ascii")
                if j < 36:
                    spec["members"] = (spec["members"] * 3)[:3] if j % 4 else spec["members"][:1]
                    spec.pop("twins", None)
                c["docs"] = [{"k": "gen", "fmt": "xml", "spec": spec}]
                c["specs"] = [dict(spec)]
                c["hit"] = {"o": "read", "d": 0, "via": "str"} if j < 40 else {
                    "o": "save" if j < 42 else "conv", "m": 0, "fmt": "xml", "opts": {}}
                c["hit"]["kind"] = "xml" if j % 2 else "ndm"
            else:
                c["sweep"].update(scope="parse", max=250)
                c["hit"] = dict(c["hit"], d=0) if c["hit"]["o"] == "read" else c["hit"]
            c["before"] = c["before"] if rng.random() < .2 else []
            for o in c["before"]:
                o.update({k: 0 for k in ("m", "d") if k in o})
            c["same_io"] = True
            # intact, unknown content and broken input afterwards
            c["docs"] = [c["docs"][0], {"k": "dmg", "doc": c["docs"][0], "edits": [["lunk", round(rng.random(), 4)]]}]
            kind = c["hit"]["kind"]
            fit = kind == "ndm" or kind == cases.doc_fmt(c["docs"][0])
            rd = {"o": "read", "kind": kind if fit else "ndm", "via": "str"}
            c["after"] = [c["hit"], dict(rd, d=1), dict(rd, d=0)]
            rng.shuffle(c["after"])
        return c

    def _gen(self, rng, i, tier):
        fmts = rng.choice([("xml",), ("kvn",), ("kvn",)])
        docs = [cases.rand_doc(rng, fmts=fmts, corpus=.2, damaged=.15) for _ in range(rng.choice([1, 2]))]
        specs = [gen.rand_spec(rng, small=True, ndm=True, odd=(0, 1, 2)) for _ in range(rng.choice([1, 1, 2]))]

        def op(o=None):
            o = o or rng.choice(["read", "read", "conv", "save"])
            if o == "read":
                d = rng.randrange(len(docs))
                kind = cases.rand_io(rng, cases.doc_fmt(docs[d]))
                return {"o": o, "kind": kind, "d": d, "via": rng.choice(["str", "path"])}
            fmt = rng.choice(["xml", "kvn"])
            return {"o": o, "kind": cases.rand_io(rng, fmt), "fmt": fmt,
                    "m": rng.randrange(len(specs)), "opts": rng.choice(cases.XML_OPTS) if fmt == "xml" else {}}
        hit = op()
        after = [op() for _ in range(rng.choice([0, 1, 2]))]
        if rng.random() < .7:
            after.insert(rng.randrange(len(after) + 1), dict(hit))
        else:
            after.append(dict(hit))
        hits = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            kind = rng.choice(["KI", "KI", "MEM", "REC"])
            hits.append({"kind": kind, "scope": rng.choice(["lib", "lib", "parse", "all"]),
                         "f": round(rng.random(), 6)})
        return {"docs": docs, "specs": specs, "before": [op()] if rng.random() < .3 else [],
                "hit": hit, "hits": hits, "after": after, "same_io": rng.random() < .8}

    def run(self, case, env):
        docs = [cases.doc_bytes(env, d) for d in case["docs"]]

        def via(o):
            return o["via"] if cases.is_utf8(docs[o["d"]]) else "path"
        msgs = [gen.build(s) for s in case["specs"]]
        before = [oracle.canon(m) for m in msgs]
        ios = {}
        cache = {}

        def expected(o):
            k = repr(sorted(o.items(), key=repr))
            if k not in cache:
                if o["o"] == "read":
                    cache[k] = (env.ref("ref_read", o["kind"], via(o), docs[o["d"]]), None)
                elif o["o"] == "conv":
                    cache[k] = (env.ref("ref_conv", o["kind"], msgs[o["m"]], o["fmt"], o["opts"]), None)
                else:
                    cache[k] = env.ref("ref_save", o["kind"], msgs[o["m"]], o["fmt"], o["opts"])
            return cache[k]

        def io_of(o):
            if not case["same_io"]:
                return ops.IOS[o["kind"]]()
            if o["kind"] not in ios:
                ios[o["kind"]] = ops.IOS[o["kind"]]()
            return ios[o["kind"]]

        def call(o, io):
            if o["o"] == "read":
                d = docs[o["d"]]
                if via(o) == "path":
                    return lambda: ops.read(io, "path", env.path("in%d" % o["d"]))
                t = d.decode("utf-8")
                return lambda: ops.read(io, "str", t)
            if o["o"] == "conv":
                return lambda: ops.conv(io, msgs[o["m"]], o["fmt"], o["opts"])
            return lambda: ops.save(io, msgs[o["m"]], o["fmt"], env.path("out"), o["opts"])

        for k, d in enumerate(docs):
            with open(env.path("in%d" % k), "wb") as f:
                f.write(d)
        allops = case["before"] + [case["hit"]] + case["after"]
        for o in allops:
            expected(o)

        def normal(n, o, what):
            exp, content = expected(o)
            io = io_of(o)
            got = ops.wrap(call(o, io))
            env.stat("steps")
            env.log("%s %s -> %s" % (what, o, got.short()))
            if got.key() != (exp[0], exp[1]):
                env.violate("not-as-before", "%s operation %s: %s, expected: %s" %
                            (what, o, got.short(), ops.Result(*exp[:2], exc=exp[2]).short()))
            elif o["o"] == "save" and got.kind == "none":
                with open(env.path("out"), "rb") as f:
                    if f.read() != content:
                        env.violate("not-as-before", "%s save %s: file differs" % (what, o))

        for n, o in enumerate(case["before"]):
            normal(n, o, "before: ")
        o = case["hit"]
        if "sweep" in case:
            self._sweep(case, env, o, call, io_of, expected, normal, msgs, before)
            return
        fired = []
        for h in case["hits"]:
            io = io_of(o)
            fn = call(o, io)
            exp, content = expected(o)
            where = None
            if h["kind"] == "REC":
                d = _depth(fn)
                lim = _level() + 3 + int(h["f"] * d)
                old = sys.getrecursionlimit()
                state = "returned"
                try:
                    sys.setrecursionlimit(lim)
                    try:
                        v = fn()
                    finally:
                        sys.setrecursionlimit(old)
                except RecursionError:
                    state = "RecursionError"
                except Exception as e:
                    state = type(e).__name__
                where = "depth %d of %d" % (int(h["f"] * d), d)
                env.stat("fault:call stack exhausted")
                hit = True
            else:
                total = _count(fn, h["scope"])
                k = 1 + int(h["f"] * total)
                inj = Injector(h["scope"], k, _EXC[h["kind"]])
                state = "returned"
                try:
                    sys.settrace(inj.tracer)
                    try:
                        v = fn()
                    finally:
                        sys.settrace(None)
                except BaseException as e:
                    if not isinstance(e, (Exception, KeyboardInterrupt)):
                        raise
                    state = type(e).__name__
                where = "event %d of %d %s" % (k, total, inj.where)
                hit = inj.where is not None
                env.stat("steps", inj.n)
                if hit:
                    env.stat("fault:" + {"KI": "keyboard interrupt", "MEM": "memory shortage"}[h["kind"]])
            env.log("%s at %s of %s -> %s" % (h["kind"], where, o, state))
            fired.append((h["kind"], (where or "").split(" ")[-1], state))
            if state == "returned":
                env.stat("probe:returned despite the fault" if hit else "probe:not reached")
                got = ops.result_of(v)
                if got.key() != (exp[0], exp[1]):
                    env.violate("wrong-result", "%s at %s of %s: returned %s, expected %s" %
                                (h["kind"], where, o, got.short(),
                                 ops.Result(*exp[:2], exc=exp[2]).short()))
                elif o["o"] == "save":
                    with open(env.path("out"), "rb") as f:
                        if f.read() != content:
                            env.violate("wrong-result", "%s at %s: save returned, file incomplete"
                                        % (h["kind"], where))
                v = got = None
            for k, m in enumerate(msgs):
                if oracle.canon(m) != before[k]:
                    env.violate("message-changed", "%s at %s of %s: message %d changed" %
                                (h["kind"], where, o, k))
        for n, o in enumerate(case["after"]):
            normal(n, o, "after:")
            if env.viol:
                break
        env.note(case["hit"]["o"], case["hit"]["kind"], fired,
                 [(a["o"], a["kind"]) for a in case["after"]],
                 [cases.doc_fmt(d) + str(d.get("spec", {}).get("t")) for d in case["docs"]])
        env.nontrivial = bool(fired)

    def _sweep(self, case, env, o, call, io_of, expected, normal, msgs, before):
        sw = case["sweep"]
        rng = random.Random(sw["seed"])
        exp, content = expected(o)
        points = []
        for line in [] if "only" in sw else _lines(call(o, io_of(o)), sw["scope"]):
            # as Ctrl-C, which ``except Exception`` lets pass, and as a memory or stack shortage
            for kinds in (["KI"], ["MEM"], ["MEM", "REC"]):
                points.append((rng.choice(line), rng.choice(kinds), rng.random()))
        n = len(points)
        points = [p for j, p in enumerate(points) if sw["lo"] <= j / n < sw["hi"]]
        if len(points) > sw["max"]:
            points = [p for p in sorted(points, key=lambda p: p[2])[:sw["max"]]]
        points = [[num] + list(p[:2]) for num, p in enumerate(points)]
        for num, k, kind in [sw["only"]] if "only" in sw else points:
            def go():
                env.viol, env.trace = [], []
                io = io_of(o)
                inj = Injector(sw["scope"], k, _EXC[kind])
                state = "returned"
                try:
                    sys.settrace(inj.tracer)
                    try:
                        v = call(o, io)()
                    finally:
                        sys.settrace(None)
                except BaseException as e:
                    if not isinstance(e, (Exception, KeyboardInterrupt)):
                        raise
                    state = type(e).__name__
                where = "event %d %s" % (k, inj.where)
                if state == "returned":
                    got = ops.result_of(v)
                    if got.key() != (exp[0], exp[1]):
                        env.violate("wrong-result", "%s at %s of %s: returned %s, expected %s" % (
                            kind, where, o, got.short(), ops.Result(*exp[:2], exc=exp[2]).short()))
                    elif o["o"] == "save":
                        with open(env.path("out"), "rb") as f:
                            if f.read() != content:
                                env.violate("wrong-result", "%s at %s: save returned, file incomplete"
                                            % (kind, where))
                for j, m in enumerate(msgs):
                    if oracle.canon(m) != before[j]:
                        env.violate("message-changed", "%s at %s of %s: message %d changed" %
                                    (kind, where, o, j))
                if case["after"]:
                    j = num % len(case["after"])
                    normal(j, case["after"][j], "after %s at %s:" % (kind, where))
                return state, inj.where, env.viol[:1], env.trace if env.viol else []
            state, where, viol, trace = _forked(go)
            env.stat("steps")
            env.stat("fault:" + {"KI": "keyboard interrupt", "MEM": "memory shortage",
                                 "REC": "call stack exhausted"}[kind], 1 if where else 0)
            env.stat("probe:returned despite the fault" if state == "returned" else "probe:visible failure")
            env.note("sweep", o["o"], o["kind"], kind, where, state)
            env.nontrivial = True
            if viol:
                for l in trace:
                    env.log(l)
                env.violate(viol[0]["class"], viol[0]["detail"])
                env.narrow = dict(case, sweep=dict(sw, only=[num, k, kind]))
                return

    def shrink(self, c):
        if "only" in c.get("sweep", {}):
            num, k, kind = c["sweep"]["only"]
            if c["after"]:
                yield dict(c, after=[c["after"][num % len(c["after"])]], before=[])
                yield dict(c, after=[])
            if c["before"]:
                yield dict(c, before=[])
            return
        if "sweep" in c:
            lo, hi = c["sweep"]["lo"], c["sweep"]["hi"]
            if hi - lo > .004:
                yield dict(c, sweep=dict(c["sweep"], lo=lo, hi=(lo + hi) / 2))
                yield dict(c, sweep=dict(c["sweep"], lo=(lo + hi) / 2, hi=hi))
        if c["before"]:
            yield dict(c, before=[])
        for i in range(len(c["after"])):
            yield dict(c, after=c["after"][:i] + c["after"][i + 1:])
        if len(c["hits"]) > 1:
            for i in range(len(c["hits"])):
                yield dict(c, hits=c["hits"][:i] + c["hits"][i + 1:])
        for i, d in enumerate(c["docs"]):
            for x in cases.shrink_doc(d):
                yield dict(c, docs=c["docs"][:i] + [x] + c["docs"][i + 1:])
        for i, s in enumerate(c["specs"]):
            for x in gen.shrink_spec(s):
                yield dict(c, specs=c["specs"][:i] + [x] + c["specs"][i + 1:])


ENGINES = {"C03": Interrupt()}
