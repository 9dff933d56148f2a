"""C15: operations carried out in the midst of another one, in the same thread (signal handlers,
finalizers, callbacks of the caller's values).
C16: processes forked in the midst of operations, which go on working while the parent does."""
import atexit
import json
import os
import pickle
import random
import signal
import sys

from .interrupt import Injector, _count, _forked, _lines
from .. import boot, cases, gen, ops, oracle, sched, shim


class Within:
    """Counts events (lines of the code in scope); at some of them something else is done."""

    def __init__(self, scope, at, act):
        self._s = Injector(scope, -1, None)
        self.at, self.act, self.n = dict(at), act, 0
        self.where = []

    def tracer(self, frame, event, arg):
        if not self._s._in(frame.f_code):
            return None
        self._hit(frame)
        return self.local

    def local(self, frame, event, arg):
        if event != "exception":
            self._hit(frame)
        return self.local

    def _hit(self, frame):
        self.n += 1
        if self.n in self.at:
            f = frame.f_code
            self.where.append("%s:%s" % (os.path.basename(f.co_filename), f.co_name))
            n = self.at.pop(self.n)
            sys.settrace(None)
            try:
                sys.call_tracing(self.act, (n,))
            finally:
                sys.settrace(self.tracer)


def rand_op(rng, docs, specs, fmt=None, o=None):
    o = o or rng.choice(["read", "read", "conv", "save"])
    own = rng.random() < .4
    if o == "read":
        ks = [k for k, d in enumerate(docs) if fmt in (None, cases.doc_fmt(d))] or [0]
        k = rng.choice(ks)
        return {"o": o, "own": own, "kind": cases.rand_io(rng, cases.doc_fmt(docs[k])) if own else "ndm", "d": k,
                "via": rng.choice(["str", "str", "path"])}
    fmt = fmt or rng.choice(["xml", "kvn"])
    return {"o": o, "own": own, "kind": cases.rand_io(rng, fmt) if own else "ndm", "fmt": fmt,
            "m": rng.randrange(len(specs)), "opts": rng.choice(cases.XML_OPTS) if fmt == "xml" else {}}


def attempt(fn):
    try:
        return ops.wrap(fn)
    except sched.Deadlock as e:
        return ops.Result("exc", "Deadlock", exc="Deadlock: %s" % e)


class Base:
    REF = True

    def material(self, rng, i):
        voc = rng.choice(["ascii", "all"])
        fmts = rng.choice([("xml",), ("kvn",), ("kvn",), ("xml", "kvn")])
        docs = [cases.rand_doc(rng, fmts=fmts, corpus=.15, damaged=rng.choice([0, 0, .2]), voc=voc)
                for _ in range(rng.choice([1, 2, 2]))]
        specs = [gen.rand_spec(rng, small=True, ndm=True, odd=(0, 1, 2), voc=voc) for _ in range(rng.choice([1, 2]))]
        t = list(gen.ROOTS)[i % len(gen.ROOTS)] if rng.random() < .5 else rng.choice(["Aem", "Oem"])
        if rng.random() < .6:      # messages of one type
            for s in specs:
                if s["t"] != "Ndm":
                    s["t"] = t
            for d in docs:
                if d["k"] == "gen" and d["spec"]["t"] != "Ndm":
                    d["spec"]["t"] = t
        d = next((d for d in docs if d["k"] == "gen"), None)
        if d and rng.random() < .7:    # and the same once more with other values
            docs.append(dict(d, spec=dict(d["spec"], seed=rng.randrange(1 << 30))))
        if rng.random() < .5:
            specs.append(dict(specs[0], seed=rng.randrange(1 << 30)))
        return docs, specs

    def setup(self, case, env):
        self.docs = [cases.doc_bytes(env, d) for d in case["docs"]]
        self.msgs = [gen.build(s) for s in case["specs"]]
        self.canon = [oracle.canon(m) for m in self.msgs]
        for k, d in enumerate(self.docs):
            with open(env.path("in%d" % k), "wb") as f:
                f.write(d)
        self.texts = [d.decode("utf-8") if cases.is_utf8(d) else None for d in self.docs]
        shim.forks()
        self.shared = ops.NdmIo()
        self.own = {}
        self.exp = {}
        self.files = 0

    def usable(self, o):
        return o["o"] != "read" or o["via"] == "path" or self.texts[o["d"]] is not None

    def expected(self, env, o):
        k = json.dumps({a: b for a, b in o.items() if a in ("o", "kind", "via", "d", "m", "fmt", "opts")}, sort_keys=True)
        if k not in self.exp:
            if o["o"] == "read":
                self.exp[k] = (env.ref("ref_read", o["kind"], o["via"], self.docs[o["d"]]), None)
            elif o["o"] == "conv":
                self.exp[k] = (env.ref("ref_conv", o["kind"], self.msgs[o["m"]], o["fmt"], o["opts"]), None)
            else:
                self.exp[k] = env.ref("ref_save", o["kind"], self.msgs[o["m"]], o["fmt"], o["opts"])
        return self.exp[k]

    def call(self, env, o, level, name):
        """The operation through the shared general object or one that belongs to this level."""
        io = self.shared
        if o["own"]:
            io = self.own.setdefault((level, o["kind"]), ops.IOS[o["kind"]]())
        if o["o"] == "read":
            src = self.texts[o["d"]] if o["via"] == "str" else env.path("in%d" % o["d"])
            return lambda: ops.read(io, o["via"], src)
        if o["o"] == "conv":
            return lambda: ops.conv(io, self.msgs[o["m"]], o["fmt"], o["opts"])
        return lambda: ops.save(io, self.msgs[o["m"]], o["fmt"], env.path(name), o["opts"])

    def judge(self, env, o, got, name, what):
        e, content = self.expected(env, o)
        env.stat("op:" + o["o"] + (" (fails)" if got.kind == "exc" else ""))
        env.log("%s %s -> %s" % (what, o, got.short()))
        if got.key() != (e[0], e[1]):
            from .history import _canon_diff
            env.violate("wrong-result", "%s %s: %s, alone: %s %s" % (
                what, o, got.short(), ops.Result(*e[:2], exc=e[2]).short(),
                _canon_diff(got.val, e[1]) if got.kind == e[0] == "msg" else ""))
        elif o["o"] == "save" and got.kind == "none":
            try:
                with open(env.path(name), "rb") as f:
                    there = f.read()
            except OSError as x:
                there = type(x).__name__
            if there != content:
                env.violate("wrong-file", "%s: file saved by %s %s" % (
                    what, o, "differs from the one saved alone" if isinstance(there, bytes)
                    else "cannot be read: " + there))

    def unchanged(self, env):
        for k, m in enumerate(self.msgs):
            if oracle.canon(m) != self.canon[k]:
                env.violate("message-changed", "message %d changed" % k)

    def shrink(self, c):
        for k in ("inner", "after", "child"):
            for i in range(len(c.get(k, []))):
                if len(c[k]) > 1 or k == "after":
                    yield dict(c, **{k: c[k][:i] + c[k][i + 1:]})
        for i, k in enumerate(c.get("child", [])):
            for y in ("stops", "goes", "prog"):
                for j in range(len(k[y])):
                    if y != "prog" or len(k[y]) > 1:
                        yield dict(c, child=c["child"][:i] + [dict(k, **{y: k[y][:j] + k[y][j + 1:]})] + c["child"][i + 1:])
            if k.get("bye"):
                yield dict(c, child=c["child"][:i] + [dict(k, bye=False)] + c["child"][i + 1:])
            if k["die"] is not None:
                yield dict(c, child=c["child"][:i] + [dict(k, die=None)] + c["child"][i + 1:])
        if "sweep" in c and "only" not in c["sweep"]:
            lo, hi = c["sweep"]["lo"], c["sweep"]["hi"]
            if hi - lo > .004:
                yield dict(c, sweep=dict(c["sweep"], lo=lo, hi=(lo + hi) / 2))
                yield dict(c, sweep=dict(c["sweep"], lo=(lo + hi) / 2, hi=hi))
        for i, d in enumerate(c["docs"]):
            for x in cases.shrink_doc(d):
                yield dict(c, docs=c["docs"][:i] + [x] + c["docs"][i + 1:])
        for i, s in enumerate(c["specs"]):
            for x in gen.shrink_spec(s):
                yield dict(c, specs=c["specs"][:i] + [x] + c["specs"][i + 1:])


def events(fn, scope, fs, by_line):
    """Event numbers of fn() for the fractions given: of all its events, or of its source lines."""
    def dry():
        signal.alarm(25)      # it runs in a fork, where it may hang
        fn()
    if not by_line:
        total = _count(dry, scope)
        return [1 + int(f * total) for f in fs]
    try:
        lines = _lines(dry, scope)
    except EOFError:
        lines = [[1]]
    out = []
    for f in fs:
        x = f * len(lines)
        line = lines[int(x)]
        out.append(line[int((x - int(x)) * len(line))])
    return out


class Nested(Base):
    def gen(self, rng, i, tier):
        docs, specs = self.material(rng, i)
        fmt = rng.choice(["xml", "kvn", "kvn", None])
        outer = rand_op(rng, docs, specs, fmt)
        inner = []
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            o = rand_op(rng, docs, specs, fmt if rng.random() < .8 else None)
            if rng.random() < .35:
                o = dict(outer)
            # how the other operation comes about: at once, or within yet another one
            inner.append(dict(o, f=round(rng.random(), 6), deep=rng.random() if rng.random() < .2 else None))
        c = {"docs": docs, "specs": specs, "outer": outer, "inner": inner,
             "scope": rng.choice(["lib", "lib", "lib", "parse", "all"]), "lines": rng.random() < .5,
             "after": [rand_op(rng, docs, specs, fmt) for _ in range(rng.choice([0, 1, 2]))],
             "warm": rng.random() < .3}
        if rng.random() < .04:
            # once at each line that the operation runs through, each time afresh
            c["sweep"] = {"seed": rng.randrange(1 << 30), "lo": 0.0, "hi": 1.0, "max": 150}
            c["scope"] = "lib"
            for o in inner:
                o["deep"] = None
        return c

    def run(self, case, env):
        self.setup(case, env)
        todo = [case["outer"]] + case["inner"] + case["after"]
        if not all(self.usable(o) for o in todo):
            env.nontrivial = False
            return
        for o in todo:
            self.expected(env, o)
        sched.ALONE = True
        if case["warm"]:
            got = attempt(self.call(env, case["outer"], 0, "warm"))
            self.judge(env, case["outer"], got, "warm", "before:")
        if "sweep" in case:
            self._sweep(case, env)
            return
        at = {}
        for n, e in enumerate(events(self.call(env, case["outer"], 0, "dry"), case["scope"],
                                     [o["f"] for o in case["inner"]], case["lines"])):
            at.setdefault(e, n)
        self._go(case, env, at)

    def _go(self, case, env, at):
        outer = case["outer"]
        hit = []

        def act(n):
            o = case["inner"][n]
            hit.append(n)
            fn = self.call(env, o, 1 + n, "inner%d" % n)
            if o["deep"] is not None:
                # in the midst of this one, in turn, the outer one once more
                w = Within("lib", {1 + int(o["deep"] * 400): n}, again)
                sys.settrace(w.tracer)
                try:
                    got = attempt(fn)
                finally:
                    sys.settrace(None)
            else:
                got = attempt(fn)
            self.judge(env, o, got, "inner%d" % n, "in the midst (%d)" % n)

        def again(n):
            env.stat("fault:operation within one within another")
            got = attempt(self.call(env, outer, 100 + n, "again%d" % n))
            self.judge(env, outer, got, "again%d" % n, "within that (%d)" % n)

        w = Within(case["scope"], at, act)
        fn = self.call(env, outer, 0, "outer")
        sys.settrace(w.tracer)
        try:
            got = attempt(fn)
        finally:
            sys.settrace(None)
        env.stat("steps", w.n)
        env.stat("fault:operation within another", len(hit))
        env.log("in the midst: %s" % w.where)
        self.judge(env, outer, got, "outer", "outer")
        self.unchanged(env)
        for n, o in enumerate(case["after"]):
            self.judge(env, o, attempt(self.call(env, o, 0, "after%d" % n)), "after%d" % n, "afterwards")
        env.note(outer["o"], outer["kind"], outer.get("fmt"), w.where,
                 [(o["o"], o["kind"], o.get("fmt"), o["own"]) for o in case["inner"]])
        env.nontrivial = bool(hit)

    def _sweep(self, case, env):
        sw = case["sweep"]
        rng = random.Random(sw["seed"])
        if "only" in sw:
            points = [sw["only"]]
        else:
            lines = _lines(self.call(env, case["outer"], 0, "dry"), "lib")
            points = [rng.choice(line) for line in lines]
            n = len(points)
            points = [p for j, p in enumerate(points) if sw["lo"] <= j / n < sw["hi"]]
            if len(points) > sw["max"]:
                points = sorted(rng.sample(points, sw["max"]))
        for num, k in enumerate(points):
            def go():
                env.viol, env.trace, env.stats, env.notes_ = [], [], {}, []
                self._go(dict(case, after=case["after"][:1]), env, {k: num % len(case["inner"])})
                return env.viol[:1], env.trace, env.stats
            r = _forked(go)
            viol, trace, stats = r
            for a, v in stats.items():
                env.stat(a, v)
            env.nontrivial = True
            env.note("at", k)
            if viol:
                for l in trace:
                    env.log(l)
                env.violate(viol[0]["class"], viol[0]["detail"])
                env.narrow = dict(case, inner=[case["inner"][num % len(case["inner"])]],
                                  sweep=dict(sw, only=k))
                return


class Fork(Base):
    """The fork happens at a seeded event of an operation: either this thread itself forks (in a
    signal handler, say), or another thread does while this one is in the midst of it. Parent and
    children take turns: a child stops at seeded events of its program, until it gets the turn at
    a seeded event of the parent's or at the end."""

    def gen(self, rng, i, tier):
        docs, specs = self.material(rng, i)
        fmt = rng.choice(["xml", "kvn", "kvn", None])
        o = rng.choice([None, "save", None, "read"])
        outer = rand_op(rng, docs, specs, fmt, o)
        kids = []
        turns = rng.random() < .6
        for _ in range(rng.choice([1, 1, 2, 3])):
            prog = [rand_op(rng, docs, specs, fmt if rng.random() < .7 else None, rng.choice([None, o]))
                    for _ in range(rng.choice([1, 1, 2, 3]))]
            if rng.random() < .5:
                prog[rng.randrange(len(prog))] = dict(outer)
            k = {"f": round(rng.random(), 6), "prog": prog, "die": None, "stops": [], "goes": []}
            if rng.random() < .25:      # the child may go to pieces at some event of its program
                k["die"] = round(rng.random(), 6)
            if turns:
                k["stops"] = sorted(round(rng.random(), 6) for _ in range(rng.choice([1, 1, 2, 3])))
                # where the parent lets it go on
                k["goes"] = [round(rng.random(), 6) for _ in range(rng.choice([0, 0, 1, 2]))]
            k["bye"] = rng.random() < .3    # ends as a program does, with its work at exit
            kids.append(k)
        return {"docs": docs, "specs": specs, "outer": outer, "child": kids,
                "thread": rng.random() < .6, "scope": rng.choice(["lib", "lib", "lib", "parse", "all"]),
                "lines": rng.random() < .6,
                "after": [rand_op(rng, docs, specs, fmt, rng.choice([None, o])) for _ in range(rng.choice([0, 1, 2]))],
                "warm": rng.random() < .5}

    def run(self, case, env):
        self.setup(case, env)
        todo = [case["outer"]] + case["after"] + [o for k in case["child"] for o in k["prog"]]
        if not all(self.usable(o) for o in todo):
            env.nontrivial = False
            return
        for o in todo:
            self.expected(env, o)
        outer = case["outer"]
        sched.ALONE = True
        if case["warm"]:
            got = attempt(self.call(env, outer, 0, "warm"))
            self.judge(env, outer, got, "warm", "before:")
        what = [("fork", n, k["f"]) for n, k in enumerate(case["child"])] + \
               [("go", n, f) for n, k in enumerate(case["child"]) for f in k["goes"]]
        at = {}
        for (do, n, _), e in zip(what, events(self.call(env, outer, 0, "dry"), case["scope"],
                                              [f for _, _, f in what], case["lines"])):
            at.setdefault(e, []).append((do, n))
        self.kids = {}

        def turn(todo):
            for do, n in todo:
                if env.viol:
                    return
                if do == "fork":
                    env.stat("fault:fork in the midst")
                    self._begin(case, env, n)
                elif n in self.kids:
                    env.stat("fault:child goes on in the midst")
                    self._go_on(case, env, n)

        box = []
        if case["thread"]:
            # the forking thread gets the turn at the events chosen
            todo = []

            def work():
                w = Within(case["scope"], at, handover)
                fn = self.call(env, outer, 0, "outer")
                sys.settrace(w.tracer)
                try:
                    got = attempt(fn)
                finally:
                    sys.settrace(None)
                box.append((got, w))
                todo.append(None)

            def handover(x):
                todo.append(x)
                while todo:
                    S.point(force=True)

            def forker():
                while True:
                    while not todo:
                        S.point(force=True)
                    if todo[0] is None:
                        return
                    turn(todo[0])
                    todo.pop(0)
            S = sched.Sched({"mode": "explicit", "switches": []}, (), ())
            S.run([work, forker])
            if S.failure:
                env.nontrivial = False
                if not S.foreign:
                    env.violate("deadlock", "%s in the parent" % S.failure)
                return
        else:
            w = Within(case["scope"], at, turn)
            fn = self.call(env, outer, 0, "outer")
            sys.settrace(w.tracer)
            try:
                got = attempt(fn)
            finally:
                sys.settrace(None)
            box.append((got, w))
        got, w = box[0]
        env.stat("steps", w.n)
        env.log("in the midst: %s" % w.where)
        self.judge(env, outer, got, "outer", "parent")
        for n, o in enumerate(case["after"]):
            for k in list(self.kids):
                if not env.viol:
                    self._go_on(case, env, k)
            self.judge(env, o, attempt(self.call(env, o, 0, "after%d" % n)), "after%d" % n, "parent afterwards")
        while self.kids and not env.viol:
            for k in list(self.kids):
                self._go_on(case, env, k)
        for pid, _, r, w2 in self.kids.values():
            os.close(w2)
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        self.unchanged(env)
        env.note(outer["o"], outer["kind"], outer.get("fmt"), w.where, case["thread"],
                 [[(o["o"], o["kind"], o.get("fmt"), o["own"]) for o in k["prog"]] for k in case["child"]])
        env.nontrivial = bool(w.where)

    def _begin(self, case, env, n):
        r, w = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.close(w2)
                for _, _, f, g in self.kids.values():
                    os.close(f)
                    os.close(g)
                sched.CURRENT = None
                self._child(case, env, n, w, r2)
            finally:
                os._exit(0)
        os.close(w)
        os.close(r2)
        self.kids[n] = pid, [], r, w2
        self._wait(case, env, n)

    def _go_on(self, case, env, n):
        try:
            os.write(self.kids[n][3], b"g")
        except BrokenPipeError:
            pass
        self._wait(case, env, n)

    def _wait(self, case, env, n):
        """Until the child stops or ends."""
        pid, got, r, w = self.kids[n]
        while True:
            d = os.read(r, 1 << 16)
            if d:
                got.append(d)
            if not d or d.endswith(b"STOP"):
                break
        if d:
            got[-1] = got[-1][:-4]
            env.stat("fault:child stopped in the midst")
            return
        os.close(r)
        os.close(w)
        _, st = os.waitpid(pid, 0)
        del self.kids[n]
        k = case["child"][n]
        d = b"".join(got)
        if k["die"] is not None:
            env.stat("fault:child killed in the midst", os.WIFSIGNALED(st))
            return
        if not d:
            env.violate("child-fails", "child %d %s ends without a result (%s)" % (
                n, k["prog"], "does not come to an end" if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM
                else "status %d" % st))
            return
        for j, (o, x) in enumerate(zip(k["prog"], pickle.loads(d))):
            self.judge(env, o, ops.Result(*x[:2], exc=x[2]), "child%d_%d" % (n, j), "child %d" % n)

    def _child(self, case, env, n, w, r):
        k = case["child"][n]
        out = []
        signal.alarm(40)

        def body():
            del out[:]
            for j, o in enumerate(k["prog"]):
                got = attempt(self.call(env, o, 0 if o["own"] and n % 2 else 1 + n, "child%d_%d" % (n, j)))
                out.append((got.kind, got.val, got.exc))

        def act(x):
            if x == "die":
                signal.raise_signal(signal.SIGKILL)
            os.write(w, b"STOP")
            if not os.read(r, 1):
                os._exit(1)
        fs = k["stops"] + ([] if k["die"] is None else [k["die"]])
        if fs:
            at = {}
            for j, e in enumerate(events(body, "lib", fs, case["lines"])):
                at[e] = "die" if j == len(k["stops"]) else "stop"
            sys.settrace(Within("lib", at, act).tracer)
        body()
        sys.settrace(None)
        d = pickle.dumps(out)
        while d:
            d = d[os.write(w, d):]
        if k["bye"]:
            atexit._run_exitfuncs()


ENGINES = {"C15": Nested(), "C16": Fork()}
