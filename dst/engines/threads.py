"""C01: several caller threads under a scheduler that decides every switch."""
import json
import os
import random
import sys

from .interrupt import _forked
from .. import cases, gen, ops, oracle, sched, boot

_SITE = os.path.dirname(os.path.dirname(ops.gen.m.__file__))


class Threads:
    REF = True

    def gen(self, rng, i, tier):
        nthreads = rng.choice([2, 2, 2, 3, 3, 4])
        voc = rng.choice(["ascii", "all"])
        fmts = rng.choice([("xml",), ("kvn",), ("kvn",), ("xml", "kvn")])
        ndocs = rng.choice([1, 2, 3])
        docs = [cases.rand_doc(rng, fmts=fmts, corpus=.15, damaged=rng.choice([0, 0, .2]), voc=voc)
                for _ in range(ndocs)]
        d = next((d for d in docs if d["k"] == "gen"), None)
        if d and rng.random() < .6:   # same type in two threads, different values
            docs.append(dict(d, spec=dict(d["spec"], seed=rng.randrange(1 << 30))))
        specs = [gen.rand_spec(rng, small=True, ndm=True, odd=(0, 1, 2), voc=voc) for _ in range(rng.choice([1, 2]))]
        if rng.random() < .5:
            specs.append(dict(specs[0], seed=rng.randrange(1 << 30)))
        mix = rng.choice(["read", "write", "any", "any"])
        progs = []
        if rng.random() < .35:
            # every thread does the same with data of its own
            t = list(gen.ROOTS)[i % len(gen.ROOTS)] if rng.random() < .75 else "Aem"
            fmt = rng.choice(["kvn", "kvn", "xml"])
            base = dict(gen.rand_spec(rng, small=True, odd=(0, 1), voc=voc), t=t)
            base.pop("members", None), base.pop("twins", None)
            if t == "Aem" and rng.random() < .7:
                base["att"] = rng.choice(list(gen.ATT) + ["QUATERNION"] * 3)
            specs = [dict(base, seed=rng.randrange(1 << 30)) for _ in range(nthreads)]
            docs = [{"k": "gen", "spec": s, "fmt": fmt} for s in specs]
            o = rng.choice(["read", "read", "conv", "save"])
            for t in range(nthreads):
                op = {"o": o, "own": rng.random() < .4, "kind": "ndm"}
                if op["own"]:
                    op["kind"] = cases.rand_io(rng, fmt)
                op.update({"d": t, "via": rng.choice(["str", "path"])} if o == "read" else
                          {"fmt": fmt, "m": t, "opts": {}})
                progs.append([op] * rng.choice([1, 1, 2]))
            nthreads = 0
        for t in range(nthreads):
            p = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                o = rng.choice({"read": ["read"], "write": ["conv", "save"],
                                "any": ["read", "read", "conv", "save"]}[mix])
                own = rng.random() < .4
                if o == "read":
                    k = rng.randrange(len(docs))
                    kind = cases.rand_io(rng, cases.doc_fmt(docs[k])) if own else "ndm"
                    p.append({"o": o, "own": own, "kind": kind, "d": k,
                              "via": rng.choice(["str", "str", "path"])})
                else:
                    fmt = rng.choice(["xml", "kvn"])
                    p.append({"o": o, "own": own, "kind": cases.rand_io(rng, fmt) if own else "ndm",
                              "fmt": fmt, "m": rng.randrange(len(specs)),
                              "opts": rng.choice(cases.XML_OPTS) if fmt == "xml" else {}})
            progs.append(p)
        same = rng.choice([None, "stem", "dir", "rel"])
        if all(o["o"] == "save" for p in progs for o in p):
            same = rng.choice(["stem", "stem", "dir", "rel", None])
        for p in progs:
            for o in p:
                # how files are named: absolute or relative, same names in folders of their own
                o["as"] = same or rng.choice(["path", "path", "rel", "dir", "stem"])
        warm = []
        if rng.random() < .3:
            warm = [dict(progs[0][0])]
        r = rng.random()
        if r < .4:
            by = rng.choice(["line", "func"])
            s = {"mode": rng.choice(["site", "meet", "meet"]), "by": by,
                 "m": rng.choice([3, 10, 30, 100, 300] if by == "line" else [5, 15, 40]), "q": rng.choice([1, .9, .5]),
                 "seed": rng.randrange(1 << 30)}
        elif r < .8:
            s = {"mode": "random", "p": rng.choice([.5, .2, .05, .02, .005]), "seed": rng.randrange(1 << 30)}
        else:
            s = {"mode": "pct", "d": rng.choice([1, 2, 3, 5]), "len": rng.choice([500, 3000, 20000]),
                 "seed": rng.randrange(1 << 30)}
        c = {"docs": docs, "specs": specs, "progs": progs, "warm": warm, "sched": s,
             "opcodes": rng.random() < .25}
        if len(progs) == 2 and all(len(p) == 1 for p in progs) and rng.random() < .5:
            # the two threads are led through every function of the library side by side
            c["sweep"] = {"seed": rng.randrange(1 << 30), "max": 60, "lo": 0.0, "hi": 1.0}
        return c

    def run(self, case, env):
        docs = [cases.doc_bytes(env, d) for d in case["docs"]]
        msgs = [gen.build(s) for s in case["specs"]]
        canon = [oracle.canon(m) for m in msgs]
        for k, d in enumerate(docs):
            with open(env.path("in%d" % k), "wb") as f:
                f.write(d)
        exp = {}

        def expected(o):
            k = json.dumps(o, sort_keys=True)
            if k not in exp:
                if o["o"] == "read":
                    exp[k] = (env.ref("ref_read", o["kind"], o["via"], docs[o["d"]]), None)
                elif o["o"] == "conv":
                    exp[k] = (env.ref("ref_conv", o["kind"], msgs[o["m"]], o["fmt"], o["opts"]), None)
                else:
                    exp[k] = env.ref("ref_save", o["kind"], msgs[o["m"]], o["fmt"], o["opts"])
            return exp[k]

        def usable(o):
            return o["o"] != "read" or o["via"] == "path" or cases.is_utf8(docs[o["d"]])
        progs = [[o for o in p if usable(o)] for p in case["progs"]]
        for p in progs:
            for o in p:
                expected(o)
        shared = ops.NdmIo()
        texts = [d.decode("utf-8") if cases.is_utf8(d) else None for d in docs]
        outcomes = [[] for _ in progs]

        def place(t, n, o):
            if o["o"] == "read":
                p = env.path("in%d" % o["d"])
            elif o["as"] == "dir":
                p = env.path("d%s/out%d" % (t, n))
                os.makedirs(os.path.dirname(p), exist_ok=True)
            elif o["as"] == "stem":
                p = env.path("out%d.%s" % (n, "warm" if t == "w" else ["xml", "kvn", "txt", "ndm", "dat"][t]))
            else:
                p = env.path("out%s_%d" % (t, n))
            return p
        places = [[place(t, n, o) for n, o in enumerate(p)] for t, p in enumerate(progs)]
        places_w = place("w", 0, case["warm"][0]) if case["warm"] else None

        def one(t, n, o, io):
            p = places_w if t == "w" else places[t][n]
            if o["as"] != "path":
                p = p[len(env.path("")):]      # relative to the current directory
            if o["o"] == "read":
                src = texts[o["d"]] if o["via"] == "str" else p
                return ops.wrap(lambda: ops.read(io, o["via"], src))
            if o["o"] == "conv":
                return ops.wrap(lambda: ops.conv(io, msgs[o["m"]], o["fmt"], o["opts"]))
            return ops.wrap(lambda: ops.save(io, msgs[o["m"]], o["fmt"], p, o["opts"]))

        def body(t):
            def go():
                own = {}
                for n, o in enumerate(progs[t]):
                    io = shared
                    if o["own"]:
                        io = own.setdefault(o["kind"], None) or ops.IOS[o["kind"]]()
                        own[o["kind"]] = io
                    try:
                        outcomes[t].append(one(t, n, o, io))
                    except BaseException as e:
                        outcomes[t].append(ops.Result("exc", type(e).__name__, exc=repr(e)[:100]))
            return go

        for o in case["warm"]:
            if usable(o):
                one("w", 0, o, shared)
        def simulate(how):
            S = sched.Sched(how, (boot.REPO + "/ccsds_ndm/",), ("/xsdata/",), case["opcodes"])

            switches = S.run([body(t) for t in range(len(progs))], None)
            if S.failure and not S.foreign:
                env.violate("deadlock", "%s after %d scheduling points" % (S.failure, S.n))
            env.stat("steps", S.n)
            env.stat("fault:thread switch", len(switches))
            env.stat("probe:blocked on a lock", S.nblock)
            if not S.failure:
                for t, p in enumerate(progs):
                    for n, o in enumerate(p):
                        got = outcomes[t][n]
                        e, content = expected(o)
                        env.stat("op:" + o["o"] + (" (fails)" if got.kind == "exc" else ""))
                        env.log("thread %d op %d %s -> %s" % (t, n, o, got.short()))
                        if got.key() != (e[0], e[1]):
                            from .history import _canon_diff
                            env.violate("interference", "thread %d operation %d %s: %s, alone: %s %s" % (
                                t, n, o, got.short(), ops.Result(*e[:2], exc=e[2]).short(),
                                _canon_diff(got.val, e[1]) if got.kind == e[0] == "msg" else ""))
                        elif o["o"] == "save" and got.kind == "none":
                            try:
                                with open(places[t][n], "rb") as f:
                                    there = f.read()
                            except OSError as x:
                                there = type(x).__name__
                            if there != content:
                                env.violate("interference", "thread %d: file saved by %s %s" % (
                                    t, o, "differs from the one saved alone" if isinstance(there, bytes)
                                    else "cannot be read: " + there))
                for k, m in enumerate(msgs):
                    if oracle.canon(m) != canon[k]:
                        env.violate("message-changed", "message %d changed" % k)
            if env.viol:
                env.log("switches " + json.dumps(switches[:60]))
            return switches

        def alone():
            code = {}

            def tr(frame, event, arg):
                if frame.f_code.co_filename.startswith(boot.REPO + "/ccsds_ndm/"):
                    code[sched.site(frame.f_code)] = 1
            sys.settrace(tr)
            for t in range(len(progs)):
                body(t)()
            sys.settrace(None)
            return sorted(code)

        if case.get("sweep"):
            sw = case["sweep"]
            sites = _forked(alone)
            random.Random(sw["seed"]).shuffle(sites)
            sites = sites[int(sw["lo"] * len(sites)):int(sw["hi"] * len(sites))]
            for k, at in enumerate(sites[:sw["max"]]):
                how = {"mode": "meet", "only": at, "q": 1, "seed": sw["seed"] + k}

                def go():
                    env.viol, env.trace, env.stats = [], [], {}
                    switches = simulate(how)
                    return env.viol, env.trace, env.stats, switches
                viol, trace, stats, switches = _forked(go)
                for a, v in stats.items():
                    env.stat(a, v)
                env.note(at, len(switches), hash_switches(switches))
                env.nontrivial = True
                if viol:
                    env.extra = {"how": how}
                    env.log("side by side through " + at)
                    for l in trace:
                        env.log(l)
                    env.violate(viol[0]["class"], viol[0]["detail"])
                    env.narrow = dict({k: v for k, v in case.items() if k != "sweep"}, sched=how)
                    break
            return
        switches = simulate(case["sched"])
        env.note([[(o["o"], o["kind"], o.get("fmt"), o.get("d"), o.get("m")) for o in p] for p in progs])
        env.note(len(switches), hash_switches(switches))
        env.nontrivial = len(switches) > len(progs)
        env.extra = {"switches": switches}

    def shrink(self, c):
        if c.get("sweep"):
            how = (record(self, c) or {}).get("how")
            if how:
                yield dict({k: v for k, v in c.items() if k != "sweep"}, sched=how)
            return
        # explicit schedule first: as recorded by running the case once more in a fork
        if c["sched"]["mode"] != "explicit":
            sw = (record(self, c) or {}).get("switches")
            if sw is not None:
                yield dict(c, sched={"mode": "explicit", "switches": sw})
        for t in range(len(c["progs"])):
            for n in range(len(c["progs"][t])):
                p = c["progs"][t][:n] + c["progs"][t][n + 1:]
                yield dict(c, progs=c["progs"][:t] + [p] + c["progs"][t + 1:])
        if c["warm"]:
            yield dict(c, warm=[])
        if c["sched"]["mode"] == "explicit":
            sw = c["sched"]["switches"]
            k = max(1, len(sw) // 2)
            while k >= 1:
                for i in range(0, len(sw), k):
                    yield dict(c, sched={"mode": "explicit", "switches": sw[:i] + sw[i + k:]})
                if k == 1:
                    break
                k //= 2
        else:
            for i, d in enumerate(c["docs"]):
                for x in cases.shrink_doc(d):
                    yield dict(c, docs=c["docs"][:i] + [x] + c["docs"][i + 1:])
            for i, s in enumerate(c["specs"]):
                for x in gen.shrink_spec(s):
                    yield dict(c, specs=c["specs"][:i] + [x] + c["specs"][i + 1:])


def hash_switches(sw):
    import hashlib
    return hashlib.sha1(repr(sw).encode()).hexdigest()[:12]


def record(eng, case):
    """Switches of a run, as an explicit schedule, or the schedule of a sweep that failed."""
    from .. import core
    root = os.path.join(os.environ.get("HOME"), "rec%d" % os.getpid())
    os.makedirs(root, exist_ok=True)

    def go():
        env = core.Env(root)
        eng.run(case, env)
        env.refsrv.close()
        return getattr(env, "extra", None)
    r = core.fork_call(go, 40, 80)
    return r[1] if r[0] == "ok" and isinstance(r[1], dict) and "error" not in r[1] else None


ENGINES = {"C01": Threads()}
