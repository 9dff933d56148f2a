"""C05 / C06: what was saved is read back, over histories of saves with crashes and faults.

Model: a map file -> last message whose save was reported as successful; a failed or crashed
save makes its own destination unknown, never that of others.
"""
import os
import re

from .. import cases, gen, ops, oracle, shim


NAMES = ["f0", "f1.xml", "f2.kvn", "a b.txt", "\u00fcn\u00ef.xml", "~", "x%20y.json", "f3.tmp", "-f4", "f.bak", "F0",
         "f.oem.gz"]


def rand_fault(rng, crash=False):
    kind = rng.choice(["open", "write", "write", "close"])
    if crash:
        return [kind, rng.choice([0, 0, 1, 2]), shim.CRASH,
                rng.choice([-1, 0, 1, 100, 4000]) if kind == "write" else rng.choice([0, 1]), None]
    if kind == "open":
        return [kind, 0, shim.ERR, 0, rng.choice(["EACCES", "EMFILE", "ENOSPC", "EROFS", "EIO"])]
    if kind == "close":
        return [kind, 0, rng.choice([shim.ERR, shim.CLOSELOSS]), 0, rng.choice(["EIO", "ENOSPC", "EDQUOT"])]
    return [kind, rng.choice([0, 0, 1]), rng.choice([shim.ERR, shim.PARTERR]),
            rng.choice([1, 10, 1000]), rng.choice(["EIO", "ENOSPC", "EDQUOT"])]

EPOCH = re.compile(r"\d{4}-[-0-9]+T")
BAD = ["\0", "\x01", "\x0b", "\x1c", "\x1f", "\x7f", "\ud800", "\udcff", "\ufffe", "\uffff", "=", " = ", "\U0001fffe"]


class Store:
    REF = True

    def __init__(self, fmt):
        self.fmt = fmt

    def gen(self, rng, i, tier):
        fmt = self.fmt
        nfiles = rng.choice([1, 1, 2, 3])
        nsteps = rng.choice([1, 2, 3, 4, 6])
        types = None
        ndm = fmt == "xml"
        if i % 3:     # the types in turn, so that none is left to chance
            names = list(gen.ROOTS) + (["Ndm"] if ndm else [])
            types = [names[(i // 3) % len(names)]]
        steps = []
        names_ = rng.sample(NAMES, nfiles)
        for k in range(nsteps):
            r = rng.random()
            big = .25 if rng.random() < .3 else 0
            spec = gen.rand_spec(rng, types=types if rng.random() < .7 else None, ndm=ndm, big_p=big,
                                 odd=(0, 1, 2) if ndm else (0, 0, 1))
            if spec["t"] == "Ndm" and not ndm:
                continue
            f = names_[rng.randrange(nfiles)]
            base = {"spec": spec, "file": f, "io": rng.choice(["A", "A", "new"]),
                    "kind": cases.rand_io(rng, fmt), "as": rng.choice(["path", "pathobj", "rel"])}
            if fmt == "xml":
                base["opts"] = rng.choice(cases.XML_OPTS)
            else:
                base["opts"] = {}
            if k == 0 or r < .55:
                base.update(o="save", plan=cases.rand_transfer(rng) if rng.random() < .7 else {})
                if rng.random() < .15:
                    base["twin"] = rng.choice(["letters", "digits", "tail", "longer"])
                elif rng.random() < .15:
                    # a text that the format may have to refuse
                    base["bad"] = [round(rng.random(), 5), rng.choice(BAD)]
            elif r < .68:
                base.update(o="fail", plan={"seed": rng.randrange(999), "faults": [rand_fault(rng)]})
                if rng.random() < .3:
                    base["plan"] = {"seed": 1, "quota": rng.choice([0, 1, 100, 1000, 5000])}
            elif r < .84:
                base.update(o="crash", plan={"seed": rng.randrange(999), "faults": [rand_fault(rng, True)],
                                             "chunk_w": rng.choice([0, 100, 1000])})
            elif r < .92:
                base.update(o="old", text=rng.choice(["", "x", "<a/>", "\n".join(["stale content"] * 3000)]))
            else:
                base.update(o="load", plan=cases.rand_transfer(rng) if rng.random() < .5 else {})
            base["dt"] = cases.rand_dt(rng)
            steps.append(base)
        return {"steps": steps, "rplan": cases.rand_transfer(rng) if rng.random() < .6 else {},
                "rio": rng.choice(["ndm", fmt]), "rvia": rng.choice(["path", "pathobj"])}

    def run(self, case, env):
        fmt = self.fmt
        ios = {}
        acked = {}      # file -> index of the step whose message it has to hold
        truth = {}
        same = oracle.diff if fmt == "xml" else oracle.kvn_diff

        def io_of(s):
            if s["io"] == "new":
                return ops.IOS[s["kind"]]()
            return ios.setdefault(s["kind"], None) or ios.__setitem__(s["kind"], ops.IOS[s["kind"]]()) \
                or ios[s["kind"]]

        def dest(s):
            from pathlib import Path
            p = env.path(s["file"])
            return {"path": p, "pathobj": Path(p), "rel": s["file"]}[s["as"]]

        def verify(what, got, k, f):
            if got.kind != "msg":
                env.violate("unreadable", "%s: file %s saved by step %d: %s" % (what, f, k, got.short()))
                return
            d = same(oracle.stripped(truth[k]), got.obj)
            if d:
                env.violate("different", "%s: file %s saved by step %d differs: %s" % (what, f, k, d[:3]))

        for k, s in enumerate(case["steps"]):
            env.stat("steps")
            env.tick(s.get("dt", 0))
            if s["o"] == "old":
                with open(env.path(s["file"]), "w") as fh:
                    fh.write(s["text"])
                acked.pop(s["file"], None)
                continue
            if s["o"] == "load":
                if s["file"] not in acked:
                    continue
                io = io_of(s)
                shim.reset(env.S, s["plan"])
                with shim.armed():
                    got = ops.wrap(lambda: ops.read(io, "path", env.path(s["file"])))
                self._count(env)
                verify("load in step %d" % k, got, acked[s["file"]], s["file"])
                env.stat("op:load")
                continue
            msg = gen.build(s["spec"])
            truth[k] = gen.build(s["spec"])
            if s.get("bad"):
                for m in (msg, truth[k]):
                    self._spoil(m, *s["bad"])
            io = io_of(s)
            if s.get("twin"):
                self._twin(env, s, msg, dest(s))
            if s["o"] == "crash":
                pid = os.fork()
                if pid == 0:
                    try:
                        shim.sim(env.root, seed=2, start=shim.now_ns(), pid=4712)
                        shim.reset(env.S, s["plan"])
                        with shim.armed():
                            ops.wrap(lambda: ops.save(io, msg, fmt, dest(s), s["opts"]))
                    finally:
                        os._exit(0)
                _, st = os.waitpid(pid, 0)
                died = os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77
                env.stat("fault:crash during save" if died else "probe:crash point not reached")
                env.log("%d crash while saving %s: %s" % (k, s["file"], died))
                env.note("crash", died, s["plan"]["faults"][0][:2])
                acked.pop(s["file"], None)
                continue
            shim.reset(env.S, s["plan"])
            with shim.armed():
                got = ops.wrap(lambda: ops.save(io, msg, fmt, dest(s), s["opts"]))
            self._count(env)
            for l in shim.log(env.S)[:12]:
                env.log("    " + l)
            shim.clear()
            env.log("%d %s %s to %s -> %s" % (k, s["o"], s["spec"]["t"], s["file"], got.short()))
            env.note(s["o"], s["spec"]["t"], s["kind"], s["as"], got.kind, sorted(s["plan"]),
                     s["spec"].get("big"), s["spec"]["opt"], s["spec"]["voc"])
            if got.kind == "none":
                acked[s["file"]] = k
                env.stat("op:save")
            else:
                acked.pop(s["file"], None)
                env.stat("op:save (fails)")
                if s["o"] == "save" and not s.get("bad"):
                    env.violate("save-refused", "step %d: saving a valid %s fails although no fault "
                                "was injected: %s" % (k, s["spec"]["t"], got.short()))
        for f, k in sorted(acked.items()):
            # in this process, then in a process of its own
            io = ios.get(case["rio"]) or ops.IOS[case["rio"]]()
            shim.reset(env.S, case["rplan"])
            with shim.armed():
                got = ops.wrap(lambda: ops.read(io, case["rvia"], env.path(f) if case["rvia"] == "path"
                                                else __import__("pathlib").Path(env.path(f))))
            self._count(env)
            verify("same process", got, k, f)
            with open(env.path(f), "rb") as fh:
                data = fh.read()
            kind, val, exc, obj = env.ref("ref_load", case["rio"], data)
            verify("later process", ops.Result(kind, val, obj, exc), k, f)
            env.stat("op:verify")
            env.nontrivial = True

    def _spoil(self, msg, at, char):
        """Puts an unusual character into one of the texts."""
        texts = [(o, w) for o, w in cases.leaves(msg)
                 if type(o[w] if isinstance(w, int) else getattr(o, w)) is str and w not in ("id", "version")
                 and not EPOCH.match(o[w] if isinstance(w, int) else getattr(o, w))]
        if texts:
            o, w = texts[int(at * len(texts))]
            v = (o[w] if isinstance(w, int) else getattr(o, w)) or "x"
            cases.put_leaf(o, w, v[:1] + char + v[-1:])

    def _twin(self, env, s, msg, where):
        """The destination already holds something much like what is to be saved."""
        r, data = env.ref("ref_save", s["kind"], msg, self.fmt, s["opts"])
        if not data:
            return
        text = data.decode("utf-8", "surrogateescape")
        t = text.rstrip()
        tail = text[len(t):]
        if s["twin"] == "letters":
            t = t.swapcase()
        elif s["twin"] == "digits":
            t = "".join(str((int(c) + 1) % 10) if c in "0123456789" else c for c in t)
        elif s["twin"] == "tail":
            t = t[:-1] + "~"
        else:
            tail += "COMMENT more\n"
        with open(where, "wb") as f:
            f.write((t + tail).encode("utf-8", "surrogateescape"))
        env.stat("probe:destination holds a twin of what is saved")

    def _count(self, env):
        for n, v in shim.fired().items():
            env.stat("fault:" + n, v)
        shim.clear()

    def shrink(self, c):
        for i in range(len(c["steps"])):
            if len(c["steps"]) > 1:
                yield dict(c, steps=c["steps"][:i] + c["steps"][i + 1:])
        for i, s in enumerate(c["steps"]):
            if s["o"] in ("save", "load") and s["plan"]:
                yield self._set(c, i, plan={})
            if s["o"] in ("fail", "crash"):
                yield self._set(c, i, o="save", plan={})
            if s.get("bad"):
                yield self._set(c, i, bad=None)
            for k, v in (("as", "path"), ("kind", "ndm"), ("io", "new"), ("opts", {})):
                if s[k] != v:
                    yield self._set(c, i, **{k: v})
            for x in gen.shrink_spec(s["spec"]):
                yield self._set(c, i, spec=x)
        if c["rplan"]:
            yield dict(c, rplan={})
        if c["rvia"] != "path":
            yield dict(c, rvia="path")

    def _set(self, c, i, **kw):
        return dict(c, steps=c["steps"][:i] + [dict(c["steps"][i], **kw)] + c["steps"][i + 1:])


ENGINES = {"C05": Store("xml"), "C06": Store("kvn")}
