"""C07: hard storage errors during reads and saves."""
import os
from pathlib import Path

from .. import cases, gen, ops, oracle, shim

# EAGAIN is left out: a blocking file never gives it, and to Python's readall() it is the end of what there is
ANY_ERR = ["EPIPE", "ETIMEDOUT", "ECONNRESET", "ENXIO", "ENODEV", "EINVAL", "EBADF", "EBUSY", "ENOLCK",
           "EOVERFLOW", "EREMOTEIO", "ENOTCONN", "EPERM", "EACCES", "EINPROGRESS", "EHOSTDOWN"]
READ_ERR = ["EIO", "EIO", "ESTALE", "ENOMEM", "EISDIR"] * 2 + ANY_ERR
WRITE_ERR = ["EIO", "ENOSPC", "ENOSPC", "EDQUOT", "EFBIG", "EROFS", "ENOMEM"] * 2 + ANY_ERR
OPEN_ERR = ["EACCES", "EMFILE", "ENFILE", "ENOENT", "EIO", "ENOMEM", "ELOOP", "EPERM", "ENOSPC", "ENOTDIR", "EISDIR",
            "ENAMETOOLONG", "ETXTBSY", "EEXIST", "EROFS", "EDQUOT"] * 2 + ANY_ERR


# what a name can be in a real file system other than a file that can be read or written
REAL = {"read": ["absent", "folder", "under-file", "loop", "dangling", "long", "nul"],
        "save": ["no-folder", "folder", "under-file", "loop", "dangling-folder", "long", "nul"]}


class Faults:
    REF = True

    def gen(self, rng, i, tier):
        c = self._gen(rng, i, tier)
        if rng.random() < .04:
            # a file of several buffers' length whose later parts cannot be read or written
            fmt = rng.choice(["kvn", "kvn", "xml"])
            spec = dict(gen.rand_spec(rng, small=True, types=["Oem", "Tdm"]), big=1500, ml=1)
            o = {"kind": cases.rand_io(rng, fmt, .7), "as": "path", "io": rng.choice(["A", "new"])}
            k = "read" if rng.random() < .7 else "write"
            if k == "read":
                o.update(o="read", doc={"k": "gen", "spec": spec, "fmt": fmt})
            else:
                o.update(o="save", spec=spec, fmt=fmt, opts={}, old="short")
            o["plan"] = {"seed": 1, "chunk_r": rng.choice([0, 8192, 20000]), "chunk_w": rng.choice([0, 8192, 20000])}
            o["faults"] = [[k, round(1 - rng.random() ** 2 * .9 - .0001, 4), shim.ERR, 0,
                            rng.choice(READ_ERR if k == "read" else WRITE_ERR)]]
            c["prog"] = [o]
        return c

    def _gen(self, rng, i, tier):
        nops = rng.choice([1, 1, 2, 3])
        prog = []
        for _ in range(nops):
            if rng.random() < .5:
                doc = cases.rand_doc(rng, corpus=.25, big_p=.15, huge=True)
                fmt = cases.doc_fmt(doc)
                o = {"o": "read", "doc": doc, "kind": cases.rand_io(rng, fmt),
                     "as": rng.choice(["path", "pathobj", "rel"])}
                kinds = ["open", "read", "read", "read", "close"]
                errs = READ_ERR
            else:
                fmt = rng.choice(["xml", "kvn"])
                spec = gen.rand_spec(rng, small=True, ndm=fmt == "xml", big_p=.15, huge=True,
                                     odd=(0, 0, 1) if fmt == "kvn" else (0, 1, 2))
                o = {"o": "save", "spec": spec, "fmt": fmt, "kind": cases.rand_io(rng, fmt),
                     "opts": rng.choice(cases.XML_OPTS) if fmt == "xml" else {},
                     "as": rng.choice(["path", "pathobj", "rel"]),
                     "old": rng.choice([None, "", "short", "long"])}
                kinds = ["open", "write", "write", "write", "close", "close"]
                errs = WRITE_ERR
            plan = {"seed": rng.randrange(1 << 20)}
            if rng.random() < .6:
                plan["chunk_r"] = plan["chunk_w"] = rng.choice([1, 20, 200, 1000, 3000])
            if rng.random() < .3:
                plan["eintr"] = rng.choice([2, 4, 10])
            faults = []
            for _ in range(rng.choice([1, 1, 1, 2])):
                k = rng.choice(kinds)
                if k == "open":
                    faults.append([k, 0.0, shim.ERR, 0, rng.choice(OPEN_ERR)])
                elif k == "read":
                    faults.append([k, round(rng.random(), 4), shim.ERR, 0, rng.choice(errs)])
                elif k == "write":
                    faults.append([k, round(rng.random(), 4), rng.choice([shim.ERR, shim.PARTERR]),
                                   rng.choice([1, 5, 100, 2000]), rng.choice(errs)])
                else:
                    faults.append([k, 0.0, rng.choice([shim.ERR, shim.CLOSELOSS]), 0,
                                   rng.choice(["EIO", "ENOSPC", "EDQUOT", "EIO", "ENOSPC", "EDQUOT",
                                               "EBADF", "ESTALE", "ETIMEDOUT", "ECONNRESET"])])
            for f in faults:
                # the device stays broken until the operation has ended
                if f[2] == shim.ERR and f[0] != "close" and rng.random() < .35:
                    f[2] |= shim.ON
            r = rng.random()
            if r < .12:
                # at a fixed call instead of a share of those of a run without faults, or not at all:
                # transfers in pieces alone must not make a result wrong
                for f in faults:
                    if f[0] in ("read", "write"):
                        f[1] = -rng.choice([2, 2, 3, 4])
            elif r < .2:
                faults = []
                plan["chunk_r"] = plan["chunk_w"] = rng.choice([20, 200, 1000, 3000])
            if rng.random() < .1:
                faults.append(["meta", round(rng.random(), 4), shim.ERR, 0, rng.choice(["EIO", "EACCES", "ENOSPC"])])
            if o["o"] == "save" and rng.random() < .25:
                o["quota"] = round(rng.random(), 4)      # share of the text that fits
                faults = []
            o["plan"], o["faults"] = plan, faults
            o["io"] = rng.choice(["A", "A", "new"])
            o["dt"] = cases.rand_dt(rng)
            prog.append(o)
        if rng.random() < .12:
            # no file there, without any injected fault
            o = rng.choice(prog)
            o["real"] = rng.choice(REAL[o["o"]])
            o["faults"], o["plan"] = [], {"seed": 1}
            o.pop("quota", None)
            o["name"] = "r%d" % rng.randrange(100)
            return {"prog": prog}
        if rng.random() < .4:
            # the same name again, with other content
            for o in prog:
                o["name"] = "same"
            if rng.random() < .5 and prog[0]["o"] == "read":
                o = dict(prog[0], doc=cases.rand_doc(rng, fmts=(cases.doc_fmt(prog[0]["doc"]),), corpus=.25))
                prog.insert(0, dict(o, faults=[], plan={"seed": 1}))
        return {"prog": prog}

    def run(self, case, env):
        ios = {}

        def io_of(o):
            if o["io"] == "new":
                return ops.IOS[o["kind"]]()
            if o["kind"] not in ios:
                ios[o["kind"]] = ops.IOS[o["kind"]]()
            return ios[o["kind"]]

        for n, o in enumerate(case["prog"]):
            env.tick(o.get("dt", 0))
            name = o.get("name", "f%d" % n)
            p = env.path(name)
            target = {"path": p, "pathobj": Path(p), "rel": name}[o["as"]]
            if o["o"] == "read":
                data = cases.doc_bytes(env, o["doc"])
                with open(p, "wb") as f:
                    f.write(data)
                exp = env.ref("ref_read", o["kind"], "path", data)
                content = None
                io = io_of(o)
                call = lambda: io.from_path(target)
            else:
                msg = gen.build(o["spec"])
                exp, content = env.ref("ref_save", o["kind"], msg, o["fmt"], o["opts"])
                old = {None: None, "": b"", "short": b"old", "long": b"old content\n" * 5000}[o["old"]]
                if old is not None:
                    with open(p, "wb") as f:
                        f.write(old)
                io = io_of(o)
                call = lambda: ops.save(io, msg, o["fmt"], target, o["opts"])
            if exp[0] == "exc":
                continue
            if "real" in o:
                self._nowhere(env, n, o, io, name, p, exp, content,
                              data if o["o"] == "read" else msg)
                if env.viol:
                    break
                continue
            # calls the operation makes without faults: measured in a fork
            counts = _dry(env, call, o["plan"])
            plan = dict(o["plan"])
            plan["faults"] = [[k, int(f * counts.get(k, 1)) if f >= 0 else -f - 1, act, arg, err]
                              for k, f, act, arg, err in o["faults"]]
            if "quota" in o:
                plan["quota"] = int(o["quota"] * len(content or b""))
            if o["o"] == "save" and old is not None:
                with open(p, "wb") as f:
                    f.write(old)
            shim.reset(env.S, plan)
            with shim.armed():
                got = ops.wrap(call)
            fired = shim.fired()
            lg = shim.log(env.S)
            shim.clear()
            hard = False
            for a, v in fired.items():
                env.stat("fault:" + a, v)
                hard |= a not in ("EINTR", "chunked", "short")
            env.stat("steps", len(lg))
            for f in plan["faults"]:
                env.stat("fault:%s %s" % (f[0], f[4]), 1 if hard else 0)
            for l in lg[-8:]:
                env.log("    " + l)
            env.log("%d %s %s -> %s" % (n, o["o"], o["kind"], got.short()))
            env.note(o["o"], o["kind"], o["as"], [(f[0], f[2], f[4]) for f in plan["faults"]],
                     "quota" in o, got.kind, got.val if got.kind == "exc" else "")
            if hard:
                env.nontrivial = True
                env.stat("probe:fault inside the operation")
            if got.kind == "exc":
                env.stat("op:%s (fails)" % o["o"])
                if not hard:
                    env.violate("benign-fails", "%s fails although only splits and interruptions of "
                                "transfers happened: %s" % (o["o"], got.short()))
            else:
                env.stat("op:%s despite a fault" % o["o"] if hard else "op:" + o["o"])
                self._right(env, o, got, exp, content, p, "under faults %s" % lg[-4:])
            # the fault has cleared
            with_log = ops.wrap(call)
            env.stat("op:retry")
            if with_log.kind == "exc":
                env.violate("no-recovery", "step %d: %s through the same interface still fails after "
                            "the fault has cleared: %s" % (n, o["o"], with_log.short()))
            else:
                self._right(env, o, with_log, exp, content, p, "once the fault has cleared")
            if env.viol:
                break

    def _nowhere(self, env, n, o, io, name, p, exp, content, what):
        """The name leads to no file; later, through the same interface, it does."""
        cond = o["real"]
        if os.path.lexists(p):
            os.unlink(p)
        if cond in ("under-file", "no-folder", "dangling-folder"):
            base, name = name, name + "/x"
            if cond == "under-file":
                with open(env.path(base), "w") as f:
                    f.write("a file")
            elif cond == "dangling-folder":
                os.symlink("nothing", env.path(base))
        elif cond == "folder":
            os.mkdir(p)
        elif cond == "loop":
            os.symlink(name, p)
        elif cond == "dangling":
            os.symlink("nothing", p)
        elif cond == "long":
            name = "x" * 300
        elif cond == "nul":
            name = name + "\0x"

        def call(nm):
            t = {"path": env.path("") + nm, "pathobj": Path(env.path("") + nm), "rel": nm}[o["as"]]
            if o["o"] == "read":
                return io.from_path(t)
            return ops.save(io, what, o["fmt"], t, o["opts"])

        got = ops.wrap(lambda: call(name))
        env.log("%d %s %s: %s -> %s" % (n, o["o"], o["kind"], cond, got.short()))
        env.stat("fault:no such file (%s)" % cond)
        env.stat("op:%s%s" % (o["o"], " (fails)" if got.kind == "exc" else ""))
        env.stat("steps")
        env.note(o["o"], o["kind"], o["as"], cond, got.kind, got.val if got.kind == "exc" else "")
        env.nontrivial = True
        if got.kind != "exc" and o["o"] == "read":
            env.violate("masked-error", "read of a name that leads to no file (%s) %s" % (cond, got.short()))
            return
        if got.kind != "exc":       # somehow, it made a file of that name
            self._right(env, o, got, exp, content, env.path("") + name, "to a name that led to no file (%s)" % cond)
        good = "good%d" % n
        if o["o"] == "read":
            with open(env.path(good), "wb") as f:
                f.write(what)
        got = ops.wrap(lambda: call(good))
        env.stat("op:retry")
        if got.kind == "exc":
            env.violate("no-recovery", "step %d: %s through the same interface fails after one of a name that led "
                        "to no file (%s): %s" % (n, o["o"], cond, got.short()))
        else:
            self._right(env, o, got, exp, content, env.path(good), "after one of a name that led to no file")

    def _right(self, env, o, got, exp, content, p, when):
        if got.key() != (exp[0], exp[1]):
            env.violate("masked-error", "%s %s returns %s, right: %s" %
                        (o["o"], when, got.short(), ops.Result(*exp[:2], exc=exp[2]).short()))
        if o["o"] == "save":
            try:
                with open(p, "rb") as f:
                    now = f.read()
            except OSError as e:
                now = repr(e).encode()
            except ValueError as e:
                now = repr(e).encode()
            if now != content:
                env.violate("masked-error", "save %s is reported as done, but the file holds %d of %d "
                            "bytes (%s)" % (when, len(now), len(content), "a prefix" if
                                            content.startswith(now) else "other content"))

    def shrink(self, c):
        for i in range(len(c["prog"])):
            if len(c["prog"]) > 1:
                yield dict(c, prog=c["prog"][:i] + c["prog"][i + 1:])
        for i, o in enumerate(c["prog"]):
            def put(**kw):
                return dict(c, prog=c["prog"][:i] + [dict(o, **kw)] + c["prog"][i + 1:])
            if "real" in o:
                if o["as"] != "path":
                    yield put(**{"as": "path"})
                continue
            if len(o["faults"]) > 1:
                for k in range(len(o["faults"])):
                    yield put(faults=[o["faults"][k]])
            for k in ("eintr", "chunk_r", "chunk_w"):
                if o["plan"].get(k):
                    yield put(plan={a: b for a, b in o["plan"].items() if a != k})
            if o["as"] != "path":
                yield put(**{"as": "path"})
            if o["o"] == "read":
                for x in cases.shrink_doc(o["doc"]):
                    yield put(doc=x)
            else:
                for x in gen.shrink_spec(o["spec"]):
                    yield put(spec=x)


def _dry(env, call, plan):
    import json
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            shim.reset(env.S, plan)
            with shim.armed():
                ops.wrap(call)
            os.write(w, json.dumps(shim.counts()).encode())
        finally:
            os._exit(0)
    os.close(w)
    d = os.read(r, 4096)
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(d or b"{}")


ENGINES = {"C07": Faults()}
