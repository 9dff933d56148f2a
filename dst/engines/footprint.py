"""C08: which files an operation touches, above all when the conversion fails."""
import hashlib
import os
import shutil
from pathlib import Path

from .. import cases, gen, ops, oracle, shim

EXC = {"ValueError": ValueError, "TypeError": TypeError, "KeyError": KeyError,
       "RuntimeError": RuntimeError, "AttributeError": AttributeError, "StopIteration": StopIteration,
       "OSError": OSError, "MemoryError": MemoryError, "UnicodeError": UnicodeError, "EOFError": EOFError}
EXTS = ["", "", ".xml", ".kvn", ".txt", ".opm", ".tar.gz"]
NEIGHBOURS = [".f0", "f0~", "#f0#", "f0.bak", "f0.tmp", "f0.part", "f0.lock", "f0.old", "f0.new", "f0.1", "f0.json", "f0.err",
              "f0.xml.bak", "f0.kvn.bak", "f0.xml.tmp", "f0.kvn.tmp", "neighbour.xml", "out.xml", "tmp", "F0"] + \
    ["f%d%s" % (k, e) for k in (0, 1) for e in EXTS[2:]]


def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds:
            p = os.path.join(d, n)
            out[os.path.relpath(p, root)] = "link to " + os.readlink(p) if os.path.islink(p) else "dir"
        for n in fs:
            p = os.path.join(d, n)
            r = os.path.relpath(p, root)
            if os.path.islink(p):
                out[r] = "link to " + os.readlink(p)
            else:
                with open(p, "rb") as f:
                    out[r] = hashlib.sha1(f.read()).hexdigest()
    return out


def stamps(root):
    """Time and permissions of every file."""
    out = {}
    for d, ds, fs in os.walk(root):
        for n in fs:
            p = os.path.join(d, n)
            st = os.lstat(p)
            out[os.path.relpath(p, root)] = (st.st_mtime_ns, st.st_mode, st.st_ino)
    return out


class Footprint:
    REF = True

    def gen(self, rng, i, tier):
        prog = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            r = rng.random()
            if r < .75:
                fmt = rng.choice(["xml", "kvn", "kvn"])
                bad = rng.choice(["poison", "poison", "poison", "surrogate", "surrogate", "multi",
                                  "json", "unknown", "drop", "nul", "none", "noobj"])
                if bad == "multi":
                    fmt = "kvn"
                spec = gen.rand_spec(rng, small=True, ndm=True, big_p=.15)
                if bad == "multi":
                    spec = {"t": "Ndm", "seed": rng.randrange(1 << 30), "ml": 1,
                            "members": [rng.choice(list(gen.ROOTS)) for _ in range(rng.choice([2, 2, 3]))]}
                kind = "ndm" if bad in ("json", "unknown") else cases.rand_io(rng, fmt)
                prog.append({"o": "save", "bad": bad, "fmt": fmt, "kind": kind, "spec": spec,
                             "pos": rng.choice([0, 1, .999, round(rng.random(), 4)]),
                             "exc": rng.choice(sorted(EXC)), "io": rng.choice(["A", "new"]),
                             "old": rng.choice([None, "", "short", "long", "link", "ro", "dangling", "isdir", "newdir"]),
                             "as": rng.choice(["path", "pathobj", "rel"]),
                             "mode": rng.choice([0o644, 0o600, 0o664, 0o755, 0o640]),
                             "opts": rng.choice(cases.XML_OPTS) if fmt == "xml" else {}})
            else:
                doc = cases.rand_doc(rng, damaged=.4)
                prog.append({"o": "read", "doc": doc, "kind": cases.rand_io(rng, cases.doc_fmt(doc)),
                             "io": rng.choice(["A", "new"]), "ro": rng.random() < .3,
                             "dress": rng.choice(["", "", "", "crlf", "crlf", "bom", "blank", "cr"]),
                             "as": rng.choice(["path", "pathobj", "rel", "str"])})
        fault = None
        if rng.random() < .25:
            from .store import rand_fault
            fault = {"step": rng.randrange(len(prog)), "plan": {"seed": 1, "faults": [rand_fault(rng)]}}
        for o in prog:
            o["dt"] = cases.rand_dt(rng)
            o["ext"] = rng.choice(EXTS)
        return {"prog": prog, "fault": fault}

    def run(self, case, env):
        ios = {}
        # neighbours that nobody may touch, with names derived from the destination
        for n in NEIGHBOURS:
            with open(env.path(n), "w") as f:
                f.write("neighbour " + n)
            os.utime(env.path(n), ns=(10 ** 18, 10 ** 18))
        os.mkdir(env.path("d"))
        with open(env.path("d/inner"), "w") as f:
            f.write("inner")
        for n, o in enumerate(case["prog"]):
            env.tick(o["dt"])
            name = "f%d" % (n % 2) + o.get("ext", "")
            p = env.path(name)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            elif os.path.islink(p) or os.path.exists(p):
                os.chmod(p, 0o644) if not os.path.islink(p) else None
                os.unlink(p)
            io = None
            if o["io"] == "A":
                io = ios.get(o["kind"])
            if io is None:
                io = ios[o["kind"]] = ops.IOS[o["kind"]]()
            if o.get("old") == "newdir":    # a folder that does not exist
                name = "new%d/sub/%s" % (n, name)
                p = env.path(name)
            plan = case["fault"]["plan"] if case["fault"] and case["fault"]["step"] == n else {}
            target = {"path": p, "pathobj": Path(p), "rel": name, "str": None}[o["as"]]
            if o["o"] == "read":
                data = cases.doc_bytes(env, o["doc"])
                dress = o.get("dress")
                if dress in ("crlf", "cr"):
                    data = data.replace(b"\r\n", b"\n").replace(b"\n", b"\r\n" if dress == "crlf" else b"\r")
                elif dress == "bom":
                    data = b"\xef\xbb\xbf" + data
                elif dress == "blank":
                    data = b"\n\n  " + data.rstrip() + b"  \n \n"
                with open(p, "wb") as f:
                    f.write(data)
                os.utime(p, ns=(10 ** 18, 10 ** 18))
                if o["ro"]:
                    os.chmod(p, 0o444)
                if o["as"] == "str":
                    if not cases.is_utf8(data):
                        continue
                    t = data.decode("utf-8")
                    call = lambda: io.from_string(t)
                else:
                    call = lambda: io.from_path(target)
                allowed = None
                must_fail = False
            else:
                msg, must_fail = self._message(o)
                if o["old"] == "link":
                    with open(env.path("linked"), "w") as f:
                        f.write("old content behind a link")
                    os.symlink("linked", p)
                elif o["old"] == "dangling":
                    if os.path.exists(env.path("linked")):
                        os.unlink(env.path("linked"))
                    os.symlink("linked", p)
                elif o["old"] == "isdir":
                    os.mkdir(p)
                elif o["old"] == "newdir":
                    pass
                elif o["old"] is not None:
                    with open(p, "wb") as f:
                        f.write({"": b"", "short": b"old", "long": b"<old>content</old>\n" * 3000,
                                 "ro": b"read only"}[o["old"]])
                    os.chmod(p, 0o444 if o["old"] == "ro" else o.get("mode", 0o644))
                    os.utime(p, ns=(10 ** 18, 10 ** 18))
                if o["bad"] in ("json", "unknown"):
                    f = {"json": ops.FMT["json"], "unknown": o["fmt"].upper()}[o["bad"]]
                    call = lambda: io.to_file(msg, f, target, **o["opts"])
                    conv = lambda: io.to_string(msg, f, **o["opts"])
                else:
                    call = lambda: ops.save(io, msg, o["fmt"], target, o["opts"])
                    conv = lambda: ops.conv(ops.IOS[o["kind"]](), msg, o["fmt"], o["opts"])
                # can it be converted at all (and stored as UTF-8)?
                c = ops.wrap(conv)
                if c.kind == "exc":
                    must_fail = True
                elif c.kind == "text":
                    try:
                        c.val.encode("utf-8")
                    except UnicodeEncodeError:
                        must_fail = True
                allowed = {os.path.join("w", name), "w/linked"}
                if o["old"] == "newdir":
                    allowed |= {"w/new%d" % n, "w/new%d/sub" % n}
            before, was = snapshot(env.S), stamps(env.S)
            shim.reset(env.S, plan)
            with shim.armed():
                got = ops.wrap(call)
            faulted = any(a not in ("EINTR", "chunked") for a in shim.fired())
            for a, v in shim.fired().items():
                env.stat("fault:" + a, v)
            outside = [l for l in shim.log(env.S) if "OUTSIDE" in l and "/dev/null" not in l]
            env.stat("steps", max(1, len(shim.log())))
            shim.clear()
            after, now = snapshot(env.S), stamps(env.S)
            changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
            touched = sorted(k for k in set(was) & set(now) if was[k] != now[k] and k not in (allowed or ()))
            env.log("%d %s -> %s, changed: %s" % (n, {k: v for k, v in o.items() if k not in ("spec", "doc")},
                                                  got.short(), changed))
            env.note(o["o"], o["kind"], o.get("bad"), o.get("fmt"), o.get("old"), o["as"], got.kind,
                     str(got.val)[:30] if got.kind == "exc" else "", bool(faulted),
                     round(o.get("pos", 0), 1))
            if outside:
                env.violate("outside", "step %d opens or changes files elsewhere: %s" % (n, outside[:3]))
            if o["o"] == "read":
                env.stat("op:read" + (" (fails)" if got.kind == "exc" else ""))
                if changed or touched:
                    env.violate("read-changes", "reading changed %s" % (changed or "time or permissions of %s" % touched))
            else:
                env.stat("op:save" + (" (fails)" if got.kind == "exc" else ""))
                extra = [k for k in changed if k not in allowed]
                if touched and not extra:
                    env.violate("extra-files", "step %d: time or permissions of other files changed: %s" % (n, touched))
                if extra:
                    env.violate("extra-files", "step %d %s (%s): other files changed or left behind: %s"
                                % (n, {k: v for k, v in o.items() if k != "spec"}, got.short(), extra))
                if must_fail:
                    env.nontrivial = True
                    env.stat("fault:unconvertible (%s)" % o["bad"])
                    if got.kind != "exc":
                        env.violate("silent-failure", "saving a message that cannot be converted (%s to "
                                    "%s) does not fail" % (o["bad"], o["fmt"]))
                    if changed:
                        env.violate("destination-touched", "saving fails (%s), yet %s: %s -> %s" % (
                            got.short(), changed, [before.get(k, "absent")[:12] for k in changed],
                            [after.get(k, "absent")[:12] for k in changed]))
                    there = sorted(k for k in set(was) & set(now) if was[k] != now[k] and k in allowed)
                    if there and not changed:
                        env.violate("destination-touched", "saving fails (%s), yet time, permissions or identity of "
                                    "%s change: %s -> %s" % (got.short(), there, [was[k] for k in there],
                                                             [now[k] for k in there]))
                elif got.kind == "exc" and not faulted and o["old"] not in ("ro", "isdir", "newdir"):
                    env.violate("refused", "saving a convertible message fails: " + got.short())
            if env.viol:
                break

    def _message(self, o):
        """The message to be saved and whether it certainly cannot be converted."""
        bad = o["bad"]
        if bad == "noobj":
            return object(), True
        m = gen.build(o["spec"])
        if bad in ("json", "unknown"):
            return m, True
        if bad == "multi":
            return m, True
        if bad == "none":
            return m, False
        lv = cases.leaves(m)
        t, w = lv[min(len(lv) - 1, int(o["pos"] * len(lv)))]
        if bad == "poison":
            cases.put_leaf(t, w, cases.Poison(EXC[o["exc"]]))
        elif bad == "drop":
            cases.put_leaf(t, w, None)
        else:
            sv = [(a, b) for a, b in lv if isinstance(a[b] if isinstance(b, int) else getattr(a, b), str)]
            t, w = sv[min(len(sv) - 1, int(o["pos"] * len(sv)))]
            cases.put_leaf(t, w, "a\udcffb" if bad == "surrogate" else "a\0b")
        return m, False

    def shrink(self, c):
        for i in range(len(c["prog"])):
            if len(c["prog"]) > 1:
                yield dict(c, prog=c["prog"][:i] + c["prog"][i + 1:], fault=None)
        if c["fault"]:
            yield dict(c, fault=None)
        for i, o in enumerate(c["prog"]):
            def put(**kw):
                return dict(c, prog=c["prog"][:i] + [dict(o, **kw)] + c["prog"][i + 1:])
            if o["as"] != "path":
                yield put(**{"as": "path"})
            if o["o"] == "save":
                for k, v in (("old", "short"), ("pos", 0), ("opts", {}), ("io", "new")):
                    if o[k] != v:
                        yield put(**{k: v})
                for x in gen.shrink_spec(o["spec"]):
                    yield put(spec=x)
            else:
                for x in cases.shrink_doc(o["doc"]):
                    yield put(doc=x)


ENGINES = {"C08": Footprint()}
