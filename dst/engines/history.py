"""C02: histories of operations in one process; every operation is compared with the same
operation done once, alone, in a process without history (reference server)."""
import os

from .. import cases, gen, ops, oracle, shim


NONE = ["[1]", "{}", '{"header": {}}', "", " \n", "x", "<", "<a/>", "<ndm/>", "CCSDS_XYZ_VERS = 1.0\nA = 1\n", "\ufeff", "\0",
        "CCSDS_OPM_VERS = 2.0", "COMMENT a\n", '\n {"CCSDS_OPM_VERS": "2.0"}', "<?xml version='1.0'?>", "<!-- a -->"]


class History:
    REF = True

    def gen(self, rng, i, tier):
        ndocs, nspecs = rng.choice([1, 2, 2, 3]), rng.choice([0, 1, 1, 2])
        voc = rng.choice(["ascii", "all"])
        fmts = rng.choice([("xml",), ("kvn",), ("xml", "kvn"), ("xml", "kvn")])
        docs = [cases.rand_doc(rng, fmts=fmts, damaged=rng.choice([0, 0, .3, .6]), voc=voc)
                for _ in range(ndocs)]
        if rng.random() < .3:   # same type and shape twice: easiest to mix up
            d = next((d for d in docs if d["k"] == "gen"), None)
            if d:
                docs.append(dict(d, spec=dict(d["spec"], seed=rng.randrange(1 << 30))))
        if rng.random() < .3:   # same length, same beginning, other content
            docs.append({"k": "dmg", "doc": rng.choice(docs),
                         "edits": [["digit", round(rng.random(), 4)]]})
        if rng.random() < .2:   # no message at all, or none of this library
            docs.append({"k": "lit", "text": rng.choice(NONE), "fmt": rng.choice(["xml", "kvn"])})
        specs = [gen.rand_spec(rng, small=True, ndm=True, odd=(0, 1, 2), voc=voc) for _ in range(nspecs)]
        nops = rng.choice([2, 3, 4, 5, 6, 8, 10])
        if rng.random() < .02:
            nops = rng.choice([40, 80])
        prog = []
        results = 0
        reuse = rng.choice([.3, .9, 1])
        nfiles = rng.choice([1, 1, 2])
        for _ in range(nops):
            io = rng.choice(["A", "A", "B"]) if rng.random() < reuse else "new"
            r = rng.random()
            msgs = [["s", k] for k in range(len(specs))] + [["r", k] for k in range(results)]
            if r < .42 or not msgs:
                d = rng.randrange(len(docs))
                fmt = cases.doc_fmt(docs[d])
                kind = cases.rand_io(rng, fmt)
                if rng.random() < .05:
                    kind = rng.choice(["xml", "kvn"])
                if docs[d]["k"] == "lit":
                    kind = rng.choice(["ndm", "ndm", "ndm", "xml", "kvn"])
                via = rng.choice(["str", "str", "bytes", "path", "pathobj"])
                if kind == "kvn" and via == "bytes":
                    via = "str"
                prog.append({"o": "read", "io": io, "kind": kind, "via": via, "d": d,
                             "file": "f%d" % rng.randrange(nfiles),
                             "keep": rng.random() < .5})
                results += 1
            elif r < .62:
                fmt = rng.choice(["xml", "kvn"])
                prog.append({"o": "conv", "io": io, "kind": cases.rand_io(rng, fmt), "fmt": fmt,
                             "m": rng.choice(msgs),
                             "opts": rng.choice(cases.XML_OPTS) if fmt == "xml" else {}})
                if rng.random() < .05:
                    prog[-1].update(kind="ndm", fmt="json", opts={})
            elif r < .75:
                fmt = rng.choice(["xml", "kvn"])
                prog.append({"o": "save", "io": io, "kind": cases.rand_io(rng, fmt), "fmt": fmt,
                             "m": rng.choice(msgs), "file": "f%d" % rng.randrange(nfiles),
                             "opts": rng.choice(cases.XML_OPTS) if fmt == "xml" else {}})
            elif r < .85:
                prog.append({"o": "readfile", "io": io, "kind": rng.choice(["ndm", "ndm", "xml", "kvn"]),
                             "via": rng.choice(["path", "pathobj"]),
                             "file": "f%d" % rng.randrange(nfiles)})
                results += 1
            elif r < .96:
                prog.append({"o": "scribble", "m": rng.choice(msgs), "seed": rng.randrange(1 << 20),
                             "all": rng.random() < .3})
            else:
                prog.append({"o": "forget"})
        if rng.random() < .35:
            # files come and go, change names, and are named in several ways
            names = ["f%d" % k for k in range(nfiles)]
            for _ in range(rng.choice([1, 2, 3, 4])):
                what = rng.choice(["remove", "absent", "absent", "swap", "chdir", "chdir", "relink", "relink"])
                at = rng.randrange(len(prog) + 1)
                if what == "absent":
                    # asked for before it is there
                    o = next((o for o in prog if o["o"] in ("read", "save", "readfile") and "file" in o), None)
                    prog.insert(prog.index(o) if o else 0, {
                        "o": "tryfile", "io": o["io"] if o else "A", "kind": o["kind"] if o else "ndm",
                        "via": "path", "file": o["file"] if o else "f0"})
                else:
                    prog.insert(at, {"o": what, "file": rng.choice(names), "to": rng.choice(["", "d0", "d1"])})
            for o in prog:
                if "io" in o and "file" in o:
                    o["as"] = rng.choice(["abs", "rel", "rel", "link"])
        if rng.random() < .03:
            # much to remember
            fmt = rng.choice(["kvn", "kvn", "xml"])
            prog.insert(rng.randrange(len(prog) + 1), {
                "o": "churn", "io": "A", "kind": cases.rand_io(rng, fmt), "fmt": fmt, "n": rng.choice([30, 70, 140, 300]),
                "spec": gen.rand_spec(rng, small=True), "back": rng.random() < .5})
        if rng.random() < .06:
            # one failure after the other, then something that is fine
            self._streak(rng, docs, prog)
        if rng.random() < .5:       # end as it began
            reads = [o for o in prog if o["o"] in ("read", "conv")]
            if reads:
                prog.append(dict(rng.choice(reads)))
        if rng.random() < .6:
            for o in prog:
                o["dt"] = cases.rand_dt(rng)
        return {"docs": docs, "specs": specs, "prog": prog}

    @staticmethod
    def _streak(rng, docs, prog):
        good = next((k for k, d in enumerate(docs) if d["k"] in ("corpus", "gen")), None)
        if good is None:
            return
        fmt = cases.doc_fmt(docs[good])
        docs.append(rng.choice([{"k": "lit", "text": rng.choice(NONE), "fmt": fmt},
                                {"k": "dmg", "doc": docs[good], "edits": [["trunc", round(rng.random(), 3)]]}]))
        kind = rng.choice([fmt, fmt, "ndm"])
        n = rng.choice([3, 3, 4, 5, 8, 12])
        # only the few characters of difference between the histories count: no results in between
        prog += [{"o": "read", "io": "A", "kind": kind, "via": rng.choice(["str", "path"]), "d": len(docs) - 1,
                  "file": "f0", "keep": False} for _ in range(n)]
        prog += [{"o": "read", "io": "A", "kind": kind, "via": "str", "d": good, "file": "f0", "keep": True}
                 for _ in range(rng.choice([1, 2]))]

    # -----------------------------------------------------------------------------
    def run(self, case, env):
        docs = [cases.doc_bytes(env, d, other=b"") for d in case["docs"]]
        msgs = [gen.build(s) for s in case["specs"]]
        results = []
        ios = {}
        cache = {}
        top = env.path("")
        here = [top]
        for d in ("d0", "d1"):
            os.makedirs(os.path.join(top, d), exist_ok=True)

        def place(o):
            """Name given to the library."""
            how = o.get("as", "abs")
            if how == "rel":
                return o["file"]        # in the current directory
            if how == "link":
                p = env.path("L" + o["file"])
                if not os.path.islink(p):
                    os.symlink(o["file"], p)
                return p
            return env.path(o["file"])

        def content(p):
            try:
                with open(p, "rb") as f:
                    return f.read()
            except FileNotFoundError:
                return None

        def ref(name, *a):
            import pickle
            k = (name, pickle.dumps(a))
            if k not in cache:
                cache[k] = env.ref(name, *a)
            return cache[k]

        def io_of(o):
            if o["io"] == "new":
                return ops.IOS[o["kind"]]()
            k = (o["io"], o["kind"])
            if k not in ios:
                ios[k] = ops.IOS[o["kind"]]()
            return ios[k]

        def msg_of(m):
            tab = msgs if m[0] == "s" else results
            return tab[m[1]] if m[1] < len(tab) else None

        last_ok = {}
        for n, o in enumerate(case["prog"]):
            env.stat("steps")
            env.tick(o.get("dt", .001))
            if o["o"] == "forget":
                ios.clear()
                continue
            if o["o"] in ("remove", "swap", "chdir", "relink"):
                self._rearrange(env, o, here, top)
                env.log("%d %s %s %s" % (n, o["o"], o["file"], o["to"]))
                env.note(o["o"], o["to"])
                continue
            if o["o"] == "churn":
                io = io_of(o)
                for k in range(o["n"]):
                    m = gen.build(dict(o["spec"], seed=o["spec"]["seed"] + k))
                    r = ops.wrap(lambda: ops.conv(io, m, o["fmt"], {}))
                    if o["back"] and r.kind == "text":
                        ops.wrap(lambda: ops.read(io, "str", r.val))
                env.stat("op:convert", o["n"])
                env.log("%d %d others" % (n, o["n"]))
                env.note("churn", o["n"], o["back"])
                continue
            if o["o"] == "scribble":
                m = msg_of(o["m"])
                if m is not None:
                    (lambda: cases.scribble_all(m) if o["all"] else cases.scribble(m, o["seed"]))()
                    env.stat("op:edit message")
                env.log("%d edit %s" % (n, o["m"]))
                continue
            if o["o"] in ("read", "readfile", "tryfile"):
                p = place(o)
                if o["o"] == "read":
                    data = docs[o["d"]]
                    if o["via"] in ("path", "pathobj"):
                        data = self._put(p, data, o)
                        src = p
                    elif not cases.is_utf8(data):
                        results.append(None)
                        continue
                    else:
                        src = data if o["via"] == "bytes" else data.decode("utf-8")
                else:
                    data, src = content(p), p
                    if data is None:
                        got = ops.wrap(lambda: ops.read(io_of(o), o["via"], p))
                        env.log("%d %s -> %s" % (n, o, got.short()))
                        env.stat("op:read (no file)")
                        if got.kind != "exc":
                            env.violate("history-dependent", "step %d %s: here it %s, but there is no such file" %
                                        (n, o, got.short()))
                            break
                        if o["o"] == "readfile":
                            results.append(None)
                        continue
                exp = ref("ref_read", o["kind"], o["via"], data)
                io = io_of(o)
                got = ops.wrap(lambda: ops.read(io, o["via"], src))
                if o["o"] != "tryfile":
                    results.append(got.obj)
                env.stat("op:read" + ("" if got.kind == "msg" else " (fails)"))
                self._cmp(env, n, o, got, exp)
            else:
                m = msg_of(o["m"])
                if m is None:
                    continue
                io = io_of(o)
                if o["o"] == "conv":
                    exp = ref("ref_conv", o["kind"], m, o["fmt"], o["opts"])
                    got = ops.wrap(lambda: ops.conv(io, m, o["fmt"], o["opts"]))
                    env.stat("op:convert" + ("" if got.kind == "text" else " (fails)"))
                    self._cmp(env, n, o, got, exp)
                else:
                    exp, right = ref("ref_save", o["kind"], m, o["fmt"], o["opts"])
                    p = place(o)
                    got = ops.wrap(lambda: ops.save(io, m, o["fmt"], p, o["opts"]))
                    env.stat("op:save" + ("" if got.kind == "none" else " (fails)"))
                    self._cmp(env, n, o, got, exp)
                    if got.kind == "none":
                        now = content(p)
                        if now != right:
                            env.violate("saved-content", "step %d %s: file differs from the one a "
                                        "process without history saves (%d/%d bytes)" %
                                        (n, o, -1 if now is None else len(now), len(right)))
            env.note(o["o"], o.get("kind"), o.get("via"), o.get("fmt"), o["io"], got.kind,
                     str(got.val)[:40] if got.kind == "exc" else "")
            if env.viol:
                break
        env.nontrivial = len(case["prog"]) >= 2
        env.note([cases.doc_fmt(d) + str(d.get("spec", {}).get("t")) + d["k"] for d in case["docs"]])

    def _rearrange(self, env, o, here, top):
        p = env.path(o["file"])
        if o["o"] == "remove":
            if os.path.exists(p):
                os.unlink(p)
        elif o["o"] == "swap":
            q = env.path(os.path.join("d0", o["file"]))
            for a, b in ((p, p + ".x"), (q, p), (p + ".x", q)):
                if os.path.exists(a):
                    os.rename(a, b)
        elif o["o"] == "chdir":
            here[0] = os.path.join(top, o["to"])
            os.chdir(here[0])
        else:
            link = env.path("L" + o["file"])
            if os.path.islink(link) or os.path.exists(link):
                os.unlink(link)
            os.symlink(os.path.join(o["to"], o["file"]), link)
        env.stat("op:files rearranged")

    def _put(self, p, data, o):
        """Replaces a file by other content; with ``keep`` size and times stay the same."""
        st = os.stat(p) if os.path.exists(p) else None
        if o["keep"] and st is not None and len(data) <= st.st_size:
            if data.rstrip().endswith(b">") or b"=" in data:
                data = data + b"\n" * (st.st_size - len(data))
        with open(p, "wb") as f:
            f.write(data)
        if o["keep"] and st is not None:
            os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
        return data

    def _cmp(self, env, n, o, got, exp):
        env.log("%d %s -> %s" % (n, {k: v for k, v in o.items() if k != "keep"}, got.short()))
        if got.key() != (exp[0], exp[1]):
            e = ops.Result(exp[0], exp[1], exc=exp[2])
            d = ""
            if got.kind == exp[0] == "text":
                d = _first_diff(got.val, exp[1])
            elif got.kind == exp[0] == "msg":
                d = _canon_diff(got.val, exp[1])
            env.violate("history-dependent", "step %d %s: here it %s, alone it %s %s" %
                        (n, {k: v for k, v in o.items()}, got.short(), e.short(), d))

    def shrink(self, c):
        for i in range(len(c["prog"])):
            p = [dict(o) for o in c["prog"]]
            o = p.pop(i)
            if o["o"] in ("read", "readfile"):
                k = sum(1 for q in c["prog"][:i] if q["o"] in ("read", "readfile"))
                bad = False
                for q in p:
                    if "m" in q and q["m"][0] == "r":
                        if q["m"][1] == k:
                            bad = True
                        elif q["m"][1] > k:
                            q["m"] = ["r", q["m"][1] - 1]
                if bad:
                    continue
            yield dict(c, prog=p)
        for i, d in enumerate(c["docs"]):
            for x in cases.shrink_doc(d):
                yield dict(c, docs=c["docs"][:i] + [x] + c["docs"][i + 1:])
        for i, s in enumerate(c["specs"]):
            for x in gen.shrink_spec(s):
                yield dict(c, specs=c["specs"][:i] + [x] + c["specs"][i + 1:])
        for i, o in enumerate(c["prog"]):
            for k, v in (("via", "str"), ("opts", {}), ("keep", False), ("io", "A"), ("dt", 0)):
                if k in o and o[k] != v and o["o"] != "readfile":
                    yield dict(c, prog=c["prog"][:i] + [dict(o, **{k: v})] + c["prog"][i + 1:])


def _first_diff(a, b):
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "(at %d: %r / %r)" % (n, a[max(0, n - 30):n + 40], b[max(0, n - 30):n + 40])


def _canon_diff(a, b, path=""):
    """First difference of two canonical forms."""
    if a == b:
        return ""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                nm = x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else ""
                return _canon_diff(x, y, path + "/" + nm if nm else path)
    return "(%s: %.150r / %.150r)" % (path, a, b)


ENGINES = {"C02": History()}
