"""C14: one message, delivered in every way, over storage that transfers as it likes."""
import os
from pathlib import Path

from .. import cases, damage, gen, ops, shim

WAYS = ["str", "bytes", "path", "pathobj", "rel", "dotted", "link", "linkdir", "linkup", "hard", "odd", "odd", "pipe"]
# names that mean something elsewhere: to a shell, a browser, a terminal, or to this library
ODD_NAMES = ["~", "~root", "~/f", "$HOME", "${HOME}", "%41", "a%20b", "a+b", "%s", "{}", "{0}", " ", " f ", "f ", "\tf", "f\n",
             "-", "--", "*", "?", "[a]", "#", "f#1", "f?x=1", "<x>", "<ndm/>", "CCSDS_OPM_VERS = 2.0", "file:f", "file:%41",
             "http:f", "a\\b", "a:b", "nul", "f.", "..f", "...", "f.xml.kvn", ".xml", "None", "0", "1", "f" * 200, "\u00e9",
             "e\u0301", "\u65e5\u672c", "f\u2028g", "f\udcff", "F", "f|g", "f;g", "'f'", '"f"', "f'", "@f", "!f", "^f", "f&g"]
ENDS = ["lf", "lf", "crlf"]
EXTS = ["", "", ".xml", ".kvn", ".txt", ".XML", ".oem", ".json", ".gz", ".bak", " x", ".\u00fc"]
DECLS = ["encoding='ISO-8859-1'", 'encoding="iso-8859-15"', 'encoding="us-ascii"', 'encoding="UTF-16"', 'encoding="utf8"',
         'encoding="x-unknown"', 'encoding="utf-8" standalone="yes"', 'standalone="no"', "", 'encoding = "Windows-1252"']
FRAMES = ["", "", "", "\n", "  \n\n", "\t\n"]


class Delivery:
    REF = True

    def gen(self, rng, i, tier):
        items = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < .72:
                doc = cases.rand_doc(rng, corpus=.3, damaged=.3, voc=rng.choice(["all", "all", None]),
                                     big_p=.15, huge=True)
                fmt = cases.doc_fmt(doc)
                if rng.random() < .1:
                    doc = {"k": "dmg", "doc": doc, "edits": [damage.rand_edit(rng, ["raw"])]}
                ways = []
                for _ in range(rng.choice([4, 6, 10])):
                    ways.append({"dt": cases.rand_dt(rng),
                                 "kind": rng.choice(["ndm", "ndm", fmt]), "way": rng.choice(WAYS),
                                 "end": rng.choice(ENDS), "io": rng.choice(["A", "new"]),
                                 "ext": rng.choice(EXTS), "nm": rng.randrange(len(ODD_NAMES)),
                                 "plan": cases.rand_transfer(rng) if rng.random() < .6 else {}})
                items.append({"o": "read", "doc": doc, "fmt": fmt, "ways": ways,
                              "before": rng.choice(FRAMES), "after": rng.choice(FRAMES)})
                if rng.random() < (.35 if fmt == "xml" else .08):
                    # what the text says of its encoding, the mark some editors put before it, and
                    # bytes in another encoding than that of all the rest
                    items[-1]["decl"] = rng.choice(DECLS)
                    items[-1]["enc"] = rng.choice(["utf-8"] * 6 + ["utf-8-sig", "latin-1", "utf-16"])
            else:
                fmt = rng.choice(["xml", "kvn"])
                ways = []
                for _ in range(rng.choice([2, 4, 6])):
                    ways.append({"dt": cases.rand_dt(rng), "kind": cases.rand_io(rng, fmt), "io": rng.choice(["A", "new"]),
                                 "ext": rng.choice(EXTS), "nm": rng.randrange(len(ODD_NAMES)),
                                 "way": rng.choice(["path", "pathobj", "rel", "dotted", "link", "linkdir", "linkup",
                                                    "hard", "odd", "odd"]),
                                 "old": rng.choice([None, "", "short", "long"]),
                                 "plan": cases.rand_transfer(rng) if rng.random() < .6 else {}})
                items.append({"o": "save", "fmt": fmt, "ways": ways,
                              "opts": rng.choice(cases.XML_OPTS) if fmt == "xml" else {},
                              "spec": gen.rand_spec(rng, small=True, ndm=fmt == "xml", big_p=.15,
                                                    voc=rng.choice(["all", "all", None]),
                                                    odd=(0, 1, 1) if fmt == "kvn" else (0, 1, 2))})
        return {"items": items}

    def run(self, case, env):
        ios = {}
        os.makedirs(env.path("sub/dir"))
        os.symlink("sub", env.path("way"))
        os.symlink("sub/dir", env.path("deep"))
        for n, it in enumerate(case["items"]):
            (self._read if it["o"] == "read" else self._save)(env, n, it, ios)
            if env.viol:
                return

    @staticmethod
    def _io(ios, w):
        if w["io"] == "new":
            return ops.IOS[w["kind"]]()
        return ios.setdefault(w["kind"], ops.IOS[w["kind"]]())

    @staticmethod
    def _target(env, n, k, way, ext="", nm=0):
        """(where the bytes are, what the caller says)"""
        p = env.path("f%d_%d" % (n, k) + ext)
        if way == "odd":
            name = ODD_NAMES[nm % len(ODD_NAMES)]
            if "/" in name:
                if os.path.isfile(env.path(os.path.dirname(name))):
                    os.remove(env.path(os.path.dirname(name)))
                os.makedirs(env.path(os.path.dirname(name)), exist_ok=True)
            p = env.path(name)
            if os.path.isdir(p):
                p, name = p + "/g", name + "/g"
            return p, [name, Path(name), p, Path(p)][k % 4]
        if way == "linkup":          # not what the text alone seems to say
            g = "g%d_%d%s" % (n, k, ext)
            return env.path("sub/" + g), ["deep/../" + g, env.path("deep/../" + g)][k % 2]
        if way == "pathobj":
            return p, Path(p)
        if way == "rel":
            return p, os.path.relpath(p)
        if way == "dotted":
            return p, env.path("sub/../sub/dir/../../f%d_%d%s" % (n, k, ext))
        if way == "link":
            os.symlink(os.path.basename(p), p + ".lnk")
            return p, p + ".lnk"
        if way == "linkdir":
            return env.path("sub/g%d_%d%s" % (n, k, ext)), Path("way") / ("g%d_%d%s" % (n, k, ext))
        if way == "hard":
            with open(p, "wb"):
                pass
            os.link(p, p + ".hard")
            return p, p + ".hard"
        return p, p

    @staticmethod
    def _pipe(d):
        """What comes from another program: nothing is known of it before it is read."""
        r, w = os.pipe()
        os.write(w, d)
        os.close(w)
        return r

    @staticmethod
    def _act(env, call, plan):
        shim.reset(env.S, plan)
        with shim.armed():
            got = ops.wrap(call)
        for a, v in shim.fired().items():
            env.stat("fault:" + a, v)
            env.nontrivial = True
        env.stat("steps", max(1, len(shim.log())))
        shim.clear()
        return got

    def _read(self, env, n, it, ios):
        data = cases.doc_bytes(env, it["doc"])
        if it["doc"]["k"] != "dmg":
            data = it["before"].encode() + data + it["after"].encode()
            if it["before"] and data.lstrip().startswith(b"<?xml"):
                data = data.lstrip()      # nothing may precede an XML declaration
        if b"\r" in data:
            # a lone carriage return is a line end in files only
            data = data.replace(b"\r", b" ")
        intact = it["doc"]["k"] != "dmg"
        if "decl" in it and cases.is_utf8(data):
            text = data.decode("utf-8")
            if it["fmt"] == "xml" and text.startswith("<?xml"):
                text = '<?xml version="1.0" %s?>' % it["decl"] + text.split("?>", 1)[-1]
            data = text.encode(it["enc"], "replace")
            # marks and other encodings are not what is valid: each interface for itself
            intact = intact and it["enc"] == "utf-8"
        first = {}
        for k, w in enumerate(it["ways"]):
            env.tick(w["dt"])
            d = data.replace(b"\n", b"\r\n") if w["end"] == "crlf" else data
            way = w["way"]
            if way == "bytes" and w["kind"] == "kvn" or way == "str" and not cases.is_utf8(d):
                way = "path"
            io = self._io(ios, w)
            if way in ("str", "bytes"):
                src = d if way == "bytes" else d.decode("utf-8")
                call = lambda: ops.read(io, way, src)
            elif way == "pipe" and len(d) < 60000:
                fd = self._pipe(d)
                call = lambda: io.from_path("/dev/fd/%d" % fd)
            else:
                where, target = self._target(env, n, k, way, w["ext"], w["nm"])
                with open(where, "wb") as f:
                    f.write(d)
                call = lambda: io.from_path(target)
            got = self._act(env, call, w["plan"])
            if way == "pipe" and len(d) < 60000:
                os.close(fd)
            group = "all" if intact else w["kind"]
            env.stat("op:read (%s)%s" % (way, " fails" if got.kind == "exc" else ""))
            env.log("%d.%d read %s %s %s %s -> %s" % (n, k, w["kind"], way, w["end"], w["plan"], got.short()))
            env.note("read", it["fmt"], w["kind"], way, w["end"], w["io"], sorted(w["plan"]), got.kind,
                     it["doc"]["k"])
            key = got.key() if got.kind != "exc" else ("exc", None)
            if group in first:
                env.nontrivial = True
                v0, key0, got0 = first[group]
                if key != key0:
                    env.violate("delivery", "%s document read as %s (%s, %s line ends, transfers %s): %s; as %s "
                                "(%s, %s line ends, transfers %s): %s" % (
                                    it["fmt"], way, w["kind"], w["end"], w["plan"], got.short(), v0["way"],
                                    v0["kind"], v0["end"], v0["plan"], got0.short()))
                    return
            else:
                first[group] = (dict(w, way=way), key, got)
                # one delivery is compared with a process in which nothing else happened
                exp = env.ref("ref_read", w["kind"], way if way in ("str", "bytes") else "path", d)
                if (exp[0], exp[1] if exp[0] != "exc" else None) != key:
                    env.violate("delivery", "%s document read as %s (%s, transfers %s): %s; alone and at once: %s"
                                % (it["fmt"], way, w["kind"], w["plan"], got.short(),
                                   ops.Result(*exp[:2], exc=exp[2]).short()))
                    return

    def _save(self, env, n, it, ios):
        msg = gen.build(it["spec"])
        for k, w in enumerate(it["ways"]):
            env.tick(w["dt"])
            where, target = self._target(env, n, k, w["way"], w["ext"], w["nm"])
            old = {None: None, "": b"", "short": b"old", "long": b"old \xff content\n" * 4000}[w["old"]]
            if old is not None:
                with open(where, "r+b" if os.path.exists(where) else "wb") as f:
                    f.write(old)
            text = env.ref("ref_conv", w["kind"], msg, it["fmt"], it["opts"])
            io = self._io(ios, w)
            got = self._act(env, lambda: ops.save(io, msg, it["fmt"], target, it["opts"]), w["plan"])
            env.stat("op:save (%s)%s" % (w["way"], " fails" if got.kind == "exc" else ""))
            env.log("%d.%d save %s %s %s -> %s" % (n, k, w["kind"], w["way"], w["plan"], got.short()))
            env.note("save", it["fmt"], w["kind"], w["way"], w["old"], w["io"], sorted(w["plan"]), got.kind)
            if text[0] == "exc" or got.kind == "exc":
                if text[0] != got.kind:
                    env.violate("save-differs", "saving %s (%s, %s) as %s: %s; conversion to text: %s" % (
                        it["fmt"], w["kind"], w["plan"], w["way"], got.short(),
                        ops.Result(*text[:2], exc=text[2]).short()))
                    return
                continue
            env.nontrivial = True
            with open(where, "rb") as f:
                now = f.read()
            want = text[1].encode("utf-8")
            same = ops.wrap(lambda: ops.conv(io, msg, it["fmt"], it["opts"]))
            if now != want or same.val != text[1]:
                env.violate("save-differs", "%s saved as %s (%s, old content: %s, transfers %s) holds %d bytes, "
                            "the conversion to text gives %d (now: %s)" % (
                                it["fmt"], w["way"], w["kind"], w["old"], w["plan"], len(now), len(want),
                                same.short()))
                return

    def shrink(self, c):
        for i in range(len(c["items"])):
            if len(c["items"]) > 1:
                yield dict(c, items=[c["items"][i]])
        for i, it in enumerate(c["items"]):
            def put(**kw):
                return dict(c, items=c["items"][:i] + [dict(it, **kw)] + c["items"][i + 1:])
            for k in range(len(it["ways"])):
                if len(it["ways"]) > 1:
                    yield put(ways=it["ways"][:k] + it["ways"][k + 1:])
            for k, w in enumerate(it["ways"]):
                def putw(**kw):
                    return put(ways=it["ways"][:k] + [dict(w, **kw)] + it["ways"][k + 1:])
                for f in list(w["plan"]):
                    if f != "seed":
                        yield putw(plan={a: b for a, b in w["plan"].items() if a != f})
                for f, v in (("io", "new"), ("kind", "ndm"), ("end", "lf"), ("old", None), ("ext", ""), ("dt", 0)):
                    if f in w and w[f] != v:
                        yield putw(**{f: v})
            for k in ("before", "after"):
                if it.get(k):
                    yield put(**{k: ""})
            if it.get("enc", "utf-8") != "utf-8":
                yield put(enc="utf-8")
            if "decl" in it:
                yield dict(c, items=c["items"][:i] + [{k: v for k, v in it.items() if k not in
                                                                       ("decl", "enc")}] + c["items"][i + 1:])
            if it["o"] == "read":
                for x in cases.shrink_doc(it["doc"]):
                    yield put(doc=x)
            else:
                for x in gen.shrink_spec(it["spec"]):
                    yield put(spec=x)


ENGINES = {"C14": Delivery()}
