"""C12: processes in different environments exchange files; all results are the same."""
import dataclasses
import json
import os
import pickle
import random
import subprocess
import sys

from .. import cases, gen, ops

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VALUES = ["", "0", "1", "2", "true", "no", "latin-1", "/nonexistent", "C", "xml"]
ROUND = ["ROUND_HALF_EVEN", "ROUND_DOWN", "ROUND_UP", "ROUND_CEILING", "ROUND_05UP"]
TRAPS = ["InvalidOperation", "DivisionByZero", "Overflow"]
PLAIN = {"hashseed": "0", "codeset": "UTF-8", "tz": "UTC", "opt": 0, "foreign": 0, "setlocale": False,
         "default_decimal": None, "gc": 2, "int_digits": 0, "umask": None, "nostd": False,
         "flags": [], "vars": {}, "rand": 1, "pid": 4711}
PLAIN_SET = {"clock": 0, "decimal": None, "cwd": "w", "thread": False}


def rand_decimal(rng, strict):
    return {"prec": rng.choice([1, 3, 6, 28, 60]), "rounding": rng.choice(ROUND),
            "emin": rng.choice([-999999, -6, -2]), "emax": rng.choice([999999, 6, 2]),
            "capitals": 1,      # a print format, not a setting of arithmetic
            "traps": TRAPS + rng.choice([[], [], ["FloatOperation"], ["Inexact", "Rounded"],
                                         ["Subnormal", "Underflow", "Clamped"]]) if strict
            else rng.choice([[], TRAPS, ["FloatOperation"]])}


def rand_env(rng):
    e = dict(PLAIN)
    for k, f in (
            ("hashseed", lambda: str(rng.randrange(1, 4000000))),
            ("codeset", lambda: rng.choice(["ISO-8859-1", "ANSI_X3.4-1968", "ISO-8859-15", "CP1252",
                                            "EUC-JP"])),
            ("tz", lambda: rng.choice(["America/St_Johns", "Pacific/Kiritimati", "XYZ+11:30ABC", "Asia/Kolkata"])),
            ("opt", lambda: rng.choice([1, 2])),
            ("foreign", lambda: rng.choice([1, 2, 3, 3])),
            ("setlocale", lambda: True),
            ("default_decimal", lambda: rand_decimal(rng, True)),
            ("gc", lambda: rng.choice([0, 1])),
            ("rand", lambda: rng.randrange(2, 1 << 20)),
            ("pid", lambda: rng.choice([1, 2, 99, 4711, 32768, 4194303])),
            ("int_digits", lambda: rng.choice([640, 0])),
            ("umask", lambda: rng.choice([0, 0o077])),
            ("nostd", lambda: True),
            ("flags", lambda: rng.choice([["-bb"], ["-X", "dev"], ["-X", "utf8"], ["-X", "no_debug_ranges"], ["-I"],
                                          ["-s"], ["-u"]])),
            ("vars", lambda: rng.choice([{"HOME": "/nonexistent"}, {"PYTHONIOENCODING": "latin-1"},
                                         {"TMPDIR": "/nonexistent"}, {"XML_CATALOG_FILES": "/nonexistent"},
                                         {"LANG": "de_DE.ISO-8859-1", "LC_NUMERIC": "de_DE"},
                                         {"NO_COLOR": "1", "TERM": "dumb", "DEBUG": "1", "CI": "true"}]))):
        if rng.random() < .35:
            e[k] = f()
    return e


BAD = ["multi", "poison", "poison", "type", "missing", "none", "surrogate", "equals", "equals", "control"]


def spoil(msg, how, seed):
    """A message that cannot be converted (or only just)."""
    if how in (None, "multi"):
        return msg
    if how == "none":
        return None
    rng = random.Random("spoil/%d" % seed)
    if how == "equals":     # a name that KVN cannot hold
        for t in _user_defined(msg):
            rng.choice(t).parameter = rng.choice(["A=B", "=", "a = b", "=X"])
        return msg
    if how == "control":
        lv = [(o, w) for o, w in cases.leaves(msg) if isinstance(o[w] if isinstance(w, int) else getattr(o, w), str)]
        if lv:
            cases.put_leaf(*rng.choice(lv), rng.choice(["a\0b", "a\x1bb", "\x01", "a\nb", "a\rb", "a\nOBJECT_ID = 5"]))
        return msg
    o, w = rng.choice(cases.leaves(msg))
    cases.put_leaf(o, w, {"poison": cases.Poison(rng.choice([ValueError, TypeError, ArithmeticError])),
                          "type": rng.choice([1.5, 7, b"bytes", (1, 2), [], {}]),
                          "missing": None, "surrogate": "a\ud800b"}[how])
    return msg


def _user_defined(o):
    if dataclasses.is_dataclass(o):
        if isinstance(o, gen.m.UserDefinedType) and o.user_defined:
            yield o.user_defined
        for f in dataclasses.fields(o):
            v = getattr(o, f.name)
            for x in v if isinstance(v, list) else [v]:
                yield from _user_defined(x)


class Environ:
    REF = True

    def gen(self, rng, i, tier):
        """Messages are saved by one process and files read by others."""
        envs = [rand_env(rng), rand_env(rng)]
        if rng.random() < .15:
            envs[rng.randrange(2)] = dict(PLAIN)
        items = []
        for _ in range(rng.choice([3, 5, 8])):
            strict = True
            if rng.random() < .5:
                fmt = rng.choice(["xml", "kvn"])
                it = {"spec": gen.rand_spec(rng, small=True, ndm=fmt == "xml",
                                            voc=rng.choice(["all", "all", None]), odd=(0, 1, 2)), "fmt": fmt,
                      "opts": rng.choice(cases.XML_OPTS) if fmt == "xml" else {}}
                if rng.random() < .3:      # conversions that have to fail everywhere
                    it["bad"] = rng.choice(BAD)
                    if it["bad"] == "multi":
                        it["spec"] = dict(gen.rand_spec(rng, small=True), t="Ndm",
                                          members=rng.choice([["Opm", "Omm"], ["Oem", "Oem"], ["Rdm", "Opm", "Opm"]]))
                        it["fmt"] = fmt = "kvn"
                        it["opts"] = {}
                    elif it["bad"] == "equals":
                        it["fmt"] = fmt = rng.choice(["kvn", "kvn", "xml"])
                        it["spec"] = dict(it["spec"], t=rng.choice(["Opm", "Omm"]), opt=1)
                        it["spec"].pop("members", None)
                        it["opts"] = {}
            else:
                doc = cases.rand_doc(rng, corpus=.35, voc=rng.choice(["all", "all", None]), damaged=.25)
                fmt = cases.doc_fmt(doc)
                strict = doc["k"] == "dmg"
                if rng.random() < .15:
                    doc = {"k": "dmg", "doc": doc, "edits": [["nokey", round(rng.random(), 4)]]}
                    strict = True
                it = {"doc": doc, "fmt": fmt}
            it["sets"] = [{"clock": rng.choice([0, 0, 10 ** 9, -10 ** 9, 86400 * 59]),
                           "decimal": rand_decimal(rng, strict) if rng.random() < .4 else None,
                           "cwd": rng.choice(["w", "w", "gone", "deep"]),
                           "thread": rng.random() < .25} for _ in range(3)]
            it["kinds"] = [cases.rand_io(rng, fmt) for _ in range(3)]
            it["as"] = [rng.choice(["path", "pathobj", "rel", "path", "str", "bytes"]) for _ in range(3)]
            it["io"] = [rng.choice(["A", "new"]) for _ in range(3)]
            items.append(it)
        return {"envs": envs, "items": items}

    def run(self, case, env):
        jobs = [[], []]
        want = [[], []]
        first = []
        for n, it in enumerate(case["items"]):
            name = "f%d" % n
            base = {"kind": it["kinds"][0], "fmt": it["fmt"], "io": it["io"][0], "set": it["sets"][0],
                    "file": name, "opts": it.get("opts", {})}
            if "spec" in it:
                msg = spoil(gen.build(it["spec"]), it.get("bad"), it["spec"]["seed"])
                with open(env.path("m%d" % n), "wb") as f:
                    pickle.dump(msg, f)
                exp, data = env.ref("ref_save", it["kinds"][0], msg, it["fmt"], it["opts"])
                jobs[0].append(dict(base, o="save", msg="m%d" % n,
                                    **{"as": it["as"][0] if it["as"][0] not in ("str", "bytes") else "path"}))
                want[0].append(ops.outcome(*exp))
                txt = env.ref("ref_conv", it["kinds"][2], msg, it["fmt"], it["opts"])
                jobs[1].append(dict(base, o="conv", msg="m%d" % n, kind=it["kinds"][2], io=it["io"][2],
                                    set=it["sets"][2], **{"as": "path"}))
                want[1].append(ops.outcome(*txt))
            else:
                data = cases.doc_bytes(env, it["doc"])
                with open(env.path(name), "wb") as f:
                    f.write(data)
                for w in (0, 1):
                    o = self._read(it, w, name, data)
                    if o and w == 0:
                        jobs[0].append(o)
                        want[0].append(ops.outcome(*env.ref("ref_read", o["kind"], o["as"] if o["as"] in (
                            "str", "bytes") else "path", data)))
            first.append(data)
            if data is None:
                continue
            o = self._read(it, 1, name, data)
            if o:
                jobs[1].append(o)
                want[1].append(ops.outcome(*env.ref("ref_read", o["kind"], o["as"] if o["as"] in (
                    "str", "bytes") else "path", data)))
        asked = []
        todo = [0, 1]
        while todo:
            w = todo.pop(0)
            e = case["envs"][w]
            if w == 1 and asked:
                # variables that the first process asked for, with values of our own
                e = dict(e, vars=dict(e["vars"], **asked.pop()))
                env.stat("fault:environment: variables asked for")
                if asked:
                    todo.append(1)
            got, err = self._process(env, w, e, jobs[w])
            if got is not None:
                got, names = got
                if w == 0 and names:
                    asked = [{n: v for n in names} for v in VALUES]
            env.stat("steps", len(jobs[w]))
            for k, v in e.items():
                if v != PLAIN[k]:
                    env.stat("fault:environment: " + k)
                    env.nontrivial = True
            env.stat("probe:variables asked for", len(asked))
            for o in jobs[w]:
                for k, v in o["set"].items():
                    if v != PLAIN_SET[k]:
                        env.stat("fault:environment: " + k)
                        env.nontrivial = True
            env.note([(k, str(v)) for k, v in e.items() if v != PLAIN[k] and k != "hashseed"],
                     [(o["o"], o["fmt"], o["kind"], str(o["set"])) for o in jobs[w]])
            if got is None:
                env.violate("process-fails", "the process in environment %s ends: %s" % (_short(e), err))
                return
            for o, a, b in zip(jobs[w], want[w], got):
                env.stat("op:%s%s" % (o["o"], " (fails)" if a[0] == "exc" else ""))
                env.log("%d %s %s %s %s -> %s" % (w, o["o"], o["fmt"], o["kind"], o["as"], b[0]))
                if a[:2] != b[:2]:
                    env.violate("environment", "%s %s (%s, %s interface) in environment %s, %s: %s; elsewhere: %s"
                                % (o["o"], o["fmt"], o["as"], o["kind"], _short(e), {
                                    k: v for k, v in o["set"].items() if v != PLAIN_SET[k]}, b, a))
            for n, it in enumerate(case["items"]):
                if w == 0 and "spec" in it and first[n] is not None:
                    p = env.path("f%d" % n)
                    now = open(p, "rb").read() if os.path.exists(p) else b"(no file)"
                    if now != first[n]:
                        k = next((i for i, (x, y) in enumerate(zip(now, first[n])) if x != y),
                                 min(len(now), len(first[n])))
                        env.violate("file-differs", "%s saved in environment %s, %s differs from the one saved "
                                    "elsewhere: ...%r, elsewhere ...%r" % (it["fmt"], _short(e), it["sets"][0],
                                                                           now[k:k + 40], first[n][k:k + 40]))
            if env.viol:
                return

    @staticmethod
    def _read(it, w, name, data):
        k = w + ("spec" in it and w == 1)
        as_ = it["as"][w]
        kind = it["kinds"][w]
        if as_ == "str" and not cases.is_utf8(data) or as_ == "bytes" and kind == "kvn":
            as_ = "path"
        return {"o": "read", "kind": kind, "fmt": it["fmt"], "io": it["io"][w], "set": it["sets"][w],
                "file": name, "as": as_}

    def _process(self, env, w, e, todo):
        job, out = env.path("job%d" % w), env.path("out%d" % w)
        with open(job, "wb") as f:
            f.write(json.dumps({"env": e, "ops": todo, "dir": env.path("")[:-1]}).encode("ascii"))
        v = {"PATH": "/usr/bin:/bin", "LD_PRELOAD": os.environ["DST_SHIM"], "DST_SHIM": os.environ["DST_SHIM"],
             "PYTHONHASHSEED": e["hashseed"], "PYTHONDONTWRITEBYTECODE": "1", "TZ": e["tz"],
             "DST_REPO": os.environ.get("DST_REPO", "/repo"), "TMPDIR": os.environ["TMPDIR"],
             "HOME": os.environ["HOME"]}
        v.update(e["vars"])
        if e["codeset"] == "UTF-8":
            v["LC_ALL"] = "C.UTF-8"
        else:
            v.update(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", DST_CODESET=e["codeset"])
        args = [sys.executable, "-W", "ignore", "-B"] + ["-O"] * e["opt"] + e["flags"] + [
            os.path.join(HERE, "envchild.py"), job, out]
        if "-I" in e["flags"] and e["codeset"] != "UTF-8":
            args[1:1] = ["-X", "utf8=0"]
        p = subprocess.run(args, env=v, stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
        try:
            with open(out, "rb") as f:
                return json.loads(f.read()), None
        except FileNotFoundError:
            return None, p.stderr.decode("utf-8", "replace")[-700:]

    def shrink(self, c):
        for i in range(len(c["items"])):
            if len(c["items"]) > 1:
                yield dict(c, items=[c["items"][i]])
        for w in (0, 1):
            e = c["envs"][w]
            if e != PLAIN:
                yield dict(c, envs=[dict(PLAIN) if x == w else c["envs"][x] for x in (0, 1)])
            for k in e:
                if e[k] != PLAIN[k]:
                    yield dict(c, envs=[dict(e, **{k: PLAIN[k]}) if x == w else c["envs"][x] for x in (0, 1)])
        for i, it in enumerate(c["items"]):
            def put(**kw):
                return dict(c, items=c["items"][:i] + [dict(it, **kw)] + c["items"][i + 1:])
            for w in (0, 1, 2):
                for k in PLAIN_SET:
                    if it["sets"][w][k] != PLAIN_SET[k]:
                        yield put(sets=[dict(s, **{k: PLAIN_SET[k]}) if x == w else s
                                        for x, s in enumerate(it["sets"])])
            if it["as"] != ["path"] * 3:
                yield put(**{"as": ["path"] * 3})
            if it["kinds"] != ["ndm"] * 3:
                yield put(kinds=["ndm"] * 3)
            if "spec" in it:
                for x in gen.shrink_spec(it["spec"]):
                    yield put(spec=x)
            else:
                for x in cases.shrink_doc(it["doc"]):
                    yield put(doc=x)


def _short(e):
    return {k: v for k, v in e.items() if v != PLAIN[k]}


ENGINES = {"C12": Environ()}
