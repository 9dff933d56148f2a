"""C10 / C11: reading damaged input - nothing invented or misplaced, always an end."""
import dataclasses
import enum
import os
import re
import sys
from decimal import Decimal, InvalidOperation
from xml.parsers import expat

from .. import boot, cases, damage, gen, ops, oracle

m = gen.m


# -- provenance: where does every value of a result stand in the text? ---------------------
def norm(s):
    return " ".join(str(s).split())


def same(v, text):
    """Does a value of a message equal the text it is said to come from?"""
    if isinstance(v, enum.Enum):
        return norm(v.value).casefold() == norm(text).casefold()
    if isinstance(v, bool) or v is None:
        return False
    if isinstance(v, Decimal):
        try:
            d = Decimal(norm(text))
        except InvalidOperation:
            return False
        return d == v or str(d) == str(v)
    if isinstance(v, (int, float)):
        try:
            return type(v)(norm(text)) == v
        except ValueError:
            return False
    return norm(v) == norm(text)


def subsequence(values, texts, why, out):
    """Every value stands for a text of its own, in the order of the text."""
    i = 0
    for v in values:
        while i < len(texts) and not same(v, texts[i]):
            i += 1
        if i == len(texts):
            out.append("%s = %.80r, where the text has %s" % (
                why, v, [t[:60] for t in texts][:6] if texts else "no such entry"))
            return
        i += 1


def scalars(o, path=()):
    """(path of element names, attribute name or None, value) of a tree, in field order."""
    for f in dataclasses.fields(o):
        v = getattr(o, f.name)
        if v is None or not f.init:
            continue
        name = f.metadata.get("name", f.name)
        kind = f.metadata.get("type")
        for x in (v if isinstance(v, list) else [v]):
            if x is None:
                continue
            if dataclasses.is_dataclass(x):
                yield from scalars(x, path + (name,))
            elif kind == "Attribute":
                yield path, name, x
            elif kind == "Element":
                yield path + (name,), None, x
            else:
                yield path, None, x


def xml_provenance(o, text):
    """Every value of o under its element path (attributes likewise), order kept."""
    tab = {}
    stack, chars = [], []

    def start(tag, attrs):
        stack.append(tag.split(":")[-1])
        chars.append([])
        for k, v in attrs.items():
            tab.setdefault((tuple(stack), k), []).append(v)

    def end(tag):
        tab.setdefault((tuple(stack), None), []).append("".join(chars.pop()))
        stack.pop()

    p = expat.ParserCreate()
    p.StartElementHandler, p.EndElementHandler = start, end
    p.CharacterDataHandler = lambda s: chars[-1].append(s) if chars else None
    try:
        p.Parse(text.strip(), True)
    except expat.ExpatError as e:
        return ["accepted although not well-formed: %s" % e]
    out = []
    got = {}
    root = type(o).Meta.name
    pre = () if root == "ndm" else (("ndm",) if any(k[0][0] == "ndm" for k in tab) else ())
    for path, attr, v in scalars(o):
        got.setdefault((pre + (root,) + path, attr), []).append(v)
    for k, vs in got.items():
        subsequence(vs, tab.get(k, []), "/".join(k[0]) + ("@" + k[1] if k[1] else ""), out)
    return out


ATT_KINDS = {"QUATERNION": "quaternion_state", "QUATERNION/DERIVATIVE": "quaternion_derivative",
             "QUATERNION/RATE": "quaternion_euler_rate", "EULER_ANGLE": "euler_angle",
             "EULER_ANGLE/RATE": "euler_angle_rate", "SPIN": "spin",
             "SPIN/NUTATION": "spin_nutation"}


KEYWORD = re.compile(r"[A-Z][A-Z0-9_]*$")
DATA_LINE = re.compile(r"[-+.\d]|[^=]*=\s*\d{4}-\S+\s+\S")


class KvnText:
    def __init__(self, text):
        self.kv = {}          # keyword -> candidate (value, unit) pairs, in order
        self.comments = []
        self.rows = []        # token lists of lines without "="
        self.tokens = []
        for line in text.split("\n"):
            line = line.strip()
            if not line:
                continue
            if line.startswith("COMMENT"):
                c = line[7:].strip()
                self.comments.append(c)
                if c.startswith("="):
                    self.comments.append(c[1:].strip())
            if line in MARKERS:
                continue
            if "=" in line:
                k, v = line.split("=", 1)
                self.kv.setdefault(norm(k), []).append(v.strip())
                if not KEYWORD.match(k.strip()):      # a row that "=" has got into
                    self.rows.append(k.split())
                    self.tokens.extend(k.split())
            else:
                t = line.split()
                self.rows.append(t)
                self.tokens.extend(t)

    @staticmethod
    def forms(v):
        """Readings of the text behind "=": with and without unit."""
        yield v, None
        if v.endswith("]") and "[" in v:
            i = v.index("[")
            yield v[:i].strip(), v[i:].replace("[", "").replace("]", "").strip()
            i = v.rindex("[")
            yield v[:i].strip(), v[i + 1:-1].strip()


def kvn_provenance(o, text):
    t = KvnText(text)
    out = []
    want = {}
    rows = list(t.rows)
    seg = []

    def row(vals, what, exact_order):
        for i, r in enumerate(rows):
            if len(r) >= len(vals) and same(vals[0], r[0]) and (
                    all(same(v, x) for v, x in zip(vals, r)) if exact_order
                    else _covers(vals[1:], r[1:])):
                del rows[:i + 1]
                return
        out.append("%s %.120r, which is no line of the text" % (what, [str(v) for v in vals]))

    def columns(kind, a):
        """The columns of a row mean what the metadata of its own segment says."""
        at, qt, seq = (str(getattr(v, "value", v) or "") for v in (
            getattr(seg[0].metadata, n, None)
            for n in ("attitude_type", "quaternion_type", "euler_rot_seq"))) if seg else ("", "", "")
        if ATT_KINDS.get(at.upper()) != kind:
            out.append("%s read from a segment of attitude type %r" % (kind, at))
            return
        rot = [getattr(r, n).value for x in vars(a).values()
               if isinstance(x, (m.RotationAngleType, m.RotationRateType))
               for r in vars(x).values() if r is not None
               for n in ("angle", "rate") if hasattr(r, n)]
        if rot and any(r[0] != "XYZ"[int(q) - 1] for r, q in zip(
                rot, seq if kind != "euler_angle_rate" else seq + seq)):
            out.append("%s read with rotations %s, sequence %s" % (kind, rot, seq))

    def walk(x, key):
        if isinstance(x, m.AemSegment):
            seg[:] = [x]
        if isinstance(x, m.StateVectorAccType):
            row([getattr(getattr(x, f.name), "value", getattr(x, f.name))
                 for f in dataclasses.fields(x) if getattr(x, f.name) is not None],
                "state vector", True)
            return
        if isinstance(x, m.AttitudeStateType):
            for f in dataclasses.fields(x):
                a = getattr(x, f.name)
                if a is None:
                    continue
                sc = [v for p, at, v in scalars(a) if at is None and not isinstance(v, enum.Enum)]
                row([a.epoch] + [v for v in sc if v is not a.epoch], "attitude state", False)
                columns(f.name, a)
            return
        if isinstance(x, m.OemCovarianceMatrixType):
            for c in x.comment:
                want.setdefault("COMMENT", []).append((c, None))
            if x.epoch is not None:
                want.setdefault("EPOCH", []).append((x.epoch, None))
            if x.cov_ref_frame is not None:
                want.setdefault("COV_REF_FRAME", []).append((x.cov_ref_frame, None))
            # consecutive numbers of the text (elements may also have lines of their own)
            vals = [(getattr(x, f.name).value,
                     any(same(getattr(x, f.name).value, a) for text in
                         t.kv.get(f.metadata["name"], []) for a, b in KvnText.forms(text)))
                    for f in dataclasses.fields(x) if hasattr(getattr(x, f.name), "value")]
            ends = set(range(len(t.tokens) + 1))
            for v, own in vals:
                ends = {i + 1 for i in ends if i < len(t.tokens) and same(v, t.tokens[i])} | \
                    (ends if own else set())
            vals = [v for v, _ in vals]
            if not ends:
                out.append("covariance %.120r, which does not stand in the text" % [str(v) for v in vals])
            return
        if isinstance(x, m.TrackingDataObservationType):
            for f in dataclasses.fields(x):
                v = getattr(x, f.name)
                if f.name == "epoch" or v is None:
                    continue
                v = getattr(v, "value", v)
                k = f.metadata.get("name", f.name)
                if not any(s.split()[:1] and same(x.epoch, s.split()[0]) and len(s.split()) > 1 and
                           same(v, " ".join(s.split()[1:])) or _two(x.epoch, v, s)
                           for e in t.kv.get(k, []) for s, _ in KvnText.forms(e)):
                    out.append("observation %s at %s = %s, which is no line of the text" % (k, x.epoch, v))
            return
        fs = {f.name: f for f in dataclasses.fields(x)}
        if isinstance(x, m.UserDefinedParameterType):
            k = norm("USER_DEFINED_" + (x.parameter or ""))
            if k not in t.kv and (x.parameter or "").startswith("USER_DEFINED"):
                k = norm(x.parameter)     # no name behind the prefix
            want.setdefault(k, []).append((x.value, None))
            return
        if "value" in fs:
            kw = [getattr(x, n) for n in fs if n not in ("value", "units")]
            k = kw[0].value if kw and isinstance(kw[0], enum.Enum) else key
            want.setdefault(k, []).append((x.value, getattr(x, "units", None)))
            return
        for n, f in fs.items():
            v = getattr(x, n)
            if v is None or not f.init:
                continue
            name = f.metadata.get("name", n)
            for y in (v if isinstance(v, list) else [v]):
                if y is None:
                    continue
                if dataclasses.is_dataclass(y):
                    walk(y, name)
                elif f.metadata.get("type") != "Attribute" or name not in ("id", "version"):
                    want.setdefault(name, []).append((y, None))

    walk(o, None)
    for k, vs in want.items():
        if k == "COMMENT":
            # with lines out of order, neighbouring blocks may both claim a comment
            left = {norm(c) for c in t.comments}
            for v, _ in vs:
                if norm(v) not in left:
                    out.append("comment %.80r, which is no comment of the text" % (v,))
            continue
        texts = t.kv.get(k, [])
        i = 0
        for v, u in vs:
            while i < len(texts) and not any(
                    (v in (None, "") and a == "" or same(v, a)) and (u is None or b is not None and same(u, b))
                    for a, b in KvnText.forms(texts[i])):
                i += 1
            if i == len(texts):
                out.append("%s = %.80r %s, where the text has %s" % (
                    k, v if not isinstance(v, Decimal) else str(v), "[%s]" % u.value if u is not None and
                    hasattr(u, "value") else "", [x[:60] for x in texts][:6] if texts else "no such keyword"))
                break
            i += 1
    return out


def _two(epoch, v, s):
    p = s.split()
    return len(p) >= 2 and same(epoch, p[0]) and same(v, p[1])


def _covers(vals, toks):
    toks = list(toks)
    for v in vals:
        k = next((i for i, x in enumerate(toks) if same(v, x)), None)
        if k is None:
            return False
        del toks[k]
    return True


MARKERS = {"META_START", "META_STOP", "DATA_START", "DATA_STOP", "COVARIANCE_START",
           "COVARIANCE_STOP"}


def marked(o, text):
    """The segments of the text, if its markers are all there and its lines are where they
    belong to; None otherwise."""
    chunks, part = [[]], "head"
    nxt = {"META_START": ("head", "data", "end"), "META_STOP": ("META_START",),
           "DATA_START": ("META_STOP",), "DATA_STOP": ("DATA_START",),
           "COVARIANCE_START": ("META_STOP",), "COVARIANCE_STOP": ("COVARIANCE_START",)}
    for line in text.split("\n"):
        line = line.strip()
        if not line:
            continue
        if line in MARKERS:
            ok = nxt[line] + (("DATA_STOP", "COVARIANCE_STOP", "META_STOP")
                              if line == "META_START" else ())
            if part not in ok:
                return None
            part = line
            if line == "META_START":
                chunks.append([])
        elif line.startswith("COMMENT"):
            if part.endswith("_STOP") and not (part == "META_STOP" and isinstance(o, m.Oem)):
                return None
        elif DATA_LINE.match(line):
            if part not in ("DATA_START", "COVARIANCE_START") and not (
                    part == "META_STOP" and isinstance(o, m.Oem)):
                return None
        elif part == "head":
            if line.split("=")[0].strip() not in ("CREATION_DATE", "ORIGINATOR", "MESSAGE_ID") \
                    and not line.startswith("CCSDS_"):
                return None
        elif part != "META_START" and not (
                part == "COVARIANCE_START" and line.startswith(("EPOCH", "COV_REF_FRAME"))):
            return None
        chunks[-1].append(line)
    return None if part in ("head", "META_START") else ["\n".join(c) for c in chunks]


def segments(o, text):
    """A segment is made of what stands in one segment of the text."""
    if not isinstance(o, (m.Oem, m.Aem, m.Tdm)):
        return []
    chunks = marked(o, text)
    if chunks is None:
        return []
    out = []
    for i, s in enumerate(getattr(o.body, "segment", None) or []):
        found = [[x for x in kvn_provenance(s, c) if not x.startswith("comment ")] for c in chunks]
        if all(found):
            out.append("segment %d, which mixes segments of the text: %s" % (
                i, [x[:1] for x in found]))
    return out


def provenance(o, text):
    if text.strip().startswith("<"):
        return xml_provenance(o, text)
    return kvn_provenance(o, text) or segments(o, text)


# -- engines -----------------------------------------------------------------------------
class StepLimit(BaseException):
    pass


class Steps:
    """Counts lines of the library and calls of the parsing library; ends a run that does
    not end by itself."""

    def __init__(self, limit):
        self.n = 0
        self.limit = limit
        self.cache = {}

    def _c(self, code):
        c = self.cache.get(code)
        if c is None:
            f = code.co_filename
            c = 2 if f.startswith(boot.REPO + "/ccsds_ndm/") else (1 if "/xsdata/" in f else 0)
            self.cache[code] = c
        return c

    def tracer(self, frame, event, arg):
        c = self._c(frame.f_code)
        if not c:
            return None
        self._hit()
        return self.local if c == 2 else None

    def local(self, frame, event, arg):
        if event == "line":
            self._hit()
        return self.local

    def _hit(self):
        self.n += 1
        if self.n > self.limit:
            raise StepLimit()


def _gen_damaged(rng, kinds, n, sizes=True):
    doc = cases.rand_doc(rng, corpus=.35, ndm=True, voc=rng.choice(["ascii", "ascii", "all"]),
                         fmts=rng.choice([("kvn",), ("kvn",), ("xml",)]))
    if doc["k"] == "gen" and rng.random() < .4:
        doc["spec"]["ml"] = rng.choice([3, 4])
    edits = []
    for _ in range(n):
        sub = kinds if rng.random() < .5 else [rng.choice(kinds)]
        edits.append([damage.rand_edit(rng, sub) for _ in range(rng.choice([1, 1, 1, 2, 3]))])
    return {"doc": doc, "other": cases.rand_doc(rng, corpus=.4, fmts=(cases.doc_fmt(doc),)),
            "edits": edits, "kind": cases.rand_io(rng, cases.doc_fmt(doc)),
            "via": rng.choice(["str", "str", "bytes", "path"])}


def _shrink_damaged(c):
    if len(c["edits"]) > 1:
        k = len(c["edits"]) // 2
        yield dict(c, edits=c["edits"][:k])
        yield dict(c, edits=c["edits"][k:])
        for e in c["edits"]:
            yield dict(c, edits=[e])
        return
    if len(c["edits"][0]) > 1:
        for i in range(len(c["edits"][0])):
            yield dict(c, edits=[c["edits"][0][:i] + c["edits"][0][i + 1:]])
    if c["via"] != "str":
        yield dict(c, via="str")
    if c["kind"] != "ndm":
        yield dict(c, kind="ndm")
    for x in cases.shrink_doc(c["doc"]):
        yield dict(c, doc=x)


class Invented:
    REF = True

    def gen(self, rng, i, tier):
        c = _gen_damaged(rng, damage.ALL, rng.choice([8, 16]))
        if c["kind"] == "kvn" and c["via"] == "bytes":
            c["via"] = "str"
        c["reuse"] = rng.random() < .6
        c["good_first"] = rng.random() < .5
        return c

    def run(self, case, env):
        good = cases.doc_bytes(env, case["doc"])
        other = cases.doc_bytes(env, case["other"])
        io = ops.IOS[case["kind"]]()
        if case["good_first"]:
            ops.wrap(lambda: io.from_string(other.decode("utf-8")))
        for e in [[]] + case["edits"]:
            data = damage.apply(good, e, other)
            if not cases.is_utf8(data):
                env.stat("probe:not UTF-8")
                if case["via"] == "str":
                    continue
            if not case["reuse"]:
                io = ops.IOS[case["kind"]]()
            if case["via"] == "path":
                src = env.path("in")
                with open(src, "wb") as f:
                    f.write(data)
            else:
                src = data if case["via"] == "bytes" else data.decode("utf-8")
            got = ops.wrap(lambda: ops.read(io, case["via"], src))
            env.stat("steps")
            for x in e:
                env.stat("fault:" + x[0])
            env.stat("op:read" + (" (fails)" if got.kind == "exc" else ""))
            env.note([x[0] for x in e], got.kind, str(got.val) if got.kind == "exc" else
                     type(got.obj).__name__, data == good)
            if got.obj is None:
                continue
            if e and data != good:
                env.nontrivial = True
                env.stat("probe:damaged input read")
            # what was read: files come with universal line ends
            text = data.decode("utf-8")
            if case["via"] == "path":
                text = text.replace("\r\n", "\n").replace("\r", "\n")
            bad = provenance(got.obj, text)
            if bad:
                env.violate("invented", "after %s the result has %s" % (e or "no damage", bad[:3]))
                env.log("%s -> %s" % (e, bad[:3]))
                return

    shrink = staticmethod(_shrink_damaged)


class Asks(BaseException):
    pass


class NoInput:
    """Nobody sits there: to ask for input is to wait for ever."""
    encoding, errors, closed, name, mode = "utf-8", "strict", False, "<stdin>", "r"

    def _ask(self, *a):
        raise Asks()

    read = readline = readlines = __iter__ = __next__ = _ask
    buffer = property(lambda self: self)

    def fileno(self):
        return 0

    def isatty(self):
        return True


class Ends:
    REF = True

    def gen(self, rng, i, tier):
        c = _gen_damaged(rng, damage.ALL + ["trunc", "lcut", "ldel"], rng.choice([6, 12]))
        if c["kind"] == "kvn" and c["via"] == "bytes":
            c["via"] = "str"
        if rng.random() < .12:     # nothing but pieces
            c["edits"] = [[["piece", rng.randrange(len(PIECES))]] for _ in range(12)]
            c["kind"] = rng.choice(["ndm", "kvn", "kvn", "xml"])
            c["via"] = rng.choice(["str", "path"])
        elif rng.random() < .2:    # a few parts of the document, and nothing else
            c["edits"] = [[rng.choice([
                ["only", round(rng.random(), 4)], ["few", rng.randrange(1 << 20), rng.choice([1, 2, 4])],
                ["few", rng.randrange(1 << 20), rng.choice([8, 20])], ["sort", rng.randrange(1 << 20)],
                ["glue", [rng.randrange(len(PIECES)) for _ in range(rng.choice([2, 3, 5]))]]])]
                for _ in range(rng.choice([6, 12]))]
        elif rng.random() < .06:   # a file grown out of all proportion
            c["edits"] = [[["grow", rng.choice([50, 300]), round(rng.random(), 3)]]]
        if rng.random() < .05:
            c["kind"] = rng.choice(["kvn", "xml"])
            if c["via"] == "bytes":
                c["via"] = "str"
        return c

    def run(self, case, env):
        good = cases.doc_bytes(env, case["doc"])
        other = cases.doc_bytes(env, case["other"])
        io = ops.IOS[case["kind"]]()
        # the intact input that follows must be one that this interface reads
        expect = env.ref("ref_read", case["kind"], "str", other)
        for e in case["edits"]:
            if e and e[0][0] == "grow":
                ls = good.split(b"\n")
                k = int(e[0][2] * len(ls))
                data = b"\n".join(ls[:k] + ls[k:k + 3] * e[0][1] + ls[k:])
            elif e and e[0][0] in PARTS:
                data = PARTS[e[0][0]](good, *e[0][1:])
            else:
                data = damage.apply(good, e, other)
            if case["via"] == "path":
                src = env.path("in")
                with open(src, "wb") as f:
                    f.write(data)
            elif case["via"] == "bytes":
                src = data
            elif cases.is_utf8(data):
                src = data.decode("utf-8")
            else:
                src = data.decode("utf-8", "replace")
            limit = LIMIT_A + LIMIT_B * len(data)
            st = Steps(limit)
            kind = None
            stdin, sys.stdin = sys.stdin, NoInput()
            try:
                sys.settrace(st.tracer)
                try:
                    v = ops.read(io, case["via"], src)
                    kind = "none" if v is None else "message"
                finally:
                    sys.settrace(None)
            except StepLimit:
                env.violate("no-termination", "reading %d bytes takes more than %d steps" % (len(data), limit))
            except Asks:
                env.violate("no-termination", "reading waits for input from the terminal")
            except Exception as x:
                kind = type(x).__name__
                x.__traceback__ = None
            except BaseException as x:
                env.violate("not-ordinary", "reading raises %r, which is not an ordinary error" % (x,))
            finally:
                sys.stdin = stdin
            env.stat("steps", st.n)
            for x in e:
                env.stat("fault:" + x[0])
            env.stat("op:read" + ("" if kind == "message" else " (fails)"))
            env.stats["max:steps per 1000 bytes"] = 0
            env.note([x[0] for x in e], kind)
            env.log("%s -> %s after %d steps (limit %d)" % (e, kind, st.n, limit))
            if kind == "none":
                env.violate("no-outcome", "reading returns nothing and raises nothing")
            if data != good:
                env.nontrivial = True
            if expect[0] == "msg" and not env.viol:
                got = ops.wrap(lambda: io.from_string(other.decode("utf-8")))
                env.stat("op:read intact input afterwards")
                if got.key() != (expect[0], expect[1]):
                    env.violate("not-usable", "after reading damaged input (%s -> %s) an intact one: %s, "
                                "expected: %s" % (e, kind, got.short(),
                                                  ops.Result(*expect[:2], exc=expect[2]).short()))
            if env.viol:
                return
        env.stats.pop("max:steps per 1000 bytes", None)

    shrink = staticmethod(_shrink_damaged)


LIMIT_A, LIMIT_B = 3_000_000, 3000
HEADS = ["CCSDS_%s_VERS = %s\n" % x for x in
         [("OPM", "2.0"), ("OEM", "2.0"), ("OMM", "2.0"), ("AEM", "1.0"), ("APM", "1.0"), ("CDM", "1.0"),
          ("RDM", "1.0"), ("TDM", "1.0")]]
PIECES = ["", " ", "\n", "CCSDS_", "CCSDS_OPM_VERS", "CCSDS_OEM_VERS = 2.0\nMETA_START",
          "CCSDS_AEM_VERS = 1.0\nMETA_START\nMETA_STOP\nDATA_START\nDATA_STOP",
          "CCSDS_TDM_VERS = 1.0\nDATA_START\nRANGE = \nDATA_STOP", "CCSDS_XYZ_VERS = 1.0", "CCSDS_OMM_VERS=",
          "<", "<>", "<a>", "<a/>", "<ndm/>", "<ndm></ndm>", "<omm/>", "<oem></oem>", "<?xml version='1.0'?>",
          "<!-- x -->", "[]", "[", "{}", "\0", "COMMENT", "COMMENT \n", "COMMENT a\nCOMMENT b\n",
          "CCSDS_OEM_VERS = 2.0\n" + "COMMENT x\n" * 50,
          "CCSDS_OEM_VERS = 2.0\nCOVARIANCE_START\nEPOCH = 1\n1\n2 3\nCOVARIANCE_STOP",
          "CCSDS_CDM_VERS = 1.0\nOBJECT = OBJECT1\nOBJECT = OBJECT1", "<ndm><omm/><omm/></ndm>",
          "=", " = ", "= =\n" * 3, "\ufeff", "\ufeff<ndm/>", "\ufeffCCSDS_OPM_VERS = 2.0", "META_START", "META_STOP\n",
          "DATA_START\n", "COVARIANCE_STOP\n", "EPOCH = ", "1 2 3\n", "2000-01-01T00:00:00 1 2 3 4 5 6\n",
          "USER_DEFINED_", "USER_DEFINED_ = 1\n", "MAN_EPOCH_IGNITION = 1\n", "\r", "\r\n", "\x1a", "\x0b\x0c\x1c\x85",
          "\u2028", "A" * 5000, "A = " + "[" * 3000, "[]" * 2000, "X = 1 [km", "X = ]1[", " " * 5000 + "=",
          "<ndm>" * 300, "<ndm>" * 300 + "</ndm>" * 300, "<ndm " + " ".join('a%d="1"' % i for i in range(300)) + "/>",
          "<ndm a=1/>", "<ndm a='1' a='1'/>", "<x:ndm/>", "<ndm xmlns='urn:x'/>", "<ndm>&a;</ndm>", "<ndm>&#0;</ndm>",
          "<ndm>&#55296;</ndm>", "<ndm><![CDATA[", "<ndm><![CDATA[]]></ndm>", "<?a", "<?a ?>", "<?a ?><ndm/>",
          "<!DOCTYPE ndm><ndm/>", "<!DOCTYPE ndm [<!ENTITY a '&a;'>]><ndm>&a;</ndm>",
          "<!DOCTYPE ndm [<!ENTITY a SYSTEM 'file:///dev/null'>]><ndm>&a;</ndm>",
          "<!DOCTYPE ndm [<!ENTITY a 'aaaaaaaaaa'><!ENTITY b '&a;&a;&a;&a;&a;&a;&a;&a;'><!ENTITY c '&b;&b;&b;&b;&b;&b;'>]>"
          "<opm id='CCSDS_OPM_VERS' version='2.0'><header><COMMENT>&c;</COMMENT></header></opm>",
          "<opm id='CCSDS_OPM_VERS' version='2.0'/>", "<opm><body/></opm>", "<opm><body><segment/></body></opm>",
          "<oem><body><segment/><segment/></body></oem>", "<ndm><COMMENT/><COMMENT>a</COMMENT></ndm>",
          "<ndm><a/><b/></ndm>", "<ndm><omm><omm/></omm></ndm>", "<CCSDS_OPM_VERS = 2.0"] + \
    HEADS + [h + "COMMENT a" for h in HEADS] + [h + "CREATION_DATE = \nORIGINATOR =\n" for h in HEADS] + \
    ["COMMENT a\n" + h for h in HEADS] + [h + "META_START\nMETA_STOP\n" for h in HEADS]


def _few(good, seed, k):
    """k lines of the document, in their order."""
    ls = good.split(b"\n")
    at = sorted({(seed * 7919 + i * 104729 * (seed | 1)) % len(ls) for i in range(k)})
    return b"\n".join([ls[i] for i in at])


def _only(good, f):
    """The lines that begin as one of them does, and nothing else (or all but those)."""
    ls = [x for x in good.split(b"\n") if x.strip()]
    i = int(f * 2 * len(ls))
    w = (ls[i % len(ls)].split() or [b""])[0][:12]
    return b"\n".join(x for x in ls if x.lstrip().startswith(w) == (i < len(ls)))


def _sort(good, seed):
    ls = good.split(b"\n")
    return b"\n".join(sorted(ls, key=lambda x: (sum(x) * (seed | 1)) % 9973))


PARTS = {"piece": lambda good, k: PIECES[k].encode(), "few": _few, "only": _only, "sort": _sort,
         "glue": lambda good, ks: b"".join(PIECES[k].encode() for k in ks)}

ENGINES = {"C10": Invented(), "C11": Ends()}
