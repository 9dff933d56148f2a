"""Pieces that the engines' cases are made of: documents, messages, faults, edits of messages."""
import dataclasses
import enum
import random
from decimal import Decimal

from . import damage, gen, ops, oracle

SMALL = dict(small=True)


def rand_doc(rng, fmts=("xml", "kvn"), corpus=.2, damaged=0.0, ndm=True, big_p=0.0, voc=None,
             odd=(0, 0, 1), huge=False):
    if rng.random() < corpus:
        names = [n for n in ops.CORPUS_FILES if n.rsplit(".", 1)[1] in fmts]
        d = {"k": "corpus", "name": rng.choice(names)}
    else:
        fmt = rng.choice(list(fmts))
        spec = gen.rand_spec(rng, small=True, ndm=ndm and fmt == "xml", big_p=big_p, voc=voc,
                             odd=odd if fmt == "kvn" else odd + (2,), huge=huge)
        d = {"k": "gen", "spec": spec, "fmt": fmt}
    if rng.random() < damaged:
        d = {"k": "dmg", "doc": d, "edits": [damage.rand_edit(rng, damage.ALL)
                                             for _ in range(rng.choice([1, 1, 2, 3]))]}
    return d


def doc_bytes(env, d, other=b""):
    k = d["k"]
    if k == "corpus":
        return ops.corpus(d["name"])
    if k == "gen":
        return env.ref("ref_text", d["spec"], d["fmt"]).encode("utf-8")
    if k == "lit":
        return d["text"].encode("utf-8", "surrogateescape")
    if k == "dmg":
        return damage.apply(doc_bytes(env, d["doc"]), d["edits"], other)
    raise ValueError(k)


def doc_fmt(d):
    while d["k"] == "dmg":
        d = d["doc"]
    if d["k"] == "corpus":
        return d["name"].rsplit(".", 1)[1]
    return d.get("fmt", "xml")


def shrink_doc(d):
    if d["k"] == "dmg":
        yield d["doc"]
        for i in range(len(d["edits"])):
            e = d["edits"][:i] + d["edits"][i + 1:]
            if e:
                yield dict(d, edits=e)
        for x in shrink_doc(d["doc"]):
            yield dict(d, doc=x)
    elif d["k"] == "gen":
        for s in gen.shrink_spec(d["spec"]):
            yield dict(d, spec=s)


def is_utf8(b):
    try:
        b.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


# -- edits of message objects ---------------------------------------------------------
def scribble(o, seed):
    """Changes a message in place, as a caller may do with an object of its own."""
    rng = random.Random("scribble/%s" % seed)
    nodes = []

    def walk(x):
        if dataclasses.is_dataclass(x):
            nodes.append(x)
            for f in dataclasses.fields(x):
                walk(getattr(x, f.name))
        elif isinstance(x, list):
            nodes.append(x)
            for y in x:
                walk(y)
    walk(o)
    for _ in range(rng.choice([1, 3, 10, 40])):
        x = rng.choice(nodes)
        if isinstance(x, list):
            k = rng.randrange(3)
            if x and isinstance(x[0], str):
                x[rng.randrange(len(x))] = "scribbled %d" % rng.randrange(999)
            elif k == 0 and x:
                x.append(x[0])
            elif k == 1 and len(x) > 1:
                x.pop()
            elif not x:
                pass
        else:
            for f in dataclasses.fields(x):
                if not f.init or rng.random() < .5:
                    continue
                v = getattr(x, f.name)
                if f.name in ("id", "version", "parameter"):
                    continue
                if isinstance(v, str):
                    if "T" in v and v[:2] in ("19", "20"):
                        setattr(x, f.name, "2031-01-0%dT00:00:0%d" % (rng.randint(1, 9), rng.randint(0, 9)))
                    else:
                        setattr(x, f.name, "SCRIBBLE %d" % rng.randrange(999))
                elif isinstance(v, Decimal):
                    setattr(x, f.name, Decimal(rng.randrange(10 ** 6)) / 1000)
                elif isinstance(v, list) and f.name == "comment":
                    v.append("scribbled comment %d" % rng.randrange(999))


def scribble_all(o):
    """Ruins every mutable part of a message that a caller owns."""
    seen = set()

    def walk(x):
        if id(x) in seen:
            return
        seen.add(id(x))
        if dataclasses.is_dataclass(x):
            for f in dataclasses.fields(x):
                walk(getattr(x, f.name))
            for f in dataclasses.fields(x):
                if isinstance(getattr(x, f.name), (str, Decimal)) and f.init:
                    setattr(x, f.name, "RUINED")
        elif isinstance(x, list):
            for y in x:
                walk(y)
            x.append("RUINED")
    walk(o)


class Poison:
    """A value that cannot be converted to text."""

    def __init__(self, exc=ValueError):
        self.exc = exc

    def _no(self, *a):
        raise self.exc("poisoned value")

    __str__ = __repr__ = __format__ = _no


def leaves(o, out=None):
    """(object, field or index) of every scalar value of a message."""
    out = [] if out is None else out
    if dataclasses.is_dataclass(o):
        for f in dataclasses.fields(o):
            v = getattr(o, f.name)
            if v is None or not f.init:
                continue
            if dataclasses.is_dataclass(v) or isinstance(v, list):
                leaves(v, out)
            else:
                out.append((o, f.name))
    elif isinstance(o, list):
        for i, v in enumerate(o):
            if dataclasses.is_dataclass(v) or isinstance(v, list):
                leaves(v, out)
            else:
                out.append((o, i))
    return out


def put_leaf(o, where, value):
    if isinstance(where, int):
        o[where] = value
    else:
        setattr(o, where, value)


# -- benign transfer behaviour ---------------------------------------------------------
def rand_transfer(rng, size_hint="small"):
    """Splits and interruptions of transfers that no caller may notice."""
    p = {"seed": rng.randrange(1 << 20)}
    if rng.random() < .6:
        p["chunk_r"] = rng.choice([1, 7, 64, 512, 4096, 20000])
    if rng.random() < .6:
        p["chunk_w"] = rng.choice([1, 7, 64, 512, 4096, 20000])
    if rng.random() < .5:
        p["eintr"] = rng.choice([2, 3, 10])
    return p


XML_OPTS = [{}, {}, {"schema_location": "urn:a http://a/a.xsd"},
            {"no_namespace_schema_location": "http://sanaregistry.org/r/ndmxml/ndmxml-1.0-master.xsd"},
            {"schema_location": "urn:b b.xsd", "no_namespace_schema_location": "local.xsd"}]


def rand_io(rng, fmt, spread=.4):
    return fmt if rng.random() < spread and fmt in ("xml", "kvn") else "ndm"


def rand_dt(rng):
    """Time that passes before a step, in seconds; the clock may also be set back."""
    return rng.choice([0, 0, 0, 1e-6, .002, .3, 1, 5, 3600, 86400 * 40, -2, -86400])
