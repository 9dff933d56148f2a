"""Comparison of messages: canonical forms, differences, KVN equivalence."""
import dataclasses
import enum
import hashlib
from decimal import Decimal

from . import gen


def canon(o):
    """Exact canonical form of an object tree as nested tuples of strings."""
    if dataclasses.is_dataclass(o) and not isinstance(o, type):
        return (type(o).__module__ + "." + type(o).__qualname__,) + tuple(
            (f.name, canon(getattr(o, f.name))) for f in dataclasses.fields(o)) + tuple(
            ("+" + k, canon(v)) for k, v in sorted(vars(o).items())
            if k not in type(o).__dataclass_fields__)
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(canon(x) for x in o)
    if isinstance(o, enum.Enum):
        return ("enum", type(o).__qualname__, o.name)
    if isinstance(o, Decimal):
        return ("dec", str(o))
    if isinstance(o, (bytes, bytearray)):
        return ("bytes", hashlib.sha1(bytes(o)).hexdigest(), len(o))
    if o is None or isinstance(o, (str, int, float, bool)):
        return (type(o).__name__, repr(o))
    if isinstance(o, dict):
        return ("dict",) + tuple((canon(k), canon(v)) for k, v in o.items())
    return ("obj", type(o).__qualname__)


def digest(o):
    return hashlib.sha1(repr(canon(o)).encode()).hexdigest()[:16]


def diff(a, b, path="", kvn=False, col=False, out=None, limit=6):
    """List of (path, a, b) where two trees differ (numbers compared by value)."""
    out = [] if out is None else out
    if len(out) >= limit:
        return out
    if type(a) is not type(b):
        out.append((path, _s(a), _s(b)))
    elif dataclasses.is_dataclass(a):
        col = col or isinstance(a, gen.COLUMNAR)
        for f in dataclasses.fields(a):
            if kvn and (f.name == "comment" or (col and f.name == "units")):
                continue
            diff(getattr(a, f.name), getattr(b, f.name), path + "." + f.name, kvn, col, out, limit)
    elif isinstance(a, list):
        if len(a) != len(b):
            out.append((path + "#len", len(a), len(b)))
        else:
            for i, (x, y) in enumerate(zip(a, b)):
                diff(x, y, f"{path}[{i}]", kvn, col, out, limit)
    elif a != b:
        out.append((path, _s(a), _s(b)))
    return out


def comments(o, out=None):
    out = [] if out is None else out
    if dataclasses.is_dataclass(o):
        for f in dataclasses.fields(o):
            v = getattr(o, f.name)
            if f.name == "comment":
                out.extend(v or [])
            else:
                comments(v, out)
    elif isinstance(o, list):
        for x in o:
            comments(x, out)
    return out


def kvn_diff(a, b):
    d = diff(a, b, kvn=True)
    ca, cb = comments(a), comments(b)
    if ca != cb:
        d.append(("#comments", _s(ca), _s(cb)))
    return d


def stripped(o):
    """What reading a saved message has to return: a combined message with one member is
    returned as that member."""
    if type(o).__name__ == "Ndm":
        mem = [x for f in dataclasses.fields(o) if f.name not in ("comment", "message_id")
               for x in getattr(o, f.name)]
        if len(mem) == 1:
            return mem[0]
    return o


def _s(v):
    s = repr(v)
    return s if len(s) < 160 else s[:150] + "..."


def reached_twice(o, seen=None, out=None):
    """Mutable parts that stand in more than one place of a tree."""
    seen, out = {} if seen is None else seen, [] if out is None else out
    if dataclasses.is_dataclass(o) or isinstance(o, list):
        if id(o) in seen:
            out.append(o)
            return out
        seen[id(o)] = o
        for x in o if isinstance(o, list) else [getattr(o, f.name) for f in dataclasses.fields(o)]:
            reached_twice(x, seen, out)
    return out


def mutable_parts(o, out=None):
    """id -> every mutable part of a tree (message objects and lists)."""
    out = {} if out is None else out
    if dataclasses.is_dataclass(o):
        out[id(o)] = o
        for f in dataclasses.fields(o):
            mutable_parts(getattr(o, f.name), out)
    elif isinstance(o, list):
        out[id(o)] = o
        for x in o:
            mutable_parts(x, out)
    return out
