"""Operations of the library's public interface, and their outcomes.

``perform`` is what simulated callers do; ``ref_*`` are the same operations done once, alone,
in a process in which nothing else has happened (executed by the reference server).
"""
import os
from pathlib import Path

from ccsds_ndm import ndm_io
from ccsds_ndm.ndm_io import NDMFileFormats, NdmIo
from ccsds_ndm.ndm_kvn_io import NdmKvnIo
from ccsds_ndm.ndm_xml_io import NdmXmlIo

from . import gen, oracle

IOS = {"ndm": NdmIo, "xml": NdmXmlIo, "kvn": NdmKvnIo}
FMT = {"xml": NDMFileFormats.XML, "kvn": NDMFileFormats.KVN, "json": NDMFileFormats.JSON}
CORPUS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "corpus")
CORPUS_FILES = sorted(os.listdir(CORPUS))


def corpus(name):
    with open(os.path.join(CORPUS, name), "rb") as f:
        return f.read()


class Result:
    """Outcome of one operation."""
    __slots__ = ("kind", "val", "obj", "exc")

    def __init__(self, kind, val=None, obj=None, exc=None):
        self.kind, self.val, self.obj, self.exc = kind, val, obj, exc

    def key(self):
        return (self.kind, self.val)

    def short(self):
        if self.kind == "exc":
            return "raises %s" % (self.exc or self.val,)
        if self.kind == "msg":
            return "message %s %s" % (type(self.obj).__name__ if self.obj is not None else
                                      self.val[0].rsplit(".", 1)[-1], oracle.hashlib.sha1(
                                          repr(self.val).encode()).hexdigest()[:8])
        if self.kind == "text":
            return "text of %d characters %s" % (len(self.val), oracle.hashlib.sha1(
                self.val.encode("utf-8", "surrogatepass")).hexdigest()[:8])
        return self.kind


def wrap(fn):
    """Outcome of fn(): the exact message / text / None returned, or the type of exception."""
    try:
        v = fn()
    except Exception as e:
        return Result("exc", type(e).__name__, exc="%s: %s" % (type(e).__name__, str(e)[:120]))
    return result_of(v)


def result_of(v):
    if isinstance(v, str):
        return Result("text", v)
    if v is None:
        return Result("none")
    return Result("msg", oracle.canon(v), obj=v)


def outcome(kind, val, exc):
    """Outcome in a form that can be compared across processes."""
    if kind == "msg":
        val = oracle.hashlib.sha1(repr(val).encode("utf-8", "backslashreplace")).hexdigest()
    elif kind == "text":
        val = oracle.hashlib.sha1(val.encode("utf-8", "surrogatepass")).hexdigest()
    return [kind, val, exc]


def read(io, via, src):
    """src: str for via=str, bytes for via=bytes, a path otherwise."""
    if via == "str":
        return io.from_string(src)
    if via == "bytes":
        return io.from_bytes(src)
    if via == "pathobj":
        return io.from_path(Path(src))
    return io.from_path(src)


def conv(io, msg, fmt, opts):
    if isinstance(io, NdmIo):
        return io.to_string(msg, FMT[fmt], **opts)
    return io.to_string(msg, **opts)


def save(io, msg, fmt, path, opts):
    if isinstance(io, NdmIo):
        return io.to_file(msg, FMT[fmt], path, **opts)
    return io.to_file(msg, path, **opts)


def io_fits(kind, fmt):
    return kind == "ndm" or kind == fmt


# -- executed by the reference server -------------------------------------------------
def _plain(r):
    return (r.kind, r.val, r.exc)


def ref_read(kind, via, data):
    io = IOS[kind]()
    if via in ("path", "pathobj"):
        with open("in.dat", "wb") as f:
            f.write(data)
        src = os.path.abspath("in.dat")
    else:
        src = data if via == "bytes" else data.decode("utf-8")
    return _plain(wrap(lambda: read(io, via, src)))


def ref_conv(kind, msg, fmt, opts):
    return _plain(wrap(lambda: conv(IOS[kind](), msg, fmt, opts)))


def ref_save(kind, msg, fmt, opts):
    p = os.path.abspath("out.dat")
    r = wrap(lambda: save(IOS[kind](), msg, fmt, p, opts))
    data = None
    if os.path.exists(p):
        with open(p, "rb") as f:
            data = f.read()
    return _plain(r), data


def ref_text(spec, fmt):
    """Text of a generated message, as the library writes it."""
    return NdmIo().to_string(gen.build(spec), FMT[fmt])


def ref_load(kind, data):
    """A later process reads a file; the message itself is returned as well."""
    with open("in.dat", "wb") as f:
        f.write(data)
    r = wrap(lambda: IOS[kind]().from_path(os.path.abspath("in.dat")))
    return (r.kind, r.val, r.exc, r.obj)
