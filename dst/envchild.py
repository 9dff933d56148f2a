"""One simulated process with an environment of its own (C12): performs a list of operations
given as JSON and reports their outcomes.  The storage seam supplies locale and clock."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def foreign(which):
    """Other software of the process: classes that look like the library's ones."""
    import dataclasses
    import gc
    from dst import gen
    keep = []
    if which >= 1:
        for root in ("oem", "opm", "omm", "aem", "apm", "tdm", "cdm", "rdm", "ndm"):
            meta = type("Meta", (), {"name": root})
            cls = type(root.capitalize(), (), {"Meta": meta, "__annotations__": {"header": str},
                                               "header": None})
            keep.append(dataclasses.dataclass(cls))
    if which >= 2:
        # a user's own refinements of the library's classes
        names = [r + "Type" for r in gen.ROOTS] + ["NdmType", "OemBody", "OemData", "OdmHeader"]
        if which >= 3:
            names = sorted(n for n, c in vars(gen.m).items() if dataclasses.is_dataclass(c))
        for n in names:
            base = getattr(gen.m, n, None)
            if base is not None:
                sub = type("My" + n, (base,), {"__annotations__": {"note": str}, "note": ""})
                keep.append(dataclasses.dataclass(sub))
        for root in list(gen.ROOTS) + ["Ndm"]:
            base = getattr(gen.m, root)
            sub = type("My" + root, (base,), {"Meta": type("Meta", (), {"name": root.lower()})})
            keep.append(dataclasses.dataclass(sub))
    gc.collect()
    return keep


def decimal_context(d):
    import decimal
    c = decimal.Context(prec=d["prec"], rounding=d["rounding"], Emin=d["emin"], Emax=d["emax"],
                        capitals=d["capitals"], clamp=0,
                        traps=[getattr(decimal, t) for t in d["traps"]])
    decimal.setcontext(c)


def watch_variables():
    """Names of the environment variables that the code under test asks for."""
    seen = set()
    real = os._Environ.__getitem__

    def getitem(self, key):
        f = sys._getframe(1)
        while f is not None:
            if "/ccsds_ndm/" in f.f_code.co_filename:
                if isinstance(key, str):
                    seen.add(key)
                break
            f = f.f_back
        return real(self, key)
    os._Environ.__getitem__ = getitem
    return seen


def main():
    with open(sys.argv[1], "rb") as f:
        job = json.loads(f.read().decode("ascii"))
    os.chdir(job["dir"])
    from dst import shim
    if not shim.PRESENT:
        raise RuntimeError("storage seam not loaded")
    from dst import boot
    asked = watch_variables()
    boot.boot(False)
    import decimal
    import locale
    import pickle
    import threading
    from pathlib import Path
    from dst import ops
    e = job["env"]
    shim.sim(job["dir"], seed=e["rand"], pid=e["pid"])
    if e["setlocale"]:
        locale.setlocale(locale.LC_ALL, "")
    keep = foreign(e["foreign"])
    if e["default_decimal"]:      # settings that new threads inherit
        d = e["default_decimal"]
        decimal.DefaultContext.prec = d["prec"]
        decimal.DefaultContext.rounding = d["rounding"]
        decimal.DefaultContext.capitals = d["capitals"]
        decimal.setcontext(decimal.DefaultContext)
    if e["gc"] == 0:
        import gc
        gc.disable()
    elif e["gc"] == 1:
        import gc
        gc.freeze()
        gc.set_threshold(20, 3, 3)
    if e["int_digits"]:
        sys.set_int_max_str_digits(e["int_digits"])
    if e["umask"] is not None:
        os.umask(e["umask"])
    if e["nostd"]:
        for fd in (0, 1, 2):
            os.close(fd)
    base = decimal.getcontext().copy()
    ios = {}
    out = []
    for o in job["ops"]:
        s = o["set"]
        shim.clock(s["clock"])
        if s["decimal"]:
            decimal_context(s["decimal"])
        else:
            decimal.setcontext(base.copy())
        if s["cwd"] == "gone":
            p = os.path.join(job["dir"], "%s.gone%d" % (os.path.basename(sys.argv[1]), len(out)))
            os.mkdir(p)
            os.chdir(p)
            os.rmdir(p)
        elif s["cwd"] == "deep":
            p = os.path.join(job["dir"], "%s.deep%d" % (os.path.basename(sys.argv[1]), len(out)), "x.xml")
            os.makedirs(p)
            os.chdir(p)
        else:
            os.chdir(job["dir"])
        if o["io"] == "new" or o["kind"] not in ios:
            ios[o["kind"]] = ops.IOS[o["kind"]]()
        io = ios[o["kind"]]
        path = os.path.join(job["dir"], o["file"])
        if o["as"] == "rel" and s["cwd"] != "gone":
            path = os.path.relpath(path)
        elif o["as"] == "pathobj":
            path = Path(path)
        if o["o"] == "read":
            if o["as"] in ("str", "bytes"):
                with open(path, "rb") as f:
                    data = f.read()
                src = data if o["as"] == "bytes" else data.decode("utf-8")
                call = lambda: ops.read(io, o["as"], src)
            else:
                call = lambda: io.from_path(path)
        else:
            with open(os.path.join(job["dir"], o["msg"]), "rb") as f:
                msg = pickle.load(f)
            if o["o"] == "save":
                call = lambda: ops.save(io, msg, o["fmt"], path, o["opts"])
            else:
                call = lambda: ops.conv(io, msg, o["fmt"], o["opts"])
        if s["thread"]:
            box = []
            t = threading.Thread(target=lambda: box.append(ops.wrap(call)))
            t.start()
            t.join()
            r = box[0]
        else:
            r = ops.wrap(call)
        out.append(ops.outcome(r.kind, r.val, r.exc))
    with open(sys.argv[2], "wb") as f:
        f.write(json.dumps([out, sorted(asked)]).encode("ascii"))
    os._exit(0)


main()
