"""Start-up of a simulator process: fresh import of the code under test, seams in place."""
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("DST_REPO", "/repo")


class _FreshLoader(importlib.machinery.SourceFileLoader):
    """Always compiles the source of the working tree (never a stale cached bytecode)."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.split(".")[0] != "ccsds_ndm":
            return None
        rel = os.path.join(REPO, *name.split("."))
        for f, pkg in ((os.path.join(rel, "__init__.py"), True), (rel + ".py", False)):
            if os.path.isfile(f):
                return importlib.util.spec_from_file_location(
                    name, f, loader=_FreshLoader(name, f),
                    submodule_search_locations=[rel] if pkg else None)
        return None


def _virtual_clocks():
    """Clocks other than that of the calendar (which the storage seam supplies)."""
    import time
    from . import shim
    for name in ("monotonic", "perf_counter", "process_time", "thread_time"):
        real, real_ns = getattr(time, name), getattr(time, name + "_ns")

        def ns(real_ns=real_ns):
            t = shim.now_ns()
            return real_ns() if t < 0 else t - shim.EPOCH + 10 ** 12

        def sec(real=real, ns=ns):
            return real() if not shim.simulated else ns() / 1e9
        setattr(time, name, sec)
        setattr(time, name + "_ns", ns)


def boot(virtual_locks=True):
    import warnings
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    # third-party code first: its own locks are real ones
    import lxml.etree  # noqa: F401
    import xsdata.formats.dataclass.parsers  # noqa: F401
    import xsdata.formats.dataclass.parsers.handlers  # noqa: F401
    import xsdata.formats.dataclass.parsers.nodes  # noqa: F401
    import xsdata.formats.dataclass.serializers  # noqa: F401
    import xml.parsers.expat  # noqa: F401
    import xml.etree.ElementTree  # noqa: F401
    import concurrent.futures, copy, glob, json, logging, shutil, subprocess, tempfile  # noqa
    if virtual_locks:
        from . import sched
        sched.virtualise_locks()
    _virtual_clocks()
    sys.meta_path.insert(0, _Finder)
    import ccsds_ndm.ndm_io  # noqa: F401
    f = sys.modules["ccsds_ndm.ndm_io"].__file__
    assert f.startswith(REPO + "/"), f
