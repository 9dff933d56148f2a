"""Entry point of a simulator process (storage seam preloaded, library imported fresh)."""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    # worker.py CONFIG OUT PROPERTY SCRATCH: all that the zygote knows
    from dst import shim
    if not shim.PRESENT:
        raise RuntimeError("storage seam not loaded")
    from dst import boot
    try:
        boot.boot()
    except Exception:
        return {"fatal": "import", "error": traceback.format_exc()}
    from dst import core
    eng = core.engine(sys.argv[3])
    os.makedirs(sys.argv[4], exist_ok=True)
    core.gc.collect()
    core.gc.freeze()
    zyg = core.Zygote(eng, sys.argv[4])
    with open(sys.argv[1]) as f:
        cfg = json.load(f)
    if cfg["do"] == "batch":
        return core.worker(cfg, eng, zyg)
    if cfg["do"] == "run":
        return core.run_case(zyg, cfg["case"])
    if cfg["do"] == "minimise":
        case, res, tried = core.minimise(eng, zyg, cfg["case"], cfg["class"], cfg["budget"])
        return {"case": case, "res": res, "tried": tried}
    raise ValueError(cfg["do"])


if __name__ == "__main__":
    try:
        out = main()
    except BaseException:
        out = {"fatal": "harness", "error": traceback.format_exc()}
    tmp = sys.argv[2] + ".tmp"
    with open(tmp, "w") as f:
        json.dump(out, f)
    os.replace(tmp, sys.argv[2])
    os._exit(0)
