"""Command line: check <ID> | replay <FILE> | selftest | setup.  Standard library only."""
import ctypes
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
PY = sys.executable
REPO = os.environ.get("DST_REPO", "/repo")


def _noaslr():
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


class Session:
    """Scratch directory, storage seam and simulator processes of one invocation."""

    def __init__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        self.root = tempfile.mkdtemp(prefix="ccsdst-", dir=base)
        self.procs = []
        self.k = 0
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
        self.shim = self._shim()

    def _shim(self):
        so = os.path.join(self.root, "shim.so")
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(HERE, "shim.c"),
                            "-ldl"], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("shim: " + r.stderr)
        return so

    def env(self, **kw):
        e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LD_PRELOAD": self.shim,
             "PYTHONHASHSEED": "0", "LC_ALL": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1",
             "DST_REPO": REPO, "HOME": self.root, "DST_SHIM": self.shim, "TZ": "UTC"}
        e.update(kw)
        return e

    def start(self, cfg, **envkw):
        self.k += 1
        base = os.path.join(self.root, "p%04d" % self.k)
        with open(base + ".json", "w") as f:
            json.dump(cfg, f)
        p = subprocess.Popen([PY, "-W", "ignore", os.path.join(HERE, "worker.py"), base + ".json",
                              base + ".out", cfg["id"], base + ".d"], env=self.env(**envkw), cwd=self.root,
                             stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                             stderr=open(base + ".err", "w"), preexec_fn=_noaslr,
                             start_new_session=True)
        p.base = base
        self.procs.append(p)
        return p

    def result(self, p, timeout):
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return {"fatal": "harness", "error": "simulator process did not end in time"}
        try:
            with open(p.base + ".out") as f:
                return json.load(f)
        except FileNotFoundError:
            return {"fatal": "harness", "error": "simulator process gone: " +
                    open(p.base + ".err").read()[-2000:]}

    def call(self, cfg, timeout=600, **envkw):
        return self.result(self.start(cfg, **envkw), timeout)

    def close(self):
        for p in self.procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        shutil.rmtree(self.root, ignore_errors=True)


def known():
    """Listed findings: {property: [text that identifies the failing input or history]}."""
    out = {}
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            line = line.strip()
            if line.startswith("finding:"):
                p, _, key = line[8:].strip().partition(" ")
                out.setdefault(p.split("=")[1], []).append(key.strip())
    except FileNotFoundError:
        pass
    return out


def tree_state():
    r = subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"], capture_output=True, text=True)
    return r.stdout.strip()


def check(pid, tier, seed, jobs, n=None, quiet=False):
    from dst import plan
    p = plan.PLAN[pid]
    n = n or p[tier]
    t0 = time.monotonic()
    ses = Session()
    try:
        return _check(ses, pid, p, tier, seed, jobs, n, t0)
    finally:
        ses.close()


def _check(ses, pid, p, tier, seed, jobs, n, t0):
    budget = p.get("budget", {"quick": 420, "thorough": 4 * 3600}[tier])
    root = os.path.join(ses.root, "b")
    os.makedirs(root)
    procs = [ses.start({"do": "batch", "id": pid, "tier": tier, "seed": seed, "n": n, "w": w,
                        "W": jobs, "root": root, "budget": budget}) for w in range(jobs)]
    outs = [ses.result(q, budget + 330) for q in procs]
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for o in outs:
        if o.get("fatal") == "import":
            # the code under test cannot even be imported: nothing can hold
            return _report_import(pid, tier, seed, o, t0)
    errs = [o["error"] for o in outs if o.get("fatal")]
    errs += [json.dumps(e)[:3000] for o in outs if not o.get("fatal") for e in o["errors"]]
    outs = [o for o in outs if not o.get("fatal")]
    runs = sum(o["runs"] for o in outs)
    stats = {}
    sigs = set()
    for o in outs:
        sigs.update(o["sigs"])
        for k, v in o["stats"].items():
            stats[k] = stats.get(k, 0) + v
    viol = sorted((v for o in outs for v in o["viol"]), key=lambda v: v["index"])
    wall_explore = time.monotonic() - t0
    # distinct classes, first occurrence of each
    first = {}
    for v in viol:
        for x in v["viol"]:
            first.setdefault(x["class"], []).append((v, x))
    kn = known().get(pid, [])
    lines, nviol = [], 0
    found_known = set()
    # a finding that is listed is no violation: what is listed is set aside occurrence by occurrence
    for cls in list(first):
        rest = []
        for v, x in first[cls]:
            key = next((q for q in kn if q in cls + " " + x["detail"]), None)
            if key is None:
                rest.append((v, x))
            elif key not in found_known:
                found_known.add(key)
                lines.append("KNOWN-FINDING: property=%s %s" % (pid, key))
        if rest:
            first[cls] = rest
        else:
            del first[cls]
    for k, (cls, occ) in enumerate(sorted(first.items(), key=lambda z: z[1][0][0]["index"])[:3]):
        for v, x in occ[:6]:
            rep = _replay_file(ses, pid, seed, tier, v, x, k)
            if rep is not None:
                break
        if rep is None:
            errs.append("violation did not repeat: case %d %s" % (v["index"], json.dumps(x)[:800]))
            continue
        nviol += 1
        lines.append("VIOLATION property=%s replay=%s" % (pid, rep["path"]))
        lines.append("  %s: %s" % (rep["class"], rep["detail"][:600]))
    short = runs < n and not viol
    if short and not errs and runs < n * 0.3:
        errs.append("only %d of %d runs done within the time budget" % (runs, n))
    wall = time.monotonic() - t0
    nontriv = sum(o["nontrivial"] for o in outs)
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": len(sigs), "rule": p["rule"],
            "nontrivial_runs": nontriv,
            "samples": [s for o in outs for s in o["samples"]][:3],
            "planned_runs": n,
            "runs_per_hour": int(runs / max(wall_explore, 1e-9) * 3600),
            "seeds": {"first": "%s/%d/0" % (pid, seed), "last": "%s/%d/%d" % (pid, seed, n - 1),
                      "one_seed_per_run": True},
            "simulated_steps": stats.get("steps", 0),
            "simulated_time": p.get("time") or "%.1f hours of the simulated clock, forwards" % (
                stats.get("simulated_ms", 0) / 3.6e6) if "simulated_ms" in stats or "time" in p else
            "the simulated clock only moves when it is read (a microsecond each time)",
            "faults_injected": faults,
            "counters": {k: v for k, v in sorted(stats.items()) if not k.startswith("fault:")
                         and k != "steps"},
            "distinct_measure": p["measure"],
            "real_components": p["real"], "stub_components": p["stub"],
            "slowest_runs": sorted((tuple(s) for o in outs for s in o.get("slow", [])))[-3:],
        },
        "assumptions": p.get("assumptions", []),
        "wall_s": round(wall, 1), "violations": nviol,
    }
    _write_evidence(pid, ev)
    for l in lines:
        print(l)
    print("%s: %d runs (%d distinct non-trivial), %d violations, %.1f s" %
          (pid, runs, len(sigs), nviol, wall))
    if nviol:
        return 1
    if errs:
        for e in errs[:3]:
            print("HARNESS-ERROR " + e[:3000])
        return 2
    return 0


def _write_evidence(pid, ev):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, pid + ".json"))


def _report_import(pid, tier, seed, o, t0):
    path = os.path.join(VERIF, "replays", "%s-import.json" % pid)
    with open(path, "w") as f:
        json.dump({"property": pid, "case": None, "class": "import", "detail": o["error"]}, f)
    _write_evidence(pid, {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
                          "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "import",
                                       "samples": []}, "wall_s": time.monotonic() - t0,
                          "violations": 1})
    print("VIOLATION property=%s replay=%s" % (pid, path))
    print("  the library cannot be imported: " + o["error"].strip().splitlines()[-1])
    return 1


def _replay_file(ses, pid, seed, tier, v, x, k):
    """Confirms in a fresh process, minimises, confirms again, writes the replay file."""
    cls = x["class"]
    hang = cls in ("no-termination", "process-died")

    def has(res):
        return next((y for y in res.get("viol", []) if y["class"] == cls), None)

    case, detail, trace, tried = v["case"], x["detail"], v["trace"], 0
    if not hang:
        r = None
        if v.get("narrow"):
            r = ses.call({"do": "run", "id": pid, "case": v["narrow"]}, 700)
        if r and has(r):
            case = v["narrow"]
        else:
            r = ses.call({"do": "run", "id": pid, "case": case}, 700)
            if not has(r):
                return None
        detail, trace = has(r)["detail"], r["trace"]
        m = ses.call({"do": "minimise", "id": pid, "case": case, "class": cls,
                      "budget": 45 if k == 0 else 20}, 300)
        if m.get("res"):
            r2 = ses.call({"do": "run", "id": pid, "case": m["case"]}, 700)
            y = has(r2)
            if y:
                case, detail, trace, tried = m["case"], y["detail"], r2["trace"], m["tried"]
    path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (pid, cls, v["index"]))
    with open(path, "w") as f:
        json.dump({"property": pid, "class": cls, "detail": detail, "verif_seed": seed,
                   "tier": tier, "index": v["index"], "seed": "%s/%d/%d" % (pid, seed, v["index"]),
                   "case": case, "trace": trace, "minimisation_runs": tried,
                   "original_case": v["case"], "repo_head": tree_state(),
                   "how": "/verif/check replay %s" % path}, f, indent=1)
    return {"path": path, "class": cls, "detail": detail}


def replay(path):
    rep = json.load(open(path))
    if rep["case"] is None:
        print(rep["detail"])
        return 1
    ses = Session()
    try:
        r = ses.call({"do": "run", "id": rep["property"], "case": rep["case"]}, 900)
        for l in r.get("trace", []):
            print("  " + l)
        y = next((y for y in r.get("viol", []) if y["class"] == rep["class"]), None)
        if y:
            print("VIOLATION property=%s replay=%s" % (rep["property"], path))
            print("  %s: %s" % (y["class"], y["detail"]))
            print("  same detail as recorded: %s; same trace: %s" %
                  (y["detail"] == rep["detail"], r["trace"] == rep["trace"]))
            return 1
        print("not reproduced", r.get("error", ""), r.get("viol"))
        return 2 if "error" in r or r.get("fatal") else 0
    finally:
        ses.close()


def determinism(ids, seeds, n, out=print):
    """Same seeds under 1/3/8 processes and other hash seeds: identical logs and verdicts."""
    ses = Session()
    bad = 0
    try:
        for pid in ids:
            for seed in seeds:
                base = None
                for W, hs in ((8, "0"), (3, "0"), (5, "77")):
                    root = os.path.join(ses.root, "d%s%d%d%s" % (pid, seed, W, hs))
                    os.makedirs(root)
                    ps = [ses.start({"do": "batch", "id": pid, "tier": "quick", "seed": seed,
                                     "n": n, "w": w, "W": W, "root": root, "budget": 900,
                                     "hashes": True}, PYTHONHASHSEED=hs) for w in range(W)]
                    h = {}
                    for q in ps:
                        r = ses.result(q, 1000)
                        if r.get("fatal"):
                            raise RuntimeError(r["error"])
                        h.update(r["hashes"])
                    if base is None:
                        base = h
                    diff = sorted(int(i) for i in base if base[i] != h.get(i))
                    if diff or len(h) != len(base):
                        bad += 1
                        out("%s seed %d: %d processes, hash seed %s differ: %s (%d/%d)" %
                            (pid, seed, W, hs, diff[:10], len(h), len(base)))
                out("%s seed %d: %d runs, logs identical in 3 process layouts" % (pid, seed, len(base))
                    if not bad else "%s seed %d done" % (pid, seed))
    finally:
        ses.close()
    return bad


def setup():
    """Everything is built per invocation; this only shows that it can be."""
    ses = Session()
    try:
        print("storage seam built; interpreter", sys.version.split()[0], PY)
        return 0
    finally:
        ses.close()


def main(argv):
    from dst import plan
    if argv and argv[0] == "replay":
        return replay(argv[1])
    if argv and argv[0] == "setup":
        return setup()
    if argv and argv[0] == "selftest":
        ids = argv[1].split(",") if len(argv) > 1 else sorted(plan.PLAN)
        n = int(argv[2]) if len(argv) > 2 else 64
        return 1 if determinism(ids, [1, 2], n) else 0
    pid = argv[0]
    n = int(argv[1]) if len(argv) > 1 else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    jobs = int(os.environ.get("DST_JOBS", "8"))
    return check(pid, tier, seed, jobs, n)


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
