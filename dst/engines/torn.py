"""C09: torn XML files, from interrupted saves and from storage."""
import os
import re
from pathlib import Path
from xml.parsers import expat

from .. import cases, damage, gen, ops, oracle, shim

KINDS = ["trunc", "trunc", "trunc", "chop", "chop", "zero", "tailzero", "tailzero", "blkdrop",
         "blkzero", "blkstale", "head", "cut", "ldel", "lcut", "ldup", "lswap", "flip", "ljoin",
         "pad", "pad", "oldtail", "stutter", "blkdup", "blkswap", "ins", "set"]
ROUTES = [("ndm", "str"), ("ndm", "bytes"), ("ndm", "path"), ("ndm", "pathobj"),
          ("xml", "str"), ("xml", "bytes"), ("xml", "path"), ("xml", "pathobj")]


def wellformed(data):
    """By an XML 1.0 parser of its own (namespace prefixes not considered).  None: unclear,
    because the document refers to an external or other encoding."""
    try:
        text = data.decode("utf-8")
    except UnicodeDecodeError:
        return False
    text = text.strip()
    p = expat.ParserCreate()
    try:
        p.Parse(text, True)
    except expat.ExpatError:
        return False
    m = re.match(r"<\?xml[^>]*encoding\s*=\s*[\"']([A-Za-z0-9._-]+)", text)
    if m and m.group(1).lower() not in ("utf-8", "utf8", "us-ascii", "ascii"):
        return None
    return True


class Torn:
    REF = True

    def gen(self, rng, i, tier):
        r = rng.random()
        voc = rng.choice(["ascii", "xml", "all"])
        if r < .55:
            doc = cases.rand_doc(rng, fmts=("xml",), corpus=.3, big_p=.1, voc=voc)
            n = rng.choice([10, 20, 40])
            single = rng.random() < .5
            edits = []
            for _ in range(n):
                e = [damage.rand_edit(rng, ["trunc", "chop"] if single else KINDS)]
                if not single and rng.random() < .3:
                    e.append(damage.rand_edit(rng, KINDS))
                edits.append(e)
            return {"k": "storage", "doc": doc, "edits": edits,
                    "other": cases.rand_doc(rng, fmts=("xml",), corpus=.5),
                    "routes": rng.sample(range(len(ROUTES)), rng.choice([1, 2, 2, 8]))}
        if r < .65:
            # every cut in a window, byte by byte
            doc = cases.rand_doc(rng, fmts=("xml",), corpus=.4, voc=voc)
            return {"k": "window", "doc": doc, "at": rng.choice([0.0, 1.0, round(rng.random(), 4)]),
                    "n": 80, "routes": rng.sample(range(len(ROUTES)), 1)}
        spec = gen.rand_spec(rng, small=True, ndm=True, big_p=.3, voc=voc)
        old = gen.rand_spec(rng, small=True, ndm=True, voc=voc) if rng.random() < .7 else None
        if old and rng.random() < .4:
            old = dict(spec, seed=rng.randrange(1 << 30))
        hits = []
        for _ in range(rng.choice([3, 6])):
            hits.append({"how": rng.choice(["open", "write", "write", "write", "close", "quota", "meta"]),
                         "f": round(rng.random(), 5), "g": round(rng.random(), 5),
                         "chunk": rng.choice([0, 0, 3, 50, 700, 5000]),
                         "power": rng.choice([None, None, "trunc", "tailzero", "blkzero", "blkstale", "blkdrop"])})
        return {"k": "crash", "spec": spec, "old": old, "hits": hits, "kind": rng.choice(["ndm", "xml"]),
                "routes": rng.sample(range(len(ROUTES)), 2)}

    def read(self, env, route, data, p):
        kind, via = ROUTES[route]
        io = ops.IOS[kind]()
        if via in ("path", "pathobj"):
            with open(p, "wb") as f:
                f.write(data)
            src = p
        elif via == "bytes":
            src = data
        elif cases.is_utf8(data):
            src = data.decode("utf-8")
        else:
            return None
        return ops.wrap(lambda: ops.read(io, via, src))

    def run(self, case, env):
        p = env.path("torn.xml")
        if case["k"] in ("storage", "window"):
            good = cases.doc_bytes(env, case["doc"])
            if case["k"] == "storage":
                other = cases.doc_bytes(env, case["other"])
                torn = [(e, damage.apply(good, e, other)) for e in case["edits"]]
            else:
                a = int(case["at"] * max(0, len(good) - case["n"]))
                torn = [(["first %d bytes" % k], good[:k]) for k in range(a, min(len(good), a + case["n"]))]
            for e, data in torn:
                wf = wellformed(data)
                if data.strip() == good.strip():
                    continue
                env.stat("steps")
                if wf is not False:
                    env.stat("probe:still well-formed")
                    continue
                env.stat("fault:" + str(e[0][0] if isinstance(e[0], list) else "cut at every byte"))
                env.nontrivial = True
                for r in case["routes"]:
                    got = self.read(env, r, data, p)
                    if got is None:
                        continue
                    env.stat("op:read torn file")
                    if got.kind != "exc":
                        env.violate("torn-accepted", "%d of %d bytes left after %s, read through %s: %s; "
                                    "ends with %r" % (len(data), len(good), e, ROUTES[r], got.short(),
                                                      data[-60:]))
                        env.log("%s -> %s" % (e, got.short()))
                        return
                env.note(str(e), ROUTES[case["routes"][0]])
            env.note(case["k"], str(case["doc"]), case["routes"])
            return
        # crash in the middle of a save
        msg = gen.build(case["spec"])
        new = oracle.canon(oracle.stripped(msg))
        new_bytes = env.ref("ref_text", case["spec"], "xml").encode("utf-8")
        oldc = old_bytes = None
        if case["old"]:
            oldc = oracle.canon(oracle.stripped(gen.build(case["old"])))
            old_bytes = env.ref("ref_text", case["old"], "xml").encode("utf-8")
        accept = [oldc, new]
        # exact forms as read back (numbers keep their digits, so these are equal)
        for b in (new_bytes, old_bytes):
            if b is not None:
                accept.append(env.ref("ref_read", "xml", "bytes", b)[1])
        for h in case["hits"]:
            if os.path.exists(p):
                os.unlink(p)
            if old_bytes is not None:
                with open(p, "wb") as f:
                    f.write(old_bytes)
            plan = {"seed": 7, "chunk_w": h["chunk"]}
            from .faults import _dry
            counts = _dry(env, lambda: ops.save(ops.IOS[case["kind"]](), msg, "xml", p, {}), plan)
            for nm in list(os.listdir(env.path(""))):
                os.unlink(env.path(nm))
            if old_bytes is not None:
                with open(p, "wb") as f:
                    f.write(old_bytes)
            if h["how"] == "quota":
                plan["quota"] = int(h["f"] * len(new_bytes))
            else:
                c = max(1, counts.get(h["how"], 1))
                plan["faults"] = [[h["how"], int(h["f"] * c), shim.CRASH,
                                   int(h["g"] * (len(new_bytes) if not h["chunk"] else h["chunk"] + 1))
                                   if h["how"] == "write" else int(h["g"] * 2), None]]
            pid = os.fork()
            if pid == 0:
                try:
                    shim.reset(env.S, plan)
                    with shim.armed():
                        ops.wrap(lambda: ops.save(ops.IOS[case["kind"]](), msg, "xml", p, {}))
                finally:
                    os._exit(0)
            _, st = os.waitpid(pid, 0)
            died = os.WEXITSTATUS(st) == 77
            data = None
            if os.path.exists(p):
                with open(p, "rb") as f:
                    data = f.read()
            env.stat("steps", sum(counts.values()))
            if died:
                env.stat("fault:crash in " + h["how"])
                env.nontrivial = True
            elif h["how"] == "quota":
                env.stat("fault:disk full")
                env.nontrivial = True
            if data and h["power"] and died:
                # not synchronised: the power cut also loses parts of what was written
                data = damage.apply(data, [[h["power"], h["g"], 512]], old_bytes or b"")
                env.stat("fault:power cut (%s)" % h["power"])
            state = ("absent" if data is None else "old" if data == old_bytes else
                     "new" if data == new_bytes else "empty" if not data else "torn")
            env.stat("probe:file %s after the crash" % state)
            env.log("%s -> died %s, file %s" % (h, died, state))
            env.note(h["how"], state, h["power"], h["chunk"], case["spec"]["t"], round(h["f"], 2))
            if data is None:
                continue
            if h["power"] and state == "torn" and wellformed(data) is not False:
                env.stat("probe:still well-formed")
                continue      # e.g. old and new blocks that happen to fit together
            for r in case["routes"]:
                got = self.read(env, r, data, p)
                if got is None:
                    continue
                env.stat("op:read after crash")
                if got.kind == "exc":
                    if state in ("old", "new"):
                        env.violate("intact-rejected", "the %s file is rejected: %s" % (state, got.short()))
                    continue
                if got.val not in accept:
                    env.violate("different-message", "after a crash in %s the file (%d bytes, %s) is read "
                                "as a message that is neither the old nor the new one: %s" %
                                (h, len(data), state, got.short()))
                    return

    def shrink(self, c):
        if c["k"] == "storage":
            if len(c["edits"]) > 1:
                for e in c["edits"]:
                    yield dict(c, edits=[e])
            elif len(c["edits"][0]) > 1:
                for x in c["edits"][0]:
                    yield dict(c, edits=[[x]])
        elif c["k"] == "window":
            if c["n"] > 1:
                yield dict(c, n=c["n"] // 2)
        else:
            if len(c["hits"]) > 1:
                for h in c["hits"]:
                    yield dict(c, hits=[h])
            if c["old"]:
                yield dict(c, old=None)
            h = c["hits"][0]
            if len(c["hits"]) == 1:
                if h["power"]:
                    yield dict(c, hits=[dict(h, power=None)])
                if h["chunk"]:
                    yield dict(c, hits=[dict(h, chunk=0)])
            for x in gen.shrink_spec(c["spec"]):
                yield dict(c, spec=x)
        if len(c["routes"]) > 1:
            for r in c["routes"]:
                yield dict(c, routes=[r])
        if "doc" in c:
            for x in cases.shrink_doc(c["doc"]):
                yield dict(c, doc=x)


ENGINES = {"C09": Torn()}
