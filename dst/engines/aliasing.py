"""C04: messages are neither modified by the library nor shared between results."""
import random

from .. import cases, gen, ops, oracle


class Aliasing:
    REF = True

    def gen(self, rng, i, tier):
        voc = rng.choice(["ascii", "all"])
        docs = [cases.rand_doc(rng, damaged=.1, voc=voc) for _ in range(rng.choice([1, 1, 2]))]
        specs = [gen.rand_spec(rng, small=True, ndm=True, odd=(0, 1, 2), voc=voc) for _ in range(rng.choice([0, 1, 2]))]
        prog = []
        nres = 0
        for _ in range(rng.choice([2, 3, 4, 6, 8])):
            msgs = [["s", k] for k in range(len(specs))] + [["r", k] for k in range(nres)]
            r = rng.random()
            if r < .45 or not msgs:
                d = 0 if rng.random() < .7 else rng.randrange(len(docs))
                fmt = cases.doc_fmt(docs[d])
                prog.append({"o": "read", "io": rng.choice(["A", "A", "new"]),
                             "kind": cases.rand_io(rng, fmt), "d": d,
                             "via": rng.choice(["str", "str", "path"])})
                nres += 1
            elif r < .8:
                fmt = rng.choice(["xml", "kvn"])
                prog.append({"o": rng.choice(["conv", "conv", "save"]),
                             "io": rng.choice(["A", "A", "new"]),
                             "kind": cases.rand_io(rng, fmt), "fmt": fmt, "m": rng.choice(msgs),
                             "opts": rng.choice(cases.XML_OPTS) if fmt == "xml" else {},
                             "poison": rng.random() if rng.random() < .3 else None,
                             "nowhere": rng.random() < .1})
            else:
                prog.append({"o": "ruin", "m": rng.choice(msgs), "part": rng.random() < .5,
                             "seed": rng.randrange(1 << 20)})
        for o in prog:
            o["dt"] = cases.rand_dt(rng)
        return {"docs": docs, "specs": specs, "prog": prog}

    def run(self, case, env):
        docs = [cases.doc_bytes(env, d) for d in case["docs"]]
        tab = {}          # live messages by reference
        for k, s in enumerate(case["specs"]):
            tab["s%d" % k] = gen.build(s)
        canon = {k: oracle.canon(m) for k, m in tab.items()}
        owner = {}        # id of a mutable part -> message it belongs to
        keep = []
        exp_read = {}
        ios = {}
        nres = 0

        def own(key, m):
            for i, part in oracle.mutable_parts(m).items():
                if i in owner and owner[i] != key:
                    env.violate("shared-part", "%s: its %s is also part of %s" %
                                (key, type(part).__name__, owner[i]))
                owner[i] = key
                keep.append(part)     # so that no id is ever used twice

        def check(n, o):
            for k, m in tab.items():
                c = oracle.canon(m)
                if c != canon[k]:
                    from .history import _canon_diff
                    env.violate("message-changed", "step %d %s changed message %s %s" %
                                (n, o, k, _canon_diff(c, canon[k])))

        for k, m in list(tab.items()):
            own(k, m)
        for n, o in enumerate(case["prog"]):
            env.stat("steps")
            env.tick(o["dt"])
            if o["o"] == "ruin":
                key = "%s%d" % tuple(o["m"])
                if key not in tab:
                    continue
                if o["part"]:
                    cases.scribble(tab[key], o["seed"])
                else:
                    cases.scribble_all(tab[key])
                canon[key] = oracle.canon(tab[key])
                for i, part in oracle.mutable_parts(tab[key]).items():
                    owner[i] = key
                    keep.append(part)
                env.stat("op:edit message")
                env.log("%d %s" % (n, o))
                check(n, o)
                continue
            if o["io"] == "new":
                io = ops.IOS[o["kind"]]()
            else:
                io = ios.setdefault(o["kind"], None) or ops.IOS[o["kind"]]()
                ios[o["kind"]] = io
            if o["o"] == "read":
                key = "r%d" % nres
                nres += 1
                data = docs[o["d"]]
                if o["via"] == "path":
                    src = env.path("in%d" % o["d"])
                    with open(src, "wb") as f:
                        f.write(data)
                elif not cases.is_utf8(data):
                    continue
                else:
                    src = data.decode("utf-8")
                ek = (o["kind"], o["via"], o["d"])
                if ek not in exp_read:
                    exp_read[ek] = env.ref("ref_read", o["kind"], o["via"], data)
                got = ops.wrap(lambda: ops.read(io, o["via"], src))
                env.stat("op:read")
                exp = exp_read[ek]
                if got.key() != (exp[0], exp[1]):
                    env.violate("later-result", "step %d %s: %s, alone: %s" % (
                        n, o, got.short(), ops.Result(*exp[:2], exc=exp[2]).short()))
                if got.obj is not None:
                    tab[key] = got.obj
                    canon[key] = oracle.canon(got.obj)
                    own(key, got.obj)
                    for part in oracle.reached_twice(got.obj)[:3]:
                        env.violate("shared-part", "%s: one %s stands in two places of it" % (key, type(part).__name__))
            else:
                key = "%s%d" % tuple(o["m"])
                if key not in tab:
                    continue
                m = tab[key]
                undo = None
                if o["poison"] is not None:
                    lv = cases.leaves(m)
                    if lv:
                        t, w = lv[int(o["poison"] * len(lv))]
                        old = t[w] if isinstance(w, int) else getattr(t, w)
                        cases.put_leaf(t, w, cases.Poison())
                        undo = (t, w, old)
                        canon[key] = oracle.canon(m)
                p = env.path("none/x" if o["nowhere"] else "out")
                got = ops.wrap((lambda: ops.conv(io, m, o["fmt"], o["opts"])) if o["o"] == "conv"
                               else (lambda: ops.save(io, m, o["fmt"], p, o["opts"])))
                env.stat("op:" + o["o"] + (" (fails)" if got.kind == "exc" else ""))
                check(n, o)
                if undo:
                    env.stat("fault:value that cannot be converted")
                    cases.put_leaf(*undo)
                    canon[key] = oracle.canon(m)
            env.log("%d %s -> %s" % (n, o, got.short()))
            check(n, o)
            env.note(o["o"], o["kind"], o.get("fmt"), o["io"], got.kind, type(got.obj).__name__)
            if env.viol:
                break
        env.nontrivial = len(case["prog"]) > 1

    def shrink(self, c):
        from .history import History
        reads = [k for k, o in enumerate(c["prog"]) if o["o"] == "read"]
        for i in range(len(c["prog"])):
            p = [dict(o) for o in c["prog"]]
            o = p.pop(i)
            if o["o"] == "read":
                k = reads.index(i)
                if any(q.get("m") == ["r", k] for q in p):
                    continue
                for q in p:
                    if "m" in q and q["m"][0] == "r" and q["m"][1] > k:
                        q["m"] = ["r", q["m"][1] - 1]
            yield dict(c, prog=p)
        for i, d in enumerate(c["docs"]):
            for x in cases.shrink_doc(d):
                yield dict(c, docs=c["docs"][:i] + [x] + c["docs"][i + 1:])
        for i, s in enumerate(c["specs"]):
            for x in gen.shrink_spec(s):
                yield dict(c, specs=c["specs"][:i] + [x] + c["specs"][i + 1:])


ENGINES = {"C04": Aliasing()}
