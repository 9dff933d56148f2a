"""Seeded generator of valid navigation messages, by introspection of the message classes.

Every choice is drawn from the ``random.Random`` given, so a message is a pure function of
its spec (see ``build``).  Texts and numbers carry the seed, so that a value found in the
wrong message can be told apart.
"""
import copy
import dataclasses
import enum
import random
import typing
from decimal import Decimal

from ccsds_ndm.models import ndmxml2 as m

_H = {}


def hints(c):
    if c not in _H:
        _H[c] = typing.get_type_hints(c)
    return _H[c]


def fields(c):
    return [f for f in dataclasses.fields(c) if f.init]


ROOTS = {c.__name__: c for c in (m.Aem, m.Apm, m.Cdm, m.Oem, m.Omm, m.Opm, m.Rdm, m.Tdm)}
COLUMNAR = (m.StateVectorAccType, m.OemCovarianceMatrixType, m.AttitudeStateType,
            m.TrackingDataObservationType)
ATT = {"QUATERNION": "quaternion_state", "QUATERNION/DERIVATIVE": "quaternion_derivative",
       "QUATERNION/RATE": "quaternion_euler_rate", "EULER_ANGLE": "euler_angle",
       "EULER_ANGLE/RATE": "euler_angle_rate", "SPIN": "spin",
       "SPIN/NUTATION": "spin_nutation"}

ASCII_WORDS = ["EARTH", "ITRF-97", "EME2000", "SC_BODY_1", "A2B", "JPL", "GSFC", "SAT 1",
               "X", "MARS EXPRESS", "1997-030E", "EGM-96: 36D 36O", "'DSS-26'", "a=b",
               "J2000", "Hermite", "UTC", "OBJECT1", "EPOCH", "NORAD+GP", "12345", "0.5",
               "(free) text, with; punctuation!", "COMMENT", "CCSDS_OPM_VERS"]
XML_WORDS = ["R&D", "a<b", "x>y", 'say "hi"', "&amp;", "<A/>", "]]>", "50%", "#1"]
UNI_WORDS = ["Škoda", "Ωμέγα", "Zürich", "火星", "naïve – dash", "Ünal", "😀 sat", "a\u2028b", "x\u2029y z", "p\x85q", "n\u00a0b", "全\u3000角", "e\u0301a"]

# legal texts that a careless reader or writer stumbles over
ODD_WORDS = ["=X", "a = b = c", "[x] y", "two  blanks", "tab\there", "DATA_STOP", "META_START",
             "2020-01-01T00:00:00", "1.5 [", "]", "x]y", "# x", "COMMENT = x", "USER_DEFINED_X = 1",
             "None", "0", "-", "1e5", "nan", "x\\ny", "%s", "{0}", "$HOME", "a;b,c", "'", "True", '"quoted"', "'quoted'", '"a" and "b"', "(x)", "a//b", "/* c */", "a\\", "END", "<!-- -->"]
ODD_COMMENTS = ["= head %d", "== %d ==", "note %d [km]", "[%d]", "N = %d", "%d", "N = %d [s]", "=%d",
                "COMMENT %d", "META_START %d", "2000-01-01T00:00:00 %d 2 3", "OBJECT_NAME = %d"]
# texts that only XML can carry as they are
MESSY_WORDS = ["", "", " lead", "trail ", "  ", "nl\nin", "cr\rin", "a\u00a0", "\u2028x", "\tx\t", "\n", "\ufeffx"]

NAMES = ["EARTH_MODEL", "EARTH_MODEL", "earth_model", "Rcs_Size", "A1", "a1"]
ODD_NAMES = ["A B", "COMMENT", "USER_DEFINED_X", "USER_DEFINED", "Ünal", "straße", "EPOCH", "[a]", "x_USER_DEFINED_y", "1",
             "_", "-", "#", "META_START", "CCSDS_OMM_VERS"]


class Gen:
    def __init__(self, rng, opt=.5, com=.3, ml=3, units=1.0, voc="ascii", big=0, tag=None, odd=0, att=None):
        self.att = att
        self.r = rng
        self.opt = opt
        self.com = com
        self.ml = ml
        self.units = units
        self.big = big
        self.words = list(ASCII_WORDS)
        if voc in ("xml", "all"):
            self.words += XML_WORDS
        if voc in ("uni", "all"):
            self.words += UNI_WORDS
        self.tag = tag
        self.odd = odd

    # -- scalars ---------------------------------------------------------------
    def epoch(self):
        r = self.r
        d = f"{r.randint(1990, 2040)}-"
        d += (f"{r.randint(1, 12):02d}-{r.randint(1, 28):02d}" if r.random() < .7
              else f"{r.randint(1, 366):03d}")
        d += f"T{r.randint(0, 23):02d}:{r.randint(0, 59):02d}:{r.randint(0, 59):02d}"
        if r.random() < .5:
            d += "." + "".join(r.choice("0123456789") for _ in range(r.randint(1, 6)))
        if r.random() < .2:
            d += "Z"
        return d

    def dec(self, md):
        r = self.r
        lo = md.get("min_inclusive", md.get("min_exclusive"))
        hi = md.get("max_inclusive", md.get("max_exclusive"))
        lo = None if lo is None else Decimal(lo)
        hi = None if hi is None else Decimal(hi)
        for _ in range(200):
            k = r.randrange(7)
            if k == 0:
                v = Decimal(r.choice(["0", "0.0", "1", "-1", "0.00", "-0.5"]))
            elif k == 1:
                v = Decimal(r.randint(-10 ** 4, 10 ** 4)).scaleb(-r.randint(0, 4))
            elif k == 2:
                v = Decimal(f"{r.choice(['', '-'])}{r.randint(1, 9)}.{r.randint(0, 10**9)}"
                            f"E{r.choice('+-')}{r.randint(0, 12):02d}")
            elif k == 3:
                v = Decimal(r.randint(0, 10 ** 15)).scaleb(-r.randint(0, 15))
            elif k == 4:
                v = Decimal(r.randint(0, 100)).scaleb(-2)
            elif k == 5:  # more digits than a double or 28-digit arithmetic can hold
                v = Decimal(f"{r.choice(['', '-'])}{r.randint(1, 999)}." +
                            "".join(r.choice("0123456789") for _ in range(r.randint(20, 34))) + "7")
            else:
                v = Decimal(r.randint(0, 1000))
            if lo is not None and (v < lo or ("min_exclusive" in md and v == lo)):
                continue
            if hi is not None and (v > hi or ("max_exclusive" in md and v == hi)):
                continue
            return v
        return Decimal(1)

    def word(self):
        if self.odd and self.r.random() < .15:
            return self.r.choice(ODD_WORDS + (MESSY_WORDS if self.odd > 1 else []))
        w = self.r.choice(self.words)
        if self.tag is not None and self.r.random() < .6:
            w += f" {self.tag}{self.r.randrange(1000)}"
        if self.r.random() < .02:
            w += " " + "lorem ipsum " * self.r.randint(5, 30) + "end"
        return w

    def string(self, md):
        p = md.get("pattern")
        if p:
            if "T" in p:
                return self.epoch()
            return self.r.choice(["1,2", "2,1", "1,2,1"])
        return self.word()

    def scal(self, t, md):
        r = self.r
        if t is str:
            return self.string(md)
        if t is Decimal:
            return self.dec(md)
        if t is int:
            return r.randint(int(md.get("min_inclusive", 0)), int(md.get("max_inclusive", 99999)))
        if issubclass(t, enum.Enum):
            return r.choice(list(t))
        raise TypeError(t)

    # -- objects ---------------------------------------------------------------
    def obj(self, c, ctx=None):
        r = self.r
        kw = {}
        fs = fields(c)
        hs = hints(c)
        ctx = {} if ctx is None else ctx
        choice = None
        if c is m.AttitudeStateType:
            choice = {ctx["att"]}
        if c is m.TrackingDataObservationType:
            choice = {"epoch", r.choice([f.name for f in fs if f.name != "epoch"])}
        acc = r.random() < .3
        if c is m.AemSegment:
            ctx = {}
        for f in fs:
            h = hs[f.name]
            a = typing.get_args(h)
            t = a[0] if a else h
            md = f.metadata
            isl = typing.get_origin(h) is list
            if choice is not None and f.name not in choice:
                continue
            if isl:
                if f.name == "comment":
                    n = r.randint(1, 3) if r.random() < self.com else 0
                else:
                    lo = md.get("min_occurs", 0)
                    n = r.randint(lo, md.get("max_occurs", max(lo, self.ml)))
                    if f.name in ("user_defined", "segment", "state_vector", "observation",
                                  "attitude_state"):
                        n = max(1, n)
                    if self.big and f.name in ("state_vector", "observation", "attitude_state"):
                        n = self.big
            else:
                n = 1 if (md.get("required") or choice is not None or f.name == "value") \
                    else (1 if r.random() < self.opt else 0)
            if c is m.StateVectorAccType and f.name.endswith("ddot"):
                n = int(acc)
            if f.name in ("rotation_angles", "rotation_rates", "rate", "angle"):
                n = 1
            if f.name == "units":
                n = 1 if r.random() < self.units else 0
            vals = []
            for _ in range(n):
                if f.name == "comment":
                    if self.odd and r.random() < .25:
                        v = r.choice(ODD_COMMENTS) % r.randint(0, 9999)
                    elif r.random() < .12:
                        v = r.choice(["----------", "see ICD"])      # comments may be repeated
                    else:
                        v = "comment %d %s" % (r.randint(0, 9999), self.word())
                        v = v if self.odd > 1 else v.rstrip()
                elif dataclasses.is_dataclass(t):
                    v = self.obj(t, ctx)
                else:
                    v = self.scal(t, md)
                vals.append(v)
            kw[f.name] = vals if isl else (vals[0] if vals else None)
            if c is m.AemSegment and f.name == "metadata":
                self._fix_aem(kw["metadata"], ctx)
        if c is m.KeplerianElementsType:
            kw["true_anomaly"] = kw["mean_anomaly"] = None
            kw[r.choice(["true_anomaly", "mean_anomaly"])] = self.obj(m.AngleType)
        if c is m.CdmBody:
            kw["segment"][0].metadata.object = m.ObjectType.OBJECT1
            kw["segment"][1].metadata.object = m.ObjectType.OBJECT2
        if c in (m.RotationAngleType, m.RotationRateType):
            for i, ax in enumerate(ctx.get("seq") or ""):
                rc = kw["rotation%d" % (i + 1)]
                ax = {"1": "X", "2": "Y", "3": "Z"}[ax]
                if c is m.RotationAngleType:
                    rc.angle = m.AngleKeywordType(ax + "_ANGLE")
                else:
                    rc.rate = m.AngleRateKeywordType(ax + "_RATE")
        if c is m.UserDefinedType:
            for i, u in enumerate(kw["user_defined"]):
                if not u.value or r.random() < .08:
                    u.value = None      # XML has one form for no value and for an empty one
                u.parameter = "P%d" % i
                if r.random() < .3:
                    # names are free text: their case matters, they may occur twice
                    u.parameter = r.choice(NAMES + (ODD_NAMES if self.odd else []) +
                                           (["a=b", "=", " x "] if self.odd > 1 else []))
        if c is m.EulerElementsThreeType and kw["euler_rot_seq"] is None:
            kw["euler_rot_seq"] = r.choice(list(m.RotseqType))
        o = c(**kw)
        _tidy(o)
        return o

    def _fix_aem(self, md, ctx):
        if self.att:
            md.attitude_type = next(a for a in type(md.attitude_type) if a.value.upper() == self.att)
        v = md.attitude_type.value.upper()
        ctx["att"] = ATT[v]
        if v.startswith("Q"):
            md.quaternion_type = self.r.choice(list(m.QuaternionTypeType))
        if v.startswith("E") or v.endswith("RATE"):
            md.euler_rot_seq = self.r.choice(list(m.RotseqType))
            ctx["seq"] = md.euler_rot_seq.value


def _tidy(o):
    """Drop optional elements without content (no format states them distinctly)."""
    for f in fields(type(o)):
        v = getattr(o, f.name)
        if (dataclasses.is_dataclass(v) and not f.metadata.get("required")
                and not any(getattr(v, g.name) for g in fields(type(v)) if g.name != "comment")
                and "value" not in hints(type(v))):
            setattr(o, f.name, None)


def build(spec):
    """Message of a spec: {"t": type name or "Ndm", "seed": n, + generator parameters}."""
    spec = dict(spec)
    t = spec.pop("t")
    seed = spec.pop("seed")
    members = spec.pop("members", None)
    twins = spec.pop("twins", False)
    heads = spec.pop("heads", False)
    if spec.pop("tagged", False):
        spec["tag"] = "#%x-" % (seed & 0xfffff)
    rng = random.Random(f"{t}/{seed}")
    g = Gen(rng, **spec)
    if t == "Ndm":
        o = m.Ndm()
        if rng.random() < .5:
            o.message_id = g.word()
        o.comment = ["ndm comment %d" % i for i in range(rng.choice([0, 0, 1, 2]))]
        for name in members:
            lst = getattr(o, name.lower())
            if twins and lst and rng.random() < .7:
                lst.append(copy.deepcopy(rng.choice(lst)))      # equal, but another one
            else:
                lst.append(g.obj(ROOTS[name]))
                if heads and len(lst) > 1:      # from one originator, on one day
                    lst[-1].header = copy.deepcopy(lst[0].header)
        return o
    return g.obj(ROOTS[t])


def rand_spec(rng, types=None, voc=None, small=False, big_p=.0, ndm=False, odd=(0, 0, 1), huge=False):
    t = rng.choice(types or (list(ROOTS) + (["Ndm"] if ndm else [])))
    s = {"t": t, "seed": rng.randrange(1 << 30), "opt": rng.choice([0, .2, .5, .5, .8, 1]),
         "com": rng.choice([0, 0, .3, .6]), "ml": rng.choice([1, 1, 2] if small else [1, 2, 3, 4]),
         "units": rng.choice([0, .5, 1, 1]),
         "voc": voc or rng.choice(["ascii", "ascii", "xml", "uni", "all"]), "tagged": True,
         "odd": rng.choice(odd)}
    if t == "Ndm":
        s["members"] = [rng.choice(list(ROOTS)) for _ in range(rng.choice([1, 1, 2, 2, 3, 5]))]
        if rng.random() < .25:
            s["twins"] = True
            s["members"] = s["members"][:1] * rng.choice([2, 2, 3]) + s["members"][1:2]
        elif rng.random() < .15:
            s["heads"] = True
            s["members"] = s["members"][:1] * rng.choice([2, 2, 3]) + s["members"][1:2]
        if rng.random() < .06:
            # many members of one type, each of them small
            s["members"] = s["members"][:1] * rng.choice([8, 11, 17, 40]) + s["members"][1:2]
            s.pop("twins", None)
            s.pop("heads", None)
            s.update(ml=1, com=0, opt=0)
        s["ml"] = min(s["ml"], 2)
    if big_p and rng.random() < big_p:
        s["big"] = rng.choice([60, 200, 400])
        s["ml"] = 1
        if huge and rng.random() < .3:
            s["t"], s["big"] = rng.choice(["Oem", "Tdm"]), 1500
            s.pop("members", None)
    return s


def shrink_spec(s):
    """Simpler specs, most drastic first."""
    for key, to in (("big", 0), ("ml", 1), ("com", 0), ("opt", 0), ("opt", .5), ("voc", "ascii"), ("odd", 0), ("big", 60)):
        if key in s and s[key] != to and not (key == "opt" and s[key] < to):
            yield dict(s, **{key: to})
    if s["t"] == "Ndm" and len(s["members"]) > 6:
        yield dict(s, members=s["members"][len(s["members"]) // 2:])
        yield dict(s, members=s["members"][:-3])
    if s["t"] == "Ndm" and len(s["members"]) > 1:
        for i in range(len(s["members"])):
            yield dict(s, members=s["members"][:i] + s["members"][i + 1:])
