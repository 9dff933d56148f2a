"""What storage and transfer do to a file: truncation, lost/zeroed/stale/swapped blocks,
flipped bits, lines lost, doubled, exchanged.  Positions are fractions of the length, so an
edit list stays meaningful while a case is minimised."""

import re

ALIKE = {b"0": ["O", "\uff10", "o"], b"1": ["l", "\uff11", "I", "\u00b9"], b"2": ["\u00b2", "\uff12", "Z"],
         b"5": ["S", "\uff15"], b"8": ["B", "\uff18"], b".": [",", "\uff0e", ":"], b"-": ["\u2212", "\u2013", "_"],
         b"E": ["D", "\uff25", "e", "d"], b"e": ["d", "E"], b"A": ["\u0391", "\uff21", "a"], b"I": ["l", "1"],
         b"_": ["-", " ", "\uff3f"], b"S": ["5", "s"], b"T": [" ", "t"], b"O": ["0"], b":": [".", "\uff1a"],
         b" ": ["\t", "\u00a0", "\u3000"], b"N": ["M", "n"], b"R": ["P", "r"]}


def _pos(f, n):
    return min(max(0, int(f * n)), max(0, n - 1))


def apply(data, edits, other=b""):
    """data after the edits; ``other`` is unrelated older content (stale blocks)."""
    for e in edits:
        data = _one(data, e, other)
    return data


def _one(d, e, other):
    k = e[0]
    n = len(d)
    if not n:
        return d
    if k == "trunc":
        return d[:_pos(e[1], n)]
    if k == "chop":              # the last few bytes are missing
        return d[:max(0, n - e[1])]
    if k == "cut":
        p = _pos(e[1], n)
        return d[:p] + d[p + e[2]:]
    if k == "zero":
        p = _pos(e[1], n)
        q = min(n, p + e[2])
        return d[:p] + b"\0" * (q - p) + d[q:]
    if k == "tailzero":
        p = _pos(e[1], n)
        return d[:p] + b"\0" * (n - p)
    if k == "head":              # the first block is missing
        return d[_pos(e[1], n):]
    if k in ("blkdrop", "blkzero", "blkstale", "blkdup"):
        b = e[2]
        p = _pos(e[1], n) // b * b
        if k == "blkdrop":
            return d[:p] + d[p + b:]
        if k == "blkdup":
            return d[:p + b] + d[p:p + b] + d[p + b:]
        q = min(n, p + b)
        fill = b"\0" * (q - p) if k == "blkzero" else (other[p:q] or b"")
        return d[:p] + fill + d[q:]
    if k == "blkswap":
        b = e[3]
        p, q = sorted((_pos(e[1], n) // b * b, _pos(e[2], n) // b * b))
        if p == q:
            return d
        return d[:p] + d[q:q + b] + d[p + b:q] + d[p:p + b] + d[q + b:]
    if k == "flip":
        p = _pos(e[1], n)
        return d[:p] + bytes([d[p] ^ (1 << e[2])]) + d[p + 1:]
    if k == "digit":             # the next digit is another one: still a valid document
        p = _pos(e[1], n)
        while p < n and not d[p:p + 1].isdigit():
            p += 1
        return d[:p] + b"%d" % ((int(d[p:p + 1]) + 1) % 10) + d[p + 1:] if p < n else d
    if k == "set":
        p = _pos(e[1], n)
        return d[:p] + e[2].encode() + d[p + 1:]
    if k == "ins":
        p = _pos(e[1], n)
        return d[:p] + e[2].encode() + d[p:]
    if k == "raw":               # text in some other encoding
        p = _pos(e[1], n)
        return d[:p] + bytes.fromhex(e[2]) + d[p:]
    if k == "stutter":           # one byte (or a few) sent over and over
        p = _pos(e[1], n)
        return d[:p] + d[p:p + e[3]] * e[2] + d[p + e[3]:]
    if k == "pad":               # space behind the end is not empty
        return d + e[1].encode() * e[2]
    if k == "oldtail":           # older, longer content was not cut off
        return d + other[n:] if len(other) > n else d + other[-_pos(e[1], len(other) + 1):]
    if k == "decl":              # somebody else's XML declaration
        if not d.lstrip().startswith(b"<"):
            return d
        q = d.find(b"?>")
        return e[1].encode() + (d[q + 2:] if q >= 0 else d)
    ls = d.split(b"\n")
    m = len(ls)
    i = _pos(e[1], m)
    if k == "ldel":
        c = e[2] if len(e) > 2 else 1
        del ls[i:i + c]
    elif k == "ldup":
        ls.insert(i, ls[i])
    elif k == "lswap":
        j = _pos(e[2], m)
        ls[i], ls[j] = ls[j], ls[i]
    elif k == "lmove":
        j = _pos(e[2], m)
        x = ls.pop(i)
        ls.insert(j, x)
    elif k == "lcut":            # the rest of one line is missing
        ls[i] = ls[i][:_pos(e[2], len(ls[i]) + 1)]
    elif k == "ljoin":           # a line break is missing
        if i + 1 < m:
            ls[i:i + 2] = [ls[i] + ls[i + 1]]
    elif k == "lrev":
        ls.reverse()
    elif k == "lstale":          # a line of other content
        o = [x for x in other.split(b"\n") if x.strip()]
        if o:
            ls[i] = o[_pos(e[2], len(o))]
    elif k == "lval":            # value damaged beyond recognition
        x = ls[i]
        if b"=" in x:
            ls[i] = x[:x.index(b"=") + 1] + b" " + e[2].encode()
    elif k == "mute":            # the value of one line is missing
        ls[i] = re.sub(rb"=.*|>[^<>]*<", lambda q: b"=" if q.group()[:1] == b"=" else b"><", ls[i], count=1)
    elif k == "alike":           # a character that looks like another one
        x = ls[i]
        at = max(x.find(b"="), x.find(b">"), 0) if len(e) < 4 or e[3] else 0
        at = min(len(x), at + int(e[2] * (len(x) - at)))
        for q in list(range(at, len(x))) + list(range(at)):
            if x[q:q + 1] in ALIKE:
                ls[i] = x[:q] + ALIKE[x[q:q + 1]][int(e[2] * 1000) % len(ALIKE[x[q:q + 1]])].encode() + x[q + 1:]
                break
    elif k == "unit":            # another unit, or one where there was none
        _unit(ls, i, e[2], e[3])
    elif k == "nokey":           # the name of one line is missing
        ls[i] = re.sub(rb"^\s*[^=<>\s]+\s*=|<\w+", lambda q: q.group()[-1:] if b"=" in q.group() else b"<", ls[i], count=1)
    elif k == "lunk":            # a line that means nothing here
        ls.insert(i, b"<FOO_BAR>1</FOO_BAR>" if d.lstrip().startswith(b"<") else b"FOO_BAR = 1")
    elif k == "lblank":
        ls[i] = b""
    else:
        raise ValueError(k)
    return b"\n".join(ls)


OTHER = {"km": ["m", "KM"], "m": ["km", "cm"], "km/s": ["m/s"], "m/s": ["km/s"], "deg": ["rad", "DEG"], "rad": ["deg"], "s": ["min", "d"],
         "d": ["s"], "kg": ["g"], "km**2": ["m**2"], "m**2": ["km**2"], "deg/s": ["rad/s"], "rev/day": ["deg/s"],
         "km**3/s**2": ["m**3/s**2"], "Hz": ["MHz"], "m**2/kg": ["km**2/kg"]}
UNIT = re.compile(rb"(?<=\[)[^\[\]]*(?=\]\s*$)|(?<=units=['\"])[^'\"]*")


def _unit(ls, i, unit, how):
    """how: 0 one line, 1 every line with this unit, 2 one line without unit."""
    unit = unit.encode()
    have = [k for k, x in enumerate(ls) if UNIT.search(x)]
    if how < 2 and have:
        i = next((k for k in have if k >= i), have[-1])
        old = UNIT.search(ls[i]).group()
        o = OTHER.get(old.decode("utf-8", "replace"))
        if o and len(unit) % 3:     # a related one, mostly
            unit = o[len(unit) % len(o)].encode()
        for k in have if how else [i]:
            if UNIT.search(ls[k]).group() == old:
                ls[k] = UNIT.sub(lambda q: unit, ls[k], count=1)
    elif b"=" in ls[i] and not ls[i].lstrip().startswith(b"<"):
        ls[i] = ls[i].rstrip() + b" [" + unit + b"]"
    elif re.search(rb"<\w+>[^<]", ls[i]):
        ls[i] = re.sub(rb"<(\w+)>", lambda q: b'<' + q.group(1) + b' units="' + unit + b'">', ls[i], count=1)


CHARS = ["=", "<", ">", "&", "[", "]", '"', "/", "\0", " ", "\n", "\r", "-", "é", "9"]


DECLS = ["", '<?xml version="1.0"?>', '<?xml version="1.1" encoding="UTF-8"?>',
         '<?xml version="1.0" encoding="ISO-8859-1"?>', '<?xml version="1.0" encoding="us-ascii"?>',
         '<?xml version="1.0" encoding="windows-1252" standalone="no"?>',
         '<?xml version="1.0" encoding="UTF-16"?>', '<?xml version="1.0" encoding="UTF-9"?>',
         '<?xml version="2.0" encoding="UTF-8"?>', '<?xml version="1.p" encoding="UTF-8"?>',
         '\n <?xml version="1.0" encoding="UTF-8"?>', '<?xml version="1.0" encoding="UTF-8"',
         '<?xml encoding="UTF-8"?>', "<?xml version='1.0' encoding='utf8' ?>\n<!-- a -->"]


def rand_edit(rng, kinds):
    k = rng.choice(kinds)
    f, g = round(rng.random(), 5), round(rng.random(), 5)
    if k == "chop":
        return [k, rng.choice([1, 1, 2, 3, 5, 8, 13, 30])]
    if k in ("trunc", "tailzero", "head", "ldup", "ljoin", "lblank", "lrev"):
        return [k, f]
    if k == "stutter":
        return [k, f, rng.choice([2, 3, 10, 40, 40, 300, 3000]), rng.choice([1, 1, 1, 2, 5])]
    if k == "pad":
        return [k, rng.choice(["\0", "\0", " ", "\n", "\x1a", "9", "<", ">", "</a>"]),
                rng.choice([1, 1, 7, 100, 4000])]
    if k == "oldtail":
        return [k, f]
    if k == "raw":
        return [k, f, rng.choice(["e9", "ff", "c3", "80", "fffe", "e282", "f09f98", "a0", "c0af", "eda080"])]
    if k == "decl":
        return [k, rng.choice(DECLS)]
    if k in ("cut", "zero"):
        return [k, f, rng.choice([1, 1, 2, 3, 8, 40, 200])]
    if k in ("blkdrop", "blkzero", "blkstale", "blkdup"):
        return [k, f, rng.choice([16, 64, 128, 512, 512, 4096])]
    if k == "blkswap":
        return [k, f, g, rng.choice([16, 64, 128, 512])]
    if k == "flip":
        return [k, f, rng.randrange(8)]
    if k in ("set", "ins"):
        return [k, f, rng.choice(CHARS)]
    if k == "digit":
        return [k, f]
    if k == "ldel":
        return [k, f, rng.choice([1, 1, 1, 2, 5])]
    if k in ("lunk", "nokey"):
        return [k, f]
    if k == "unit":
        return [k, f, rng.choice(UNITS), rng.choice([0, 1, 1, 2])]
    if k == "mute":
        return [k, f]
    if k == "alike":
        return [k, f, g, rng.choice([0, 1, 1])]
    if k in ("lswap", "lmove", "lcut", "lstale"):
        return [k, f, g]
    if k == "lval":
        return [k, f, rng.choice(["", "?", "NaN", "1e", "-", "[", "]", "[km]", "1.2.3", "\0"])]
    raise ValueError(k)


BYTES = ["trunc", "chop", "cut", "zero", "tailzero", "head", "flip", "flip", "set", "ins",
         "stutter", "pad", "decl", "raw"]
BLOCKS = ["blkdrop", "blkzero", "blkstale", "blkdup", "blkswap", "oldtail"]
UNITS = ["m", "km", "cm", "deg", "rad", "s", "min", "d", "kg", "g", "km/s", "m/s", "m**2", "km**2", "km**3/s**2", "m**3/s**2",
         "deg/s", "rad/s", "rev/day", "Hz", "MHz", "%", "SFU", "hPa", "K", "C", "1/ER", "m/s**2", "AU", "KM", "Km", "", "n/a"]
LINES = ["ldel", "ldel", "ldup", "lswap", "lmove", "lcut", "ljoin", "lstale", "lval", "lblank", "lunk", "mute", "mute", "alike", "alike",
         "unit", "unit", "nokey"]
ALL = BYTES + BLOCKS + LINES + ["lrev"]
