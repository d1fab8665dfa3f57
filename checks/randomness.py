"""How much randomness goes into an id: the draws from the process's generator that make up its variable part, counted in bits."""
import math
import re

from checks.life import *

LETTERS = {"alphanumeric": 62, "alphabetic": 52, "lowercase": 26, "uppercase": 26}
WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 32, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 32, "bool": 1,
         "f32": 24, "f64": 53}
NEED = 40


def name_of(x):
    s = x["path"] if isinstance(x, dict) else str(x)
    return re.split(r"::|:", s)[-1]


def draw(path, args=()):
    """bits of one draw by a function of the generator, or None if it is none"""
    s = path.get("path", "") if hasattr(path, "get") else str(path)
    if not re.search(r"fastrand|global_rng|Rng::", s) or "seed" in s:
        return None
    n = re.split(r"::", s)[-1]
    if n in LETTERS:
        return math.log2(LETTERS[n])
    if n == "digit":
        b = [a[1] for a in args if a[:1] == ("int",)]
        return math.log2(b[0]) if b and b[0] > 1 else 0
    if n in WIDTH:
        r = [a for a in args if a[:1] == ("adt",) and "Range" in a[1]]
        if not r:
            return WIDTH[n] if n in ("bool", "f32", "f64") else 0
        if r[0][1].endswith("RangeFull"):
            return WIDTH[n]
        ends = [v[1] for _, v in r[0][3] if v[:1] == ("int",)]
        size = max(ends) - (min(ends) if len(ends) > 1 else 0) if ends else 0
        return math.log2(size) if size > 1 else 0
    return None


def bits(P, x):
    """bits of randomness in the text x, as far as they can be counted (0 if not at all)"""
    if not isinstance(x, tuple) or not x:
        return 0
    k = x[0]
    if k == "call" and len(x) > 1 and isinstance(x[1], str):
        d = draw(x[1], x[2:])
        if d is not None:
            return d
        if x[1].startswith("fmt_") or x[1] in ("collect", "to_string", "String::from"):
            return bits(P, x[2]) if len(x) > 2 else 0
        return 0
    if k in ("part", "spl", "one", "it"):
        return bits(P, x[1])
    if k == "take" and x[2][0] == "int":
        return each_draw(P, x[1], x[2][1])
    if k == "each" and len(x[2]) == 1:
        conds, items = x[2][0]
        if x[1][:1] == ("while",):
            # pushes one item per turn while the text is shorter than the bound
            n = [a[2][1] for a, v in conds if a[0] == "lt" and v is True and a[1][0] == "len" and a[2][0] == "int"]
            return n[0] * sum(bits(P, i) for i in items) if n and len(items) == 1 else 0
        if not conds and tuple(items) == (("elem", x[1]),):
            return bits(P, x[1])
    return 0


def each_draw(P, it, n):
    if it[0] != "repeat_with":
        return bits(P, it)
    f = it[1]
    if f[0] == "fnitem":
        return n * (draw(f[1]) or 0)
    if f[0] == "clo":
        body = P.get(f[1])
        ds = [draw(b["t"][1]) for b in (body or {}).get("body", {}).get("blocks", []) if b["t"][0] == "call" and isinstance(b["t"][1], dict)] if body else []
        if any("seed" in repr(c) for c in f[2]):
            return 0
        return n * sum(d for d in ds if d is not None)
    return bits(P, f)            # the same value again and again


def counted(r, c):
    """C43: an id has at least NEED random bits, drawn for it alone"""
    P = prog(c.cfg)
    for w in c.created():
        idv = styled(c.read(w.result()[1], "id"))
        if idv is None:
            r.bad("id", c.subj, "the id cannot be read", c.where())
            continue
        items = cat_items(idv)
        got = sum(bits(P, x) for x in items)
        # a draw that is used twice counts once
        drawn, texts = 0, [x for x in items if x[:2] == ("call", "collect")]
        for e in w.entropy:
            if e[1] == "fresh":
                left = [x for x in texts if e[2] in walk(x)]
                if left:
                    drawn += bits(P, left[0])
                    texts.remove(left[0])
            elif isinstance(e[1], str):
                drawn += draw(e[1], e[2:]) or 0
        if any(y[:1] == ("while",) for y in walk(idv)):
            drawn = got
        have = min(got, drawn)
        r.count("ids counted")
        r.check(have >= NEED, "random-bits", c.subj, "an id has %d random bits, fewer than %d: %s" % (have, NEED, showx(idv)), c.where())
