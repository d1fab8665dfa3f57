"""Summaries of the style life cycle (creation, registration, collection, mounting), shared by C12-C25.
Every public constructor is interpreted down to the registry's map, the writer's data and the DOM calls; rendering and parsing are
kept as the symbols render(sheet, class) and parse(text)."""
import functools
from lib import repo
from lib.interp import Interp, State, Out, ret
from lib.prog import Program, short
from lib.terms import *
from lib.spec import facts_str, showx

CRATES = ["stylist_core", "stylist", "stylist_macros"]


def h_render(ip, st, f, args, cid):
    return ret(st, call("render", ip.deep(st, ip.val(st, args[0])), ip.deep(st, args[1])))


def h_parse(ip, st, f, args, cid):
    ar = f.get("args") or []
    if f["name"] == "parse" and (not ar or short(ar[-1]) != "Sheet"):
        return None
    if f["name"] == "from_str" and (not ar or short(ar[0]) != "Sheet"):
        return None
    return ret(st, call("parse", ip.deep(st, ip.val(st, args[0]))))


def h_fresh(ip, st, f, args, cid):
    return ip.event(st, "fresh", args, [ip.deep(st, a) for a in args], ("repeat_with", args[0]))


OVERRIDES = {"to_style_str": h_render, "from_str": h_parse, "parse": h_parse, "repeat_with": h_fresh}


@functools.lru_cache(None)
def prog(cfg):
    return Program(repo.dump(cfg), CRATES)


def args_of(it):
    b = it["body"]
    return [l[1] or str(i) for i, l in enumerate(b["locals"][1:1 + b["argc"]])]


@functools.lru_cache(None)
def interp(cfg, iid, args=None):
    """outcomes of a function; args: tuple of terms (defaults to symbols named after the parameters)"""
    P = prog(cfg)
    it = P.get(iid)
    ip = Interp(P, overrides=OVERRIDES)
    d = method(P, "StyleManager", "default", "Default")
    if d is not None and d.id != iid:
        ip.symbols[d.id] = "default_manager"
    a = list(args) if args is not None else [("arg", n) for n in args_of(it)]
    outs = ip.run_fn(State(), it, a, (iid,))
    return outs, ip


def summary(cfg, it, *args):
    return interp(cfg, it.id, tuple(args) if args else None)[0]


def value(cfg, it, *args):
    """the value of a function that has one outcome and no effect, or None"""
    outs = summary(cfg, it, *args)
    if len(outs) == 1 and outs[0].kind == "ret" and not outs[0].st.trace()[1:]:
        return outs[0].val
    return None


def method(P, ty, name, trait=None):
    """the function `name` of a type, by its public name"""
    for i in P.items.values():
        im = i.get("impl")
        if im and "body" in i and i.get("name") == name and short(im["self"]) == ty:
            if (trait is None and not im.get("trait")) or (trait and im.get("trait") and short(im["trait"]) == trait):
                return i
    return None


def where(i):
    return i.get("span", "").split(" ")[0] if isinstance(i.get("span"), str) else ""


# ---------------------------------------------------------------- terms
def walk(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                yield from walk(x)
    elif isinstance(t, frozenset):
        for x in t:
            yield from walk(x)


def root(t):
    while t[0] in ("fld", "pay", "elem", "it", "dc"):
        t = t[1]
    return t


def variant_of(o, t):
    return o.st.facts.get(("variant", t))


# ---------------------------------------------------------------- creation
DEFAULT = ("call", "default_manager")
CSS, PREFIX, MGR = ("arg", "css"), ("arg", "prefix"), ("arg", "manager")
ENTRIES = [            # public constructors: type, name, arguments, global, prefix given, manager
    ("Style", "new", (CSS,), False, None, DEFAULT),
    ("Style", "create", (PREFIX, CSS), False, PREFIX, DEFAULT),
    ("Style", "new_with_manager", (CSS, MGR), False, None, MGR),
    ("Style", "create_with_manager", (PREFIX, CSS, MGR), False, PREFIX, MGR),
    ("GlobalStyle", "new", (CSS,), True, None, DEFAULT),
    ("GlobalStyle", "new_with_manager", (CSS, MGR), True, None, MGR),
]
ENTROPY = ("fresh", "fetch_add", "alphanumeric", "Atomic::fetch_add", "Rng")


def is_draw(e):
    """an effect that only draws from a random generator or a counter, once or in a loop"""
    if e[0] == "ev":
        return e[1] in ENTROPY or "fastrand" in str(e[1]) or "global_rng" in str(e[1])
    if e[0] in ("part", "spl", "one"):
        return is_draw(e[1])
    if e[0] == "each":
        return any(items for _, items in e[2]) and all(isinstance(x, tuple) and is_draw(x) for _, items in e[2] for x in items)
    return False



def appended(old, new):
    """the elements added to a sequence, None if it was changed otherwise"""
    if new == old:
        return []
    if new[0] == "seq" and len(new) > 1 and new[1] == ("spl", old) and all(x[0] == "one" for x in new[2:]):
        return [x[1] for x in new[2:]]
    return None


class Row:
    """one outcome of a creation"""

    def __init__(self, o):
        self.o = o
        self.kind = o.kind
        self.val = o.val
        self.look = [(a[1][2], a[1][3], v) for a, v in o.st.facts.items()
                     if a[0] == "variant" and a[1][:2] == ("call", "map_get")]
        self.parse = [(a[1][2], v) for a, v in o.st.facts.items() if a[0] == "variant" and a[1][:2] == ("call", "parse")]
        maps = {m for m, _, _ in self.look}
        self.reg, self.added, self.other = [], [], []
        for l, v in o.st.store.items():
            if l == "TRACE" or l[0] != "T" or v == l[1]:
                continue
            ap = appended(l[1], v)
            if ap is None:
                self.other.append((l[1], v))
            elif l[1] in maps or all(x[0] == "tup" and len(x) == 3 for x in ap):
                self.reg += [(l[1], x) for x in ap]
            else:
                self.added += [(l[1], x) for x in ap]
        ev = [x[1] for x in o.st.trace()[1:] if x[0] == "one"]
        ev += [x for x in o.st.trace()[1:] if x[0] != "one"]
        self.entropy = [e for e in ev if is_draw(e)]
        self.events = [e for e in ev if e not in self.entropy]
        self.hit = next((v for m, k, v in self.look), None)
        self.poisoned = any(a[0] == "variant" and a[1][0] == "call" and a[1][1] in LOCKS and v == "Err" for a, v in o.st.facts.items())

    def result(self):
        """('Ok'|'Err', payload) of a returned Result"""
        if self.kind == "ret" and self.val[0] == "adt" and self.val[2] in ("Ok", "Err"):
            return self.val[2], dict(self.val[3]).get("0")
        return None, self.val

    def parse_failed(self):
        return any(v == "Err" for _, v in self.parse)

    def desc(self):
        return facts_str(self.o, 350)


class Creation:
    """what a public constructor does in one configuration"""

    def __init__(self, cfg, ty, name, args, glob, prefix, mgr):
        self.cfg, self.ty, self.name, self.glob, self.mgr = cfg, ty, name, glob, mgr
        P = self.P = prog(cfg)
        self.fn = method(P, ty, name)
        self.subj = "%s::%s (%s)" % (ty, name, cfg)
        self.rows = []
        if self.fn is None:
            return
        self.rows = [Row(o) for o in summary(cfg, self.fn, *args)]
        pf = method(P, "StyleManager", "prefix")
        self.mgr_prefix = value(cfg, pf, mgr) if pf else None
        self.prefix = prefix if prefix is not None else self.mgr_prefix
        src = P.adt("StyleSource")
        sheet = next((f["name"] for f in src["variants"][0]["fields"] if short(f["tys"]) == "Sheet"), None) if src else None
        self.conv = call("try_into", CSS)
        self.ast = ("fld", ("pay", self.conv, "Ok", "0"), sheet)
        w = method(P, "StyleManagerBuilder", "writer")
        self.writer = None
        if w is not None:
            v = value(cfg, w, ("arg", "b"), ("arg", "w"))
            ch = changed(v, ("arg", "b"))
            if ch and len(ch) == 1:
                self.writer = ch[0][0]

    def read(self, h, name):
        """what a public accessor of the handle returns"""
        m = method(self.P, self.ty, name)
        return value(self.cfg, m, h) if m is not None else None

    def where(self):
        return "%s:%s" % tuple(self.fn["span"]) if self.fn else None

    def created(self):
        """rows that create a new style"""
        return [r for r in self.rows if r.kind == "ret" and r.result()[0] == "Ok" and r.hit != "Some"]


def changed(v, base):
    """fields of base that v has replaced, None if v is not base with replaced fields"""
    if v is None:
        return None
    if v == base:
        return []
    if v[0] == "upd" and v[1] == base:
        return [(n, x) for n, x in v[2] if rewrapped(x) != ("fld", base, n)]
    if v[0] == "adt":
        return [(n, x) for n, x in v[3] if rewrapped(x) != ("fld", base, n)]
    return None


def rewrapped(x):
    """Some(payload of o) is o"""
    if x[0] == "adt" and x[2] == "Some" and len(x[3]) == 1 and x[3][0][1][0] == "pay" and x[3][0][1][2:] == ("Some", "0"):
        return x[3][0][1][1]
    return x


def is_under(t, base):
    """t is a part of base"""
    while t != base:
        if t[0] in ("fld", "pay", "dc", "elem", "it") and len(t) > 1 and isinstance(t[1], tuple):
            t = t[1]
        elif t[:2] == ("call", "lock"):
            t = t[2]
        else:
            return False
    return True


def creations(r, cfgs):
    out = []
    for cfg in cfgs:
        for e in ENTRIES:
            c = Creation(cfg, *e)
            if c.fn is None:
                r.bad("constructor", c.subj, "not found")
                continue
            r.fn(c.fn)
            r.count("outcomes", len(c.rows))
            out.append(c)
            for f in interp(cfg, c.fn.id, tuple(e[2]))[1].stats["functions"]:
                r.fn(prog(cfg).get(f))
    return out
