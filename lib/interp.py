"""Path-sensitive value-provenance dataflow over MIR.

Every local function is summarised by the terms its result, its out-parameters and its effects have in
terms of its arguments.  Nothing is executed: arguments, loop elements and results of foreign calls are
opaque symbols, loops are summarised by one symbolic iteration (what it appends, counts, or leaves early).
"""
import re
import sys
from .terms import *
from .prog import strip_generics, short, head

sys.setrecursionlimit(20000)

ITER_TAGS = {"it", "map", "filter", "filter_map", "flat_map", "flatten", "zip", "chain", "rev", "skip", "take",
             "enumerate", "range", "once", "optit", "emptyit", "take_while", "skip_while", "inspect", "repeat_with",
             "feed", "peekable", "step_by", "map_while", "locit", "opit"}
KNOWN_TAGS = {"adt", "tup", "seq", "str", "cat", "int", "bool", "char", "unit", "clo", "fnitem", "fmtargs", "fmtarg",
              "upd", "nom", "boxp"} | ITER_TAGS


class TooComplex(Exception):
    pass


class Unsupported(Exception):
    pass


class State:
    __slots__ = ("store", "facts")

    def __init__(self, store=None, facts=None):
        self.store = store if store is not None else {}
        self.facts = facts if facts is not None else {}

    def copy(self):
        return State(dict(self.store), dict(self.facts))

    def trace(self):
        return self.store.get("TRACE", ("seq",))


class Frame:
    __slots__ = ("item", "body", "fid", "types")

    def __init__(self, item, body, fid):
        self.item = item
        self.body = body
        self.fid = fid


class Out:
    """outcome of a call: kind ret|panic"""
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val):
        self.kind = kind
        self.st = st
        self.val = val

    def __repr__(self):
        return "<%s %s if %s>" % (self.kind, show(self.val), self.st.facts)


def is_opaque(v):
    return v[0] not in KNOWN_TAGS and v[0] != "ref"


def ret(st, v):
    return [Out("ret", st, v)]


MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def subst(t, f):
    """bottom-up rewrite of a term"""
    if not isinstance(t, tuple):
        return t
    r = tuple(subst(x, f) if isinstance(x, tuple) else x for x in t)
    return f(r)


def contains(t, pred):
    if not isinstance(t, (tuple, frozenset)):
        return False
    if isinstance(t, tuple) and pred(t):
        return True
    return any(contains(x, pred) for x in t)


def mentions(t, x):
    if t == x:
        return True
    if isinstance(t, (tuple, frozenset)):
        return any(mentions(y, x) for y in t)
    return False


class Interp:
    def __init__(self, prog, opaque=(), nonterm=None, effects=None, max_outs=600, no_trace=(), overrides=None,
                 inline_only=None):
        self.p = prog
        self.opaque = set(opaque)      # item ids or names kept as symbols
        self.nonterm = nonterm or {}   # name -> handler(interp, st, callee, args)
        self.no_trace = set(no_trace)
        self.overrides = overrides or {}   # callee path -> model
        self.options = set()               # values known to be an Option from being iterated as one
        self.explore = None                # loops by exploration of abstract states instead of summaries
        self.stack = []
        self.recursion = 0                 # how often a function may occur below itself before it becomes opaque
        self.symbols = {}              # item id -> name of the symbol that stands for a call
        self.envs = []                 # type parameters of the functions on the stack
        self.next_env = None
        self.loopv = {}                # symbol -> description of a loop carried value
        self.max_outs = max_outs
        self.stats = {"functions": set(), "calls": 0, "blocks": 0, "loops": 0, "opaque": {}}
        self.steps = 0
        self.limit = 400000
        self.hcount = 0
        self.feeds = 0

    # ------------------------------------------------------------------ values and places
    def getf(self, st, v, name, idx=None):
        """field of a value (not of a place)"""
        k = v[0]
        if k == "adt":
            for n, x in v[3]:
                if n == name:
                    return x
            # transparent wrappers
            if len(v[3]) == 0:
                return ("fld", v, name)
            return ("fld", v, name)
        if k == "tup":
            i = int(name)
            return v[1 + i] if i + 1 < len(v) else ("fld", v, name)
        if k == "clo":
            if idx is not None and idx < len(v[2]):
                return v[2][idx]
            return ("fld", v, name)
        if k == "upd":
            for n, x in v[2]:
                if n == name:
                    return x
            return self.getf(st, v[1], name, idx)
        if k == "ref":
            return self.getf(st, self.val(st, v), name, idx)
        if k == "dc":
            return self.payload(st, v[1], v[2], name)
        t = ("fld", v, name)
        return st.store.get(("T", t), t)

    def payload(self, st, v, variant, name="0"):
        """field `name` of v seen as `variant`"""
        if v[0] == "adt" and v[2] == variant:
            return self.getf(st, v, name)
        if v[0] == "ref":
            return self.payload(st, self.val(st, v), variant, name)
        if variant == "Some" and v[0] == "call":
            if v[1] == "upgrade" and v[2][0] == "call" and v[2][1] == "downgrade":
                return v[2][2]
        if variant == "Ok" and v[0] == "call" and v[1] in ("lock", "try_borrow_mut", "try_borrow", "read", "write"):
            return v[2]
        t = ("pay", v, variant, name)
        return st.store.get(("T", t), t)

    def setf(self, st, v, path, val):
        """functional update of value v at projection path"""
        if not path:
            return val
        e = path[0]
        k = e[0]
        if k == "v":
            if len(path) > 1 and path[1][0] == "f" and v[0] != "adt":
                inner = self.payload(st, v, e[1], path[1][2])
                nv = self.setf(st, inner, path[2:], val)
                return adt("?", e[1], ((path[1][2], nv),)) if e[1] in ("Some", "Ok", "Err") else \
                    ("upd", ("dc", v, e[1]), ((path[1][2], nv),))
            return self.setf(st, v, path[1:], val)
        if k == "f":
            if v[0] == "boxp":
                return ("boxp", self.setf(st, v[1], path[1:], val))
            nv = self.setf(st, self.getf(st, v, e[2], e[1]), path[1:], val)
            if v[0] == "adt":
                fs = list(v[3])
                for i, (n, x) in enumerate(fs):
                    if n == e[2]:
                        fs[i] = (n, nv)
                        break
                else:
                    fs.append((e[2], nv))
                return ("adt", v[1], v[2], tuple(fs))
            if v[0] == "tup":
                l = list(v)
                i = int(e[2])
                while len(l) <= i + 1:
                    l.append(("undef",))
                l[i + 1] = nv
                return tuple(l)
            if v[0] == "clo":
                l = list(v[2])
                l[e[1]] = nv
                return ("clo", v[1], tuple(l))
            if v[0] == "upd":
                d = dict(v[2])
                d[e[2]] = nv
                return ("upd", v[1], tuple(sorted(d.items())))
            if v[0] == "undef":
                # partially initialised aggregate
                if e[3] == "":
                    l = [("undef",)] * (e[1] + 1)
                    l[e[1]] = nv
                    return ("tup",) + tuple(l)
                return ("upd", v, ((e[2], nv),))
            return ("upd", v, ((e[2], nv),))
        if k == "ci":
            items = seq_known(v)
            if items is not None:
                i = len(items) - e[1] if e[2] else e[1]
                if 0 <= i < len(items):
                    items[i] = self.setf(st, items[i], path[1:], val)
                    return seq_of(*items)
        if k == "*":
            return self.setf(st, v, path[1:], val)
        return ("havoc", v)

    def proj(self, st, v, path, fr=None):
        """read projections from a value"""
        i = 0
        while i < len(path):
            e = path[i]
            k = e[0]
            if k == "v":
                if i + 1 < len(path) and path[i + 1][0] == "f":
                    v = self.payload(st, v, e[1], path[i + 1][2])
                    i += 2
                    continue
                v = v if v[0] == "adt" else ("dc", v, e[1])
            elif k == "f":
                v = self.getf(st, v, e[2], e[1])
            elif k == "*":
                v = self.val(st, v)
            elif k == "i":
                iv = self.rd(st, ("L", fr.fid, e[1])) if fr else e[1]
                v = self.index(st, v, iv)
            elif k == "ixv":
                v = self.index(st, v, e[1])
            elif k == "ci":
                items = seq_known(v)
                if items is not None and 0 <= (len(items) - e[1] if e[2] else e[1]) < len(items):
                    v = items[len(items) - e[1] if e[2] else e[1]]
                else:
                    v = at(v, I(-e[1] if e[2] else e[1]))
            elif k == "sub":
                items = seq_known(v)
                if items is not None:
                    to = len(items) - e[2] if e[3] else e[2]
                    v = seq_of(*items[e[1]:to])
                else:
                    v = ("subslice", v, I(e[1]), I(e[2]), ("bool", e[3]))
            else:
                v = ("proj", v, str(e))
            i += 1
        return v

    def index(self, st, v, iv):
        iv = self.val(st, iv)
        v = self.val(st, v)
        items = seq_known(v)
        if items is not None and iv[0] == "int" and 0 <= iv[1] < len(items):
            return items[iv[1]]
        if iv[0] == "idx" and iv[1] == ("it", v):
            return ("elem", iv[1])
        return at(v, iv)

    def rd(self, st, loc):
        if loc[0] == "T":
            return st.store.get(loc, loc[1])
        if loc[0] == "V":
            return loc[1]
        return st.store.get(loc, ("undef",))

    def wr(self, st, loc, v):
        if loc[0] == "V":
            return
        st.store[loc] = v

    def val(self, st, v):
        """the value denoted: references are followed, opaque places looked up"""
        n = 0
        while v[0] == "ref" and n < 50:
            v = self.proj(st, self.rd(st, v[1]), v[2])
            n += 1
        if is_opaque(v):
            return st.store.get(("T", v), v)
        return v

    def place(self, st, fr, pl):
        """resolve a MIR place to (loc, remaining projections)"""
        loc = ("L", fr.fid, pl[0])
        path = ()
        for e in pl[1]:
            if e[0] == "*":
                v = self.proj(st, self.rd(st, loc), path, fr)
                if v[0] == "ref":
                    loc, path = v[1], tuple(v[2])
                elif v[0] == "boxp":
                    path = path + (("f", 0, "box", "Box"),)
                elif is_opaque(v) and v[0] != "undef":
                    loc, path = ("T", v), ()
                elif v[0] in ("map", "it", "chain") or True:
                    # known value behind a transparent pointer: stay at the same place
                    pass
            elif e[0] == "i":
                path = path + (("ixv", self.rd(st, ("L", fr.fid, e[1]))),)
            else:
                if e[0] == "f" and transparent_adt(e[3]) and len(e) > 3:
                    continue
                path = path + (tuple(e),)
                # fields of opaque places are places of their own
                if e[0] == "f" and loc[0] == "T" and ("T" in loc):
                    base = self.rd(st, loc)
                    if base == loc[1] or is_opaque(base):
                        b = self.proj(st, base, path[:-1])
                        if is_opaque(b) and b[0] != "undef":
                            if b[0] == "dc":
                                t = ("pay", b[1], b[2], e[2])
                            else:
                                t = ("fld", b, e[2])
                            t2 = self.payload(st.__class__({}, {}), b[1], b[2], e[2]) if b[0] == "dc" else t
                            loc, path = ("T", t2), ()
        return loc, path

    def read(self, st, fr, pl):
        loc, path = self.place(st, fr, pl)
        return self.proj(st, self.rd(st, loc), path, fr)

    def write(self, st, fr, pl, v):
        loc, path = self.place(st, fr, pl)
        self.write_at(st, loc, path, v)

    def write_at(self, st, loc, path, v):
        if not path:
            self.wr(st, loc, v)
            return
        base = self.rd(st, loc)
        self.wr(st, loc, self.setf(st, base, path, v))

    def write_ref(self, st, r, v):
        """store through a reference value"""
        if r[0] == "ref":
            # a reference to a place that itself holds a reference / opaque pointer
            cur = self.proj(st, self.rd(st, r[1]), r[2])
            if cur[0] == "ref":
                return self.write_ref(st, cur, v)
            self.write_at(st, r[1], tuple(r[2]), v)
        elif is_opaque(r):
            st.store[("T", r)] = v

    # ------------------------------------------------------------------ operands / rvalues
    def operand(self, st, fr, op):
        if op[0] in ("c", "m"):
            return self.read(st, fr, op[1])
        if op[0] == "k":
            return self.const(st, op[1])
        return ("opq", str(op))

    def const(self, st, k):
        if "fn" in k:
            return ("fnitem", _Callee(k["fn"]))
        if "closure" in k:
            return ("clo", k["closure"], ())
        if "promoted" in k:
            v = self.promoted(k["promoted"])
            if v is not None:
                return v
        if "str" in k:
            return S(k["str"])
        if "bytes" in k:
            return ("bytes", bytes(k["bytes"]))
        if "bool" in k:
            return ("bool", k["bool"])
        if "char" in k:
            return ("char", k["char"])
        if "int" in k:
            return I(int(k["int"]))
        if "static" in k:
            return ("static", k.get("spath", k["static"]))
        if "cdef" in k and "LocalKey<" in k.get("ty", ""):
            return ("tls", k["cdef"])
        if "fnptr" in k:
            return ("fnitem", _Callee(k["fnptr"]))
        if "cdef" in k:
            it = self.p.get(k["cdef"])
            if it is not None and "body" in it:
                outs = self.run_fn(State(), it, [], ("const", k["cdef"]))
                if len(outs) == 1 and outs[0].kind == "ret":
                    return self.deep(outs[0].st, outs[0].val)
            return ("const", k["cpath"])
        if k.get("ty") == "()":
            return UNIT
        if "zst" in k:
            return ("adt", strip_generics(k["ty"]), short(k["ty"]), ())
        if "ct" in k:
            m = re.match(r"(\d+)", k["ct"])
            return I(int(m.group(1))) if m else ("const", k["ct"])
        return ("const", k.get("ty", "?"))

    _prom = {}

    def promoted(self, ref):
        id, idx = ref
        it = self.p.get(id)
        if it is None or idx >= len(it.get("promoted", [])):
            return None
        key = (self.p, id, idx)
        if key not in self._prom:
            body = it["promoted"][idx]
            fr = Frame(it, body, ("promoted", id, idx))
            st = State()
            outs = self.run(st, fr, 0, ("promoted", id, idx))
            v = None
            if len(outs) == 1 and outs[0][0] == "ret":
                v = self.deep(outs[0][1], outs[0][2])
            self._prom[key] = v
        return self._prom[key]

    def deep(self, st, v, n=0):
        """value with references to frames resolved"""
        if n > 40 or not isinstance(v, tuple):
            return v
        if v[0] == "ref":
            return self.deep(st, self.val(st, v), n + 1)
        if v[0] in ("adt",):
            return ("adt", v[1], v[2], tuple((a, self.deep(st, b, n + 1)) for a, b in v[3]))
        if v[0] == "tup":
            return ("tup",) + tuple(self.deep(st, x, n + 1) for x in v[1:])
        if v[0] == "upd":
            return ("upd", self.deep(st, v[1], n + 1), tuple((a, self.deep(st, b, n + 1)) for a, b in v[2]))
        if v[0] == "seq":
            return ("seq",) + tuple(self.deep_item(st, x, n + 1) for x in v[1:])
        if v[0] == "clo":
            return ("clo", v[1], tuple(self.deep(st, x, n + 1) for x in v[2]))
        if v[0] in ITER_TAGS or v[0] in ("nom", "call", "cat"):
            return tuple(self.deep(st, x, n + 1) if isinstance(x, tuple) else x for x in v)
        if is_opaque(v):
            return st.store.get(("T", v), v)
        return v

    def deep_item(self, st, x, n):
        if x[0] in ("one", "spl"):
            return (x[0], self.deep(st, x[1], n))
        if x[0] == "each":
            return ("each", x[1], tuple((c, tuple(self.deep_item(st, y, n) for y in ps)) for c, ps in x[2]))
        return x

    def is_raw(self, fr, o):
        """the operand is a raw pointer"""
        if o[0] not in ("c", "m") or o[1][1]:
            return False
        return fr.body["locals"][o[1][0]][0].startswith("*")

    def binop(self, st, op, a, b):
        a, b = self.val(st, a), self.val(st, b)
        if op in ("Add", "AddUnchecked"):
            return add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return sub(a, b)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            r = self.binop(st, op[:3], a, b)
            return ("tup", r, FALSE)
        if op == "Eq":
            return eq(a, b)
        if op == "Ne":
            return bnot(eq(a, b))
        if op == "Lt":
            return lt(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Le":
            return bnot(lt(b, a))
        if op == "Ge":
            return bnot(lt(a, b))
        if op in ("BitAnd", "BitOr", "BitXor") and (a[0] in ("bool", "not") or b[0] in ("bool", "not") or True):
            if op == "BitAnd":
                if FALSE in (a, b):
                    return FALSE
                if a == TRUE:
                    return b
                if b == TRUE:
                    return a
            if op == "BitOr":
                if TRUE in (a, b):
                    return TRUE
                if a == FALSE:
                    return b
                if b == FALSE:
                    return a
            if op == "BitXor":
                if a[0] == "bool":
                    a, b = b, a
                if b[0] == "bool":
                    return bnot(a) if b[1] else a
            if a == b and op != "BitXor":
                return a
        if a[0] == "int" and b[0] == "int":
            if op == "Mul":
                return I(a[1] * b[1])
            if op == "Rem" and b[1]:
                return I(a[1] % b[1])
            if op == "Div" and b[1]:
                return I(a[1] // b[1])
            if op == "BitAnd":
                return I(a[1] & b[1])
            if op == "BitOr":
                return I(a[1] | b[1])
        return ("bin", op, a, b)

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            loc, path = self.place(st, fr, r[2])
            if loc[0] == "T" and not path:
                return loc[1]
            if loc[0] == "V":
                return self.proj(st, loc[1], path)
            return ("ref", loc, path)
        if k == "cast":
            return self.operand(st, fr, r[1])
        if k == "bin":
            if r[1] in ("Eq", "Ne") and self.is_raw(fr, r[2]) and self.is_raw(fr, r[3]):
                from .models import same_place
                e = same_place(self, st, self.operand(st, fr, r[2]), self.operand(st, fr, r[3]))
                return e if r[1] == "Eq" else bnot(e)
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]))
        if k == "un":
            a = self.val(st, self.operand(st, fr, r[2]))
            if r[1] == "Not":
                return bnot(a)
            if r[1] == "Neg" and a[0] == "int":
                return I(-a[1])
            if r[1] == "PtrMetadata":
                return length(a)
            return ("un", r[1], a)
        if k == "discr":
            v = self.read(st, fr, r[1])
            v = self.val(st, v)
            return ("discr", v, tuple(tuple(x) for x in r[2]))
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r[2]]
            kk = r[1]
            if kk[0] == "array":
                return seq_of(*ops)
            if kk[0] == "tuple":
                return ("tup",) + tuple(ops) if ops else UNIT
            if kk[0] == "adt":
                if transparent_adt(kk[1]) or kk[1].endswith("borrow::Cow"):
                    return ops[0] if ops else UNIT
                return ("adt", short_path(kk[1]), kk[2], tuple(zip(kk[3], ops)))
            if kk[0] == "closure":
                return ("clo", kk[1], tuple(ops))
            return ("opq", str(kk))
        if k == "repeat":
            return ("repeat", self.operand(st, fr, r[1]), r[2])
        if k == "tls":
            return ("static", r[2])
        return ("opq", str(r)[:80])

    # ------------------------------------------------------------------ facts
    def decide(self, st, atom):
        """value of a boolean atom if known"""
        if atom[0] == "bool":
            return atom[1]
        if atom[0] == "not":
            r = self.decide(st, atom[1])
            return None if r is None else not r
        if atom in st.facts:
            return st.facts[atom]
        if atom[0] == "eq":
            if atom[2][0] in ("int", "char", "str"):
                for a, v in st.facts.items():
                    if v is True and a[0] == "eq" and a[1] == atom[1] and a[2][0] == atom[2][0]:
                        return a[2] == atom[2]
        if atom[0] == "and":
            rs = [self.decide(st, x) for x in atom[1:]]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
        if atom[0] == "or":
            rs = [self.decide(st, x) for x in atom[1:]]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        return None

    def branch(self, st, t):
        """[(bool, state)] for a boolean term"""
        t = self.val(st, t)
        neg = False
        while t[0] == "not":
            neg = not neg
            t = t[1]
        r = self.decide(st, t)
        if r is not None:
            return [(r != neg, st)]
        if t[0] == "and":
            out = []
            todo = [st]
            for x in t[1:]:
                nxt = []
                for s in todo:
                    for b, s2 in self.branch(s, x):
                        if b:
                            nxt.append(s2)
                        else:
                            out.append((neg, s2))
                todo = nxt
            return out + [(not neg, s) for s in todo]
        if t[0] == "or":
            out = []
            todo = [st]
            for x in t[1:]:
                nxt = []
                for s in todo:
                    for b, s2 in self.branch(s, x):
                        if not b:
                            nxt.append(s2)
                        else:
                            out.append((not neg, s2))
                todo = nxt
            return out + [(neg, s) for s in todo]
        is_ = self.unit_variant(t)
        if is_ is not None:
            return [((n == is_[1]) != neg, s) for n, s in self.variant(st, is_[0], is_[2])]
        a, b = st.copy(), st.copy()
        a.facts[t] = True
        b.facts[t] = False
        return [(not neg, a), (neg, b)]

    def unit_variant(self, t):
        """x == Enum::V, where V has no fields and equality is derived: a question about the variant of x"""
        if t[0] != "eq":
            return None
        for x, y in ((t[1], t[2]), (t[2], t[1])):
            if y[0] == "adt" and not y[3] and x[0] != "adt":
                if y == NONE:
                    return x, "None", ["None", "Some"]
                a = self.p.adt(y[1])
                if a and a["kind"] == "Enum" and y[2] in [v["name"] for v in a["variants"]] and self.p.derives(y[1], "PartialEq"):
                    return x, y[2], [v["name"] for v in a["variants"]]
        return None

    def variant(self, st, v, names):
        """[(variant name, state)] : which variant v is, names = all variants"""
        v = self.val(st, v)
        if v[0] == "adt":
            return [(v[2], st)]
        if v[0] == "upd":
            return self.variant(st, v[1], names)
        if v[0] == "dc":
            return [(v[2], st)]
        if v[0] == "ite":
            out = []
            for b, s in self.branch(st, v[1]):
                out += self.variant(s, v[2] if b else v[3], names)
            return out
        a = ("variant", v)
        f = st.facts.get(a)
        if isinstance(f, str):
            return [(f, st)]
        left = [n for n in names if not (isinstance(f, tuple) and n in f[1])]
        out = []
        for n in left:
            s = st.copy()
            s.facts[a] = n
            out.append((n, s))
        return out

    # ------------------------------------------------------------------ running bodies
    def run(self, st, fr, bb, fid, region=None, header=None, start_fresh=True):
        """explore from bb. region: set of blocks (loop); header: the loop header.
        returns list of ('ret',st,val) ('panic',st,info) ('cont',st,None) ('exit',st,bb)"""
        blocks = fr.body["blocks"]
        loops = self.p.loops((fr.item.id, id(fr.body)), blocks)
        outs = []
        work = [(st, bb, start_fresh)]
        while work:
            st, bb, fresh = work.pop()
            self.steps += 1
            if self.steps > self.limit:
                raise TooComplex("step limit in %s" % fr.item.id)
            if len(work) + len(outs) > self.max_outs:
                raise TooComplex("too many paths in %s" % fr.item.id)
            if region is not None and not fresh:
                if bb == header:
                    outs.append(("cont", st, None))
                    continue
                if bb not in region:
                    outs.append(("exit", st, bb))
                    continue
            if bb in loops and not (bb == header and fresh):
                for o in self.exec_loop(st, fr, bb, loops[bb], fid):
                    if o[0] == "goto":
                        work.append((o[1], o[2], False))
                    else:
                        outs.append(o)
                continue
            fresh = False
            b = blocks[bb]
            self.stats["blocks"] += 1
            for s in b["s"]:
                if s[0] == "=":
                    self.write(st, fr, s[1], self.rvalue(st, fr, s[2]))
                elif s[0] == "sd":
                    pass
            t = b["t"]
            k = t[0]
            if k == "goto":
                work.append((st, t[1], False))
            elif k == "ret":
                outs.append(("ret", st, self.rd(st, ("L", fr.fid, 0))))
            elif k == "drop":
                self.do_drop(st, fr, t)
                work.append((st, t[2], False))
            elif k == "switch":
                work.extend((s2, x, False) for s2, x in self.do_switch(st, fr, t))
            elif k == "assert":
                c = self.operand(st, fr, t[1])
                for r, s2 in self.branch(st, c):
                    if r == t[2]:
                        work.append((s2, t[3], False))
                    else:
                        outs.append(("panic", s2, ("assert", t[4].split("(")[0], t[5])))
            elif k == "call":
                for o in self.do_call(st, fr, bb, t, fid):
                    if o.kind == "panic":
                        outs.append(("panic", o.st, o.val))
                    elif t[4] is None:
                        outs.append(("panic", o.st, ("diverge", callee_name(t[1]), t[5])))
                    else:
                        self.write(o.st, fr, t[3], o.val)
                        work.append((o.st, t[4], False))
            elif k in ("unreachable", "resume", "abort"):
                pass
            else:
                raise Unsupported("terminator %s in %s" % (k, fr.item.id))
        return outs

    def do_drop(self, st, fr, t):
        pass

    def do_switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        v = self.val(st, v)
        out = []
        if v[0] == "discr":
            tab = {b: n for b, n in v[2]}
            names = [n for _, n in v[2]]
            x = v[1]
            if not names:
                # niche / primitive discriminant
                a = ("discrv", x)
                for c, b in t[2]:
                    s = st.copy()
                    s.facts[("eq", a, I(int(c)))] = True
                    out.append((s, b))
                s = st.copy()
                out.append((s, t[3]))
                return out
            explicit = {tab.get(c): b for c, b in t[2]}
            for n, s in self.variant(st, x, names):
                if n in explicit:
                    out.append((s, explicit[n]))
                else:
                    if self.p_unreachable(fr, t[3]):
                        continue
                    out.append((s, t[3]))
            # keep "otherwise" as one path: merge variants that take it
            oth = [i for i, (s, b) in enumerate(out) if b == t[3] and b not in explicit.values()]
            if len(oth) > 1 and is_opaque(x):
                ns = frozenset(explicit)
                s = st.copy()
                s.facts[("variant", x)] = ("!", ns)
                out = [o for i, o in enumerate(out) if i not in oth] + [(s, t[3])]
            return out
        if t[4] == "bool":
            tgt = {c: b for c, b in t[2]}
            for r, s in self.branch(st, v):
                c = "1" if r else "0"
                out.append((s, tgt.get(c, t[3])))
            return out
        if v[0] == "int":
            for c, b in t[2]:
                if int(c) == v[1]:
                    return [(st, b)]
            return [(st, t[3])]
        if v[0] == "char":
            for c, b in t[2]:
                if chr(int(c)) == v[1]:
                    return [(st, b)]
            return [(st, t[3])]
        mk = (lambda c: ("char", chr(int(c)))) if t[4] == "char" else (lambda c: I(int(c)))
        cur = st
        for c, b in t[2]:
            a = eq(v, mk(c))
            res = self.branch(cur, a)
            cur = None
            for r, s in res:
                if r:
                    out.append((s, b))
                else:
                    cur = s
            if cur is None:
                break
        if cur is not None:
            out.append((cur, t[3]))
        return out

    def p_unreachable(self, fr, bb):
        return fr.body["blocks"][bb]["t"][0] == "unreachable"

    # ------------------------------------------------------------------ loops
    def exec_loop(self, st, fr, h, region, fid):
        self.stats["loops"] += 1
        if self.explore is not None:
            out = self.explore_loop(st, fr, h, region, fid)
            if out is not None:
                return out
        loc = self.loop_iter(st, fr, h, region)
        if loc is not None:
            it = self.proj(st, self.rd(st, loc[0]), loc[1])
            itv = it
            n = 0
            while itv[0] == "ref" and n < 10:
                loc = (itv[1], itv[2])
                itv = self.proj(st, self.rd(st, loc[0]), loc[1])
                n += 1
            itv = self.iterval(st, itv)
        if loc is not None and itv is not None:
            self.feeds += 1
            mark = ("feedmark", fid, h)

            def body(s, elem):
                s = s.copy()
                self.write_at(s, loc[0], loc[1], ("feed", elem, mark))
                res = []
                for o in self.run(s, fr, h, fid, region, h, True):
                    if o[0] == "cont":
                        res.append(("cont", o[1], None))
                    elif o[0] == "exit":
                        res.append(("break", o[1], ("exit", o[2])))
                    else:
                        res.append((o[0], o[1], o[2]))
                return res
            out = []
            for ctl, s, v in self.iterate(st, itv, body, (fid, h)):
                if ctl == "done":
                    self.write_at(s, loc[0], loc[1], ("emptyit",))
                    for o in self.run(s, fr, h, fid, region, h, True):
                        if o[0] == "exit":
                            out.append(("goto", o[1], o[2]))
                        elif o[0] == "cont":
                            raise Unsupported("loop goes on after its iterator ends in %s" % fr.item.id)
                        else:
                            out.append(o)
                elif ctl == "break":
                    out.append(("goto", s, v[1]))
                else:
                    out.append((ctl, s, v))
            return out
        # general loop
        src = ("while", fr.item.id, fid_key(fid), h)

        def body(s, elem):
            res = []
            for o in self.run(s.copy(), fr, h, fid, region, h, True):
                if o[0] == "cont":
                    res.append(("cont", o[1], None))
                elif o[0] == "exit":
                    res.append(("break", o[1], ("exit", o[2])))
                else:
                    res.append((o[0], o[1], o[2]))
            return res
        out = []
        csrc = self.counted(st, body)
        if csrc is not None:
            for ctl, s, v in self.loop_seg(st, csrc, lambda s, e: body(s, e), (fid, h)):
                if ctl == "done":
                    for o in self.run(s, fr, h, fid, region, h, True):
                        if o[0] == "exit":
                            out.append(("goto", o[1], o[2]))
                        elif o[0] == "cont":
                            raise Unsupported("counting loop goes on after its bound in %s" % fr.item.id)
                        else:
                            out.append(o)
                elif ctl == "break":
                    out.append(("goto", s, v[1]))
                else:
                    out.append((ctl, s, v))
            return out
        for ctl, s, v in self.loop_seg(st, src, body, (fid, h), infinite=True):
            if ctl == "break":
                out.append(("goto", s, v[1]))
            elif ctl != "done":
                out.append((ctl, s, v))
        return out

    def explore_loop(self, st, fr, h, region, fid):
        """fixpoint over abstract states: self.explore(self, st, fr, kind) -> (key, canonical state), or None to leave the loop to the summariser"""
        self.region = region
        first = self.explore(self, st, fr, "enter")
        if first is None:
            return None
        seen, work, out, gone = {first[0]}, [first[1]], [], set()
        while work:
            s = work.pop()
            for o in self.run(s, fr, h, fid, region, h, True):
                if o[0] == "cont":
                    k, c = self.explore(self, o[1], fr, "cont")
                    if k not in seen:
                        if len(seen) > 60:
                            raise TooComplex("abstract states of a loop in %s" % fr.item.id)
                        seen.add(k)
                        work.append(c)
                elif o[0] == "exit":
                    k = (o[2], repr(sorted(o[1].store.items(), key=repr)), repr(sorted(o[1].facts.items(), key=repr)))
                    if k not in gone:
                        gone.add(k)
                        out.append(("goto", o[1], o[2]))
                else:
                    out.append(o)
        return out

    def counted(self, st, body):
        """`while i < n { ..; i += 1 }`: the elements i runs over"""
        try:
            mods = {}
            for rnd in range(6):
                cur = st.copy()
                for l in mods:
                    cur.store[l] = ("acc", ("probe",), l)
                outs = body(cur, None)
                conts = [o for o in outs if o[0] == "cont"]
                new = {}
                for _, s, _ in conts:
                    for l, x in s.store.items():
                        if l in mods or l == "TRACE":
                            continue
                        if l in cur.store and cur.store[l] != x or l not in cur.store and l[0] == "T" and x != l[1]:
                            new[l] = True
                if not new:
                    break
                mods.update(new)
            else:
                return None
        except (TooComplex, Unsupported):
            return None
        breaks = [o for o in outs if o[0] == "break"]
        if not conts or not breaks:
            return None
        accs = {("acc", ("probe",), l): l for l in mods}
        for a, l in accs.items():
            init = st.store.get(l)
            if init is None:
                continue
            if all(s.store.get(l) == add(a, I(-1)) for _, s, _ in conts):
                for atom, v in conts[0][1].facts.items():
                    if (atom == lt(I(0), a) and v is True or atom == eq(I(0), a) and v is False) and \
                            all(s.facts.get(atom) == v for _, s, _ in conts) and any(s.facts.get(atom) == (not v) for _, s, _ in breaks):
                        return ("rev", ("range", I(0), init))
                continue
            if init[0] != "int" or not all(s.store.get(l) == add(a, I(1)) for _, s, _ in conts):
                continue
            for atom, v in conts[0][1].facts.items():
                n = None
                if atom[0] == "lt" and atom[1] == a and v is True:
                    n = atom[2]
                elif atom[0] == "eq" and a in atom[1:] and v is False:
                    n = atom[2] if atom[1] == a else atom[1]
                if n is None or any(mentions(n, x) for x in accs):
                    continue
                if not all(s.facts.get(atom) == v for _, s, _ in conts):
                    continue
                if not any(s.facts.get(atom) == (not v) for _, s, _ in breaks):
                    continue
                if n[0] == "len" and init == I(0):
                    return ("it", n[1])
                if n[0] == "count" and init == I(0):
                    return n[1]
                return ("range", init, n) if init == I(0) else None
        return None

    def loop_iter(self, st, fr, h, region):
        """place of the iterator the loop calls next() on, when that is the first thing it does"""
        s = st.copy()
        bb = h
        blocks = fr.body["blocks"]
        consts = set()
        for _ in range(12):
            b = blocks[bb]
            for x in b["s"]:
                if x[0] == "=":
                    self.write(s, fr, x[1], self.rvalue(s, fr, x[2]))
                    if x[2][0] == "use" and x[2][1][0] == "k":
                        consts.add(repr(x[1]))
            t = b["t"]
            if t[0] == "goto":
                bb = t[1]
                continue
            if t[0] == "drop":
                bb = t[2]
                continue
            if t[0] == "switch":
                if t[1][0] != "k" and repr(t[1][1]) not in consts:
                    return None
                v = self.val(s, self.operand(s, fr, t[1]))
                if v[0] not in ("bool", "int"):
                    return None
                c = str(int(v[1]))
                bb = next((x for y, x in t[2] if y == c), t[3])
                continue
            if t[0] == "call":
                if strip_generics(t[1].get("path", "")) in ("std::iter::Iterator::next", "core::iter::Iterator::next"):
                    a = self.operand(s, fr, t[2][0])
                    if a[0] == "ref":
                        return (a[1], a[2])
                    if is_opaque(a):
                        return (("T", a), ())
                return None
            return None
        return None

    def iterval(self, st, v):
        """iterator term of a value, None if it is a local iterator type"""
        if v[0] in ITER_TAGS:
            return v
        if v[0] == "adt" and v[2] in ("Some", "None"):
            return ("optit", v)
        if v[0] == "seq":
            return ("it", v)
        if v[0] == "adt":
            if v[2] == "Range" or v[1] == "Range":
                d = dict(v[3])
                return ("range", d["start"], d["end"])
            return None
        if v[0] == "ref":
            return self.iterval(st, self.val(st, v))
        return ("it", v)

    # ---- iteration, push style. body(st, elem) -> [(ctl, st, val)], ctl cont|break|ret|panic
    def iterate(self, st, it, body, key):
        k = it[0]
        if k == "emptyit":
            return [("done", st, None)]
        if k == "once":
            return self.iter_known(st, [it[1]], body)
        if k == "feed":
            return self.iter_known(st, [it[1]], body)
        if k == "optit":
            out = []
            v = self.val(st, it[1])
            for n, s in self.variant(st, v, ["None", "Some"]):
                if n == "Some":
                    out += self.iter_known(s, [self.payload(s, v, "Some")], body)
                else:
                    out.append(("done", s, None))
            return out
        if k == "it":
            v = self.val(st, it[1])
            if v[0] == "adt" and v[2] in ("Some", "None") or v in self.options:
                return self.iterate(st, ("optit", v), body, key)
            if v[0] in ITER_TAGS:
                return self.iterate(st, v, body, key)
            if v[0] == "seq":
                sts = [("done", st, None)]
                for n, x in enumerate(v[1:]):
                    nxt = []
                    for ctl, s, w in sts:
                        if ctl != "done":
                            nxt.append((ctl, s, w))
                        elif x[0] == "one":
                            nxt += self.iter_known(s, [x[1]], body)
                        elif x[0] == "spl":
                            nxt += self.iterate(s, ("it", x[1]), body, key + (n,))
                        elif x[0] == "each":
                            nxt += self.iter_each(s, x, body, key + (n,))
                        else:
                            nxt += self.loop_seg(s, ("it", ("seq", x)), body, key + (n,))
                    sts = nxt
                return sts
            return self.loop_seg(st, ("it", v), body, key)
        if k == "map":
            def b2(s, e):
                res = []
                for o in self.call_value(s, it[2], [e], key + ("m",)):
                    if o.kind == "panic":
                        res.append(("panic", o.st, o.val))
                    else:
                        res += body(o.st, o.val)
                return res
            return self.iterate(st, it[1], b2, key)
        if k == "inspect":
            def b2(s, e):
                res = []
                for o in self.call_value(s, it[2], [e], key + ("m",)):
                    res += body(o.st, e) if o.kind == "ret" else [("panic", o.st, o.val)]
                return res
            return self.iterate(st, it[1], b2, key)
        if k == "filter":
            def b2(s, e):
                res = []
                for o in self.call_value(s, it[2], [e], key + ("f",)):
                    if o.kind == "panic":
                        res.append(("panic", o.st, o.val))
                        continue
                    for r, s2 in self.branch(o.st, o.val):
                        res += body(s2, e) if r else [("cont", s2, None)]
                return res
            return self.iterate(st, it[1], b2, key)
        if k == "filter_map":
            def b2(s, e):
                res = []
                for o in self.call_value(s, it[2], [e], key + ("f",)):
                    if o.kind == "panic":
                        res.append(("panic", o.st, o.val))
                        continue
                    for n, s2 in self.variant(o.st, o.val, ["None", "Some"]):
                        res += body(s2, self.payload(s2, o.val, "Some")) if n == "Some" else [("cont", s2, None)]
                return res
            return self.iterate(st, it[1], b2, key)
        if k in ("take_while", "map_while", "skip_while"):
            src = self.as_src(st, it)
            return self.loop_seg(st, src, body, key)
        if k in ("flat_map", "flatten"):
            def b2(s, e):
                res = []
                outs = self.call_value(s, it[2], [e], key + ("m",)) if k == "flat_map" else ret(s, e)
                for o in outs:
                    if o.kind == "panic":
                        res.append(("panic", o.st, o.val))
                        continue
                    inner = models.to_iter(self, o.st, o.val)
                    for ctl, s2, v in self.iterate(o.st, inner, body, key + ("i",)):
                        res.append(("cont", s2, None) if ctl == "done" else (ctl, s2, v))
                return res
            return self.iterate(st, it[1], b2, key)
        if k == "chain":
            sts = self.iterate(st, it[1], body, key + ("a",))
            out = []
            for ctl, s, v in sts:
                if ctl == "done":
                    out += self.iterate(s, it[2], body, key + ("b",))
                else:
                    out.append((ctl, s, v))
            return out
        if k == "enumerate":
            self.hcount += 1
            loc = ("H", "enum", key)
            st = st.copy()
            st.store[loc] = I(0)

            def b2(s, e):
                i = s.store[loc]
                s = s.copy()
                s.store[loc] = add(i, I(1))
                return body(s, ("tup", i, e))
            res = self.iterate(st, it[1], b2, key)
            for _, s, _ in res:
                s.store.pop(loc, None)
            return res
        if k == "range":
            a, b = self.val(st, it[1]), self.val(st, it[2])
            if a[0] == "int" and b[0] == "int" and b[1] - a[1] <= 16:
                return self.iter_known(st, [I(i) for i in range(a[1], max(a[1], b[1]))], body)
            src = self.range_src(a, b)
            return self.loop_seg(st, src, body, key, elem=add(a, ("idx", src)) if a != I(0) else ("idx", src))
        if k == "rev":
            x = it[1]
            if x[0] == "map":
                return self.iterate(st, ("map", ("rev", x[1]), x[2]), body, key)
            if x[0] == "filter" or x[0] == "filter_map" or x[0] == "inspect":
                return self.iterate(st, (x[0], ("rev", x[1]), x[2]), body, key)
            if x[0] == "chain":
                return self.iterate(st, ("chain", ("rev", x[2]), ("rev", x[1])), body, key)
            if x[0] == "rev":
                return self.iterate(st, x[1], body, key)
            if x[0] in ("once", "optit", "emptyit", "feed"):
                return self.iterate(st, x, body, key)
            if x[0] == "it":
                ks = seq_known(self.val(st, x[1]))
                if ks is not None:
                    return self.iter_known(st, ks[::-1], body)
            if x[0] == "range":
                a, b = self.val(st, x[1]), self.val(st, x[2])
                if a[0] == "int" and b[0] == "int" and b[1] - a[1] <= 16:
                    return self.iter_known(st, [I(i) for i in range(a[1], max(a[1], b[1]))][::-1], body)
                src = ("rev", self.range_src(a, b))
                return self.loop_seg(st, src, body, key, elem=add(a, ("ridx", src[1])) if a != I(0) else ("ridx", src[1]))
            src = ("rev", self.as_src(st, x))
            return self.loop_seg(st, src, body, key)
        if k in ("skip", "take"):
            x = it[1]
            if x[0] == "map":
                return self.iterate(st, ("map", (k, x[1], it[2]), x[2]), body, key)
            n = self.val(st, it[2])
            if x[0] == "it":
                ks = seq_known(self.val(st, x[1]))
                if ks is not None and n[0] == "int":
                    return self.iter_known(st, ks[n[1]:] if k == "skip" else ks[:n[1]], body)
            if n == I(0):
                return self.iterate(st, x if k == "skip" else ("emptyit",), body, key)
            if x[0] == "emptyit":
                return [("done", st, None)]
            src = (k, self.as_src(st, x), n)
            return self.loop_seg(st, src, body, key)
        if k == "zip":
            a, b = it[1], it[2]
            if "emptyit" in (a[0], b[0]):
                return [("done", st, None)]
            sa, sb = self.as_src(st, a), self.as_src(st, b)
            src = ("zip", sa, sb)
            return self.loop_seg(st, src, body, key, elem=("tup", ("elem", ("zl", sa, sb)), ("elem", ("zr", sa, sb))))
        if k in ("peekable",):
            return self.iterate(st, it[1], body, key)
        if k == "opit":
            return self.loop_seg(st, it, body, key)
        if k == "repeat_with":
            return self.loop_seg(st, it, body, key, infinite=True)
        hook = self.overrides.get("<iterate>")
        seqs = hook(self, st, it, key) if hook else None
        if seqs is not None:
            return [x for s, v in seqs for x in self.iterate(s, ("it", v), body, key + ("h",))]
        raise Unsupported("iterator %s" % k)

    def range_src(self, a, b):
        if a == I(0):
            if b[0] == "len":
                return ("it", b[1])
            if b[0] == "count":
                return b[1]
        return ("range", a, b)

    def as_src(self, st, it):
        """canonical description of the elements an iterator yields"""
        k = it[0]
        if k == "it":
            v = self.val(st, it[1])
            if v[0] in ITER_TAGS:
                return self.as_src(st, v)
            return ("it", self.deep(st, v))
        if k == "optit":
            return ("it", self.deep(st, self.val(st, it[1])))
        if k == "map":
            inner = self.as_src(st, it[1])
            e = ("elem", inner)
            outs = self.call_value(st.copy(), it[2], [e], ("as_src",))
            if len(outs) == 1 and outs[0].kind == "ret":
                v = self.deep(outs[0].st, outs[0].val)
                if v == e:
                    return inner
                return ("mapped", inner, v)
            return ("mapped", inner, self.deep(st, it[2]))
        if k in ("filter", "filter_map", "take_while", "map_while", "skip_while", "flat_map", "inspect"):
            inner = self.as_src(st, it[1])
            if inner == ("emptyit",):
                return inner
            e = elem_of(inner)
            outs = self.call_value(st.copy(), it[2], [e], ("as_src",))
            alts = tuple(sorted(((tuple(sorted(((a, v) for a, v in o.st.facts.items() if st.facts.get(a) != v), key=repr)),
                                  self.deep(o.st, o.val)) for o in outs if o.kind == "ret"), key=repr))
            return (k, inner, alts)
        if k in ("chain", "zip"):
            a, b = self.as_src(st, it[1]), self.as_src(st, it[2])
            if k == "zip" and ("emptyit",) in (a, b):
                return ("emptyit",)
            if k == "chain":
                if a == ("emptyit",):
                    return b
                if b == ("emptyit",):
                    return a
            return (k, a, b)
        if k in ("rev", "enumerate", "peekable", "flatten"):
            a = self.as_src(st, it[1])
            return (k, a) if k != "peekable" else a
        if k in ("skip", "take"):
            n = self.val(st, it[2])
            a = self.as_src(st, it[1])
            if k == "skip" and n == I(0):
                return a
            return (k, a, n)
        return self.deep(st, it)

    def iter_known(self, st, elems, body):
        cur = [st]
        out = []
        for e in elems:
            nxt = []
            for s in cur:
                for ctl, s2, v in body(s.copy(), e):
                    if ctl == "cont":
                        nxt.append(s2)
                    else:
                        out.append((ctl, s2, v))
            cur = nxt
        return out + [("done", s, None) for s in cur]

    def iter_each(self, st, x, body, key):
        src, alts = x[1], x[2]

        def b2(s, elem):
            res = []
            for conds, ps in alts:
                s2 = s.copy()
                okk = True
                for a, v in conds:
                    if a in s2.facts and s2.facts[a] != v:
                        okk = False
                        break
                    s2.facts[a] = v
                if not okk:
                    continue
                cur = [s2]
                for p in ps:
                    nxt = []
                    for c in cur:
                        if p[0] == "one":
                            rs = body(c.copy(), p[1])
                        else:
                            rs = [("cont" if ctl == "done" else ctl, ss, v) for ctl, ss, v in
                                  self.iterate(c.copy(), ("it", seq((p,))), body, key + ("e",))]
                        for ctl, s3, v in rs:
                            if ctl == "cont":
                                nxt.append(s3)
                            else:
                                res.append((ctl, s3, v))
                    cur = nxt
                res += [("cont", s3, None) for s3 in cur]
            # alternatives without payload
            return res
        # the complement of the alternatives (no payload) is implied: nothing is appended
        # exactly one item for every element of the source: its first item is the first element's
        one_each = len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1 and alts[0][1][0][0] == "one"
        return self.loop_seg(st, src, b2, key, partial_alts=not one_each)

    def loop_seg(self, st, src, body, key, elem=None, infinite=False, partial_alts=False):
        if elem is None:
            elem = ("elem", src)
        base = st
        broken = set()
        shapes = {}        # locations whose value keeps its constructor: followed field by field
        inner = body

        def start(cur, vals):
            """the store of an iteration: symbolic values for what changes"""
            for l, sh in shapes.items():
                cur.store[l] = build(sh, l, vals)
            for l, v in vals.items():
                if l[0] != "F":
                    cur.store[l] = v

        def body(s, e):
            outs = inner(s, e)
            for o in outs:
                unpack(o[1])
            return outs

        def unpack(s):
            for l, sh in shapes.items():
                if l in s.store:
                    take(sh, l, s.store[l], s)

        def repack(s):
            for l, sh in shapes.items():
                vals = {k: v for k, v in s.store.items() if k[0] == "F" and k[1] == l}
                s.store[l] = build(sh, l, {k: vals.get(k, default(k)) for k in leaves(sh, l)})
                for k in vals:
                    del s.store[k]

        def take(sh, l, v, s, path=()):
            if sh is None:
                s.store[("F", l, path)] = v
                return
            if v[0] == "adt" and v[1:3] != sh[:2] or v[0] != "adt" and sh[0] != sh[1]:
                broken.add(l)
            for f, sub in sh[2]:
                take(sub, l, self.getf(s, v, f), s, path + (f,))

        def changed(outs, cur):
            m = set()
            for ctl, s, v in outs:
                if ctl in ("panic",):
                    continue
                for l, x in s.store.items():
                    if l in shapes:
                        continue
                    if l[0] == "F":
                        if x != (("acc", src, l) if l in mods else default(l)):
                            m.add(l)
                        continue
                    if l in cur.store:
                        if cur.store[l] != x:
                            m.add(l)
                    elif l != "TRACE" and l[0] == "T":
                        if x != l[1]:
                            m.add(l)
                    elif l == "TRACE" and x != ("seq",):
                        m.add(l)
            return m

        def default(l):
            if l == "TRACE":
                return ("seq",)
            if l[0] == "F":
                v = default(l[1])
                for f in l[2]:
                    v = self.getf(base, v, f)
                return v
            return base.store.get(l, l[1] if l[0] == "T" else ("undef",))
        def same():
            return {k: default(k) for x, sh in shapes.items() for k in leaves(sh, x)}
        def known(s, l, a):
            """the value at the end of an iteration; unchanged, but tested: what the test said"""
            v = s.store.get(l, a)
            t, neg = (a[1], True) if a[0] == "not" else (a, False)
            return ("bool", s.facts[t] != neg) if v == a and isinstance(s.facts.get(t), bool) else v
        kind = {}
        noshape = set()
        mods = set()
        # ---- which locations change, and how
        for rnd in range(8):
            cur = base.copy()
            start(cur, {**same(), **{l: ("acc", src, l) for l in mods}})
            outs = body(cur, elem)
            if broken - noshape:
                for l in broken:
                    shapes.pop(l, None)
                    mods = {x for x in mods if not (x[0] == "F" and x[1] == l)}
                noshape |= broken
                mods |= broken
                continue
            m = changed([o for o in outs if o[0] == "cont"], cur)
            new = m - mods
            if not new:
                break
            for l in sorted(new, key=repr):
                sh = None
                if l[0] in ("L", "H", "T") and l not in noshape and default(l)[0] == "adt":
                    sh = default(l)
                    for o in outs:
                        if o[0] == "cont" and l in o[1].store:
                            sh = common(sh, o[1].store[l])
                    sh = shape(sh)
                if sh is not None:
                    shapes[l] = sh
                else:
                    mods.add(l)
        else:
            raise TooComplex("loop does not stabilise")
        conts = [o for o in outs if o[0] == "cont"]
        for l in mods:
            a = ("acc", src, l)
            init = default(l)
            ks = set()
            for _, s, _ in conts:
                nv = s.store.get(l, a)
                ks.add(self.classify(nv, a, init))
            ks.discard("same")
            if not ks:
                kind[l] = "same"
            elif len(ks) == 1:
                kind[l] = ks.pop()
            elif ks <= {"cat", "seq"}:
                kind[l] = "havoc"
            else:
                kind[l] = "havoc"
        # ---- second pass with in-iteration values
        cur = base.copy()
        inval = {}
        for l in mods:
            k = kind[l]
            init = default(l)
            a = ("acc", src, l)
            if k == "countif" and src == ("rev", ("range", I(0), init)) and all(s.store.get(l, a) == add(a, I(-1)) for _, s, _ in conts):
                kind[l] = "down"
                inval[l] = add(elem, I(1))
            elif k == "count1":
                # every continuing path increments by one?
                full = all(s.store.get(l, a) != a for _, s, _ in conts)
                if full and not partial_alts and not any(c[0] == "while" for c in (src,)):
                    inval[l] = add(init, ("idx", src)) if init != I(0) else ("idx", src)
                else:
                    kind[l] = "countif"
                    inval[l] = a
            elif isinstance(k, tuple) and k[0] == "flag":
                full = all(known(s, l, a) == k[1] for _, s, _ in conts)
                if full and init[0] == "bool" and not partial_alts and src[0] != "while":
                    fp = ("firstp", src)
                    inval[l] = fp if init == TRUE else bnot(fp)
                    if init == k[1]:
                        inval[l] = init
                else:
                    inval[l] = a
            elif k == "havoc":
                inval[l] = ("loopv", key_str(src, l))
            else:
                inval[l] = a
        start(cur, {**same(), **inval})
        outs = body(cur, elem)
        if broken - noshape:
            raise TooComplex("loop does not stabilise")
        conts = [o for o in outs if o[0] == "cont"]
        basef = base.facts
        altsof = {}
        for _, s, _ in conts:
            conds = tuple((a, v) for a, v in s.facts.items() if basef.get(a) != v)
            altsof[id(s)] = conds
        final = base.copy()
        info = {"src": src, "key": key, "locs": {}, "breaks": []}
        for l in mods:
            k = kind[l]
            init = default(l)
            a = inval[l]
            if k == "same":
                final.store[l] = init
                continue
            if k == "down":
                final.store[l] = I(0)
                continue
            if k in ("cat", "seq"):
                alts = []
                bad = False
                for _, s, _ in conts:
                    nv = s.store.get(l, a)
                    p = self.appended(nv, a, k)
                    if p is None:
                        bad = True
                        break
                    alts.append((altsof[id(s)], p))
                if not bad:
                    alts = self.clean_alts(alts, conts, altsof, base)
                    e = mk_each(src, alts, k)
                    final.store[l] = cat(init, *e) if k == "cat" else seq(seq_items(init) + tuple(e))
                else:
                    final.store[l] = ("loopout", key_str(src, l), src)
            elif k == "count1":
                final.store[l] = add(init, count(src))
            elif k == "countif":
                cs = []
                for _, s, _ in conts:
                    nv = s.store.get(l, a)
                    if nv != a:
                        cs.append((frozenset(altsof[id(s)]), nv[2] if nv[0] == "add" else nv))
                    else:
                        cs.append((frozenset(altsof[id(s)]), I(0)))
                cs = merge_alts(cs)
                cs = tuple(sorted(((tuple(sorted(c, key=repr)), p) for c, p in cs if p != I(0)), key=repr))
                final.store[l] = add(init, ("countif", src, cs))
            elif isinstance(k, tuple) and k[0] == "flag":
                c = k[1]
                if init == c:
                    final.store[l] = init
                else:
                    full = all(known(s, l, a) == c for _, s, _ in conts)
                    if full and init[0] == "bool" and c[0] == "bool" and not partial_alts:
                        es = empty_src(src)
                        final.store[l] = es if init == TRUE else bnot(es)
                    elif init[0] == "bool" and c[0] == "bool":
                        cs = []
                        for _, s, _ in conts:
                            cs.append((frozenset(altsof[id(s)]), s.store.get(l, a) == c))
                        cs = [(cc, p) for cc, p in merge_alts(cs) if p]
                        t = ("any", src, tuple(sorted((tuple(sorted(cc, key=repr)) for cc, p in cs), key=repr)))
                        final.store[l] = t if c == TRUE else bnot(t)
                    else:
                        final.store[l] = ("ite", empty_src(src), init, c) if full else ("loopout", key_str(src, l), src)
            else:
                tr = tuple(sorted({(tuple(sorted(altsof[id(s)], key=repr)), self.deep(s, s.store.get(l, a))) for _, s, _ in conts}, key=repr))
                self.loopv[key_str(src, l)] = (init, tr)
                final.store[l] = ("loopout", key_str(src, l), src)
                info["locs"][l] = (init, tr)
        res = []
        exits = [o for o in outs if o[0] != "cont"]
        neg = []
        for ctl, s, v in exits:
            s = s.copy()
            conds = frozenset((a, x) for a, x in s.facts.items() if basef.get(a) != x)
            for l in mods:
                k = kind[l]
                nv = s.store.get(l)
                if nv is None:
                    continue
                if k in ("cat", "seq"):
                    init = default(l)
                    p = self.appended(nv, inval[l], k)
                    if p is not None:
                        pre = ("before", src)
                        fin = final.store[l]
                        # everything appended by the iterations before this one
                        done = fin[1 + len(cat_items(init)):] if False else None
                        full = cat_items(fin) if k == "cat" else seq_items(fin)
                        ini = cat_items(init) if k == "cat" else seq_items(init)
                        mid = tuple(("part", x) for x in full[len(ini):]) if full[:len(ini)] == ini else (("part", ("?",)),)
                        s.store[l] = cat(init, *(mid + p)) if k == "cat" else seq(ini + mid + p)
            found = ("found", src, conds)
            if conds or not infinite:
                s.facts[found] = True
                neg.append(found)
            repack(s)
            res.append((ctl, s, v))
        if not infinite:
            for f in neg:
                final.facts[f] = False
            repack(final)
            res.append(("done", final, None))
        # drop temporaries of the iteration that were not there before
        return res

    def clean_alts(self, alts, conts, altsof, base):
        return alts

    def classify(self, nv, a, init):
        if nv == a:
            return "same"
        if nv[0] == "cat" and nv[1] == a and not any(mentions(x, a) for x in nv[2:]):
            return "cat"
        if nv[0] == "seq" and len(nv) > 1 and nv[1] == ("spl", a):
            return "seq"
        if nv[0] == "add" and nv[1] == a and nv[2][0] == "int":
            return "count1" if nv[2] == I(1) else "countif"
        if nv[0] in ("bool", "int", "str", "char") or (nv[0] == "adt" and not nv[3]):
            return ("flag", nv)
        return "havoc"

    def appended(self, nv, a, k):
        if nv == a:
            return ()
        if k == "cat" and nv[0] == "cat" and nv[1] == a:
            return nv[2:]
        if k == "seq" and nv[0] == "seq" and len(nv) > 1 and nv[1] == ("spl", a):
            return nv[2:]
        return None

    # ------------------------------------------------------------------ calls
    def run_fn(self, st, item, args, fid, trusted=True):
        """outcomes of an item applied to argument values"""
        if item.id in self.symbols:
            self.next_env = None
            return ret(st, call(self.symbols[item.id], *[self.deep(st, a) for a in args]))
        body = item["body"]
        self.stats["functions"].add(item.id)
        if len(self.stack) > 60:
            raise TooComplex("call depth in %s" % item.id)
        self.stack.append(item.id)
        env = self.next_env
        self.next_env = None
        if env is None and "generics" not in item:      # a closure sees the type parameters of its function
            env = next((e for i, e in reversed(self.envs) if item.id.startswith(i + "::")), None)
        self.envs.append((item.id, env))
        try:
            fr = Frame(item, body, fid)
            st = st.copy()
            for i, a in enumerate(args):
                st.store[("L", fid, i + 1)] = a
            outs = self.run(st, fr, 0, fid)
        finally:
            self.stack.pop()
            self.envs.pop()
        res = []
        for o in outs:
            if o[0] == "ret":
                v = self.escape(o[1], o[2], fid)
                s = o[1]
                s.store = {l: x for l, x in s.store.items() if not (l[0] == "L" and l[1] == fid)}
                res.append(Out("ret", s, v))
            elif o[0] == "panic":
                s = o[1]
                s.store = {l: x for l, x in s.store.items() if not (l[0] == "L" and l[1] == fid)}
                res.append(Out("panic", s, o[2]))
            else:
                raise Unsupported("loop control outside of loop in %s" % item.id)
        return self.merge(res)

    def escape(self, st, v, fid):
        """resolve references to locals of the frame that ends (only temporaries of constants can occur)"""
        if not isinstance(v, tuple):
            return v
        if v[0] == "ref" and v[1][0] == "L" and v[1][1] == fid:
            x = self.proj(st, self.rd(st, v[1]), v[2])
            return self.escape(st, x, fid)
        if v[0] in ("adt",):
            return ("adt", v[1], v[2], tuple((a, self.escape(st, b, fid)) for a, b in v[3]))
        if v[0] == "tup":
            return ("tup",) + tuple(self.escape(st, x, fid) for x in v[1:])
        if v[0] in ("clo",):
            return ("clo", v[1], tuple(self.escape(st, x, fid) for x in v[2]))
        if v[0] == "seq":
            return ("seq",) + tuple((x[0], self.escape(st, x[1], fid)) if x[0] in ("one", "spl") else x for x in v[1:])
        if v[0] in ITER_TAGS or v[0] in ("nom", "call", "upd"):
            return tuple(self.escape(st, x, fid) if isinstance(x, tuple) else x for x in v)
        return v

    def merge(self, outs):
        """merge outcomes that differ in complementary facts only"""
        groups = {}
        order = []
        for o in outs:
            key = (o.kind, o.val if o.kind == "ret" else repr(o.val), frozenset(o.st.store.items()))
            if key not in groups:
                groups[key] = []
                order.append(key)
            groups[key].append(o)
        res = []
        for k in order:
            g = groups[k]
            if len(g) == 1:
                res.append(g[0])
                continue
            alts = merge_alts([(frozenset(o.st.facts.items()), 1) for o in g])
            for c, _ in alts:
                base = g[0]
                for o in g:
                    if frozenset(o.st.facts.items()) == c:
                        base = o
                        break
                s = State(dict(base.st.store), {})
                # keep a deterministic order
                allf = {}
                for o in g:
                    for a in o.st.facts:
                        allf[a] = None
                d = dict(c)
                for a in allf:
                    if a in d:
                        s.facts[a] = d[a]
                res.append(Out(base.kind, s, base.val))
        return res

    def do_call(self, st, fr, bb, t, fid):
        f = self.subst(t[1])
        args = [self.operand(st, fr, a) for a in t[2]]
        cid = fid + ((fr.item.id.split("::", 1)[-1], bb),)
        if "dynop" in f:
            fv = self.operand(st, fr, f["dynop"])
            return self.call_value(st, fv, args, cid)
        return self.call(st, f, args, cid, t[5])

    def call_value(self, st, fv, args, cid):
        """call a closure / fn item / opaque function value"""
        v = fv
        n = 0
        while v[0] == "ref" and n < 20:
            v = self.val(st, v)
            n += 1
        if v[0] == "clo":
            it = self.p.get(v[1])
            if it is None or "body" not in it:
                return ret(st, call("apply", v, *args))
            ty = it["body"]["locals"][1][0] if len(it["body"]["locals"]) > 1 else ""
            self_arg = fv if fv[0] == "ref" and fv[1][0] != "V" else v
            self_arg = v if not (fv[0] == "ref") else fv
            if it["id"] in self.stack:
                return ret(st, call("rec", ("item", it["id"]), *args))
            return self.run_fn(st, it, [self_arg] + list(args), cid + (v[1],))
        if v[0] == "fnitem":
            return self.call(st, v[1].d, list(args), cid, None)
        if v[0] == "nom":
            return ret(st, ("papply", self.deep(st, v), self.deep(st, args[0])))
        a = [self.deep(st, x) for x in args]
        return self.opaque_call(st, "apply", [v] + a, None)

    def subst(self, f):
        """the callee with the type parameters of the running function replaced"""
        env = self.envs[-1][1] if self.envs else None
        if not env or not f.get("args"):
            return f
        pat = re.compile(r"(?<![\w:])(%s)(?![\w:])" % "|".join(map(re.escape, env)))
        args = [pat.sub(lambda m: env[m.group(1)], x) for x in f["args"]]
        if args == f["args"]:
            return f
        f = dict(f, args=args)
        if f.get("self"):
            f["self"] = pat.sub(lambda m: env[m.group(1)], f["self"])
        if f.get("trait") and not f.get("resolved") and not args[0].startswith("<"):
            for m in self.p.trait_method(short(f["trait"]), short(args[0]), f.get("name")):
                im = m.get("impl") or {}
                if not im.get("derived") and (len(args) < 2 or not im.get("targs") or im["targs"][0] == args[1]):
                    f["rid"] = m.id
                    f["resolved"] = True
                    break
        return f

    def call(self, st, f, args, cid, span):
        self.stats["calls"] += 1
        if f.get("ctor"):
            if f.get("ctor_adt", "").endswith("borrow::Cow"):
                return ret(st, args[0])
            return ret(st, ("adt", short_path(f.get("ctor_adt", "?")), f.get("ctor_variant", "?"),
                            tuple((str(i), a) for i, a in enumerate(args))))
        path = norm_path(f.get("path", "?"))
        name = f.get("name", path.split("::")[-1])
        h = self.overrides.get(path) or self.overrides.get(f.get("rid") or path) or self.overrides.get(name if "::" not in name else None)
        if h is not None:
            r = h(self, st, f, args, cid)
            if r is not None:
                return r
        if path.startswith("nom::"):
            r = peg.nom_call(self, st, f, args, cid)
            if r is not None:
                return r
        if it_closure(self.p, f) and name in ("call", "call_mut", "call_once"):
            return MODELS["std::ops::Fn::call"](self, st, f, args, cid)
        # local trait impls take precedence over models of the trait method
        rid = f.get("rid") or f.get("id")
        it = self.p.get(rid) if rid else None
        if it is not None and "body" not in it:
            it = None
        if it is not None and it.get("in_trait") and f.get("trait") and not f.get("resolved", True):
            it = None
        if it is not None and (it.id in self.opaque or it.get("name") in self.opaque and not it.get("impl", {}).get("derived")):
            return self.opaque_call(st, it, args, f)
        if it is not None and self.stack.count(it.id) > self.recursion:
            return self.opaque_call(st, it, args, f)
        env = None
        if it is not None and not f.get("trait") and len(it.get("generics") or []) == len(f.get("args") or []):
            env = {k: v for k, v in zip(it.get("generics") or [], f.get("args") or []) if k != v} or None
        if it is not None and not it.get("impl", {}).get("derived"):
            self.next_env = env
            return self.run_fn(st, it, args, cid)
        m = MODELS.get(path) or MODELS.get(f.get("trait", "") and (norm_path(f["trait"]) + "::" + name))
        if m is not None:
            r = m(self, st, f, args, cid)
            if r is not None:
                return r
        if it is not None:
            return self.run_fn(st, it, args, cid)
        return self.opaque_call(st, path, args, f)

    def opaque_call(self, st, what, args, f):
        if isinstance(what, str):
            name = what
        else:
            name = what["id"]
        key = norm_path(f.get("path", name)) if f else name
        self.stats["opaque"][key] = self.stats["opaque"].get(key, 0) + 1
        dargs = [self.deep(st, a) for a in args]
        sname = opaque_name(f, name)
        im = None if isinstance(what, str) else what.get("impl")
        if im and not im.get("trait"):
            sname = short(im["self"]) + "::" + what["name"]
        h = self.nonterm.get(sname.split("::")[-1]) or self.nonterm.get(key)
        if h is not None:
            r = h(self, st, f, args, dargs)
            if r is not None:
                return r
        t = call(sname, *dargs)
        if sname in PURE or sname.split("::")[-1] in PURE_LAST or sname in self.no_trace or key in self.no_trace:
            return ret(st, t)
        return self.event(st, sname, args, dargs)

    def event(self, st, name, args, dargs, result=None):
        st = st.copy()
        ev = ("ev", name) + tuple(dargs)
        tr = st.trace()
        n = sum(1 for x in tr[1:] if x == ("one", ev)) if tr[0] == "seq" else 0
        if n:
            ev = ev + (("#", n),)
        st.store["TRACE"] = seq(seq_items(tr) + (("one", ev),))
        t = call(name, *dargs) if not n else call(name, *(tuple(dargs) + (("#", n),)))
        # &mut arguments to frame locals are changed
        for a in args:
            if a[0] == "ref" and a[1][0] in ("L", "H"):
                old = self.proj(st, self.rd(st, a[1]), a[2])
                if old[0] in ("str", "cat", "seq", "int") and f_mut(name):
                    self.write_at(st, a[1], tuple(a[2]), ("mut", name, self.deep(st, old)))
        return ret(st, result if result is not None else t)


def it_closure(p, f):
    it = p.get(f.get("rid") or f.get("id") or "")
    return it is not None and it.get("kind") == "Closure" and bool(f.get("trait"))


class _Callee:
    __slots__ = ("d", "k")

    def __init__(self, d):
        self.d = d
        self.k = (d.get("rid") or d.get("id") or d.get("path"), tuple(d.get("args", [])))

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return isinstance(o, _Callee) and o.k == self.k

    def __repr__(self):
        return "fn:" + str(self.d.get("path"))

    def __lt__(self, o):
        return repr(self) < repr(o)


MUTATORS = {"retain", "truncate", "clear", "sort", "dedup", "reverse", "insert", "remove", "insert_str", "drain", "swap",
            "swap_remove", "sort_by", "sort_unstable", "rotate_left", "rotate_right", "resize", "make_ascii_lowercase",
            "sort_by_key", "dedup_by_key", "split_off", "fill"}


def f_mut(name):
    return name.split("::")[-1] in MUTATORS


def common(a, b):
    """the constructors two values share"""
    if a is None or b is None or a[0] != "adt":
        return None
    if a[0] == "shape":
        return None
    if b[0] == "adt" and a[1:3] == b[1:3] and [f for f, _ in a[3]] == [f for f, _ in b[3]] and a[3]:
        return ("adt", a[1], a[2], tuple((f, common(x, y)) for (f, x), (_, y) in zip(a[3], b[3])))
    return None


def shape(c):
    if c is None or c[0] != "adt" or not c[3]:
        return None
    return (c[1], c[2], tuple((f, shape(x)) for f, x in c[3]))


def leaves(sh, l, path=()):
    if sh is None:
        return [("F", l, path)]
    return [k for f, sub in sh[2] for k in leaves(sub, l, path + (f,))]


def build(sh, l, vals, path=()):
    if sh is None:
        return vals[("F", l, path)]
    return ("adt", sh[0], sh[1], tuple((f, build(sub, l, vals, path + (f,))) for f, sub in sh[2]))


def elem_of(src):
    if src[0] == "zip":
        return ("tup", ("elem", ("zl", src[1], src[2])), ("elem", ("zr", src[1], src[2])))
    return ("elem", src)


def key_str(src, l):
    if l[0] == "F":
        return key_str(src, l[1]) + (l[2],)
    return ("lk", src[0], src, l if isinstance(l, str) else (l[0], l[-1] if l[0] == "L" else l[1]))


def fid_key(fid):
    return len(fid)


def callee_name(f):
    return f.get("path", "dyn")


def norm_path(p):
    p = strip_generics(p)
    if p.startswith("core::"):
        p = "std::" + p[6:]
    elif p.startswith("alloc::"):
        p = "std::" + p[7:]
    return p


def short_path(p):
    return strip_generics(p).split("::")[-1]


def opaque_name(f, name):
    """name of an opaque call: Type::method or function path"""
    if f is None:
        return name
    p = norm_path(f.get("path", name))
    parts = p.split("::")
    if f.get("trait") or (len(parts) >= 2 and parts[-2][:1].isupper()):
        own = parts[-2] if len(parts) > 1 else ""
        return parts[-1] if f.get("trait") and own in STD_TRAITS else own + "::" + parts[-1]
    return "::".join(parts[-2:]) if len(parts) > 1 else p


STD_TRAITS = {"Iterator", "IntoIterator", "Into", "From", "TryInto", "TryFrom", "FromStr", "Deref", "DerefMut", "AsRef",
              "AsMut", "Borrow", "BorrowMut", "Clone", "ToOwned", "ToString", "Extend", "PartialEq", "PartialOrd", "Fn",
              "FnMut", "FnOnce", "Default", "Display", "Hash"}

TRANSPARENT = {"Box", "Unique", "NonNull", "MaybeUninit", "ManuallyDrop", "MaybeDangling", "Pin"}


def transparent_adt(p):
    if not p:
        return False
    return short_path(p) in TRANSPARENT


PURE = set()
PURE_LAST = {"is_some", "len", "clone", "replace", "contains", "starts_with", "ends_with", "trim", "parse_str", "chars",
             "as_str", "upgrade", "downgrade", "try_into", "into", "from", "try_from", "from_str", "to_string", "deref",
             "as_ref", "span", "call_site", "mixed_site", "unraw", "eq", "cmp", "partial_cmp", "max_level", "char_indices",
             "bytes", "as_bytes", "split", "lines", "find", "rfind", "split_at", "get", "first", "last", "file", "line",
             "column", "caller", "is_alphanumeric", "is_alphabetic", "is_ascii_alphanumeric", "is_ascii_alphabetic",
             "is_ascii_digit", "is_whitespace", "is_numeric", "is_ascii", "is_digit", "hash", "type_id", "default",
             "encode_style", "trim_start", "trim_end", "strip_prefix", "strip_suffix", "split_once", "to_lowercase",
             "to_uppercase", "repeat", "is_char_boundary", "capacity", "as_char", "spacing", "apply", "le", "lt", "ge", "gt", "rec",
             "ne", "min", "max", "to_ascii_lowercase", "eq_ignore_ascii_case", "value", "delim_span", "delimiter",
             "Location::caller", "unwrap_raw", "as_slice", "position", "any", "all", "loc", "slice", "slice_from", "slice_to",
             "is_empty", "from_error_kind", "from_external_error", "add_context", "subsec_nanos", "concat", "join"}

from . import models  # noqa: E402,F401
from . import peg  # noqa: E402,F401
