"""Equality and hash of the types a style key is made of (C13)."""
from checks.types import *
from checks.mgr import *
from lib.interp import Interp, State

SELF, OTHER = ("arg", "self"), ("arg", "other")
POINTER = ("as_ptr", "addr", "ptr_eq", "type_id", "addr_of", "from_ref")
CONTENT = {"Cow", "Vec", "String", "Option", "Box", "Rc", "Arc", "Global", "PhantomData"}


def h_hash(ip, st, f, args, cid):
    return ip.event(st, "hash", args, [ip.deep(st, a) for a in args], UNIT)


def outcomes(P, it, names):
    ip = Interp(P, overrides={"hash": h_hash})
    return ip.run_fn(State(), it, [("arg", n) for n in names], (it.id,))


def side(base, a, v, f):
    if a["kind"] == "Enum":
        return ("pay", base, v, f)
    return ("fld", base, f)


def conj(v):
    if v == TRUE:
        return []
    if v[0] == "and":
        return [x for y in v[1:] for x in conj(y)]
    return [v]


def same(x, y):
    return eq(x, y)


def equality(r, P, a):
    """a type's == holds only between values that agree in every field"""
    it = method(P, a["name"], "eq", "PartialEq")
    if it is None:
        return r.bad("eq", a["name"], "no equality found")
    r.fn(it)
    outs = outcomes(P, it, ("self", "other"))
    names = [v["name"] for v in a["variants"]]
    enum = a["kind"] == "Enum"
    cross = False
    seen = set()
    for o in outs:
        if o.kind != "ret":
            r.bad("eq", a["name"], "comparison may panic when %s" % facts_str(o), where_of(it))
            continue
        true = {t for t, v in o.st.facts.items() if v is True} | set(conj(o.val))
        false = {t for t, v in o.st.facts.items() if v is False and t[0] == "eq"}
        vs = [v for v in names if not enum or allowed(o, SELF, v)]
        ws = [v for v in names if not enum or allowed(o, OTHER, v)]
        for v in vs:
            for w in ws:
                fv = fields(a, v)
                fw = fields(a, w)
                if v != w and not enum:
                    continue
                disc = next((t for t in true | false if t[0] == "eq" and "discr" in repr(t)), None)
                if disc is not None and ((disc in false) == (v == w)):
                    continue          # infeasible
                if o.val == FALSE:
                    if v == w:
                        wants = [same(side(SELF, a, v, f), side(OTHER, a, v, f)) for f in fv]
                        good = any(x in false for x in wants)
                        # a stronger reason: a nested comparison failed
                        good = good or any(f2 and any(is_under(s, side(SELF, a, v, f)) for s in walk(f2) for f in fv) for f2 in false)
                        r.check(good, "eq-false", a["name"], "%s: differ although nothing was found unequal (%s)" % (v, facts_str(o)), where_of(it))
                    continue
                if v == w:
                    seen.add(v)
                    for f in fv:
                        want = same(side(SELF, a, v, f), side(OTHER, a, v, f))
                        if want == TRUE or want in true:
                            r.ok("eq-field", "%s.%s" % (a["name"], f))
                        else:
                            r.bad("eq-field", "%s::%s.%s" % (a["name"], v, f), "values are equal although this field is not compared (%s; %s)"
                                  % (facts_str(o), show(o.val)[:200]), where_of(it))
                else:
                    good = len(fv) == len(fw) == 1 and same(side(SELF, a, v, fv[0]), side(OTHER, a, w, fw[0])) in true
                    cross = cross or good
                    r.check(good, "eq-kind", "%s: %s/%s" % (a["name"], v, w), "values of different kinds are equal when %s: %s"
                            % (facts_str(o), show(o.val)[:200]), where_of(it))
    r.check(seen == set(names), "eq-covers", a["name"], "never equal: %s" % sorted(set(names) - seen), where_of(it))
    return cross


def where_of(it):
    return "%s:%s" % tuple(it["span"]) if it.get("span") else None


def allowed(o, t, v):
    from lib.spec import matches
    return matches(o.st.facts.get(("variant", t)), v)


def fields(a, v):
    return [f["name"] for x in a["variants"] if x["name"] == v for f in x["fields"]]


def hashing(r, P, a, cross):
    """a type's hash is a function of the fields its equality compares"""
    it = method(P, a["name"], "hash", "Hash")
    if it is None:
        return r.bad("hash", a["name"], "no hash found")
    r.fn(it)
    n = 0
    for o in outcomes(P, it, ("self", "state")):
        if o.kind != "ret":
            r.bad("hash", a["name"], "hashing may panic", where_of(it))
            continue
        for e in o.st.trace()[1:]:
            e = e[1] if e[0] == "one" else e
            if e[0] != "ev":
                for x in walk(e):
                    if x[:1] == ("ev",):
                        n += 1
                        hashed(r, a, x, cross, it)
                continue
            n += 1
            hashed(r, a, e, cross, it)
    r.floor("hashed fields of " + a["name"], n, 1)


def hashed(r, a, e, cross, it):
    t = e[2] if len(e) > 2 else UNIT
    disc = any(isinstance(x, tuple) and x and (x[0] == "discr" or x[0] == "call" and str(x[1]).endswith("discriminant")) for x in walk(t))
    ptr = any(x[0] == "call" and len(x) > 1 and str(x[1]).split("::")[-1] in POINTER for x in walk(t) if x and isinstance(x[0], str))
    foreign = any(x[0] == "arg" and x not in (SELF, ("arg", "state")) or x[0] in ("static", "tls") for x in walk(t) if x and isinstance(x[0], str))
    fresh = any(x[0] == "call" and len(x) > 1 and x[1] in ENTROPY for x in walk(t) if x)
    r.check(not (disc and cross), "hash-storage", a["name"], "equal values hash differently: the variant is hashed, but variants compare equal", where_of(it))
    r.check(not (ptr or foreign or fresh), "hash-fields", a["name"], "the hash depends on more than the fields: %s" % show(t)[:200], where_of(it))


def identity(r, cfg):
    P = prog(cfg)
    ads, met = closure(P, "StyleKey")
    r.floor("types of a style key", len(ads), 8)
    for h, where in met:
        if h[0] == "adt" and h[1].split("::")[0] not in P.by_crate and P.adt(short(h[1])) is None:
            r.check(short(h[1]) in CONTENT, "content-type", where, "compares by something else than content: %s" % h[1])
        elif h[0] not in ("adt", "ref", "str", "slice", "prim", "bool", "char", "int", "uint", "param", "tup", "tuple", "array"):
            r.bad("content-type", where, "compares by something else than content: %s" % (h,))
    for a in ads:
        r.count("types")
        cross = equality(r, P, a)
        hashing(r, P, a, cross)
        for m in ("ne",):
            it = method(P, a["name"], m, "PartialEq")
            r.check(it is None, "eq", "%s (ne)" % a["name"], "overrides ne", where_of(it) if it else None)
