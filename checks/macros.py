"""Code generated by the macros: every Reify implementation is summarised to (generated tokens, usage reported to its context); the
tokens are parsed as Rust expressions and compared with the node they stand for."""
from checks.mgr import *
from checks import rust_tokens as RT

SELF = ("arg", "self")
CTX = ("H", "ctx")
U0 = ("arg", "u0")


# ---------------------------------------------------------------- usage: the join of a list of kinds
def uitems(u):
    if u[0] == "adt":
        return () if u[2] == "Const" else (("one", u),)
    if u[0] == "seq":
        return u[1:]
    return (("spl", u),) if u[0] in ("acc",) else (("one", u),)


def join(a, b):
    return ("seq",) + uitems(a) + uitems(b)


def h_join(ip, st, f, args, cid):
    if len(args) != 2:
        return None
    return ret(st, join(*[ip.deep(st, ip.val(st, x)) for x in args]))


def h_extreme(which):
    """`min` of kinds whose derived order goes from dynamic to constant (or `max` of the opposite) is their join"""
    def h(ip, st, f, args, cid):
        if len(args) != 2 or short((f.get("args") or [""])[0]) != "ExpressionKind" or not ip.p.derives("ExpressionKind", "Ord"):
            return None
        order = [v["name"] for v in ip.p.adt("ExpressionKind")["variants"]]
        if order != (DOWN if which == "min" else DOWN[::-1]):
            return None
        return h_join(ip, st, f, args, cid)
    return h


DOWN = ["Dynamic", "Static", "Const"]


@functools.lru_cache(None)
def joins(P):
    """the functions of two kinds that return a kind"""
    is_k = lambda t: str(t).count("ExpressionKind") == 1
    return [i for i in P.fns() if "body" in i and i.get("crate") == "stylist_macros" and not (i.get("impl") or {}).get("derived") and
            len(i.get("inputs") or ()) == 2 and all(is_k(t) for t in i["inputs"]) and is_k(i.get("output"))]


def is_usage(v):
    return v[0] == "seq" or v[0] == "adt" and v[1] == "ExpressionKind" or v[0] == "fld" and v[2] == "usage"


def h_reify(ip, st, f, args, cid):
    if len(args) != 2:
        return None
    st = st.copy()
    x = ip.deep(st, ip.val(st, args[0]))
    c = ip.val(st, args[1])
    u = ip.deep(st, ip.getf(st, c, "usage"))
    ip.write_ref(st, args[1], ("adt", "ReifyContext", "ReifyContext", (("usage", join(u, call("usage", x))),)))
    return ret(st, call("tokens", x))


def h_coalesce(ip, st, f, args, cid):
    """adjacent literals may be merged: the fragments' text in order is the same (fragment_coalesce is checked on its own)"""
    if len(args) == 2 and "fragment_coalesce" in show(args[1]) and args[1][0] == "fnitem":
        return ret(st, args[0])
    return None


OV = {"into_token_stream": h_reify, "min": h_extreme("min"), "max": h_extreme("max"), "coalesce": h_coalesce}


def interp_for(P, extra=None, opaque=()):
    return Interp(P, overrides={**OVERRIDES, **OV, **{i.id: h_join for i in joins(P)}, **(extra or {})}, opaque=opaque)


def context():
    return ("adt", "ReifyContext", "ReifyContext", (("usage", ("seq", ("one", U0))),))


def reify_impls(P):
    out = {}
    for it in P.fns():
        im = it.get("impl")
        if im and im.get("trait") and short(im["trait"]) == "Reify" and it.get("name") == "into_token_stream":
            out[short(im["self"])] = it
    return out


@functools.lru_cache(None)
def reified(iid):
    P = prog("host")
    it = P.get(iid)
    ip = interp_for(P)
    st = State()
    st.store[CTX] = context()
    a = [("arg", n) for n in args_of(it)]
    return ip.run_fn(st, it, [SELF, ("ref", CTX, ())], (it.id,))


def usage_after(o):
    c = o.st.store.get(CTX)
    return dict(c[3]).get("usage", UNIT) if c and c[0] == "adt" else UNIT


ALL = {"Dynamic", "Static", "Const"}


def kinds(fact):
    if isinstance(fact, str):
        return {fact}
    return set(fact[1]) if fact[0] == "|" else ALL - set(fact[1])


def bounded(o):
    """{usage item: kinds it may be}: what the facts say about joins bounds every member"""
    out = {}
    order = {"Const": 0, "Static": 1, "Dynamic": 2}
    for a, f in o.st.facts.items():
        if a[0] == "variant" and (a[1] == U0 or a[1][0] == "seq" or a[1][:2] == ("call", "usage") or a[1][0] == "fld" and a[1][2] == "usage"):
            top = max(order[k] for k in kinds(f) & ALL) if kinds(f) & ALL else 2
            for it in uitems(a[1]):
                for m in members(it):
                    out[m] = min(out.get(m, 2), top)
    return out


def members(it):
    if it[0] == "each":
        for c, ps in it[2]:
            for p in ps:
                yield ("each", it[1], p[1])
    elif it[0] == "one":
        yield it[1]
    elif it == ("spl", ("adt", "ExpressionKind", "Const", ())):
        pass
    else:
        yield it


def part_usage(x, src=None):
    """the usage item that stands for an interpolated part"""
    if x[0] == "child":
        u = call("usage", x[1])
        if x[1][0] == "adt" and x[1][2] == "Str" and x[1][1] == "OutputCowString":
            return None          # literal text
        if x[1][0] == "adt" and x[1][2] == "Raw":
            return [m for i in uitems(dict(dict(x[1][3])["1"][3])["usage"]) for m in members(i)] + [u]
        return [u]
    v = x[1]
    if v[0] == "pay" and v[2] == "Raw" and v[3] == "0":
        return [("fld", ("pay", v[1], "Raw", "1"), "usage")]
    return []


def parts(items, src=None):
    """(part, source it is repeated over or None)"""
    for x in items:
        if x[0] in ("child", "user"):
            yield x, src
        elif x[0] == "grp":
            yield from parts(x[2], src)
        elif x[0] == "each":
            for c, xs in x[2]:
                yield from parts(xs, x[1])


def usage_rules(r, rule):
    """what a node reports to its context covers all it contains; what is cached contains no run-time expression"""
    P = prog("host")
    impls = reify_impls(P)
    r.floor("Reify implementations", len(impls), 10)
    order = {k: n for n, k in enumerate(DOWN[::-1])}
    lattice(r, rule)
    own = {i["id"].split("::")[-1] for i in P.items.values() if i["kind"] in ("Struct", "Enum") and i["crate"] == "stylist_macros"}
    nparts = 0
    for ty, it in sorted(impls.items()):
        r.fn(it)
        subj = "%s::into_token_stream" % ty
        for o in reified(it.id):
            if o.kind != "ret":
                continue
            u = usage_after(o)
            if u[0] != "seq" and not (u[0] == "adt" and u[1] == "ExpressionKind"):
                r.bad(rule, subj, "the usage reported is %s" % show(u), where(it))
                continue
            have = {m for i in uitems(u) for m in members(i)}
            rank = max((order[m[2]] for m in have if m[0] == "adt"), default=0)
            bound = bounded(o)
            r.check(U0 in have or bound.get(U0, 2) <= rank, rule, subj + " keeps the context", "the usage recorded before is lost: %s" % show(u)[:300], where(it))
            dyn = rank == 2
            items = RT.norm(o.val)
            lit = any(a[0] == "variant" and a[1] == SELF and f == "Lit" for a, f in o.st.facts.items())
            for x, src in parts(items):
                nparts += 1
                us = part_usage(x)
                if us is None:
                    continue
                if ty not in own and x[0] == "user":
                    r.check(dyn or ty == "Error" or lit, rule, subj, "a run-time expression is not recorded as dynamic", where(it))
                    continue
                keys = [("each", src, y) for y in us] if src is not None else us
                ok = dyn or (us and any(k in have for k in keys)) or (us and any(bound.get(k, 2) <= rank for k in keys))
                r.check(ok, rule, subj + " reports " + show(x[1])[:80], "the kind of %s does not reach the context: %s" % (
                    show(x[1])[:200], show(u)[:300]), where(it))
            try:
                e = RT.parse(o.val)
            except RT.NotRust as x:
                if not any(x[0] in ("child", "user") for x, _ in parts(items)) or o.val == SELF or items and len(items) == 1:
                    continue
                r.bad(rule, subj, "the generated code cannot be followed: %s" % x, where(it))
                continue
            for kind, ps in RT.cached(e):
                for x in ps:
                    us = part_usage(x)
                    if us is None:
                        continue
                    srcs = [s for y, s in parts(items) if y == x]
                    keys = [("each", s, y) if s is not None else y for s in srcs for y in us]
                    lim = {"static": 1}.get(kind, 0)
                    ok = keys and any(bound.get(k, 2) <= lim for k in keys)
                    r.check(ok, rule, "%s %s" % (subj, kind), "%s is inside a %s without proof that it is no run-time expression" % (
                        show(x[1])[:200], kind), where(it))
    r.floor("interpolated parts", nparts, 20)
    r.count("interpolated parts checked", nparts)
    raw_sites(r, rule, P)


def h_concrete(ip, st, f, args, cid):
    """min and max of two known variants under the derived order"""
    vs = [ip.deep(st, ip.val(st, a)) for a in args]
    if len(vs) != 2 or not all(v[0] == "adt" and v[1] == "ExpressionKind" for v in vs) or not ip.p.derives("ExpressionKind", "Ord"):
        return None
    order = [v["name"] for v in ip.p.adt("ExpressionKind")["variants"]]
    return ret(st, {"min": min, "max": max}[f["name"]](vs, key=lambda v: order.index(v[2])))


def lattice(r, rule):
    P = prog("host")
    order = {"Const": 0, "Static": 1, "Dynamic": 2}
    for it in joins(P):
        r.fn(it)
        for a in sorted(ALL):
            for b in sorted(ALL):
                ip = Interp(P, overrides={"min": h_concrete, "max": h_concrete})
                outs = ip.run_fn(State(), it, [adt("ExpressionKind", a, ()), adt("ExpressionKind", b, ())], (it.id,))
                want = max((a, b), key=order.get)
                r.check(outs and all(o.kind == "ret" and o.val[0] == "adt" and o.val[2] == want for o in outs), rule,
                        "%s(%s, %s)" % (it["name"], a, b), "is %s, not %s" % ([show(o.val) for o in outs], want), where(it))
    # the questions asked of a context
    for n, names in (("is_static", {"Static", "Const"}), ("is_const", {"Const"})):
        it = method(P, "ReifyContext", n)
        if it is None:
            continue
        r.fn(it)
        for k in ALL:
            ip = Interp(P)
            outs = ip.run_fn(State(), it, [("adt", "ReifyContext", "ReifyContext", (("usage", adt("ExpressionKind", k, ())),))], (it.id,))
            r.check(all(o.val == ("bool", k in names) for o in outs), rule, "ReifyContext::%s of %s" % (n, k),
                    "is %s" % [show(o.val) for o in outs], where(it))


def raw_sites(r, rule, P):
    """every OutputCowString::Raw carries the usage of what its tokens contain"""
    n = 0
    for it in P.fns():
        if it.get("crate") != "stylist_macros" or not any_raw(it["body"]) or it.get("derived") or (it.get("impl") or {}).get("derived"):
            continue
        n += 1
        r.fn(it)
        ip = interp_for(P)
        st = State()
        a = []
        for x in args_of(it):
            if x == "ctx":
                st.store[CTX] = context()
                a.append(("ref", CTX, ()))
            else:
                a.append(("arg", x))
        for o in ip.run_fn(st, it, a, (it.id,)):
            if o.kind != "ret":
                continue
            for t in walk((o.val,) + tuple(o.st.store.values())):
                if t[:1] == ("adt",) and len(t) == 4 and t[1] == "OutputCowString" and t[2] == "Raw":
                    d = dict(t[3])
                    have = {m for i in uitems(dict(d["1"][3]).get("usage", UNIT)) for m in members(i)} if d["1"][0] == "adt" else set()
                    rank = max((2 - DOWN.index(m[2]) for m in have if m[:2] == ("adt", "ExpressionKind")), default=0)
                    bound = bounded(o)
                    if d["1"][0] != "adt" and d["0"] == ("pay", d["1"][1], "Raw", "0"):
                        continue
                    for x, src in parts(RT.norm(d["0"])):
                        us = part_usage(x) or []
                        r.check(any(y in have or bound.get(y, 2) <= rank for y in us) or rank == 2, rule, "raw text in %s" % it.disp(),
                                "the kind of %s is not recorded" % show(x[1])[:200], where(it))
    r.floor("sites that build raw text", n, 1)


def any_raw(body):
    for b in body["blocks"]:
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "agg" and "OutputCowString" in str(s[2]) and "Raw" in str(s[2]):
                return True
        if b["t"][0] == "call" and "OutputCowString" in str(b["t"][1].get("ctor_adt", "")) and b["t"][1].get("ctor_variant") == "Raw":
            return True
    return False


# ---------------------------------------------------------------- nodes
NODES = {      # output type -> node built, field -> source field (a list, or .x for a single part)
    "OutputSheet": ("Sheet::from", {"0": "contents"}),
    "OutputBlock": ("Block", {"condition": "condition", "content": "content"}),
    "OutputRule": ("Rule", {"condition": "condition", "content": "content"}),
    "OutputSelector": ("Selector", {"fragments": "selectors"}),
    "OutputAttribute": ("StyleAttribute", {"key": ".key", "value": "values"}),
}
ENUMS = {"OutputScopeContent": "ScopeContent", "OutputRuleBlockContent": "RuleBlockContent"}
NAMES = {("Sheet", "from")}


def names(P):
    out = set(NAMES)
    for e in ENUMS.values():
        for v in P.adt(e)["variants"]:
            out.add((e, v["name"]))
    return out


def tree(P, o):
    return RT.build(RT.parse(o.val), {}, names(P))


def node_list(src):
    return ("list", [("each", ("it", ("fld", SELF, src)), [((), [("child", ("elem", ("it", ("fld", SELF, src))))])])])


def built(r, rule):
    """each Reify implementation builds the node of its own kind out of all its parts, in order"""
    P = prog("host")
    impls = reify_impls(P)
    n = 0
    for ty, it in sorted(impls.items()):
        if ty not in NODES and ty not in ENUMS:
            continue
        r.fn(it)
        seen = set()
        for o in reified(it.id):
            v = variant_of(o, SELF) if ty in ENUMS else None
            subj = "%s::into_token_stream%s" % (ty, " " + v if isinstance(v, str) else "")
            if o.kind != "ret":
                r.bad(rule, subj, "may fail: %s" % show(o.val)[:200], where(it))
                continue
            try:
                t = tree(P, o)
            except RT.NotRust as x:
                r.bad(rule, subj, "the generated code cannot be followed: %s" % x, where(it))
                continue
            n += 1
            if ty in ENUMS:
                seen.add(v)
                want = ("node", "%s::%s" % (ENUMS[ty], v), [("0", ("child", ("pay", SELF, v, "0")))])
                r.check(t == want, rule, subj, "builds %s" % showt(t), where(it))
                continue
            name, fields = NODES[ty]
            r.check(t[0] == "node" and t[1] == name, rule, subj, "builds %s" % showt(t), where(it))
            got = dict(t[2]) if t[0] == "node" else {}
            for f, src in fields.items():
                want = ("child", ("fld", SELF, src[1:])) if src[0] == "." else node_list(src)
                g = got.get(f)
                r.check(same(g, want), rule, "%s.%s" % (subj, f), "%s is %s, not every part of %s in order" % (f, showt(g), src), where(it))
            r.check(set(got) == set(fields), rule, subj + " fields", "fields %s" % sorted(got), where(it))
        if ty in ENUMS:
            vs = {x["name"] for x in P.adt(ty)["variants"]}
            r.check(seen == vs, rule, "%s variants" % ty, "covered: %s of %s" % (sorted(map(str, seen)), sorted(vs)), where(it))
    r.floor("nodes built", n, 18)
    fragments(r, rule, P)


def same(a, b):
    return strip(a) == strip(b)


def strip(t):
    if isinstance(t, (tuple, list)):
        t = tuple(strip(x) for x in t)
        if len(t) == 2 and t[0] == "it":
            return t[1]
        return t
    return t


def showt(t):
    if t is None:
        return "missing"
    if t[0] == "node":
        return "%s{%s}" % (t[1], ", ".join("%s: %s" % (n, showt(x)) for n, x in t[2]))
    if t[0] == "list":
        return "[%s]" % ", ".join(showt(x) for x in t[1])
    if t[0] == "each":
        return "for %s: %s" % (show(t[1]), ["%s%s" % (showc_(c), [showt(x) for x in xs]) for c, xs in t[2]])
    if t[0] in ("child", "user"):
        return show(t[1])
    return str(t)[:200]


def showc_(c):
    return "" if not c else "if %s " % (show(tuple(c)) if isinstance(c, tuple) else c,)


def literal_text(t):
    """the text a piece of generated code stands for, when it is a literal: a term"""
    if t[0] == "lit":
        return t[1]
    if t[0] == "child" and t[1][0] == "adt" and t[1][1] == "OutputCowString" and t[1][2] == "Str":
        return dict(t[1][3])["0"]
    return None


def fragments(r, rule, P):
    """fragments: text as a literal, expressions as their displayed text; merging keeps the text and never crosses an expression"""
    impls = reify_impls(P)
    it = impls.get("OutputCowString")
    if it is None:
        r.bad(rule, "OutputCowString::into_token_stream", "not found")
        return
    r.fn(it)
    for o in reified(it.id):
        v = variant_of(o, SELF)
        subj = "OutputCowString::into_token_stream %s" % v
        if o.kind != "ret":
            r.bad(rule, subj, "may fail", where(it))
        elif v == "Raw":
            r.check(RT.norm(o.val) == [("user", ("pay", SELF, "Raw", "0"))], rule, subj, "emits %s" % show(o.val)[:300], where(it))
        else:
            try:
                t = tree(P, o)
            except RT.NotRust as x:
                t = ("?", str(x))
            r.check(literal_text(t) == ("pay", SELF, "Str", "0"), rule, subj, "emits %s" % showt(t), where(it))
    it = impls.get("OutputFragment")
    if it is None:
        r.bad(rule, "OutputFragment::into_token_stream", "not found")
        return
    r.fn(it)
    seen = set()
    for o in reified(it.id):
        v = variant_of(o, SELF)
        subj = "OutputFragment::into_token_stream %s" % v
        if o.kind != "ret":
            d = ("pay", SELF, "Delimiter", "0")
            r.check(variant_of(o, d) == "None", rule, subj, "may fail: %s" % show(o.val)[:100], where(it))
            continue
        seen.add(v)
        try:
            t = tree(P, o)
        except RT.NotRust as x:
            r.bad(rule, subj, "the generated code cannot be followed: %s" % x, where(it))
            continue
        inner = dict(t[2]).get("inner") if t[0] == "node" and t[1] == "StringFragment" and len(t[2]) == 1 else None
        if inner is None:
            r.bad(rule, subj, "builds %s" % showt(t), where(it))
            continue
        raw = None
        if inner[0] == "child" and inner[1][0] == "adt" and inner[1][2] == "Raw":
            try:
                raw = RT.build(RT.parse(dict(inner[1][3])["0"]), {}, names(P))
            except RT.NotRust as x:
                raw = ("?", str(x))
        text = literal_text(inner)
        p = ("pay", SELF, v, "0") if isinstance(v, str) else None
        want = None
        if v == "Str":
            ok = text == p
        elif v == "Arg":
            ok = raw == ("child", ("fld", p, "tokens"))
        elif v == "Expr":
            lit = ("fld", ("pay", p, "Lit", "0"), "lit")
            if variant_of(o, p) == "Lit" and variant_of(o, lit) == "Str":
                ok = text == call("LitStr::value", ("pay", lit, "Str", "0")) or raw == ("child", p)
            else:
                ok = raw == ("child", p)
        elif v == "Delimiter":
            d, s = variant_of(o, p), o.st.facts.get(("pay", SELF, "Delimiter", "1"))
            want = {("Brace", True): "{", ("Brace", False): "}", ("Bracket", True): "[", ("Bracket", False): "]",
                    ("Parenthesis", True): "(", ("Parenthesis", False): ")"}.get((d, s))
            ok = want is not None and text in (S(want), ("char", want))
        elif v == "Token":
            k = variant_of(o, p)
            q = ("pay", p, k, "0") if isinstance(k, str) else None
            if k == "Punct":
                ok = text == call("Punct::as_char", q)
            elif k == "Literal":
                ok = text == q
            elif k == "Ident":
                ok = text is not None and ident_text(text, ("fld", q, "parts"))
            else:
                ok = False
            subj += " %s" % k
        else:
            ok = False
        r.check(ok, rule, subj, "its text is %s" % (showt(raw) if raw else show(text) if text else showt(inner)), where(it))
    a = P.adt("OutputFragment")
    r.check(seen == {x["name"] for x in a["variants"]}, rule, "OutputFragment variants", "covered: %s" % sorted(map(str, seen)), where(it))
    coalescing(r, rule, P)


def ident_text(t, src):
    """the parts of a css identifier, in order: dashes as `-`, names as written (without r#)"""
    if t[0] == "cat" and len(t) == 2:
        t = t[1]
    if t[0] != "each" or t[1] not in (src, ("it", src)):
        return False
    el = ("elem", ("it", src))
    got = {}
    for conds, ps in t[2]:
        v = dict(conds).get(("variant", el))
        if v is None or len(conds) != 1 or v in got:
            return False
        got[v] = ps
    return set(got) == {"Dash", "Ident"} and tuple(got["Dash"]) in ((S("-"),), (("char", "-"),)) and \
        tuple(got["Ident"]) in ((call("IdentExt::unraw", ("pay", el, "Ident", "0")),),)


def coalescing(r, rule, P):
    it = next((i for i in P.fns() if i.get("name") == "fragment_coalesce" and "body" in i), None)
    if it is None:
        return
    r.fn(it)

    def h_inner(ip, st, f, args, cid):
        return ret(st, call("text", ip.deep(st, ip.val(st, args[0]))))
    ip = Interp(P, overrides={"into_inner": h_inner})
    L, R = ("arg", "l"), ("arg", "r")
    tl, tr = call("text", L), call("text", R)
    for o in ip.run_fn(State(), it, [L, R], (it.id,)):
        subj = "fragment_coalesce"
        if o.kind != "ret":
            r.bad(rule, subj, "may fail", where(it))
            continue
        if o.val[0] == "adt" and o.val[2] == "Ok":
            want = adt("OutputFragment", "Str", (("0", cat(("pay", tl, "Str", "0"), ("pay", tr, "Str", "0"))),))
            r.check(variant_of(o, tl) == "Str" and variant_of(o, tr) == "Str", rule, subj, "merges across an expression", where(it))
            r.check(dict(o.val[3])["0"] == want, rule, subj + " text", "merges into %s" % show(o.val)[:300], where(it))
        else:
            r.check(o.val == err(("tup", L, R)), rule, subj + " apart", "returns %s" % show(o.val)[:300], where(it))


# ---------------------------------------------------------------- the macros themselves
THIN = {"sheet": None, "css": ("stylist", "StyleSource", "from"), "style": ("stylist", "Style", "new"),
        "global_style": ("stylist", "GlobalStyle", "new")}
LIT, INL = "literal::macro_fn", "inline::macro_fn"


def h_entry(ip, st, f, args, cid):
    v = ip.val(st, args[0])
    if v[0] == "adt" and v[2] == "AssertUnwindSafe":
        v = v[3][0][1]
    return ip.call_value(st, v, [], cid + ("entry",))


def h_form(ip, st, f, args, cid):
    it = ip.p.get(f.get("rid") or f.get("id") or "")
    if it is None or not it.id.endswith(("stylist_macros::" + LIT, "stylist_macros::" + INL)):
        return None
    return ret(st, call("LIT" if it.id.endswith(LIT) else "INL", *[ip.deep(st, ip.val(st, a)) for a in args]))


def expansions(P, name):
    it = P.get("stylist_macros::" + name)
    if it is None:
        return None, []
    ip = interp_for(P, {"entry_point": h_entry, "macro_fn": h_form})
    return it, ip.run_fn(State(), it, [("arg", "input")], (it.id,))


def thin(r, rule):
    P = prog("host")
    INPUT = ("arg", "input")
    for name, target in THIN.items():
        it, outs = expansions(P, name)
        if it is None:
            r.bad(rule, name + "!", "not found")
            continue
        r.fn(it)
        forms = {}
        for o in outs:
            if o.kind != "ret":
                r.bad(rule, name + "!", "may fail: %s" % show(o.val)[:200], where(it))
                continue
            try:
                e = RT.parse(o.val)
            except RT.NotRust as x:
                r.bad(rule, name + "!", "the generated code cannot be followed: %s" % x, where(it))
                continue
            while e[0] == "block" and not e[1] and e[2] is not None:
                e = e[2]
            if target is not None:
                ok = e[0] == "call" and e[1][0] == "pathx" and e[1][1][1] and (
                    tuple(e[1][1][2]) == target or tuple(e[1][1][2]) == target[1:] and e[1][1][3]) and len(e[2]) == 1
                r.check(ok, rule, "%s! builds" % name, "expands to %s" % show(o.val)[:300], where(it))
                if not ok:
                    continue
                e = e[2][0]
            first = ("variant", at(INPUT, I(0)))
            empty_ = any(a[0] == "empty" and f is True for a, f in o.st.facts.items())
            k = None if empty_ else o.st.facts.get(first, "?")
            want = "LIT" if k == "Literal" else "INL"
            if k == "?" or isinstance(k, tuple) and (k[0] == "|" and "Literal" in k[1] or k[0] == "!" and "Literal" not in k[1]):
                want = None
            r.check(want is not None and e == ("user", call(want, INPUT)), rule, "%s! of an input that starts with %s" % (
                name, "nothing" if empty_ else k if isinstance(k, str) else "another token"),
                "expands to %s, not to the %s form of the whole input" % (show(e[1])[:200] if e[0] == "user" else str(e)[:200],
                                                                    {"LIT": "string", "INL": "inline", None: "?"}[want]), where(it))
            forms[want] = True
        r.check(set(forms) == {"LIT", "INL"}, rule, name + "! forms", "forms reached: %s" % sorted(map(str, forms)), where(it))
    it, outs = expansions(P, "use_style")
    if it is None:
        r.bad(rule, "use_style!", "not found")
        return
    r.fn(it)
    for o in outs:
        try:
            e = RT.parse(o.val)
        except RT.NotRust as x:
            e = ("?", str(x))
        inner = e[2][0] if e[0] == "call" and len(e[2]) == 1 else UNIT
        outer = e[0] == "call" and e[1][0] == "pathx" and e[1][1][:3] == ("path", True, ("stylist", "yew", "use_style"))
        as_macro = inner[0] == "macro" and inner[1][:3] == ("path", True, ("stylist", "css")) and inner[2][0] == "grp" and \
            inner[2][2] == [("user", INPUT)]
        as_call = inner[0] == "call" and inner[1][0] == "pathx" and inner[1][1][1] and tuple(inner[1][1][2]) == THIN["css"] and \
            inner[2] and inner[2][0][0] == "user" and inner[2][0][1][1] in ("LIT", "INL") and inner[2][0][1][2] == INPUT
        r.check(outer and (as_macro or as_call), rule, "use_style! builds", "expands to %s" % show(o.val)[:300], where(it))
    for o in [None]:
        r.check(bool(outs), rule, "use_style!", "no outcome", where(it))


CACHING = {"static", "const", "thread_local", "Lazy", "LazyLock", "LazyCell", "OnceCell", "OnceLock", "Once", "lazy_static", "get_or_init"}


def ids(items):
    for x in items:
        if x[0] == "id":
            yield x[1]
        elif x[0] == "grp":
            yield from ids(x[2])
        elif x[0] == "each":
            for _, xs in x[2]:
                yield from ids(xs)


def no_cache(r, rule):
    """nothing around the sheet's own code keeps it from being evaluated again"""
    P = prog("host")
    n = 0
    for name in sorted(THIN) + ["use_style"]:
        it, outs = expansions(P, name)
        if it is None:
            continue
        r.fn(it)
        for o in outs:
            if o.kind != "ret":
                continue
            n += 1
            items = RT.norm(o.val)
            try:
                bad = [k for k, ps in RT.cached(RT.parse(o.val)) if ps]
            except RT.NotRust:
                bad = sorted(set(ids(items)) & CACHING)
            bad += sorted(set(ids(items)) & CACHING - {"static", "const"})
            r.check(not bad, rule, name + "!", "the sheet's code is placed inside %s" % bad, where(it))
    it = P.get("stylist_macros::" + INL)
    if it is None:
        r.bad(rule, INL, "not found")
        return
    r.fn(it)
    for o in interp_for(P, {"into_output": h_plain, "into_compile_errors": h_plain}).run_fn(
            State(), it, [("arg", n) for n in args_of(it)], (it.id,)):
        if o.kind == "ret":
            n += 1
            v = o.val
            ok = v[:2] == ("call", "tokens") or not any(x[0] == "call" and x[1] == "tokens" for x in walk((v,)))
            r.check(ok, rule, "inline form", "the sheet's code is wrapped: %s" % show(v)[:300], where(it))
    r.floor("expansions", n, 8)


def h_plain(ip, st, f, args, cid):
    return ret(st, call(f["name"], *[ip.deep(st, ip.val(st, a)) for a in args[:1]]))
