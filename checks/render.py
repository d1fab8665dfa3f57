"""Summaries of the rendering code (ToStyleStr and StyleContext) and the rules on them, shared by C01-C05."""
from lib import repo
from lib.interp import Interp, State, ret
from lib.terms import *
from lib.prog import short
from lib.spec import table, rewrite, showx, facts_str

NODES = ["Sheet", "ScopeContent", "RuleBlockContent", "Block", "Rule", "StyleAttribute", "Selector", "StringFragment"]
CTX = "StyleContext"
SELF, CTXA, WA = ("arg", "self"), ("arg", "ctx"), ("arg", "w")


def fld(x, n):
    return ("fld", x, n)


def it(x):
    return ("it", x)


def elem(x):
    return ("elem", x)


def each(src, *items, conds=()):
    return mk_each(src, [(frozenset(conds), tuple(items))], "cat")


class Ctx:
    """fields of StyleContext, found by type"""

    def __init__(self, P):
        self.adt = P.adt(CTX)
        self.cls = self.parent = self.rules = self.sel = self.open = None
        if self.adt is None:
            return
        for f in self.adt["variants"][0]["fields"]:
            t = f["tys"].replace(" ", "")
            if CTX in t:
                self.parent = f["name"]
            elif "Vec<" in t and "Cow<" in t:
                self.rules = f["name"]
            elif "Option<" in t and "Cow<" in t:
                self.sel = f["name"]
            elif "Option<" in t and "str" in t:
                self.cls = f["name"]
            elif "bool" in t.lower():
                self.open = f["name"]

    def complete(self):
        return None not in (self.cls, self.parent, self.rules, self.sel, self.open)


def ctx_methods(P):
    return {i["name"]: i for i in P.items.values() if i["kind"] == "AssocFn" and i.get("impl")
            and short(i["impl"]["self"]) == CTX and not i["impl"].get("trait") and "body" in i}


def ws(P, node):
    """write_style of a node type"""
    r = [i for i in P.trait_method("ToStyleStr", node, "write_style") if "body" in i]
    return r[0] if len(r) == 1 else None


def emit(tag):
    """a call that writes to the String it is given: the text it appends is one symbol"""
    def h(ip, st, f, args, dargs):
        st = st.copy()
        wi = 1
        sym = ("wr", dargs[0], dargs[2]) if tag == "wr" else (tag, dargs[0])
        ip.write_ref(st, args[wi], cat(ip.val(st, args[wi]), sym))
        return ret(st, UNIT)
    return h


CTXPUB = ("start", "finish", "write_padding", "with_block_condition", "with_rule_condition", "new")


def node_interp(P, node):
    m = ctx_methods(P)
    opaque = {m[n].id for n in CTXPUB if n in m}
    for n in NODES:
        if n != "StringFragment" and n != node:
            w = ws(P, n)
            if w is not None:
                opaque.add(w.id)
    return Interp(P, opaque=opaque, nonterm={"write_style": emit("wr"), "start": emit("start"), "finish": emit("finish"),
                                             "write_padding": emit("pad")},
                  no_trace={CTX + "::with_block_condition", CTX + "::with_rule_condition", CTX + "::new"})


def run(P, item, ip, names):
    n = item["body"]["argc"]
    return ip.run_fn(State(), item, [("arg", names[i]) for i in range(n)], (item.id,))


W = ("T", WA)


def written(o):
    """what an outcome appended to w, or None if w was changed otherwise; padding removed"""
    v = o.st.store.get(W, WA)
    items = cat_items(v)
    if not items or items[0] != WA:
        return None
    return nopad(items[1:])


def is_pad(x):
    if x[0] == "pad":
        return True
    if x[0] == "str":
        return x[1].strip(" \t") == "" and x[1] != "" and False
    if x[0] == "each":
        return all(all(p[0] == "str" and p[1].strip(" \t") == "" for p in ps) for _, ps in x[2])
    if x[0] == "call" and x[1].endswith("repeat") and x[2][0] == "str":
        return x[2][1].strip(" \t") == ""
    return False


def nopad(items):
    def f(t):
        if t and t[0] == "each" and len(t) == 3:
            return ("each", t[1], tuple((c, tuple(p for p in ps if not is_pad(p))) for c, ps in t[2]))
        return t
    out = []
    for x in items:
        if is_pad(x):
            continue
        x = rewrite(x, f)
        out.append(x)
    c = cat(*out)
    return tuple(cat_items(c))


def only_w(r, rule, subj, o):
    bad = [k for k in o.st.store if k != W and k != "TRACE" and not (k[0] == "T" and k[1] == CTXA)]
    return bad


# ------------------------------------------------------------------ rules on nodes
def node_outs(r, P, node, rule):
    item = ws(P, node)
    if not r.check(item is not None, rule, "ToStyleStr for %s" % node, "no unique implementation found"):
        return None, None
    ip = node_interp(P, node)
    outs = run(P, item, ip, ["self", "w", "ctx"])
    for f in ip.stats["functions"]:
        r.fn(P.items[f].disp())
    r.count("call_sites", ip.stats["calls"])
    return item, outs


def frag_text(seqterm):
    s = it(seqterm)
    return cat(*each(s, fld(elem(s), "inner")))


def check_fragment(r, P, rule="fragment-text"):
    item, outs = node_outs(r, P, "StringFragment", rule)
    if outs:
        table(r, rule, item.disp(), outs, {}, lambda a: [(fld(SELF, "inner"),)], lambda o, a: written(o), item.where())


def check_attr(r, P, rule="declaration"):
    item, outs = node_outs(r, P, "StyleAttribute", rule)
    if outs:
        exp = tuple(cat_items(cat(("start", CTXA), fld(SELF, "key"), S(": "), frag_text(fld(SELF, "value")), S(";\n"))))
        table(r, rule, item.disp(), outs, {}, lambda a: [exp], lambda o, a: written(o), item.where())


def sel_list(c):
    s = it(c)
    w = ("wr", elem(s), CTXA)
    lp = ("lastp", s)
    return cat(*mk_each(s, [(frozenset({(lp, True)}), (w,)), (frozenset({(lp, False)}), (w, S(", ")))], "cat"))


def block_ctx(cond):
    return call(CTX + "::with_block_condition", CTXA, cond)


def contents(ctx):
    s = it(fld(SELF, "content"))
    return each(s, ("wr", elem(s), ctx))


def check_block(r, P, rule="block"):
    item, outs = node_outs(r, P, "Block", rule)
    if not outs:
        return
    c = fld(SELF, "condition")

    def spec(a):
        ctx = block_ctx(NONE if a["no selectors"] else some(sel_list(c)))
        return [tuple(contents(ctx)) + (("finish", ctx),)]
    table(r, rule, item.disp(), outs, {"no selectors": (("empty", c), [True, False])}, spec, lambda o, a: written(o), item.where())


def check_rule(r, P, rule="at-rule"):
    item, outs = node_outs(r, P, "Rule", rule)
    if not outs:
        return
    cond = frag_text(fld(SELF, "condition"))
    ctx = call(CTX + "::with_rule_condition", CTXA, cond)
    kf = ("starts_with", cond, S("@keyframes"))

    def spec(a):
        plain = tuple(contents(ctx)) + (("finish", ctx),)
        return [(("start", ctx),) + plain] if a["keyframes"] else [plain, (("start", ctx),) + plain]
    table(r, rule, item.disp(), outs, {"keyframes": (kf, [True, False])}, spec, lambda o, a: written(o), item.where())


def check_enum(r, P, node, rule="dispatch"):
    item, outs = node_outs(r, P, node, rule)
    if not outs:
        return
    adt = P.adt(node)
    names = [v["name"] for v in adt["variants"]]
    holds = {}
    for v in adt["variants"]:
        holds[v["name"]] = v["fields"][0]["name"] if len(v["fields"]) == 1 else None

    def spec(a):
        f = holds[a["variant"]]
        if f is None:
            return lambda v: False

        def okv(v):
            if v is None or len(v) != 1 or v[0][0] != "wr" or v[0][2] != CTXA:
                return False
            x = v[0][1]
            # through the Bow smart pointer: either of its payloads
            while x[0] == "pay" and x[2] in ("Boxed", "Borrowed", "Owned"):
                x = x[1]
            return x == ("pay", SELF, a["variant"], f)
        return okv
    table(r, rule, item.disp(), outs, {"variant": (("variant", SELF), names)}, spec, lambda o, a: written(o), item.where())


def check_sheet(r, P, rule="sheet"):
    item, outs = node_outs(r, P, "Sheet", rule)
    if not outs:
        return
    f = P.adt("Sheet")["variants"][0]["fields"][0]["name"]
    s = it(fld(SELF, f))
    exp = tuple(each(s, ("wr", elem(s), CTXA)))
    table(r, rule, item.disp(), outs, {}, lambda a: [exp], lambda o, a: written(o), item.where())


def check_entry(r, P, rule="entry"):
    """to_style_str starts from an empty string and a fresh context with the class name given"""
    cands = [i for i in P.items.values() if i.get("name") == "to_style_str" and "body" in i and i["kind"] == "AssocFn"]
    r.floor("to_style_str implementations", len(cands), 1)
    for item in cands:
        ip = node_interp(P, None)
        ip.opaque |= {"write_style"}
        outs = run(P, item, ip, ["self", "class"])
        r.fn(item.disp())
        ctx = call(CTX + "::new", ("arg", "class"))
        table(r, rule, item.disp(), outs, {}, lambda a: [("wr", SELF, ctx)], lambda o, a: o.val, item.where())


# ------------------------------------------------------------------ selectors
def check_selector(r, P, rule, scoped):
    item, outs = node_outs(r, P, "Selector", rule)
    if not outs:
        return
    C = Ctx(P)
    J = frag_text(fld(SELF, "fragments"))
    cn = fld(CTXA, C.cls or "class_name")
    cls = cat(S("."), ("pay", cn, "Some", "0"))
    atoms = {"class": (("variant", cn), ["Some" if scoped else "None"]),
             "has &": (("contains", J, S("&")), [True, False]),
             "has :root": (("contains", J, S(":root")), [True, False]),
             "starts with :": (("starts_with", J, S(":")), [True, False])}

    def rep(x, p, c):
        return ("call", "replace", x, S(p), c)

    def spec(a):
        if a["class"] == "None":
            return [rep(J, "&", S(":root")) if a["has &"] else J]
        if a["has &"] or a["has :root"]:
            x = y = J
            for p, h in (("&", a["has &"]), (":root", a["has :root"])):
                x = rep(x, p, cls) if h else x
            for p, h in ((":root", a["has :root"]), ("&", a["has &"])):
                y = rep(y, p, cls) if h else y
            return [x, y]
        return [cat(cls, J) if a["starts with :"] else cat(cls, S(" "), J)]

    def actual(o, a):
        v = written(o)
        if v is None:
            return None

        def f(t):
            # replacing what is not there does nothing
            if t[:2] == ("call", "replace") and len(t) == 5 and t[3][0] in ("str", "char"):
                p = t[3][1]
                if p == "&" and not a["has &"] or p == ":root" and not a["has :root"]:
                    return t[2]
                return ("call", "replace", t[2], S(p), t[4])
            return t
        return rewrite(cat(*v), f)
    table(r, rule, item.disp(), outs, atoms, spec, actual, item.where())


# ------------------------------------------------------------------ contexts
def opened(C, ctx):
    """list of conditions of a context: rules then selector"""
    return (fld(ctx, C.rules), fld(ctx, C.sel))


def check_new(r, P, C, rule, fields):
    m = ctx_methods(P)
    if not r.check("new" in m and C.complete(), rule, CTX, "constructor or fields not found: %s" % sorted(m)):
        return
    outs = run(P, m["new"], Interp(P), ["class"])
    r.fn(m["new"].disp())
    exp = {C.cls: ("arg", "class"), C.parent: NONE, C.rules: ("seq",), C.sel: NONE, C.open: FALSE}
    for f in fields:
        table(r, rule, "%s::new .%s" % (CTX, f), outs, {}, lambda a: [exp[f]], lambda o, a: getfield(o.val, f), m["new"].where())


def getfield(v, f):
    if v[0] == "adt":
        for n, x in v[3]:
            if n == f:
                return x
    return ("fld", v, f)


def check_children(r, P, C, rule, fields):
    """contexts of nested blocks and at-rules"""
    m = ctx_methods(P)
    if not C.complete():
        r.bad(rule, CTX, "fields not found")
        return
    for n in ("with_block_condition", "with_rule_condition"):
        if not r.check(n in m, rule, "%s::%s" % (CTX, n), "not found"):
            continue
        outs = run(P, m[n], Interp(P), ["self", "cond"])
        r.fn(m[n].disp())
        cond = ("arg", "cond")
        atoms = {}
        if n == "with_block_condition":
            atoms["own selector"] = (("variant", cond), ["Some", "None"])
            atoms["enclosing selector"] = (("variant", fld(SELF, C.sel)), ["Some", "None"])
            atoms["class"] = (("variant", fld(SELF, C.cls)), ["Some", "None"])

        def selector(a):
            if n == "with_rule_condition":
                return [fld(SELF, C.sel)]
            if a["own selector"] == "Some":
                return [cond, some(("pay", cond, "Some", "0"))]
            if a["enclosing selector"] == "Some":
                return [fld(SELF, C.sel), some(("pay", fld(SELF, C.sel), "Some", "0"))]
            if a["class"] == "Some":
                return [some(cat(S("."), ("pay", fld(SELF, C.cls), "Some", "0")))]
            return [some(S(":root"))]
        rules = fld(SELF, C.rules) if n == "with_block_condition" else seq((("spl", fld(SELF, C.rules)), ("one", cond)))
        exp = {C.cls: lambda a: [fld(SELF, C.cls)], C.parent: lambda a: [some(SELF)], C.rules: lambda a: [rules],
               C.sel: selector, C.open: lambda a: [FALSE]}
        for f in fields:
            table(r, rule, "%s::%s .%s" % (CTX, n, f), outs, atoms, exp[f], lambda o, a: getfield(o.val, f), m[n].where())


# ------------------------------------------------------------------ open and close
def is_opt_ref_ctx(t):
    return bool(t) and t[0] == "adt" and t[1].endswith("Option") and t[2] and t[2][0][0] == "ref" and \
        t[2][0][2][0] == "adt" and t[2][0][2][1].split("::")[-1] == CTX


def finders(P):
    """functions that look up an enclosing open context: fn(&StyleContext) -> Option<&StyleContext>"""
    out = []
    for i in P.items.values():
        if "body" in i and i.get("impl") and short(i["impl"]["self"]) == CTX and not i["impl"].get("trait"):
            if i["body"]["argc"] == 1 and is_opt_ref_ctx(i.get("output")):
                out.append(i)
    return out


def check_open_close(r, P, C, rule):
    m = ctx_methods(P)
    if not r.check(C.complete() and "start" in m and "finish" in m, rule, CTX, "start/finish or fields not found"):
        return
    fs = finders(P)
    opq = {i.id for i in fs}
    names = {CTX + "::" + i["name"] for i in fs}
    par = fld(SELF, C.parent)
    p0 = ("pay", par, "Some", "0")
    for i in fs:
        ip = Interp(P, opaque=opq, no_trace=names)
        outs = run(P, i, ip, ["self"])
        r.fn(i.disp())
        rec = call(CTX + "::" + i["name"], p0)
        atoms = {"parent": (("variant", par), ["Some", "None"]), "parent open": (fld(p0, C.open), [True, False])}

        def spec(a, rec=rec):
            if a["parent"] == "None":
                return [NONE]
            if a["parent open"]:
                return [some(p0), par]
            return [rec]
        if any(contains_while(o) for o in outs):
            loop_finder(r, rule, i, outs, C)
            continue
        table(r, "nearest-open-ancestor", i.disp(), outs, atoms, spec, lambda o, a: o.val, i.where())
    OPs = [call(n, SELF) for n in names]
    ip = Interp(P, opaque=opq | {m["finish"].id}, nonterm={"finish": emit("finish")}, no_trace=names)
    souts = run(P, m["start"], ip, ["self", "w"])
    ip2 = Interp(P, opaque=opq, no_trace=names)
    fouts = run(P, m["finish"], ip2, ["self", "w"])
    for x in ip.stats["functions"] | ip2.stats["functions"]:
        r.fn(P.items[x].disp())
    OPEN = fld(SELF, C.open)
    own = ("chain", it(fld(SELF, C.rules)), it(fld(SELF, C.sel)))
    own_n = count(own)

    def common_forms(P1):
        theirs = ("chain", it(fld(P1, C.rules)), it(fld(P1, C.sel)))
        out = []
        for a, b in ((theirs, own), (own, theirs)):
            z = ("zip", a, b)
            l, rr = elem(("zl", a, b)), elem(("zr", a, b))
            e = eq(l, rr)
            out.append(("countif", z, ((((e, True),), I(1)),)))
            out.append(("count", ("take_while", z, (((), e),))))
        return theirs, out

    seen_common = set()

    def flag(o):
        return o.st.store.get(("T", OPEN), OPEN)
    for o in souts + fouts:
        if o.kind != "ret":
            r.bad("no-panic", CTX, "start/finish may panic when %s" % facts_str(o), m["start"].where())
    for which, outs, val in (("start", souts, TRUE), ("finish", fouts, FALSE)):
        for o in outs:
            f = o.st.facts.get(OPEN)
            r.check(flag(o) == val or (flag(o) == OPEN and f == val[1]), rule, "%s::%s sets the open flag" % (CTX, which),
                    "when %s the context is left %s" % (facts_str(o), show(flag(o))), m[which].where())
            if f is None:
                r.bad(rule, "%s::%s tests the open flag" % (CTX, which), "acts the same on open and closed contexts: %s" % showx(written(o))[:300],
                      m[which].where())
    # start: an open context writes nothing; a closed one closes what differs, then opens the rest
    for o in souts:
        if o.kind != "ret" or o.st.facts.get(OPEN) is None:
            continue
        w = written(o)
        if w is None:
            r.bad(rule, CTX + "::start", "does not append to the text", m["start"].where())
            continue
        if o.st.facts[OPEN] is True:
            r.check(w == (), rule, CTX + "::start on an open context", "writes %s" % showx(w)[:300], m["start"].where())
            continue
        op = [x for x in OPs if ("variant", x) in o.st.facts or mentions_any(w, x)]
        op = op[0] if op else (OPs[0] if OPs else None)
        some_parent = o.st.facts.get(("variant", op)) == "Some"
        P1 = ("pay", op, "Some", "0")
        closes, opens = split_closes(w)
        # what is opened
        accepted = {}
        if some_parent:
            theirs, forms = common_forms(P1)
            for c in forms:
                s = ("skip", own, c)
                accepted[tuple(each(s, elem(s), S(" {\n")))] = c
        else:
            accepted[tuple(each(own, elem(own), S(" {\n")))] = None
            a, b = own[1], own[2]
            accepted[tuple(each(a, elem(a), S(" {\n"))) + tuple(each(b, elem(b), S(" {\n")))] = None
            sel = o.st.facts.get(("variant", b[1]))
            if sel == "None":
                accepted[tuple(each(a, elem(a), S(" {\n")))] = None
            elif sel == "Some":
                accepted[tuple(each(a, elem(a), S(" {\n"))) + (("pay", b[1], "Some", "0"), S(" {\n"))] = None
        if r.check(tuple(opens) in accepted, rule, CTX + "::start opens the conditions not shared with the open parent",
                   "when %s writes %s" % (facts_str(o), showx(opens)[:700]), m["start"].where()):
            if accepted[tuple(opens)]:
                seen_common.add(accepted[tuple(opens)])
        # what is closed before
        check_closes(r, rule, m["start"], closes, o, op, common_forms(P1), some_parent)
    # finish: as many closing braces as conditions were opened
    for o in fouts:
        if o.kind != "ret" or o.st.facts.get(OPEN) is None:
            continue
        w = written(o)
        if o.st.facts[OPEN] is False:
            r.check(w == (), rule, CTX + "::finish on a closed context", "writes %s" % showx(w)[:300], m["finish"].where())
            continue
        op = [x for x in OPs if ("variant", x) in o.st.facts]
        some_parent = bool(op) and o.st.facts[("variant", op[0])] == "Some"
        n = ok_close(w)
        if some_parent:
            _, forms = common_forms(("pay", op[0], "Some", "0"))
            acc = {("subsat", own_n, c): c for c in forms}
            acc.update({sub(own_n, c): c for c in forms})
        else:
            acc = {own_n: None, ("subsat", own_n, I(0)): None}
        if r.check(n in acc, rule, CTX + "::finish closes each condition it opened",
                   "when %s writes %s" % (facts_str(o), showx(w)[:700]), m["finish"].where()):
            if acc[n]:
                seen_common.add(acc[n])
    r.check(len(seen_common) <= 1, rule, "%s: start and finish agree on the shared conditions" % CTX,
            "different counts: %s" % showx(sorted(seen_common, key=repr))[:800])


def ok_close(w):
    """number of closing braces written: count term, or None"""
    if w is None:
        return None
    n = I(0)
    for x in w:
        if x[0] == "str":
            t = x[1].replace("}\n", "")
            if t.strip():
                return None
            n = add(n, I(x[1].count("}\n")))
        elif x[0] == "each" and len(x[2]) == 1 and not x[2][0][0] and x[2][0][1] == (S("}\n"),):
            n = add(n, count(x[1]))
        else:
            return None
    return n


def mentions_any(w, x):
    from lib.interp import mentions
    return mentions(tuple(w), x)


def contains_while(o):
    from lib.interp import contains
    t = (o.val,) + tuple(o.st.facts)
    return contains(t, lambda x: x and x[0] in ("while", "loopout", "loopv", "acc"))


def loop_finder(r, rule, i, outs, C):
    """iterative form: walks parent links, returns the one that is open"""
    for o in outs:
        if o.kind != "ret":
            r.bad("nearest-open-ancestor", i.disp(), "may panic", i.where())
            continue
        v = o.val
        if v == NONE:
            continue
        base = v[3][0][1] if v[0] == "adt" and v[2] == "Some" else v
        okk = o.st.facts.get(fld(base, C.open)) is True
        r.check(okk, "nearest-open-ancestor", i.disp(), "returns %s when %s" % (show(v)[:200], facts_str(o)), i.where())


def split_closes(w):
    i = 0
    closes = []
    while i < len(w) and (w[i][0] in ("part", "finish") or (w[i][0] == "each" and "finish" in repr(w[i]))):
        closes.append(w[i])
        i += 1
    return closes, w[i:]


def differs_atom(atom, val, theirs, forms):
    """is this the test 'the open parent has a condition not shared'"""
    for c in forms:
        if atom == lt(c, count(theirs)) and val is True or atom == ("not", lt(c, count(theirs))) and val is False:
            return True
        if atom == empty_src(("skip", theirs, c)) and val is False:
            return True
        if atom == ("eq", count(theirs), c) and val is False or atom == ("eq", c, count(theirs)) and val is False:
            return True
    return False


def check_closes(r, rule, item, closes, o, op, common, some_parent):
    theirs, forms = common
    subj = CTX + "::start first closes the open contexts that differ"
    exp = ("finish", ("pay", op, "Some", "0"))
    good = len(closes) == 1 and closes[0][0] == "part" and closes[0][1][0] == "cat" or len(closes) == 1 and closes[0][0] == "part"
    alts = None
    if good:
        e = closes[0][1]
        es = [x for x in (cat_items(e) if e[0] != "each" else (e,))]
        good = len(es) == 1 and es[0][0] == "each"
        if good:
            alts = es[0][2]
            good = len(alts) == 1 and alts[0][1] == (exp,)
            if good:
                cs = alts[0][0]
                for a, v in cs:
                    if a == ("variant", op) and v == "Some":
                        continue
                    if differs_atom(a, v, theirs, forms):
                        continue
                    good = False
                good = good and any(differs_atom(a, v, theirs, forms) for a, v in cs)
    r.check(good, rule, subj, "when %s: %s" % (facts_str(o, 200), showx(closes)[:700]), item.where())
    # and stops only when none is left or the open one does not differ
    if some_parent:
        left = [a for a in o.st.facts if differs_atom(a, not o.st.facts[a] if isinstance(o.st.facts[a], bool) else None, theirs, forms)]
        r.check(bool(left), rule, CTX + "::start closes until no difference is left", "leaves the loop when %s" % facts_str(o, 600), item.where())
