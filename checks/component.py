"""Styled components: the function the attribute generates, compared with the function it is put on."""
from checks.hygiene import *

FUNC = ("fld", ("pay", ("call", "syn::parse", ("arg", "item")), "Ok", "0"), "func")
MANAGER = ("stylist", "manager", "StyleManager")


def plain_path(tokens, want):
    """are the tokens exactly the absolute path?"""
    p = RT.Parser(list(tokens))
    try:
        x = p.path()
    except RT.NotRust:
        return False
    return p.done() and x[1] and tuple(x[2]) == want and not x[3]


def inside(e):
    while e[0] == "block" and not e[1] and e[2] is not None:
        e = e[2]
    return e


def from_context(e):
    """the manager of the context, or the default one"""
    e = inside(e)
    if e[0] != "method" or e[1] not in ("unwrap_or_default", "unwrap_or_else"):
        return False
    c = inside(e[2])
    if e[1] == "unwrap_or_default" and e[3]:
        return False
    if e[1] == "unwrap_or_else":
        f = e[3][0] if len(e[3]) == 1 else UNIT
        if f[0] == "closure":
            f = inside(f[1])
            f = f[1] if f[0] == "call" and not f[2] else UNIT
        if not (f[0] == "pathx" and f[1][1] and tuple(f[1][2]) in (MANAGER + ("default",), ("std", "default", "Default", "default"),
                                                                     ("core", "default", "Default", "default"))):
            return False
    return c[0] == "call" and c[1][0] == "pathx" and c[1][1][1] and tuple(c[1][1][2]) in (
        ("yew", "functional", "use_context"), ("yew", "use_context"), ("yew", "prelude", "use_context")) and not c[2] and \
        len(c[1][1][3]) == 1 and plain_path(c[1][1][3][0], MANAGER)


def arms(g):
    """[(pattern, body)] of a macro_rules body"""
    out = []
    xs = [x for x in g[2] if x != ("p", ";")]
    while xs:
        if len(xs) < 3 or xs[0][0] != "grp" or xs[1] != ("p", "=>") or xs[2][0] != "grp":
            return None
        out.append((xs[0][2], xs[2][2]))
        xs = xs[3:]
    return out


def every_token(pat):
    """the name bound by `$( $x:tt )*`"""
    if len(pat) == 3 and pat[0] == ("p", "$") and pat[1][0] == "grp" and pat[2] == ("p", "*"):
        y = pat[1][2]
        if len(y) == 4 and y[0] == ("p", "$") and y[1][0] == "id" and y[2] == ("p", ":") and y[3][:2] == ("id", "tt"):
            return y[1][1]
    return None


def fold(items, name):
    """`$( $x )*` as one part"""
    out = []
    i = 0
    while i < len(items):
        x = items[i]
        if x == ("p", "$") and i + 2 < len(items) and items[i + 1][0] == "grp" and items[i + 2] == ("p", "*") and \
                len(items[i + 1][2]) == 2 and items[i + 1][2][0] == ("p", "$") and items[i + 1][2][1][:2] == ("id", name):
            out.append(("user", ("arg", "ARGS")))
            i += 3
            continue
        out.append(("grp", x[1], fold(x[2], name)) if x[0] == "grp" else x)
        i += 1
    return out


def attached(e, var):
    """::stylist::css!(all arguments).with_manager(the variable, cloned)"""
    e = inside(e)
    if e[0] != "method" or e[1] != "with_manager" or len(e[3]) != 1:
        return False
    m = inside(e[2])
    if m[0] != "macro" or not m[1][1] or tuple(m[1][2]) not in (("stylist", "css"),) or m[2] != ("grp", m[2][1], [("user", ("arg", "ARGS"))]):
        return False
    a = inside(e[3][0])
    if a[0] == "method" and a[1] == "clone" and not a[3]:
        return inside(a[2]) in (("name", var), ("ref", ("name", var)))
    return a[0] == "call" and a[1][0] == "pathx" and a[1][1][1] and tuple(a[1][1][2])[-2:] == ("Clone", "clone") and a[2] == [("ref", ("name", var))]


def function(r, rule, subj, items, w):
    """[attrs] vis sig { let manager = ..; macro css; the body }"""
    want = [("attrs", ("it", ("fld", FUNC, "attrs"))), ("user", ("fld", FUNC, "vis")), ("user", ("fld", FUNC, "sig"))]
    head, body = items[:-1], items[-1] if items else UNIT
    got = [("attrs", x[1]) if x[0] == "each" and x[2] == [((), [("user", ("elem", x[1]))])] else x for x in head]
    r.check(got == want, rule, subj + " attributes, visibility, signature", "become %s" % [show(x) if isinstance(x, tuple) else x for x in got], w)
    if body[:2] != ("grp", "Brace"):
        r.bad(rule, subj + " body", "the generated item does not end with a body", w)
        return
    try:
        b = RT.Parser(body[2]).block()
    except RT.NotRust as x:
        r.bad(rule, subj + " body", "cannot be followed: %s" % x, w)
        return
    stmts, tail = list(b[1]), b[2]
    if tail is None and stmts and stmts[-1][0] == "expr":
        r.bad(rule, subj + " value", "the value of the component's body is dropped", w)
        return
    lets = [s for s in stmts if s[0] == "let"]
    macs = [s for s in stmts if s[0] == "macro_rules"]
    rest = [s for s in stmts if s[0] not in ("let", "macro_rules", "use")]
    r.check(not rest, rule, subj + " body", "has more statements: %s" % str(rest)[:200], w)
    r.check(tail == ("user", ("fld", FUNC, "block")), rule, subj + " body kept", "the body generated is %s" % str(tail)[:300], w)
    mgr = [s for s in lets if from_context(s[2])]
    r.check(len(lets) == 1 and len(mgr) == 1, rule, subj + " manager", "is not looked up exactly once in the context, with the default to fall back to: %s" % (
        str([s[2] for s in lets])[:400]), w)
    named = [s for s in macs if s[1][1] == "css"]
    r.check(len(named) == 1 and len(macs) == 1, rule, subj + " css!", "macros defined: %s" % [s[1][1] for s in macs], w)
    for s in named:
        if mgr:
            r.check(stmts.index(mgr[0]) < stmts.index(s), rule, subj + " order", "css! is defined before the manager is known", w)
        a = arms(s[2])
        ok = bool(a)
        for pat, e in a or []:
            n = every_token(pat)
            try:
                x = RT.Parser(fold(e, n)).block() if n else None
            except RT.NotRust:
                x = None
            ok = ok and x is not None and bool(mgr) and attached(x, mgr[0][1][1])
        r.check(ok, rule, subj + " css! attaches the manager", "expands to %s" % str(a)[:400], w)


def generated(r, rule):
    P = prog("host")
    ARGS = ("pay", ("call", "syn::parse", ("arg", "attr")), "Ok", "0")
    for name in ("styled_component", "styled_component_impl"):
        it, outs = attribute(P, name)
        subj = "#[%s]" % name
        if it is None:
            r.bad(rule, subj, "not found")
            continue
        r.fn(it)
        seen = set()
        for o in outs:
            if o.kind != "ret":
                r.bad(rule, subj, "may fail: %s" % show(o.val)[:200], where(it))
                continue
            res = {n: o.st.facts.get(("variant", ("call", "syn::parse", ("arg", n)))) for n in ("attr", "item")}
            if "Err" in res.values():
                n = next(n for n, x in res.items() if x == "Err")
                seen.add(n)
                want = ("pay", ("call", "syn::parse", ("arg", n)), "Err", "0")
                r.check(o.val[0] == "call" and o.val[1].endswith(("to_compile_error", "into_compile_error")) and o.val[2] == want, rule,
                        "%s %s that does not parse" % (subj, n), "expands to %s" % show(o.val)[:200], where(it))
                continue
            r.check(set(res.values()) == {"Ok"}, rule, subj + " input", "is expanded without being parsed: %s" % res, where(it))
            seen.add("ok")
            try:
                items = RT.norm(o.val)
            except RT.NotRust as x:
                r.bad(rule, subj, "the generated code cannot be followed: %s" % x, where(it))
                continue
            if name == "styled_component":
                k = o.st.facts.get(("variant", ARGS))
                ok = items[:1] == [("p", "#")] and len(items) > 2 and items[1][:2] == ("grp", "Bracket")
                if ok:
                    a = list(items[1][2])
                    arg = a.pop()[2] if a and a[-1][:2] == ("grp", "Parenthesis") else []
                    ok = any(plain_path(a, x) for x in (("yew", "functional", "function_component"), ("yew", "function_component"),
                                                         ("yew", "prelude", "function_component")))
                    ok = ok and arg == ([("user", ("pay", ARGS, "Named", "component_name"))] if k == "Named" else [])
                r.check(ok, rule, "%s (%s) is a function component" % (subj, k), "starts with %s" % str(items[:2])[:300], where(it))
                seen.add(k)
                if not ok:
                    continue
                items = items[2:]
            function(r, rule, subj, items, where(it))
        r.check({"ok", "attr", "item"} <= seen and (name != "styled_component" or {"Named", "Empty"} <= seen), rule, subj + " outcomes",
                str(sorted(map(str, seen))), where(it))


def inputs(r, rule):
    """the item is parsed whole: a function is kept as it is, anything else is an error; an argument is a component name or nothing"""
    P = prog("host")
    n = 0
    for it in P.fns():
        im = it.get("impl") or {}
        if it.get("crate") != "stylist_macros" or "styled_component" not in it.id or "body" not in it or not im.get("trait") or \
                short(im["trait"]) != "Parse" or it.get("name") != "parse":
            continue
        n += 1
        r.fn(it)
        ty = short(im["self"])
        subj = ty + "::parse"
        inp = ("arg", args_of(it)[0])
        oks = 0
        for o in Interp(P, overrides=OVERRIDES).run_fn(State(), it, [inp], (it.id,)):
            if o.kind != "ret" or o.val[0] != "adt":
                r.bad(rule, subj, "results in %s" % show(o.val)[:200], where(it))
                continue
            parsed = {a[1]: f for a, f in o.st.facts.items() if a[0] == "variant" and a[1][0] == "call" and a[1][1].endswith("parse")}
            item = next(iter(parsed), None)
            got = ("pay", item, "Ok", "0") if item else None
            fn = got is not None and o.st.facts.get(("variant", got)) == "Fn"
            v = o.val[3][0][1]
            if o.val[2] == "Ok":
                oks += 1
                if v[0] == "adt" and "func" in dict(v[3]):
                    r.check(fn and dict(v[3])["func"] == ("pay", got, "Fn", "0"), rule, subj, "keeps %s as the function" % show(v)[:200], where(it))
                elif v[0] == "adt" and v[2] == "Named":
                    r.check(parsed.get(item) == "Ok" and v[3][0][1] == got, rule, subj, "takes %s for the name" % show(v)[:200], where(it))
                else:
                    emp = [f for a, f in o.st.facts.items() if "is_empty" in repr(a) or a[0] == "empty"]
                    r.check(v[0] == "adt" and not v[3] and not parsed and True in emp, rule, subj, "ignores arguments: %s" % show(v)[:200], where(it))
            else:
                r.check(not fn, rule, subj, "rejects a function", where(it))
        r.check(oks > 0, rule, subj + " outcomes", "never succeeds", where(it))
    r.floor("parsers of the attributes", n, 4)


def manager(r, rule, cfg):
    """with_manager replaces the manager of a source and nothing else"""
    P = prog(cfg)
    subj = "StyleSource::with_manager (%s)" % cfg
    it = method(P, "StyleSource", "with_manager")
    a = P.adt("StyleSource")
    if it is None or a is None:
        r.bad(rule, subj, "not found")
        return
    r.fn(it)
    me, mg = (("arg", n) for n in args_of(it))
    fields = [f["name"] if isinstance(f, dict) else f[0] for f in a["variants"][0]["fields"]]
    held = [f for f in a["variants"][0]["fields"] if "StyleManager" in str(f)]
    r.check(len(held) == 1, rule, subj, "managers in a source: %s" % held, where(it))
    ip = Interp(P, overrides=OVERRIDES)
    for o in ip.run_fn(State(), it, [me, mg], (it.id,)):
        v = ip.deep(o.st, o.val)
        for f in fields:
            x = ip.getf(o.st, v, f)
            want = some(mg) if held and f == (held[0]["name"] if isinstance(held[0], dict) else held[0][0]) else ("fld", me, f)
            r.check(o.kind == "ret" and x == want, rule, "%s %s" % (subj, f), "becomes %s" % show(x)[:200], where(it))
