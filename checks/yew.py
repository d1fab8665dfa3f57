"""Rules on the Yew integration (C32, C35-C37): conversions, the Global component, the media query hooks, the provider.
Components and hooks are interpreted up to the hooks of Yew, which stay symbols; the closures given to those are then interpreted in the
state they are created in."""
import re
from types import SimpleNamespace
from checks.life2 import *

CTX = ("arg", "ctx")
PROPS = ("arg", "props")


def follow(cfg, iid, args):
    outs, ip = interp(cfg, iid, tuple(args))
    return [o for o in outs], ip


def hook_run(t):
    return call("Hook::run", t, CTX)


def hooks(o):
    """[(name, arguments, result, position)] of Yew's hooks, in the order in which they are run"""
    tr = o.st.trace()[1:]
    made, out = {}, []
    for i, x in enumerate(tr):
        if x[0] != "one":
            continue
        e = x[1]
        if e[1].startswith("yew::") and "use_" in e[1]:
            made[call(e[1], *e[2:])] = e
        elif e[1] == "Hook::run":
            h = made.get(e[2])
            out.append((h[1].split("::")[-1] if h else showx(e[2])[:80], list(h[2:]) if h else [], call("Hook::run", *e[2:]), i))
    return out


def rest_of(o):
    """events besides the running of hooks"""
    return [e for e in flat(o.st.trace()) if e[0] != "ev" or not (
        e[1] in ("Hook::run", "IntoHtmlResult::into_html_result") or e[1].startswith("yew::") and "use_" in e[1])]


def html_result(v):
    """the value of a component's body"""
    return v[2] if v[:2] == ("call", "IntoHtmlResult::into_html_result") else v


def stable_order(r, subj, outs, w):
    """the same hooks run in the same order on every path, or a leading part of them when rendering is suspended or gives up"""
    seqs = [([h[0] for h in hooks(o)], o) for o in outs]
    full = max((s for s, _ in seqs), key=len, default=[])
    for s, o in seqs:
        v = html_result(o.val)
        early = o.kind == "panic" or v[0] == "adt" and v[2] == "Err"
        r.check(s == full or early and full[:len(s)] == s, "hook-order", subj,
                "the hooks %s run when %s, otherwise %s" % (s, facts_str(o), full), w)
    for o in outs:
        for x in o.st.trace()[1:]:
            if x[0] != "one" and any(isinstance(y, tuple) and y[:1] == ("ev",) and ("Hook::run" in y or str(y[1]).startswith("yew::use_")) for y in walk(x)):
                r.bad("hook-order", subj, "hooks run in a loop", w)
    return full


def run_closure(r, subj, ip, o, c, args, w):
    """outcomes of a closure made on the path o, with the events since"""
    c = ip.val(o.st, c) if c[0] == "ref" else c
    if c[0] not in ("clo", "fnitem"):
        r.bad("closure", subj, "not a function of this crate: %s" % showx(c)[:200], w)
        return []
    n = len(o.st.trace())
    out = []
    if c[0] == "clo":
        r.fn(ip.p.get(c[1]))
    for q in ip.call_value(o.st.copy(), c, args, ("hook",)):
        out.append((q, [x[1] if x[0] == "one" else x for x in q.st.trace()[n:]]))
        r.count("outcomes")
    for f in ip.stats["functions"]:
        r.fn(ip.p.get(f))
    return out


def context_manager(o):
    """the manager of the context when there is one on this path, else the default one"""
    cs = [h for h in hooks(o) if h[0] == "use_context"]
    if len(cs) != 1:
        return None
    v = variant_of(o, cs[0][2])
    return ("pay", cs[0][2], "Some", "0") if v == "Some" else DEFAULT if v == "None" else None


def manager_prefix(cfg, mgr):
    pf = method(prog(cfg), "StyleManager", "prefix")
    return value(cfg, pf, mgr) if pf else None


def the_style(r, rule, subj, cfg, w, mgr, glob, ast, where):
    """the content a path finds or creates, if it is the one for this manager, kind and sheet"""
    c = SimpleNamespace(subj=subj, prefix=manager_prefix(cfg, mgr), ast=ast, where=lambda: where)
    lk = the_look(r, rule, c, w)
    if lk is None:
        return None
    M, K, hit = lk
    r.check(root_mgr(M) == root_mgr(mgr) and is_under(M, mgr), rule + "-manager", subj, "looked up in %s, expected the manager %s" % (showx(M), showx(mgr)), where)
    kind = key_value(r, rule, c, K)
    kinds = {e[3]: k for e in ENTRIES for k in key_kinds(cfg, e)}
    r.check(kind == kinds.get(glob), rule + "-kind", subj, "the scope kind is %s" % showx(kind or NONE), where)
    if hit == "Some":
        r.check(not (w.reg or w.added or w.other), rule + "-found", subj, "changes the registry although the style is found", where)
        return ("pay", call("map_get", M, K), "Some", "0")
    good = len(w.reg) == 1 and w.reg[0][0] == M and w.reg[0][1][1] == K and not w.other
    r.check(good, rule + "-registered", subj, "does not register exactly the style it creates (%s)" % w.desc(), where)
    return w.reg[0][1][2] if good else None


@functools.lru_cache(None)
def key_kinds(cfg, e):
    c = Creation(cfg, *e)
    out = set()
    for w in c.rows:
        for _, K, _ in w.look:
            out |= {v for _, v in K[3] if v[0] == "bool" or v[0] == "adt" and not v[3]} if K[0] == "adt" else set()
    return frozenset(out)


def failing(o):
    """something went wrong on this path: a call failed, or mounting was attempted (what the browser lacked is not kept apart)"""
    win = call("web_sys::window")
    return any(a[0] == "variant" and (v == "Err" or any(x == win for x in walk(a)) or v == "None" and a[1][:1] == ("fld",) and a[1][2] == "container")
               for a, v in o.st.facts.items())


# ---------------------------------------------------------------- C32
def strip_ref(t):
    t = t.strip()
    while t.startswith("&"):
        t = re.sub(r"^&\s*('\w+\s+)?(mut\s+)?", "", t).strip()
    return t


def conversions(P):
    """(source, target, method, kind) of every conversion into classes or a style source"""
    for i in P.items.values():
        im = i.get("impl")
        if not im or "body" not in i or not im.get("trait") or i.id.split("::")[0] != "stylist":
            continue
        t = short(im["trait"])
        ta = (im.get("targs") or [""])[0]
        if t in ("From", "TryFrom") and i["name"] in ("from", "try_from"):
            src, dst = ta, im["self"]
        elif t == "FromStr" and i["name"] == "from_str":
            src, dst = "&str", im["self"]
        elif t in ("Into", "TryInto", "IntoPropValue") and i["name"] in ("into", "try_into", "into_prop_value"):
            src, dst = im["self"], ta
        else:
            continue
        if short(strip_ref(dst)) in ("Classes", "StyleSource"):
            yield i, t, short(strip_ref(src)), short(strip_ref(dst))


def conversion_rules(r, cfg):
    P = prog(cfg)
    n = {}
    src_adt = P.adt("StyleSource")
    if src_adt is None:
        return r.bad("source", cfg, "StyleSource not found")
    fields = src_adt["variants"][0]["fields"]
    sheet = next((f["name"] for f in fields if short(f["tys"]) == "Sheet"), None)
    mgr = next((f["name"] for f in fields if "StyleManager" in f["tys"] and short(f["tys"]) == "Option"), None)
    extra = [f["name"] for f in fields if f["name"] not in (sheet, mgr)]
    if sheet is None or mgr is None:
        return r.bad("source", cfg, "the sheet or the manager of StyleSource was not found")
    cls = method(P, "Style", "get_class_name")
    for it, tr, src, dst in conversions(P):
        subj = "%s for %s -> %s (%s)" % (tr, src, dst, cfg)
        w = at_where(it)
        r.fn(it)
        n[(src, dst)] = n.get((src, dst), 0) + 1
        x = ("arg", "src")
        outs = summary(cfg, it, x)
        r.count("outcomes", len(outs))
        if dst == "StyleSource":
            source_of(r, subj, outs, src, x, sheet, mgr, tr, w)
        elif src == "Style":
            r.check(bool(outs), "style-class", subj, "no outcome", w)
            for o in outs:
                r.check(o.kind == "ret" and unstyle(o.val) == seq((("one", styled(value(cfg, cls, x))),)) and not effects(o) and not flat(o.st.trace()),
                        "style-class", subj, "yields %s%s" % (showx(o.val)[:300], ", and more" if flat(o.st.trace()) else ""), w)
        elif src == "StyleSource":
            oks = 0
            for o in outs:
                if o.kind == "panic":
                    r.check(failing(o), "source-panics", subj, "panics when %s" % facts_str(o), w)
                    continue
                row = Row(o)
                v = variant_of(o, ("fld", x, mgr))
                if v not in ("Some", "None"):
                    r.bad("source-manager", subj, "does not ask whether the source has a manager (%s)" % facts_str(o), w)
                    continue
                m = ("pay", ("fld", x, mgr), "Some", "0") if v == "Some" else DEFAULT
                content = the_style(r, "source-style", subj, cfg, row, m, False, ("fld", x, sheet), w)
                if content is None:
                    continue
                oks += 1
                name = class_of(cfg, content)
                got = unstyle(o.val)
                items = list(seq_items(got)) if got[0] == "seq" else None
                loc = [("one", ("fld", x, e)) for e in extra]
                ok_ = items is not None and name is not None and items[:1] == [("one", name)] and all(i in loc for i in items[1:])
                r.check(ok_, "source-class", subj, "yields %s; expected the class %s" % (showx(o.val)[:300], showx(name or NONE)[:200]), w)
                r.check(not row.events, "source-effects", subj, "also does %s" % showx(row.events)[:300] if row.events else "", w) if cfg != "wasm" else None
            r.floor("classes of " + subj, oks, 2)
        else:
            r.bad("conversion", subj, "a conversion into classes from a type that is not a style", w)
    return n, fields


def unstyle(v):
    """class lists with the names of ids opened"""
    if v[0] == "seq":
        return seq(tuple(("one", styled(e[1])) if e[0] == "one" else e for e in seq_items(v)))
    return v


def class_of(cfg, content):
    P = prog(cfg)
    h = handle(P, "Style", content)
    m = method(P, "Style", "get_class_name")
    v = value(cfg, m, h) if m is not None and h is not None else None
    return styled(v) if v is not None else None


def source_of(r, subj, outs, src, x, sheet, mgr, tr, w):
    fallible = tr in ("TryFrom", "FromStr", "TryInto")
    if src in ("Sheet", "StyleSource"):
        want = x if src == "Sheet" else ("fld", x, sheet)
        for o in outs:
            v = dict(o.val[3]).get("0") if fallible and o.val[0] == "adt" and o.val[2] == "Ok" else o.val
            f = dict(v[3]) if o.kind == "ret" and v[0] == "adt" else {}
            r.check(f.get(sheet) == want and f.get(mgr) == NONE and not effects(o), "sheet-kept", subj, "yields %s" % showx(o.val)[:300], w)
        r.check(bool(outs), "sheet-kept", subj, "no outcome", w)
        return
    if src not in ("str", "String", "Cow", "Rc", "Arc", "AttrValue", "Box"):
        r.bad("conversion", subj, "a conversion into a style source from a type that is not known", w)
        return
    p = call("parse", x)
    seen = set()
    for o in outs:
        v = variant_of(o, p)
        if v is None:
            r.bad("parsed", subj, "the string is not parsed, or another one is (%s)" % facts_str(o), w)
            continue
        if isinstance(v, str):
            seen.add(v)
        if v == "Ok":
            y = o.val
            if fallible:
                y = dict(y[3]).get("0", UNIT) if o.kind == "ret" and y[0] == "adt" and y[2] == "Ok" else UNIT
            f = dict(y[3]) if o.kind == "ret" and y[0] == "adt" else {}
            r.check(f.get(sheet) == ("pay", p, "Ok", "0") and f.get(mgr) == NONE and not effects(o), "parsed-kept", subj,
                    "the string parses, the result is %s" % showx(o.val)[:300], w)
        elif fallible:
            good = o.kind == "ret" and o.val[0] == "adt" and o.val[2] == "Err" and any(t == ("pay", p, "Err", "0") for t in walk(o.val))
            r.check(good, "failure-returned", subj, "the string does not parse, the result is %s" % showx(o.val)[:300], w)
        else:
            r.check(o.kind == "panic", "failure-reported", subj, "the string does not parse, the result is %s" % showx(o.val)[:300], w)
    r.check(seen == {"Ok", "Err"}, "parsed-both", subj, "only %s is handled" % sorted(seen), w)


def attaching(r, cfg):
    """with_manager sets the manager and nothing else"""
    P = prog(cfg)
    it = method(P, "StyleSource", "with_manager")
    if it is None:
        return r.bad("with-manager", cfg, "not found")
    r.fn(it)
    fs = P.adt("StyleSource")["variants"][0]["fields"]
    mgr = next((f["name"] for f in fs if "StyleManager" in f["tys"] and short(f["tys"]) == "Option"), None)
    v = value(cfg, it, ("arg", "s"), ("arg", "m"))
    r.check(changed(v, ("arg", "s")) == [(mgr, some(("arg", "m")))], "with-manager", cfg, "yields %s" % showx(v or NONE)[:300], at_where(it))


def use_style(r, cfg):
    """the hook creates the style for its source on the manager of the context"""
    P = prog(cfg)
    it = next((i for i in P.items.values() if i.get("name") == "use_style" and "body" in i and "impl" not in i and i.id.split("::")[:2] == ["stylist", "yew"]), None)
    if it is None:
        return r.bad("use_style", cfg, "not found")
    subj = "use_style (%s)" % cfg
    outs, ip = run_hook(r, subj, cfg, it, [("arg", "css")])
    stable_order(r, subj, outs, at_where(it))
    conv = call("try_into", ("arg", "css"))
    src = P.adt("StyleSource")
    sheet = next(f["name"] for f in src["variants"][0]["fields"] if short(f["tys"]) == "Sheet")
    oks = 0
    for o in outs:
        if o.kind == "panic":
            r.check(failing(o), "hook-panics", subj, "panics when %s" % facts_str(o), at_where(it))
            continue
        m = context_manager(o)
        if m is None:
            r.bad("hook-context", subj, "the context is not asked exactly once (%s)" % facts_str(o), at_where(it))
            continue
        content = the_style(r, "hook-style", subj, cfg, Row(o), m, False, ("fld", ("pay", conv, "Ok", "0"), sheet), at_where(it))
        if content is None:
            continue
        oks += 1
        r.check(o.val == handle(P, "Style", content), "hook-value", subj, "returns %s" % showx(o.val)[:300], at_where(it))
    r.floor("styles of " + subj, oks, 4)


def run_hook(r, subj, cfg, it, args):
    """outcomes of running the hook that a hook function returns"""
    P = prog(cfg)
    outs, ip = follow(cfg, it.id, args)
    res = []
    r.fn(it)
    for o in outs:
        v = o.val
        m = None
        if o.kind == "ret" and v[0] == "adt":
            ms = [i for i in P.items.values() if i.id.startswith(it.id + "::") and i.get("name") == "run" and "body" in i and
                  short((i.get("impl") or {}).get("trait") or "") == "Hook"]
            m = ms[0] if len(ms) == 1 else None
        if m is None:
            r.bad("hook", subj, "the hook it returns was not found: %s" % showx(v)[:200], at_where(it))
            continue
        a, ip = follow(cfg, m.id, (ip.deep(o.st, v), CTX))
        res += a
        for f in ip.stats["functions"]:
            r.fn(P.get(f))
    r.count("outcomes", len(res))
    r.check(bool(res), "hook", subj, "no outcome", at_where(it))
    return res, ip


def component(r, cfg, ty):
    P = prog(cfg)
    it = method(P, ty, "run", "FunctionProvider")
    if it is None:
        r.bad("component", "%s (%s)" % (ty, cfg), "its function was not found")
        return None, [], None
    b = it["body"]
    if b["argc"] != 2:
        r.bad("component", "%s (%s)" % (ty, cfg), "unexpected signature", at_where(it))
        return None, [], None
    outs, ip = follow(cfg, it.id, (CTX, PROPS))
    for f in ip.stats["functions"]:
        r.fn(P.get(f))
    r.count("outcomes", len(outs))
    r.check(bool(outs), "component", ty, "no outcome", at_where(it))
    return it, outs, ip


# ---------------------------------------------------------------- C35
def last(ty):
    return re.sub(r"(?<=\w)<[^<>]*>$", "", ty).split("::")[-1]


def drop_impl(P, v):
    """Drop of the type of a value"""
    for i in P.items.values():
        im = i.get("impl")
        if im and "body" in i and i.get("name") == "drop" and im.get("trait") and short(im["trait"]) == "Drop":
            if v[0] == "adt" and last(im["self"]) == last(v[1]):
                return i
    return None


def parts(v, stop=None):
    """(path, part) of a built value"""
    yield (), v
    if v == stop:
        return
    if v[0] == "adt":
        for n, x in v[3]:
            for p, y in parts(x, stop):
                yield (n,) + p, y
    elif v[0] == "tup":
        for i, x in enumerate(v[1:]):
            for p, y in parts(x, stop):
                yield (str(i),) + p, y


def global_component(r, cfg):
    P = prog(cfg)
    it, outs, ip = component(r, cfg, "Global")
    if it is None:
        return
    subj, w = "Global (%s)" % cfg, at_where(it)
    stable_order(r, subj, outs, w)
    src = P.adt("StyleSource")
    sheet = next(f["name"] for f in src["variants"][0]["fields"] if short(f["tys"]) == "Sheet")
    css = ("fld", PROPS, "css")
    kept = created = 0
    for o in outs:
        if o.kind == "panic":
            r.bad("render-panics", subj, "panics when %s" % facts_str(o), w)
            continue
        r.check(html_result(o.val) == call("default", S("VNode")), "renders-nothing", subj, "renders %s" % showx(html_result(o.val))[:200], w)
        r.check(not rest_of(o) and not effects(o), "render-effects", subj, "every render also does %s" % showx(rest_of(o) or [m for m, _ in effects(o)])[:300], w)
        m = context_manager(o)
        if m is None:
            r.bad("context", subj, "the context is not asked exactly once for the manager (%s)" % facts_str(o), w)
            continue
        hs = [h for h in hooks(o) if h[0] != "use_context"]
        memo = [h for h in hs if h[0] == "use_memo"]
        r.check(len(memo) == 1 and len(hs) == 1, "memo", subj, "the hooks are %s; expected one memo" % [h[0] for h in hs], w)
        if len(memo) != 1:
            continue
        deps, clo = memo[0][1][0], memo[0][1][1]
        items = list(deps[1:]) if deps[0] == "tup" else [deps]
        sheets = [css, ("fld", css, sheet)]
        r.check(m in items and any(s in items for s in sheets), "memo-keys", subj,
                "the style is kept while %s stays equal; it depends on the manager %s and the css" % (showx(deps)[:200], showx(m)), w)
        r.check(all(x == m or x in sheets for x in items), "memo-extra", subj, "the style is created again when %s changes" % showx(
            [x for x in items if x != m and x not in sheets])[:200], w)
        for q, ev in run_closure(r, subj, ip, o, clo, [deps], w):
            if q.kind == "panic":
                r.check(failing(q), "create-panics", subj, "panics when %s" % facts_str(q), w)
                continue
            row = Row(q)
            content = the_style(r, "create-style", subj, cfg, row, m, True, ("fld", css, sheet), w)
            if content is None:
                continue
            created += 1
            v = ip.deep(q.st, q.val)
            h = handle(P, "GlobalStyle", content)
            guards = [(p, x, drop_impl(P, x)) for p, x in parts(v, h) if x != h and drop_impl(P, x) is not None]
            holds = [(p, x, d) for p, x, d in guards if any(y == h for _, y in parts(x))]
            r.check(any(y == h for _, y in parts(v)), "kept", subj, "the style is not kept while mounted: keeps %s" % showx(v)[:300], w)
            r.check(len(holds) == 1 and len(guards) == 1, "guard", subj,
                    "what is kept does not unregister the style when it is dropped: %s" % showx(v)[:300], w)
            for _, x, d in holds[:1]:
                kept += 1
                path = next(p for p, y in parts(x) if y == h)
                t = SELF
                for n in path + (P.adt("GlobalStyle")["variants"][0]["fields"][0]["name"],):
                    t = ("fld", t, n)
                r.fn(d)
                unregisters(r, "drop in " + subj, summary(cfg, d, SELF), t, at_where(d))
    r.floor("creations in " + subj, created, 4)
    r.floor("guards in " + subj, kept, 4)


# ---------------------------------------------------------------- C36
def media_list(t, query):
    """the media query list of the query"""
    while t[0] == "pay":
        t = t[1]
    return t[:2] == ("call", "Window::match_media") and t[3] == query and any(x == call("web_sys::window") for x in walk(t[2]))


def matching(t, query):
    return t[:2] == ("call", "MediaQueryList::matches") and media_list(t[2], query)


def no_media(o, query):
    """the browser has no window, or refuses the query"""
    for a, v in o.st.facts.items():
        if a[0] == "variant" and v in ("None", "Err"):
            t = a[1]
            while t[0] == "pay":
                t = t[1]
            if t == call("web_sys::window") or media_list(a[1], query):
                return True
    return False


MEDIA_EVENTS = ("web_sys::window", "Window::match_media", "MediaQueryList::matches")


def sets(evs, state):
    return [e[3] for e in evs if e[0] == "ev" and e[1] in ("UseStateHandle::set", "UseStateSetter::set") and
            (e[2] == state or e[2] == call("UseStateHandle::setter", state))]


def stray(evs, extra=()):
    return [e for e in evs if e[0] != "ev" or not (e[1] in MEDIA_EVENTS or e[1] in ("UseStateHandle::set", "UseStateSetter::set", "UseStateHandle::setter")
                                                     or e[1] in extra)]


def media_hook(r, cfg, name, prepared):
    P = prog(cfg)
    it = next((i for i in P.items.values() if i.get("name") == name and "body" in i and "impl" not in i and i.id.split("::")[:2] == ["stylist", "yew"]), None)
    if it is None:
        return r.bad("hook", name, "not found in %s" % cfg)
    subj, w = "%s (%s)" % (name, cfg), at_where(it)
    q, fb = ("arg", "query"), ("arg", "fallback")
    outs, ip = run_hook(r, subj, cfg, it, [q, fb] if prepared else [q])
    stable_order(r, subj, outs, w)
    done = 0
    for o in outs:
        hs = hooks(o)
        prep = [h for h in hs if h[0] == "use_prepared_state"]
        pv = variant_of(o, prep[0][2]) if prep else None
        if prepared and pv == "Err":
            good = o.kind == "ret" and o.val[0] == "adt" and o.val[2] == "Err" and any(t == ("pay", prep[0][2], "Err", "0") for t in walk(o.val))
            r.check(good, "suspends", subj, "the prepared state is not there yet, the result is %s" % showx(o.val)[:200], w)
            continue
        if o.kind == "panic":
            r.bad("panics", subj, "panics when %s" % facts_str(o), w)
            continue
        st = [h for h in hs if h[0] in ("use_state_eq", "use_state")]
        ef = [h for h in hs if h[0] in ("use_effect_with", "use_layout_effect_with")]
        r.check(len(st) == 1, "state", subj, "keeps %d states" % len(st), w)
        r.check(len(ef) == 1, "effect", subj, "has %d effects keyed by the query; expected one" % len(ef), w)
        r.check(len(hs) == len(st) + len(ef) + len(prep), "hooks", subj, "the hooks are %s" % [h[0] for h in hs], w)
        r.check(not stray(rest_of(o)), "render-effects", subj, "every render also does %s" % showx(stray(rest_of(o)))[:300], w)
        if len(st) != 1 or len(ef) != 1:
            continue
        state = st[0][2]
        want = ok(state) if prepared else state
        r.check(o.val == want, "value", subj, "returns %s; expected the current state" % showx(o.val)[:200], w)
        if prepared:
            r.check(len(prep) == 1, "prepared", subj, "uses %d prepared states" % len(prep), w)
            for h in prep[:1]:
                if cfg == "yew" or len(h[1]) > 1:
                    r.check(len(h[1]) > 1, "prepared-value", subj, "the server prepares nothing", w)
                for c in h[1][1:]:
                    for z, ev in run_closure(r, subj, ip, o, c, [h[1][0]], w):
                        v = z.val
                        r.check(z.kind == "ret" and v == fb and not ev, "prepared-value", subj, "the server prepares %s" % showx(v)[:200], w)
        # the first value
        n = {"prep": 0, "none": 0, "media": 0}
        for z, ev in run_closure(r, subj, ip, o, st[0][1][0], [], w):
            r.check(not stray(ev), "initial-effects", subj, "also does %s" % showx(stray(ev))[:300], w)
            if prepared and prep:
                payload = ("pay", prep[0][2], "Ok", "0")
                v = z.st.facts.get(("variant", payload))
                if v == "Some":
                    n["prep"] += 1
                    r.check(z.kind == "ret" and z.val == ("pay", payload, "Some", "0"), "initial-prepared", subj,
                            "the server prepared a value, but the first one is %s" % showx(z.val)[:200], w)
                    continue
                r.check(v == "None", "initial-asked", subj, "does not ask for the prepared value (%s)" % facts_str(z), w)
            if no_media(z, q):
                n["none"] += 1
                r.check(z.kind == "ret" and z.val == fb if prepared else z.kind == "panic", "initial-without-media", subj,
                        "without media queries, the first value is %s" % showx(z.val)[:200], w)
                continue
            n["media"] += 1
            r.check(z.kind == "ret" and matching(z.val, q), "initial", subj, "the first value is %s" % showx(z.val)[:300], w)
        r.check(n["media"] > 0 and (not prepared or n["prep"] > 0), "initial-cases", subj, "cases %s" % n, w)
        # the effect
        deps, clo = ef[0][1][0], ef[0][1][1]
        items = list(deps[1:]) if deps[0] == "tup" else [deps]
        r.check(q in items, "effect-key", subj, "the effect runs again when %s changes; it depends on the query" % showx(deps)[:200], w)
        ran = 0
        for z, ev in run_closure(r, subj, ip, o, clo, [deps], w):
            if z.kind == "panic":
                r.check(no_media(z, q), "effect-panics", subj, "panics when %s" % facts_str(z), w)
                continue
            ran += 1
            bad = stray(ev, ("EventListener::new",))
            r.check(not bad, "effect-effects", subj, "also does %s" % showx(bad)[:300], w)
            vs = sets(ev, state)
            r.check(bool(vs) and all(matching(v, q) for v in vs), "effect-updates", subj,
                    "sets the state to %s when the query changes; expected whether it matches" % showx(vs)[:300], w)
            ls = [e for e in ev if e[0] == "ev" and e[1] == "EventListener::new"]
            good = len(ls) == 1 and media_list(ls[0][2], q) and ls[0][3] == S("change")
            r.check(good, "listens", subj, "listens to %s; expected the changes of the query" % showx([e[2:4] for e in ls])[:300], w)
            if not good:
                continue
            lst = call("EventListener::new", *ls[0][2:])
            for y, ev2 in run_closure(r, subj, ip, z, ls[0][4], [("arg", "event")], w):
                vs = sets(ev2, state)
                r.check(y.kind == "ret" and bool(vs) and all(matching(v, q) for v in vs) and not stray(ev2), "listener-updates", subj,
                        "a change of the query sets the state to %s%s" % (showx(vs)[:200], " and does " + showx(stray(ev2))[:200] if stray(ev2) else ""), w)
            end = ip.deep(z.st, z.val)
            holds = end[0] == "clo" and any(x == lst for x in walk(end[2]))
            r.check(holds, "listener-kept", subj, "the listener is not handed over to what ends the effect: %s" % showx(end)[:200], w)
            if end[0] == "clo":
                for y, ev2 in run_closure(r, subj, ip, z, z.val, [], w):
                    r.check(y.kind == "ret" and not ev2, "listener-dropped", subj, "the end of the effect does %s" % showx(ev2)[:300], w)
        r.check(ran > 0, "effect-runs", subj, "the effect never listens", w)
        done += 1
    r.floor("complete renders of " + subj, done, 1)


# ---------------------------------------------------------------- C37
def provider(r, cfg):
    P = prog(cfg)
    it, outs, ip = component(r, cfg, "ManagerProvider")
    if it is None:
        return
    subj, w = "ManagerProvider (%s)" % cfg, at_where(it)
    stable_order(r, subj, outs, w)
    mgr, kids = ("fld", PROPS, "manager"), ("fld", PROPS, "children")
    rendered = 0
    for o in outs:
        hs = hooks(o)
        val = html_result(o.val)
        tr = [h for h in hs if h[0] in ("use_transitive_state", "use_prepared_state")]
        memo = [h for h in hs if h[0] == "use_memo"]
        r.check(not effects(o), "render-effects", subj, "every render changes %s" % showx([m for m, _ in effects(o)])[:200], w)
        r.check(len(hs) == len(tr) + len(memo), "hooks", subj, "the hooks are %s" % [h[0] for h in hs], w)
        r.check(len(tr) == 1 and (tr[0][0] == "use_transitive_state" or len(tr[0][1]) < 2), "transfer", subj,
                "the style data is transferred by %s; expected one transitive state (evaluated after the children)" % [h[0] for h in tr], w)
        if len(tr) != 1:
            continue
        h = tr[0]
        v = variant_of(o, h[2])
        transferred(r, cfg, subj, ip, o, h, mgr, w)
        if v == "Err":
            good = o.kind == "ret" and val[0] == "adt" and val[2] == "Err" and any(t == ("pay", h[2], "Err", "0") for t in walk(val))
            r.check(good, "suspends", subj, "the style data is not there yet, the result is %s" % showx(val)[:200], w)
            continue
        if o.kind == "panic" or not (val[0] == "adt" and val[2] == "Ok"):
            r.bad("renders", subj, "does not render when %s" % facts_str(o), w)
            continue
        rendered += 1
        r.check(len(memo) == 1, "load", subj, "the style data is loaded by %d memos" % len(memo), w)
        for h2 in memo[:1]:
            deps = h2[1][0]
            items = list(deps[1:]) if deps[0] == "tup" else [deps]
            r.check(mgr in items, "load-key", subj, "loads again when %s changes; expected the manager" % showx(deps)[:200], w)
            loaded(r, cfg, subj, ip, o, h2[1][1], deps, ("pay", h[2], "Ok", "0"), mgr, w)
        tree(r, cfg, subj, ip, o, mgr, kids, w)
    r.floor("renders of " + subj, rendered, 1)


def transferred(r, cfg, subj, ip, o, h, mgr, w):
    """what the server sends: the data of this manager, nothing if it collects none"""
    if len(h[1]) < 2:
        r.check(cfg != "yew", "transfer-value", subj, "the server transfers nothing", w)
        return
    n = {"Some": 0, "None": 0}
    for z, ev in run_closure(r, subj, ip, o, h[1][1], [h[1][0]], w):
        base = set(o.st.facts)
        at = [(f[1], v) for f, v in z.st.facts.items() if f not in base and f[0] == "variant" and f[1][0] == "fld" and root_is(f[1], mgr)]
        if z.kind == "panic":
            r.check(any(v == "Err" for f, v in z.st.facts.items() if f not in base), "transfer-panics", subj, "panics when %s" % facts_str(z), w)
            continue
        r.check(not ev and effects(z) == effects(o), "transfer-effects", subj, "also does %s" % showx(ev)[:300], w)
        if len(at) != 1 or at[0][1] not in n:
            r.bad("transfer-asks", subj, "does not ask whether the manager collects styles (%s)" % facts_str(z), w)
            continue
        t, v = at[0]
        n[v] += 1
        got = ip.deep(z.st, z.val)
        if v == "Some":
            r.check(got == ("pay", t, "Some", "0"), "transfer-value", subj, "the server transfers %s" % showx(got)[:300], w)
        else:
            r.check(got[0] == "adt" and [x for _, x in got[3]] == [("seq",)], "transfer-none", subj, "without collected styles, transfers %s" % showx(got)[:300], w)
    r.check(min(n.values()) > 0, "transfer-cases", subj, "cases %s" % n, w)


def root_is(t, base):
    while t != base:
        if t[0] in ("fld", "pay") or t[:2] == ("call", "lock"):
            t = t[2] if t[0] == "call" else t[1]
        else:
            return False
    return True


def loaded(r, cfg, subj, ip, o, clo, deps, data, mgr, w):
    """in the browser the data, if there is any, goes into this manager, as load_style_data does it"""
    P = prog(cfg)
    m = method(P, "StyleManager", "load_style_data")
    if m is None:
        return r.bad("load", subj, "load_style_data not found", w)
    base = dict(o.st.facts)
    st0 = effects(o)

    def table(outs, n):
        t = []
        for z in outs:
            fs = frozenset((f, v if isinstance(v, (str, bool)) else repr(v)) for f, v in z.st.facts.items() if base.get(f) != v)
            t.append((z.kind, fs, tuple(sorted(map(repr, [e for e in effects(z) if e not in st0]))), tuple(z.st.trace()[n:])))
        return sorted(map(repr, t))
    n = len(o.st.trace())
    some_, none_ = o.st.copy(), o.st.copy()
    some_.facts[("variant", data)] = "Some"
    none_.facts[("variant", data)] = "None"
    from lib.interp import Out
    a = run_closure(r, subj, ip, Out("ret", some_, UNIT), clo, [deps], w)
    base[("variant", data)] = "Some"
    b = ip.run_fn(some_.copy(), m, [mgr, ("pay", data, "Some", "0")], (m.id,))
    r.check(bool(a) and table([z for z, _ in a], n) == table(b, n), "loads", subj,
            "the style data of the server is not loaded into the manager as load_style_data does it: %s" % "; ".join(
                facts_str(z) for z, _ in a)[:400], w)
    r.check(any(effects(z) != st0 for z, _ in a), "loads", subj, "loading has no effect", w)
    for z, ev in run_closure(r, subj, ip, Out("ret", none_, UNIT), clo, [deps], w):
        r.check(z.kind == "ret" and not ev and effects(z) == st0, "loads-nothing", subj, "without data, does %s" % showx(ev)[:300], w)


def tree(r, cfg, subj, ip, o, mgr, kids, w):
    """the virtual node: a context provider of this manager around all children"""
    P = prog(cfg)
    v = dict(html_result(o.val)[3])["0"]
    made = [x for x in walk(v) if x[:1] == ("call",) and len(x) > 1 and str(x[1]).startswith("VChild::new")]
    r.check(len(made) == 1, "tree", subj, "renders %s; expected one context provider" % showx(v)[:300], w)
    ctx = [x for x in walk(v) if x[:2] == ("call", "ContextProviderPropsBuilder::context")]
    kid = [x for x in walk(v) if x[:2] == ("call", "ContextProviderPropsBuilder::children")]
    r.check(len(set(ctx)) == 1 and mgr in ctx[0][2:], "tree-context", subj, "provides %s" % showx([x[2:] for x in ctx])[:300], w)
    r.check(len(set(kid)) == 1 and kids in kid[0][2:], "tree-children", subj, "renders the children %s" % showx([x[2:] for x in kid])[:300], w)
    if len(made) == 1:
        r.check(made[0][3:4] == (NONE,) or len(made[0]) < 4, "tree-key", subj, "the provider has a key: %s" % showx(made[0])[:200], w)
    provides = set()
    for f in ip.stats["functions"]:
        b = P.get(f)
        for bl in (b or {}).get("body", {}).get("blocks", ()):
            for x in walk_json(bl):
                if isinstance(x, dict) and x.get("name") == "context" and "ContextProviderPropsBuilder" in str(x.get("path") or x.get("id") or x):
                    provides |= {str(y) for y in x.get("args") or ()}
    tys = {p for p in provides if not p.startswith("'")}
    r.check(any(p == "stylist::manager::StyleManager" for p in tys), "tree-type", subj, "the context is of type %s" % sorted(provides), w)


def walk_json(x):
    yield x
    if isinstance(x, dict):
        for y in x.values():
            yield from walk_json(y)
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from walk_json(y)
