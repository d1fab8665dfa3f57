"""Rules on unregistering, dropping, configuration, static rendering, hydration, mounting (C10, C18, C19, C21-C24, C41)."""
from checks.life import *
from checks.types import *
from lib.interp import Interp, State
from lib.terms import mk_each

SELF = ("arg", "self")


def at_where(it):
    return "%s:%s" % tuple(it["span"]) if it is not None and it.get("span") else None


def flat(tr):
    """events of a trace, loops kept"""
    return [x[1] if x[0] == "one" else x for x in tr[1:]]


def handle(P, ty, content):
    a = P.adt(ty)
    f = a["variants"][0]["fields"]
    return adt(ty, ty, [(f[0]["name"], content)]) if len(f) == 1 else None


def effects(o):
    """store changes of an outcome besides its trace"""
    return [(l[1], v) for l, v in o.st.store.items() if l != "TRACE" and l[0] == "T" and v != l[1]]


def entropy_free(o):
    return not any(is_entropy(x) for e in o.st.trace()[1:] for x in walk(e))


# ---------------------------------------------------------------- C18
def unregistering(r, cfg):
    P = prog(cfg)
    for ty in ("Style", "GlobalStyle"):
        it = method(P, ty, "unregister")
        subj = "%s::unregister (%s)" % (ty, cfg)
        if it is None:
            r.bad("unregister", subj, "not found")
            continue
        r.fn(it)
        inner = ("fld", SELF, P.adt(ty)["variants"][0]["fields"][0]["name"])
        unregisters(r, subj, summary(cfg, it), inner, at_where(it))


def unregisters(r, subj, outs, inner, w):
    """outcomes of a function on self that take the content `inner` out of its manager's registry, and do nothing else"""
    removed = 0
    for o in outs:
        if o.kind == "panic":
            r.bad("unregister-panic", subj, "may panic when %s" % facts_str(o), w)
            continue
        r.check(not flat(o.st.trace()), "unregister-events", subj, "also does %s" % showx(flat(o.st.trace()))[:300], w)
        up = [(t, v) for (k, t), v in [(a, v) for a, v in o.st.facts.items() if a[0] == "variant"] if t[:2] == ("call", "upgrade")]
        ef = effects(o)
        same = [v for a, v in o.st.facts.items() if a[0] == "ptr_eq"]
        if not ef:
            # nothing removed: manager gone, not registered, or another style is registered under the key
            gone = any(v == "None" for _, v in up)
            miss = any(a[0] == "variant" and a[1][:2] == ("call", "map_get") and v == "None" for a, v in o.st.facts.items())
            r.check(gone or miss or False in same, "unregister-none", subj, "does not unregister the style when %s" % facts_str(o), w)
            continue
        removed += 1
        mg = [t for t, v in up if v == "Some" and root_mgr(t) == SELF]
        for m, v in ef:
            good = v[:2] == ("call", "map_remove") and v[2] == m and is_under(v[3], inner) and len(mg) == 1 and \
                is_under(m, ("pay", mg[0], "Some", "0"))
            r.check(good, "unregister-own", subj, "changes %s to %s" % (showx(m), showx(v)[:300]), w)
            if good:
                held = ("pay", call("map_get", m, v[3]), "Some", "0")
                own = any(a[0] == "ptr_eq" and v2 is True and set(a[1:]) == {held, inner} for a, v2 in o.st.facts.items())
                r.check(own, "unregister-identity", subj,
                        "removes the registration of an equal key without checking that it is this very style (%s)" % facts_str(o), w)
        r.check(len(ef) == 1, "unregister-only", subj, "changes %s" % showx([m for m, _ in ef]), w)
    r.check(removed >= 1, "unregister-does", subj, "never removes a registration", w)


DETACH = ("remove_child", "remove", "replace_child", "replace_with", "remove_attribute", "set_outer_html", "set_inner_html", "replace_children")


def ownership(r, cfg):
    """a style lives as long as its handles: reference counted, never copied, never leaked, no strong reference to the manager"""
    P = prog(cfg)
    c = method(P, "StyleContent", "drop", "Drop")
    name = content_type(P)
    r.check(name is not None, "content-type", cfg, "the handles do not share one reference counted content")
    if name is None:
        return
    r.check(not has_impl(P, "Clone", name), "content-clone", name, "style contents can be copied, a copy unmounts the style when dropped")
    d = method(P, name, "drop", "Drop")
    r.check(d is not None, "content-drop", name, "nothing happens when the last handle is gone")
    ads, met = closure(P, name, ("Weak",))
    for a in ads:
        r.check(a["name"] not in ("StyleManager", "StyleManagerBuilder"), "strong-manager", name,
                "a style holds its manager alive through %s" % a["name"])
    for i in P.items.values():
        if "body" not in i or i.id.split("::")[0] != "stylist":
            continue
        for f in P.calls(i):
            if f.split("::")[-1] in ("forget", "into_raw", "leak", "increment_strong_count") and f.split("::")[0] in ("std", "core", "alloc"):
                r.bad("leak", i.id, "calls %s" % f)
    r.ok("leak", cfg)
    for a in P.items.values():
        if a.get("kind") not in ("Struct", "Enum") or "variants" not in a:
            continue
        for v, f in field_types(a):
            if any(h == ("adt", x) for h in heads(f["ty"]) for x in ("std::mem::ManuallyDrop", "std::rc::UniqueRc")):
                r.bad("leak", "%s.%s" % (a["name"], f["name"]), "holds %s" % f["tys"])


def content_type(P):
    names = set()
    for ty in ("Style", "GlobalStyle"):
        a = P.adt(ty)
        if a is None or len(a["variants"][0]["fields"]) != 1:
            return None
        t = a["variants"][0]["fields"][0]["ty"]
        if t[0] != "adt" or short(t[1]) not in ("Rc", "Arc"):
            return None
        names |= {short(h[1]) for h in heads(t[2][0] if t[2] and t[2][0] and t[2][0][0] == "adt" else t) if h[0] == "adt" and h[1].split("::")[0] in P.by_crate}
    return names.pop() if len(names) == 1 else None


def unmounting(r, cfg="wasm"):
    """the drop of a style's content removes its element, and nothing else removes elements"""
    P = prog(cfg)
    name = content_type(P)
    it = method(P, name, "drop", "Drop") if name else None
    if it is None:
        return r.bad("unmount", cfg, "style contents have no drop")
    r.fn(it)
    w = at_where(it)
    tag = tag_attr(r, cfg)
    idv = styled_value(cfg, ("fld", SELF, "x"), name)
    n = 0
    for o in summary(cfg, it):
        if o.kind == "panic":
            r.bad("unmount-panic", name, "dropping a style may panic when %s" % facts_str(o), w)
            continue
        ev = [e for e in flat(o.st.trace())]
        q = [e for e in ev if e[0] == "ev" and e[1].endswith("::query_selector")]
        rm = [e for e in ev if e[0] == "ev" and e[1].split("::")[-1] in DETACH]
        other = [e for e in ev if e not in q and e not in rm and not is_read(e)]
        r.check(not other and not effects(o), "unmount-only", name, "dropping a style also does %s" % showx(other)[:300], w)
        calls = {("call",) + e[1:]: o.st.facts.get(("variant", ("call",) + e[1:])) for e in q}
        found = None
        for cq, v in calls.items():
            sel = cq[3] if len(cq) > 3 else None
            r.check(sel_ok(sel, tag, idv), "unmount-selector", name, "looks for %s; mounted elements carry %s = %s" % (
                showx(sel), tag, showx(idv)), w)
            if v == "Ok" and o.st.facts.get(("variant", ("pay", cq, "Ok", "0"))) == "Some":
                found = ("pay", ("pay", cq, "Ok", "0"), "Some", "0")
        par = None
        if found is not None:
            for pn in ("Node::parent_element", "Node::parent_node"):
                pc = call(pn, found)
                if o.st.facts.get(("variant", pc)) is not None:
                    par = (pc, o.st.facts.get(("variant", pc)))
        if found is None:
            nodoc = any(a[0] == "variant" and v == "None" and str(a[1][1]).endswith(("window", "document")) for a, v in o.st.facts.items() if a[1][0] == "call")
            failed = any(v == "Err" for v in calls.values())
            absent = any(o.st.facts.get(("variant", ("pay", c, "Ok", "0"))) == "None" for c in calls)
            r.check(not rm and (nodoc or failed or absent), "unmount-missed", name,
                    "the element is not looked for when %s" % facts_str(o), w)
            continue
        ok_ = (len(rm) == 1 and (rm[0][1] == "Element::remove" and rm[0][2] == found or
                                 rm[0][1] == "Node::remove_child" and par is not None and rm[0][2] == ("pay", par[0], "Some", "0") and rm[0][3] == found))
        if par is not None and par[1] == "None":
            r.check(not rm, "unmount-element", name, "removes %s" % showx(rm), w)
            continue
        n += 1
        r.check(ok_, "unmount-element", name, "the element found is not removed exactly once: %s" % showx(rm or "nothing")[:300], w)
    r.check(n >= 1, "unmount-does", name, "dropping a style never removes its element", w)
    # nobody else removes elements
    for i in P.items.values():
        if "body" not in i or i.id.split("::")[0] != "stylist":
            continue
        for f in P.calls(i):
            if f.split("::")[0] in ("web_sys", "gloo_utils") and f.split("::")[-1] in DETACH:
                ents = entry_points(P, i)
                for e in ents:
                    if dead(P, e):
                        continue
                    im = P.get(e).get("impl") or {}
                    r.check(P.get(e).get("name") == "drop" and short(im.get("trait") or "") == "Drop" and short(im.get("self") or "") == name,
                            "unmount-elsewhere", e, "removes elements of the page (%s in %s)" % (f, i.id))


def dead(P, e):
    """a function nothing calls or mentions, and which is not offered to users either"""
    it = P.get(e)
    if it is None or it.get("kind") not in ("Fn", "AssocFn") or it.get("reach", True) or (it.get("impl") or {}).get("trait"):
        return False
    return not P.callers().get(e)


def entry_points(P, item):
    """functions nobody local calls, from which item is reached"""
    callers = P.callers()
    seen, todo, ents = {item.id}, [item.id], set()
    while todo:
        x = todo.pop()
        up = set(callers.get(x, ()))
        if "::{closure" in x:
            up.add(x[:x.rindex("::{closure")])
        if not up:
            ents.add(x)
        for c in up:
            if c not in seen:
                seen.add(c)
                todo.append(c)
    return ents


def styled_value(cfg, t, name):
    """the id string of a content"""
    P = prog(cfg)
    m = method(P, "Style", "id")
    if m is None:
        return None
    h = handle(P, "Style", SELF)
    v = value(cfg, m, h)
    if v is None:
        return None
    v = styled(v)
    a = P.adt("StyleId")
    if a is not None and len(a["variants"][0]["fields"]) == 1 and v[0] != "str":
        return ("fld", v, a["variants"][0]["fields"][0]["name"])
    return v


def sel_ok(sel, tag, idv):
    if sel is None or tag is None:
        return False
    return sel in [cat(S("%s[%s=%s" % (el, tag, q)), idv, S(q + "]")) for q in ("", '"', "'") for el in ("style", "")]


READS = ("window", "document", "head", "first_child", "query_selector", "parent_element", "parent_node", "lock", "body", "get_root_node",
         "owner_document", "child_nodes", "last_child")


def is_read(e):
    return e[0] == "ev" and e[1].split("::")[-1] in READS


# ---------------------------------------------------------------- C24
def container(cfg, mgr):
    P = prog(cfg)
    m = method(P, "StyleManager", "container")
    return value(cfg, m, mgr) if m else None


def appends(cfg):
    """the builder field behind the append setting"""
    m = method(prog(cfg), "StyleManagerBuilder", "append")
    v = value(cfg, m, ("arg", "b"), ("arg", "v")) if m else None
    ch = changed(v, ("arg", "b"))
    return ch[0][0] if ch and len(ch) == 1 and ch[0][1] == ("arg", "v") else None


def tag_attr(r, cfg):
    c = Creation(cfg, *ENTRIES[0])
    names = {e[3][1] for w in c.created() for e in flat(w.o.st.trace()) if e[0] == "ev" and e[1] == "Element::set_attribute"
             and e[3][0] == "str" and len(e) > 4 and styled(c.read(w.result()[1], "id")) == e[4]}
    return names.pop() if len(names) == 1 else None


def mounting(r, c):
    if c.cfg != "wasm":
        return
    cont = container(c.cfg, c.mgr)
    app = appends(c.cfg)
    if cont is None or app is None:
        return r.bad("mount", c.subj, "the container or append setting was not found")
    place = ("pay", cont, "Some", "0")
    n = 0
    modes = set()
    for w in c.rows:
        ev = flat(w.o.st.trace())
        made = [e for e in ev if e[0] == "ev" and e[1] == "Document::create_element"]
        ins = [e for e in ev if e[0] == "ev" and e[1].split("::")[-1] in INSERT]
        tag, h = w.result()
        F = w.o.st.facts
        if not (w in c.created()):
            for e in ins:
                r.check(F.get(("variant", ("call",) + e[1:])) != "Ok", "mount-left", c.subj, "fails when %s, but leaves %s" % (
                    w.desc(), showx(e)[:200]), c.where())
            continue
        wr = [(a, v) for a, v in F.items() if a[0] == "variant" and a[1][0] == "fld" and a[1][2] == c.writer]
        if any(v == "Some" for _, v in wr):
            continue
        n += 1
        if len(made) != 1:
            r.bad("mount-one", c.subj, "%d elements are created when %s" % (len(made), w.desc()), c.where())
            continue
        E = ("pay", ("call",) + made[0][1:], "Ok", "0")
        r.check(made[0][3] == S("style"), "mount-style", c.subj, "creates a %s element" % showx(made[0][3]), c.where())
        idv, text = styled(c.read(h, "id")), c.read(h, "get_style_str")
        attrs = [e for e in ev if e[0] == "ev" and e[1].split("::")[-1] == "set_attribute"]
        r.check(len(attrs) == 1 and attrs[0][2] == E and attrs[0][3] == S("data-style") and attrs[0][4] == idv, "mount-attribute", c.subj,
                "attributes set: %s; expected data-style = %s" % (showx(attrs)[:300], showx(idv)), c.where())
        txt = [e for e in ev if e[0] == "ev" and e[1].split("::")[-1] in ("set_text_content", "set_inner_html", "set_node_value", "set_inner_text")]
        r.check(len(txt) == 1 and txt[0][1].endswith("set_text_content") and txt[0][2] == E and txt[0][3] == some(text), "mount-text", c.subj,
                "text set: %s; expected the style's text %s" % (showx(txt)[:300], showx(text)[:100]), c.where())
        rest = [e for e in ev if e not in made + attrs + txt + ins and not is_read(e) and not is_draw(e)]
        r.check(not rest, "mount-only", c.subj, "mounting also does %s" % showx(rest)[:300], c.where())
        for e in made + attrs + ins:
            r.check(F.get(("variant", ("call",) + e[1:])) == "Ok", "mount-errors", c.subj, "%s may have failed, but the style is registered" % showx(e)[:160],
                    c.where())
        if len(ins) != 1:
            r.bad("mount-insert", c.subj, "the element is inserted %d times when %s" % (len(ins), w.desc()), c.where())
            continue
        at_end, at_start = position(ins[0], place, E, F)
        ap = [v for a, v in F.items() if a[0] == "fld" and a[2] == app and root_mgr(a) == c.mgr]
        want = ap if ap else [True, False]
        for m in want:
            modes.add(m)
            r.check(at_end if m else at_start, "mount-place", "%s, append=%s" % (c.subj, m),
                    "inserted by %s when %s" % (showx(ins[0])[:300], w.desc()), c.where())
    r.floor("mounted styles of " + c.subj, n, 1)
    r.check(modes == {True, False}, "mount-modes", c.subj, "only handles append=%s" % sorted(modes), c.where())


INSERT = ("append_child", "insert_before", "append_with_node_1", "prepend_with_node_1", "insert_adjacent_element", "replace_child", "append", "prepend",
          "insert_adjacent_html", "before", "after", "before_with_node_1", "after_with_node_1", "replace_with_with_node_1")


def position(e, place, E, F):
    """(is at the end, is before the first child or at the end of an empty container)"""
    n = e[1].split("::")[-1]
    first = call("Node::first_child", place)
    v = F.get(("variant", first))
    if e[2] != place or len(e) < 4 or e[3] != E:
        return False, False
    if n == "append_child":
        return True, v == "None"
    if n == "insert_before":
        if e[4] == NONE:
            return True, v == "None"
        if e[4] == first:
            return v == "None", True
        if e[4] == some(("pay", first, "Some", "0")):
            return False, v == "Some"
    return False, False


# ---------------------------------------------------------------- C19
def configuration(r, cfg):
    P = prog(cfg)
    B = "StyleManagerBuilder"
    b = ("arg", "b")
    sets = {}
    for name, want in (("prefix", lambda v: [v]), ("container", lambda v: [some(v)]), ("append", lambda v: [v]), ("writer", None)):
        it = method(P, B, name)
        subj = "%s::%s (%s)" % (B, name, cfg)
        if it is None:
            r.check(name == "writer" and cfg not in ("host", "wasm"), "setter", subj, "not found")
            continue
        r.fn(it)
        v = ("arg", "v")
        res = value(cfg, it, b, v)
        ch = changed(res, b)
        if ch is None or len(ch) != 1:
            r.bad("setter", subj, "changes %s" % showx(ch if ch is not None else "unknown")[:300], at_where(it))
            continue
        f, x = ch[0]
        sets[name] = f
        if want is not None:
            r.check(x in want(v), "setter-value", subj, "sets %s to %s" % (f, showx(x)), at_where(it))
        else:
            wf = P.adt("StaticWriter")["variants"][0]["fields"]
            r.check(x in [some(v)] + [some(("fld", v, g["name"])) for g in wf], "setter-value", subj, "sets %s to %s" % (f, showx(x)), at_where(it))
        r.ok("setter", subj)
    r.check(len(set(sets.values())) == len(sets), "setter-distinct", cfg, "settings share a field: %s" % sets)
    # defaults
    for ty, name, tr in ((B, "new", None), (B, "default", "Default"), ("StyleManager", "builder", None)):
        it = method(P, ty, name, tr)
        subj = "%s::%s (%s)" % (ty, name, cfg)
        if it is None:
            r.bad("defaults", subj, "not found")
            continue
        r.fn(it)
        v = value(cfg, it)
        got = dict(v[3]) if v is not None and v[0] == "adt" else {}
        want = {"prefix": S("stylist"), "container": NONE, "append": TRUE, "writer": NONE}
        for s, f in sets.items():
            r.check(got.get(f) == want[s], "defaults", "%s %s" % (subj, s), "default is %s" % showx(got.get(f)), at_where(it))
        for f, x in got.items():
            if f not in sets.values():
                r.check(empty_state(x), "fresh-state", "%s %s" % (subj, f), "starts with %s" % showx(x), at_where(it))
    # build
    it = method(P, B, "build")
    subj = "%s::build (%s)" % (B, cfg)
    if it is None or "container" not in sets:
        return r.bad("build", subj, "not found")
    r.fn(it)
    n = 0
    for o in summary(cfg, it, b):
        w = at_where(it)
        if o.kind == "panic":
            r.bad("build", subj, "may panic when %s" % facts_str(o), w)
            continue
        r.check(not effects(o) and all(is_read(e) for e in flat(o.st.trace())), "build-effects", subj, "does %s" % showx(flat(o.st.trace()))[:300], w)
        good = o.val[0] == "adt" and o.val[2] == "Ok"
        nohead = cfg == "wasm" and o.st.facts.get(("variant", ("fld", b, sets["container"]))) == "None" and \
            any(a[0] == "variant" and v == "None" and a[1][0] == "call" for a, v in o.st.facts.items())
        if not good:
            r.check(nohead, "build-fails", subj, "fails when %s" % facts_str(o), w)
            continue
        r.check(not nohead, "build-error-swallowed", subj, "succeeds when %s" % facts_str(o), w)
        n += 1
        m = dict(o.val[3])["0"]
        inner = [x for _, x in m[3]] if m[0] == "adt" else []
        ch = changed(inner[0], b) if len(inner) == 1 else None
        if cfg == "wasm" and o.st.facts.get(("variant", ("fld", b, sets["container"]))) == "None":
            okh = ch is not None and len(ch) == 1 and ch[0][0] == sets["container"] and is_head(ch[0][1])
            r.check(okh, "build-head", subj, "without a container, the manager is %s" % showx(m)[:300], w)
        else:
            r.check(ch == [], "build-keeps", subj, "when %s, the manager is %s" % (facts_str(o), showx(m)[:300]), w)
    r.check(n >= (2 if cfg == "wasm" else 1), "build-succeeds", subj, "only %d successful outcomes" % n, at_where(it))
    # accessors
    M = ("arg", "m")
    mf = P.adt("StyleManager")["variants"][0]["fields"]
    for s in ("prefix", "container"):
        it = method(P, "StyleManager", s)
        v = value(cfg, it, M) if it else None
        r.check(len(mf) == 1 and v == ("fld", ("fld", M, mf[0]["name"]), sets.get(s)), "accessor", "StyleManager::%s (%s)" % (s, cfg),
                "returns %s" % showx(v), at_where(it))
    it = method(P, "StyleManager", "new")
    if it is not None:
        nv, bv = summary(cfg, it), method(P, B, "new")
        base = value(cfg, bv) if bv else None
        outs = [o for o in nv if o.kind == "ret" and o.val[2] == "Ok"]
        for o in outs:
            m = dict(o.val[3])["0"]
            inner = [x for _, x in m[3]][0]
            same = inner == base or cfg == "wasm" and base is not None and inner[0] == "adt" and \
                [f for f, x in inner[3] if x != dict(base[3]).get(f)] == [sets["container"]]
            r.check(same, "new-is-default", "StyleManager::new (%s)" % cfg, "builds %s" % showx(m)[:300], at_where(it))
        r.floor("successes of StyleManager::new (%s)" % cfg, len(outs), 1)
    it = method(P, "StyleManager", "eq", "PartialEq")
    if it is not None:
        outs = summary(cfg, it)
        r.check(all(o.kind == "ret" and o.val[0] in ("ptr_eq", "bool") or o.val[:2] == ("call", "ptr_eq") for o in outs) and
                all(any(x[0] == "ptr_eq" or x[:2] == ("call", "ptr_eq") for x in walk((o.val,) + tuple(o.st.facts))) for o in outs),
                "manager-equality", cfg, "managers are equal by %s" % showx([o.val for o in outs]), at_where(it))


def empty_state(x):
    if x in (NONE, ("seq",)):
        return True
    if x[0] == "adt":
        return all(empty_state(v) for _, v in x[3])
    return x[0] == "call" and x[1] in ("new", "default", "map_new")


def is_head(x):
    return x[0] == "adt" and x[2] == "Some" and x[3][0][1][0] == "pay" and x[3][0][1][1][:2] == ("call", "Document::head")


# ---------------------------------------------------------------- C21
def style_text(tr, w):
    """the text written to w by a trace as a string term; None if something else happens"""
    out = []
    for x in tr:
        if x[0] == "one":
            e = x[1]
            if e[:3] == ("ev", "write", w) and len(e) == 4:
                out += list(cat_items(e[3]))
            elif is_read(e):
                continue
            else:
                return None
        elif x[0] == "each":
            alts = []
            for cs, ps in x[2]:
                t = style_text(ps, w)
                if t is None:
                    return None
                alts.append((frozenset(c for c in cs if not (c[0][0] == "variant" and c[0][1][:2] == ("call", "write"))), cat_items(t)))
            out += list(mk_each(x[1], alts, "cat"))
        else:
            return None
    return cat(*out)


def markup(r, cfg="host"):
    P = prog(cfg)
    it = method(P, "StyleData", "write_static_markup")
    if it is None:
        return r.bad("markup", cfg, "not found")
    r.fn(it)
    w = ("arg", args_of(it)[1])
    fields = P.adt("StyleDataContent")
    entry = [f for f in fields["variants"][0]["fields"]] if fields else []
    fid = next((f["name"] for f in entry if short(f["tys"]) == "StyleId"), None)
    ftx = next((f["name"] for f in entry if short(f["tys"]) == "String"), None)
    src = ("it", ("fld", SELF, P.adt("StyleData")["variants"][0]["fields"][0]["name"]))
    e = ("elem", src)
    sid = ("fld", ("fld", e, fid), P.adt("StyleId")["variants"][0]["fields"][0]["name"])
    want = cat(*mk_each(src, [(frozenset(), cat_items(cat(S('<style data-style="'), sid, S('">'),
               call("html_escape::encode_style", ("fld", e, ftx)), S("</style>"))))], "cat"))
    n = 0
    for o in summary(cfg, it):
        wh = at_where(it)
        if o.kind == "panic":
            r.bad("markup-panic", cfg, "may panic when %s" % facts_str(o), wh)
            continue
        tag = o.val[2] if o.val[0] == "adt" else None
        if tag == "Ok":
            n += 1
            r.check(not effects(o), "markup-effects", cfg, "changes %s" % showx(effects(o))[:200], wh)
            got = style_text(o.st.trace()[1:], w)
            r.check(got == want, "markup-text", "write_static_markup", "writes %s; expected %s" % (showx(got)[:500], showx(want)[:500]), wh)
            # no write of this outcome may have failed
            fails = [a for a, v in o.st.facts.items() if a[0] == "variant" and a[1][:2] == ("call", "write") and v == "Err"]
            loops = [a for a, v in o.st.facts.items() if a[0] == "found" and v is True]
            r.check(not fails and not loops, "markup-error-swallowed", "write_static_markup", "succeeds when %s" % facts_str(o), wh)
            conds = {t for a in o.st.facts if a[0] == "found" for t in walk(a) if t[:2] == ("call", "write")}
            wrote = {("call",) + x[1:] for x in walk(o.st.trace()) if x[:2] == ("ev", "write")}
            r.check(wrote <= conds | {a[1] for a in o.st.facts if a[0] == "variant"}, "markup-unchecked", "write_static_markup",
                    "the result of a write is not checked: %s" % showx(sorted(wrote - conds, key=repr))[:300], wh)
        else:
            fails = [a[1] for a, v in o.st.facts.items() if a[0] == "variant" and a[1][:2] == ("call", "write") and v == "Err"]
            r.check(tag == "Err" and len(fails) == 1, "markup-error", "write_static_markup", "returns %s when %s" % (showx(o.val), facts_str(o)), wh)
            last = flat(o.st.trace())
            r.check(bool(last) and len(fails) == 1 and ("call",) + last[-1][1:] == fails[0], "markup-immediate", "write_static_markup",
                    "goes on after a failed write: %s" % showx(last[-1:])[:200], wh)
    r.floor("successful outcomes of write_static_markup", n, 1)
    reading(r, cfg)


def reading(r, cfg="host"):
    P = prog(cfg)
    it = method(P, "StaticReader", "read_style_data")
    if it is None:
        return r.bad("reader", cfg, "not found")
    r.fn(it)
    inner = ("fld", SELF, P.adt("StaticReader")["variants"][0]["fields"][0]["name"])
    n = 0
    for o in summary(cfg, it):
        if o.kind == "ret" and o.st.facts.get(("variant", call("lock", inner))) != "Err":
            n += 1
            # the reader is gone afterwards: what it leaves behind in the shared data does not matter
            r.check((o.val == inner or changed(o.val, inner) == []) and all(is_under(m, inner) for m, _ in effects(o)), "reader-value", cfg, "reads %s" % showx(o.val)[:200], at_where(it))
    r.floor("reads", n, 1)
    r.check(P.sig_by_value(it), "reader-consumed", cfg, "the reader is not consumed by reading", at_where(it))


# ---------------------------------------------------------------- C22
def hydration(r, cfg):
    P = prog(cfg)
    it = method(P, "StyleManager", "load_style_data")
    subj = "load_style_data (%s)" % cfg
    if it is None:
        return r.bad("hydration", subj, "not found")
    r.fn(it)
    w = at_where(it)
    data = ("arg", args_of(it)[1])
    sd = P.adt("StyleData")["variants"][0]["fields"][0]["name"]
    src = ("it", ("fld", data, sd))
    e = ("elem", src)
    sk = P.adt("StyleKey")["variants"][0]["fields"]
    entry = P.adt("StyleDataContent")["variants"][0]["fields"]
    fk = next((f["name"] for f in entry if short(f["tys"]) == "StyleKey"), None)
    fi = next((f["name"] for f in entry if short(f["tys"]) == "StyleId"), None)
    key, idt = ("fld", e, fk), ("fld", e, fi)
    glob = ("fld", key, next(f["name"] for f in sk if f["tys"] == "bool"))
    sheet = ("fld", key, next(f["name"] for f in sk if short(f["tys"]) == "Sheet"))
    nok = npanic = 0
    for o in summary(cfg, it):
        tr = flat(o.st.trace())
        r.check(not tr and entropy_free(o), "hydration-effects", subj, "does %s" % showx(tr)[:300], w)
        ef = effects(o)
        for m, v in ef:
            r.check(root_mgr(m) == SELF, "hydration-manager", subj, "changes %s" % showx(m), w)
        if o.kind == "panic":
            npanic += 1
            got = [a for a, v in o.st.facts.items() if a[0] == "variant" and a[1][:2] == ("call", "map_get") and v == "Some"]
            diff = [a for a, v in o.st.facts.items() if a[0] == "eq" and v is False and idt in a]
            r.check(len(got) == 1 and len(diff) == 1, "hydration-panic", subj, "panics when %s" % facts_str(o), w)
            continue
        nok += 1
        diff = [a for a, v in o.st.facts.items() if a[0] == "eq" and v is False]
        r.check(not diff and not any(v is True for a, v in o.st.facts.items() if a[0] == "found"), "hydration-mismatch", subj,
                "goes on when %s" % facts_str(o), w)
        if len(ef) != 1:
            r.bad("hydration-registers", subj, "changes %s" % showx([m for m, _ in ef]), w)
            continue
        m, v = ef[0]
        good = v[0] == "seq" and len(v) == 3 and v[1] == ("spl", m) and v[2][0] == "each" and v[2][1] == src
        if not good:
            r.bad("hydration-registers", subj, "registers %s" % showx(v)[:500], w)
            continue
        look = call("map_get", ("acc", src, ("T", m)), key)
        rows = v[2][2]
        for g in (True, False):
            for have in ("None", "Some"):
                hit = []
                for cs, ps in rows:
                    d = dict(cs)
                    if d.get(glob, g) != g:
                        continue
                    vv = d.get(("variant", look))
                    if vv is not None and vv != have:
                        continue
                    extra = [c for c in d if c not in (glob, ("variant", look)) and not (c[0] == "eq" and idt in c)]
                    hit.append((extra, ps))
                if have == "Some":
                    r.check(not any(ps for _, ps in hit), "hydration-replaces", subj, "an existing style is replaced by %s" % showx(
                        [p for _, p in hit])[:300], w)
                    continue
                one = [ps for ex, ps in hit if not ex and len(ps) == 1 and ps[0][0] == "one" and ps[0][1][0] == "tup" and len(ps[0][1]) == 3]
                if len(hit) != 1 or len(one) != 1:
                    r.bad("hydration-entry", "%s global=%s" % (subj, g), "an entry is registered as %s" % showx(hit)[:400], w)
                    continue
                k, content = one[0][0][1][1:]
                c = Creation(cfg, *(ENTRIES[4] if g else ENTRIES[2]))
                h = handle(P, c.ty, content)
                r.check(k == key, "hydration-key", "%s global=%s" % (subj, g), "registered under %s" % showx(k), w)
                r.check(c.read(h, "id") == idt, "hydration-id", "%s global=%s" % (subj, g), "has id %s" % showx(c.read(h, "id")), w)
                cls = NONE if g else some(("fld", idt, P.adt("StyleId")["variants"][0]["fields"][0]["name"]))
                t = c.read(h, "get_style_str")
                r.check(t == call("render", sheet, cls), "hydration-text", "%s global=%s" % (subj, g), "has text %s" % showx(t)[:300], w)
                weak = {x[2] for x in walk(content) if x[:2] == ("call", "downgrade")}
                r.check(len(weak) == 1 and root_mgr(next(iter(weak))) == SELF and is_under(m, next(iter(weak))), "hydration-bound",
                        "%s global=%s" % (subj, g), "is bound to %s" % showx(sorted(weak, key=repr)), w)
                ks = [x for x in fields_of(content) if x == key]
                r.check(len(ks) == 1, "hydration-own-key", "%s global=%s" % (subj, g), "remembers the key %s" % showx(content)[:300], w)
    r.floor("successful outcomes of " + subj, nok, 1)
    r.check(npanic >= 1, "hydration-checked", subj, "the id of an already registered style is not checked", w)


def fields_of(v):
    return [x for _, x in v[3]] if v[0] == "adt" else []


# ---------------------------------------------------------------- C23
def snapshots(r, cfg="host"):
    P = prog(cfg)
    for ty in ("StyleData",):
        ads, met = closure(P, ty)
        for h, where in met:
            r.check(not (h[0] == "adt" and short(h[1]) in INTERIOR), "snapshot-cells", "%s: %s" % (ty, where), "can change behind a shared reference: %s" % h[1])
            r.check(h[0] not in ("ptr", "rawptr"), "snapshot-pointers", where, "holds a raw pointer")
        r.floor("types of the style data", len(ads), 5)
    for ty in ("StaticReader", "StaticWriter"):
        r.check(not has_impl(P, "Clone", ty) and not has_impl(P, "Copy", ty), "single-ended", ty, "can be duplicated")
        a = P.adt(ty)
        vis = [f["name"] for v, f in field_types(a) if f.get("vis") == "pub"]
        r.check(not vis, "private", ty, "fields are public: %s" % vis)
    it = method_free(P, "render_static")
    if it is None:
        return r.bad("pair", "render_static", "not found")
    r.fn(it)
    outs = summary(cfg, it)
    rd = P.adt("StaticReader")["variants"][0]["fields"][0]["name"]
    wr = P.adt("StaticWriter")["variants"][0]["fields"][0]["name"]
    for o in outs:
        good = o.kind == "ret" and o.val[0] == "tup" and len(o.val) == 3
        r.check(good and not flat(o.st.trace()) and not effects(o), "pair", "render_static", "returns %s" % showx(o.val)[:300], at_where(it))
        if good:
            vals = [dict(x[3]) for x in o.val[1:]]
            r.check(all(not any(y[0] in ("static", "tls") for y in walk(x) if y and isinstance(y[0], str)) for x in o.val[1:]), "pair-fresh", "render_static",
                    "shares state with other pairs: %s" % showx(o.val)[:300], at_where(it))
            r.check(vals[0].get(wr) is not None and vals[0].get(wr) == vals[1].get(rd) and empty_state(vals[0][wr]), "pair-empty", "render_static",
                    "starts with %s" % showx(o.val)[:300], at_where(it))
    # one allocation shared by both ends
    allocs = [x for i in local_reach(P, it) for x in made_of_type(P, i, "Arc<std::sync::Mutex<")]
    r.check(len(allocs) == 1, "pair-shared", "render_static", "reader and writer get separate collections: %s" % allocs, at_where(it))
    it = method(P, "StaticReader", "read_style_data")
    if it is not None:
        r.check(P.sig_by_value(it), "reader-consumed", "read_style_data", "the reader is not consumed by reading", at_where(it))
    reading(r, cfg)
    # collecting into shared data copies it
    mut = [(i, f) for i in P.items.values() if "body" in i and i.id.split("::")[0] == "stylist" for f in P.calls(i)
           if "Arc" in f and f.split("::")[-1] in ("get_mut", "get_mut_unchecked", "as_ptr", "into_raw", "from_raw", "make_mut", "unwrap_or_clone")]
    for i, f in mut:
        r.check(f.split("::")[-1] in ("make_mut", "unwrap_or_clone"), "copy-on-write", i.id, "changes shared data by %s" % f, at_where(i))
    for i in P.items.values():
        if "body" in i and i.id.split("::")[0] == "stylist" and i.get("unsafe"):
            r.bad("unsafe", i.id, "unsafe code")
    cs = creations(r, [cfg])
    for c in cs:
        for w in c.rows:
            if w.kind == "panic":
                r.check(w.parse_failed() or w.poisoned, "collect-panic", c.subj, "creating a style may panic when %s" % w.desc(), c.where())


def local_reach(P, it):
    """local functions a function calls, itself included"""
    seen, todo = {it.id: it}, [it]
    while todo:
        for f in P.calls(todo.pop()):
            i = P.get(f)
            if i is not None and "body" in i and i.id not in seen:
                seen[i.id] = i
                todo.append(i)
    return list(seen.values())


def made_of_type(P, i, prefix):
    """calls to foreign functions in a body that produce a value of a type, other than clones"""
    out = []
    for bl in i["body"]["blocks"]:
        t = bl["t"]
        if t[0] == "call" and isinstance(t[1], dict) and not t[3][1] and i["body"]["locals"][t[3][0]][0].startswith("std::sync::" + prefix):
            if t[1].get("name") not in ("clone",) and not (t[1].get("rid") in P.items or t[1].get("id") in P.items):
                out.append("%s in %s" % (t[1].get("path"), i.id))
    return out


def method_free(P, name):
    return next((i for i in P.items.values() if i.get("kind") == "Fn" and i.name == name and i.id.split("::")[0] == "stylist"), None)


# ---------------------------------------------------------------- C41
def handles(r, cfg):
    P = prog(cfg)
    for ty in ("Style", "GlobalStyle"):
        inner = ("fld", SELF, P.adt(ty)["variants"][0]["fields"][0]["name"])
        for name in ("id", "get_class_name", "get_style_str"):
            it = method(P, ty, name)
            subj = "%s::%s (%s)" % (ty, name, cfg)
            if it is None:
                r.check(ty == "GlobalStyle" and name == "get_class_name", "accessor", subj, "not found")
                continue
            r.fn(it)
            v = value(cfg, it)
            r.check(v is not None and is_under(v, inner) and not any(effects(o) for o in summary(cfg, it)), "accessor", subj,
                    "returns %s" % showx(v if v is not None else [o.val for o in summary(cfg, it)])[:300], at_where(it))
        it = method(P, ty, "clone", "Clone")
        if it is not None:
            r.fn(it)
            v = value(cfg, it)
            r.check(v == SELF or changed(v, SELF) == [], "clone", "%s (%s)" % (ty, cfg), "a clone is %s" % showx(v)[:300], at_where(it))
    r.check(content_type(P) is not None and not has_impl(P, "Clone", content_type(P)), "shared-content", cfg, "clones do not share one content")
    for ty, name, tr in (("StyleId", "deref", "Deref"), ("StyleId", "clone", "Clone")):
        it = method(P, ty, name, tr)
        f = ("fld", SELF, P.adt(ty)["variants"][0]["fields"][0]["name"])
        v = value(cfg, it) if it else None
        r.check(v in (f, SELF) or changed(v, SELF) == [], "id-" + name, cfg, "returns %s" % showx(v)[:200], at_where(it))
    it = method(P, "StyleId", "fmt", "Display")
    if it is not None:
        r.fn(it)
        f = ("fld", SELF, P.adt("StyleId")["variants"][0]["fields"][0]["name"])
        fm = ("arg", args_of(it)[1])
        for o in summary(cfg, it):
            got = [v for m, v in effects(o) if m == fm]
            got = cat(*cat_items(got[0])[1:]) if got and cat_items(got[0])[0] == fm else None
            r.check(o.kind == "ret" and got == f, "id-display", cfg, "displays %s" % showx(got)[:200], at_where(it))
    for c in [Creation(cfg, *e) for e in ENTRIES]:
        for w in c.created():
            h = w.result()[1]
            content = fields_of(h)
            if len(content) != 1:
                continue
            idv, text = c.read(h, "id"), c.read(h, "get_style_str")
            r.check(idv in fields_of(content[0]) and text in fields_of(content[0]), "handle-content", c.subj,
                    "a handle reports %s and %s of %s" % (showx(idv)[:100], showx(text)[:100], showx(content[0])[:200]), c.where())


# ---------------------------------------------------------------- C16
def manager_handles(r, cfg):
    """copies, references and upgraded weak references of a manager are that manager"""
    P = prog(cfg)
    n = 0
    for ty in ("StyleManager", "WeakStyleManager"):
        a = P.adt(ty)
        its = [method(P, ty, "clone", "Clone")]
        for tr in ("From", "Into", "AsRef", "Borrow", "Deref", "ToOwned"):
            for im in P.trait_impls(tr):
                g = im["impl"]
                if short(g.get("self") or "") == ty and ty in " ".join(g.get("targs") or [ty]):
                    its += [P.get(i[1]) for i in im.get("items") or im["impl"].get("items") or [] if P.get(i[1]) is not None]
        for it in its:
            if it is None or not args_of(it):
                continue
            r.fn(it)
            n += 1
            me = ("arg", args_of(it)[0])
            for o in summary(cfg, it):
                r.check(o.kind == "ret" and (o.val == me or changed(o.val, me) == []) and not effects(o), "same-manager",
                        "%s (%s)" % (it.disp(), cfg), "gives %s" % showx(o.val)[:300], at_where(it))
        inner = ("fld", SELF, a["variants"][0]["fields"][0]["name"])
        other, how = ("WeakStyleManager", "downgrade") if ty == "StyleManager" else ("StyleManager", "upgrade")
        it = method(P, ty, how)
        if it is None:
            continue
        r.fn(it)
        n += 1
        for o in summary(cfg, it):
            v = o.val
            if o.kind == "ret" and v[0] == "adt" and v[2] == "Some":
                v = v[3][0][1]
            elif o.kind == "ret" and v[0] == "adt" and v[2] == "None":
                r.check(o.st.facts.get(("variant", call(how, inner))) == "None", "same-manager", "%s::%s (%s)" % (ty, how, cfg),
                        "no manager when %s" % facts_str(o), at_where(it))
                continue
            want = (call(how, inner), ("pay", call(how, inner), "Some", "0"))
            r.check(o.kind == "ret" and len(fields_of(v)) == 1 and fields_of(v)[0] in want, "same-manager", "%s::%s (%s)" % (ty, how, cfg),
                    "gives %s when %s" % (showx(v)[:300], facts_str(o)), at_where(it))
    r.floor("copies and references of managers (%s)" % cfg, n, 2)


# ---------------------------------------------------------------- C10
def cache(r, cfg):
    P = prog(cfg)
    it = method(P, "Sheet", "from_str", "FromStr")
    subj = "Sheet::from_str (%s)" % cfg
    if it is None:
        return r.bad("cache", subj, "not found")
    r.fn(it)
    w = at_where(it)
    s = ("arg", args_of(it)[0])
    ip = Interp(P)
    outs = ip.run_fn(State(), it, [s], (it.id,))
    hits = misses = fails = 0
    for o in outs:
        F = o.st.facts
        looks = [(a[1], v) for a, v in F.items() if a[0] == "variant" and a[1][:2] == ("call", "map_get")]
        ef = effects(o)
        if o.kind == "panic":
            pois = any(a[0] == "variant" and a[1][0] == "call" and a[1][1] in LOCKS and v == "Err" for a, v in F.items())
            r.check(pois, "cache-panic", subj, "may panic when %s" % facts_str(o), w)
            continue
        tag = o.val[2] if o.val[0] == "adt" else None
        pay_ = dict(o.val[3]).get("0") if o.val[0] == "adt" else None
        for t, v in looks:
            r.check(t[3] == s, "cache-lookup", subj, "looks up %s" % showx(t[3])[:200], w)
        if any(v == "Some" for _, v in looks):
            hits += 1
            want = [("pay", t, "Some", "0") for t, v in looks if v == "Some"]
            r.check(tag == "Ok" and pay_ in want and not ef, "cache-hit", subj, "a cached text gives %s" % showx(o.val)[:200], w)
            continue
        runs = [(a[1], v) for a, v in F.items() if a[0] == "variant" and (a[1][:2] == ("call", "apply") or a[1][0] == "papply")]
        whole = [t for t, v in runs if t[-1] in (s, ("tup", s))]
        r.check(len(whole) == 1, "cache-parses", subj, "parses %s; expected exactly the given text" % showx([t for t, _ in runs])[:300], w)
        if tag == "Ok":
            misses += 1
            r.check(any(v == "Ok" for _, v in runs) and not any(v == "Err" for _, v in runs), "cache-ok", subj, "succeeds when %s" % facts_str(o), w)
            for m, v in ef:
                ap = appended(m, v)
                r.check(ap is not None and len(ap) == 1 and ap[0] == ("tup", s, pay_), "cache-store", subj,
                        "stores %s; expected the result %s under the text" % (showx(v)[:300], showx(pay_)[:200]), w)
            r.check(all(any(x == ("pay", t, "Ok", "0") for x in walk(pay_)) for t, v in runs), "cache-result", subj, "returns %s" % showx(pay_)[:300], w)
        else:
            fails += 1
            r.check(tag == "Err" and not ef, "cache-error", subj, "a parse error leaves %s" % showx(ef)[:300], w)
            r.check(any(v == "Err" for _, v in runs), "cache-error-source", subj, "fails when %s" % facts_str(o), w)
    r.floor("parses in " + subj, min(misses, fails), 1)
    r.count("cache hits", hits)
