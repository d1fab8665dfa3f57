"""Immutability and thread safety of sheets (C39): queries over the type definitions, the auto traits the compiler derived for them,
the signatures of all functions, and the outcomes of Clone."""
from checks.mgr import *
from checks.types import *

# foreign types a sheet or a parse error may be built from: plain values and shared or owned containers of them
FOREIGN = {"String", "Cow", "Vec", "Box", "Arc", "Option", "Global", "PhantomData", "str", "VerboseError", "VerboseErrorKind", "JsValue"}
MUT_TRAITS = {"DerefMut", "AsMut", "BorrowMut", "IndexMut", "Extend", "Write", "AddAssign", "MulAssign"}
STORAGE = {"Bow", "Cow"}


def mut_refs(t):
    """types behind a `&mut` or `*mut` in a type tree"""
    if isinstance(t, list) and t:
        if t[0] == "ref" and (True in t[1:3] or "mut" in [x for x in t[1:] if isinstance(x, str)]):
            yield t
        if t[0] == "ptr":
            yield t
        for x in t[1:]:
            if isinstance(x, list):
                if x and isinstance(x[0], str):
                    yield from mut_refs(x)
                else:
                    for y in x:
                        yield from mut_refs(y)


def local_heads(t, names):
    return sorted({short(h[1]) for h in heads(t) if h[0] == "adt" and h[1] in names})


def same(v, me, facts):
    """the value is a copy of what the term stands for; storage (borrowed or owned) may differ"""
    if v == me:
        return True
    if v[0] == "adt":
        var = facts.get(("variant", me))
        for f, x in v[3]:
            if isinstance(var, str):
                if v[1] not in STORAGE and v[2] != var:
                    return False
                if not same(x, ("pay", me, var, f), facts):
                    return False
            elif not same(x, ("fld", me, f), facts):
                return False
        return True
    return False


def check(r, cfg):
    P = prog(cfg)
    sheet = P.adt("Sheet", "stylist_core")
    error = P.adt("Error", "stylist_core")
    if sheet is None or error is None:
        return r.bad("types", "Sheet", "the sheet or error type was not found in configuration %s" % cfg)
    ads, met = closure(P, "Sheet")
    ids = {a["id"] for a in ads}
    r.floor("types of a sheet (%s)" % cfg, len(ads), 8)
    # no interior mutability, nothing shared but by Arc
    for h, where in met:
        if h[0] == "adt":
            n = short(h[1])
            loc = h[1] in P.items or h[1].split("::")[0] in P.by_crate
            r.check(loc or n in FOREIGN, "content", where, "%s holds %s: %s" % (
                where, h[1], "it can be changed through a shared reference" if n in INTERIOR else "not a plain immutable value"))
        else:
            r.check(h[0] not in ("ptr", "fnptr", "dyn", "fndef", "closure"), "content", where, "%s holds a %s" % (where, h[0]))
    # auto traits
    for a in [sheet, error] + ads:
        if a["name"] in STORAGE:       # generic: decided by what it stores
            continue
        for t in ("Send", "Sync"):
            r.check(t in a.get("auto", []), "thread safety", "%s: %s" % (a["name"], t), "%s is not %s in configuration %s" % (a["name"], t, cfg),
                    "%s:%s" % tuple(a["span"]))
        r.check("Freeze" in a.get("auto", []), "content", a["name"], "%s can be changed through a shared reference" % a["name"])
    # no unsafe code to get around the above
    n = 0
    for i in list(P.items.values()) + P.impls:
        if i["crate"] not in ("stylist_core", "stylist"):
            continue
        n += 1
        if i.get("unsafe"):
            im = i.get("impl")
            if im and im.get("derived"):
                continue
            r.bad("unsafe", i["id"], "unsafe code: nothing above is guaranteed", "%s:%s" % tuple(i["unsafe"][0]))
    r.ok("unsafe", "%d items" % n)
    r.count("items without unsafe code", n)
    # only shared access
    for im in P.impls:
        t = im["impl"].get("trait")
        if t and short(t) in MUT_TRAITS and short(im["impl"]["self"]) == "Sheet":
            r.bad("shared access", "%s for Sheet" % short(t), "gives mutable access to a sheet", "%s:%s" % tuple(im["span"]))
    for v, f in field_types(sheet):
        r.check(f["vis"] != "pub", "private", "Sheet.%s" % f["name"], "the content of a sheet is open to the whole world")
    m = 0
    for it in P.fns():
        if it.get("kind") not in ("Fn", "AssocFn") or "inputs" not in it:
            continue
        ins = [x for t in it["inputs"] for x in mut_refs(t)]
        m += 1
        bad = [x for x in ins if "Sheet" in local_heads(x, {sheet["id"]})]
        r.check(not bad, "shared access", it.id, "%s changes a sheet in place" % it.disp(), it.where())
        if any(h == ("adt", sheet["id"]) for t in it["inputs"] for h in heads(t)):
            out = [h for x in mut_refs(it["output"]) for h in local_heads(x, ids)]
            r.check(not out, "shared access", it.id + " (result)", "%s gives mutable access to the %s of a sheet" % (it.disp(), "/".join(out)), it.where())
            r.fn(it)
    r.count("signatures", m)
    # clones
    c = 0
    for a in ads:
        for it in P.trait_method("Clone", a["name"]):
            if it["name"] not in ("clone", "clone_from"):
                continue
            if it["name"] == "clone_from":
                r.bad("clone", a["name"] + "::clone_from", "overrides clone_from, which is not analysed", it.where())
                continue
            r.fn(it)
            c += 1
            me = ("arg", args_of(it)[0])
            for o in summary(cfg, it):
                r.check(o.kind == "ret" and same(o.val, me, o.st.facts) and not [e for e in o.st.trace()[1:]], "clone", "%s: %s" % (a["name"], facts_str(o, 80)),
                        "a clone of %s is %s when %s" % (a["name"], showx(o.val)[:200], facts_str(o, 200)), it.where())
    r.floor("clone implementations (%s)" % cfg, c, 8)
