"""Conversions into, and views of, the nodes of a sheet (C47, C28)."""
from checks.life2 import *

NODES = ("Sheet", "ScopeContent", "RuleBlockContent", "Block", "Rule", "StyleAttribute", "Selector", "StringFragment", "Bow")


def only_field(v):
    while v[0] == "adt" and len(v[3]) == 1:
        v = v[3][0][1]
    return v


def conversions_kept(r, cfg, rule="kept"):
    P = prog(cfg)
    n = {"From": 0, "view": 0, "empty": 0}

    def methods(tr):
        for im in P.trait_impls(tr):
            g = im["impl"]
            ty = short(g["self"].partition("<")[0])
            if not g["self"].startswith("stylist_core::") or ty not in NODES:
                continue
            for _, i in im.get("items") or []:
                it = P.get(i)
                if it is not None and "body" in it:
                    yield ty, it, "%s (%s)" % (g["tref"].replace("stylist_core::", "").replace("std::", ""), cfg)
    for tr in ("From", "Into"):
        for ty, it, subj in methods(tr):
            r.fn(it)
            n["From"] += 1
            a = ("arg", args_of(it)[0])
            for o in summary(cfg, it):
                r.check(o.kind == "ret" and only_field(o.val) == a and not effects(o), rule, subj,
                        "makes %s of %s when %s" % (showx(o.val)[:300] if o.val else o.kind, showx(a), facts_str(o)), at_where(it))
    for tr in ("Deref", "AsRef", "Borrow"):
        for ty, it, subj in methods(tr):
            r.fn(it)
            n["view"] += 1
            adt = P.adt(ty)
            want = set()
            for v in adt["variants"]:
                for f in v["fields"]:
                    want.add(("pay", SELF, v["name"], f["name"]) if adt["kind"] == "Enum" else ("fld", SELF, f["name"]))
            for o in summary(cfg, it):
                r.check(o.kind == "ret" and (o.val == SELF or o.val in want) and not effects(o), rule, subj,
                        "shows %s when %s" % (showx(o.val)[:300] if o.val else o.kind, facts_str(o)), at_where(it))
    its = [(it, s) for _, it, s in methods("Default")]
    m = method(P, "Sheet", "new")
    if m is not None and not args_of(m):
        its.append((m, "Sheet::new (%s)" % cfg))
    for it, subj in its:
        r.fn(it)
        n["empty"] += 1
        for o in summary(cfg, it):
            r.check(o.kind == "ret" and only_field(o.val) in (("seq",), S("")) and not effects(o), rule, subj,
                    "is %s, not empty" % (showx(o.val)[:300] if o.val else o.kind), at_where(it))
    r.floor("conversions into nodes (%s)" % cfg, n["From"], 5)
    r.floor("views of nodes (%s)" % cfg, n["view"], 2)
    r.count("conversions and views", sum(n.values()))
