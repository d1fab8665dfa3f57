"""Queries over the type definitions."""
from lib.prog import short

INTERIOR = {"Cell", "RefCell", "UnsafeCell", "OnceCell", "LazyCell", "Mutex", "RwLock", "OnceLock", "LazyLock", "Lazy", "SyncUnsafeCell",
            "AtomicBool", "AtomicU8", "AtomicU16", "AtomicU32", "AtomicU64", "AtomicUsize", "AtomicI32", "AtomicI64", "AtomicPtr", "Atomic"}
STRUCTURAL = {"Cow", "Vec", "String", "Option", "Box", "Rc", "Arc", "Global", "Result", "PhantomData", "Cell"}


def heads(t):
    """ADT paths and other type constructors occurring in a type tree"""
    if isinstance(t, list) and t:
        if t[0] == "adt":
            yield ("adt", t[1])
            for x in t[2]:
                yield from heads(x)
        else:
            yield (t[0], t[1] if len(t) > 1 and not isinstance(t[1], list) else None)
            for x in t[1:]:
                if isinstance(x, list):
                    if x and isinstance(x[0], str):
                        yield from heads(x)
                    else:
                        for y in x:
                            yield from heads(y)


def field_types(a):
    for v in a["variants"]:
        for f in v["fields"]:
            yield v["name"], f


def closure(P, name, stop=()):
    """local ADTs reachable through fields; (order of discovery), plus all heads met with the field they were met at"""
    todo = [P.adt(name)]
    seen, met = {}, []
    while todo:
        a = todo.pop()
        if a is None or a["id"] in seen:
            continue
        seen[a["id"]] = a
        for v, f in field_types(a):
            where = "%s::%s.%s" % (a["name"], v, f["name"]) if len(a["variants"]) > 1 else "%s.%s" % (a["name"], f["name"])
            for h in cut(f["ty"], stop):
                met.append((h, where))
                if h[0] == "adt":
                    b = next((x for x in P.items.values() if x["id"] == h[1] or x["path"] == h[1]), None)
                    if b is None:
                        b = P.adt(short(h[1])) if h[1].split("::")[0] in P.by_crate else None
                    if b is not None and b["kind"] in ("Struct", "Enum", "Union"):
                        todo.append(b)
    return list(seen.values()), met


def cut(t, stop):
    """heads of a type, not looking below the constructors in stop"""
    if isinstance(t, list) and t and t[0] == "adt" and short(t[1]) in stop:
        yield ("adt", t[1])
        return
    if isinstance(t, list) and t:
        if t[0] == "adt":
            yield ("adt", t[1])
            for x in t[2]:
                yield from cut(x, stop)
        else:
            yield (t[0], t[1] if len(t) > 1 and not isinstance(t[1], list) else None)
            for x in t[1:]:
                if isinstance(x, list):
                    if x and isinstance(x[0], str):
                        yield from cut(x, stop)
                    else:
                        for y in x:
                            yield from cut(y, stop)


def has_impl(P, trait, ty):
    return [i for i in P.impls if i["impl"].get("trait") and short(i["impl"]["trait"]) == trait and short(i["impl"]["self"]) == ty]
