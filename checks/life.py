"""Rules on creating styles (C02, C12, C14-C16, C20, C25), stated on the outcomes of the public constructors."""
import re

from lib.terms import *
from lib.spec import showx
from checks.mgr import *

ALL = ["host", "wasm", "norandom", "release", "nodebugparser"]
QUICK = ["host", "wasm", "norandom"]


def key_value(r, rule, c, K):
    """the key is made of the kind, the prefix and the sheet of the request, and nothing else"""
    if K[0] != "adt":
        return r.bad(rule, c.subj, "registry key is %s" % showx(K)[:300], c.where())
    vals = [v for _, v in K[3]]
    kind = [v for v in vals if v[0] == "bool" or v[0] == "adt" and not v[3]]
    rest = [v for v in vals if v not in kind]
    want = [c.prefix, c.ast]
    if len(kind) != 1 or sorted(map(repr, rest)) != sorted(map(repr, want)):
        return r.bad(rule, c.subj, "key is %s; expected the scope kind, prefix %s and sheet %s" % (
            showx(K)[:400], showx(c.prefix), showx(c.ast)), c.where())
    r.ok(rule, c.subj)
    return kind[0]


def the_look(r, rule, c, w):
    if len(w.look) != 1:
        r.bad(rule, c.subj, "%d registry lookups when %s" % (len(w.look), w.desc()), c.where())
        return None
    return w.look[0]


def hits(r, c):
    """C12: a hit returns the registered style and does nothing"""
    n = 0
    for w in c.rows:
        if w.hit != "Some":
            continue
        n += 1
        M, K, _ = w.look[0]
        want = ("pay", call("map_get", M, K), "Some", "0")
        tag, v = w.result()
        inner = [x for _, x in v[3]] if tag == "Ok" and v and v[0] == "adt" else None
        r.check(w.kind == "ret" and inner == [want], "hit-value", c.subj,
                "a registered style is found, but the result is %s" % showx(w.val)[:300], c.where())
        r.check(not (w.entropy or w.events or w.reg or w.added or w.other or w.parse), "hit-effects", c.subj,
                "a registered style is found, but also: %s" % ", ".join(
                    showx(x)[:120] for x in w.entropy + w.events + [a for a, _ in w.reg + w.added + w.other] + [a for a, _ in w.parse]),
                c.where())
    r.floor("registry hit of " + c.subj, n, 1)
    for w in c.created():
        lk = the_look(r, "lookup", c, w)
        if lk is None:
            continue
        M, K, _ = lk
        r.check(len(w.reg) == 1 and w.reg[0][0] == M and w.reg[0][1][1] == K, "same-key", c.subj,
                "looked up %s in %s, registered %s" % (showx(K)[:200], showx(M), showx(w.reg)[:300]), c.where())
        key_value(r, "key", c, K)


def sharing(r, cs):
    """keys of scoped and global requests differ"""
    for cfg in sorted({c.cfg for c in cs}):
        kinds = {}
        for c in cs:
            if c.cfg != cfg:
                continue
            for w in c.rows:
                for M, K, _ in w.look:
                    if K[0] == "adt":
                        for _, v in K[3]:
                            if v[0] == "bool" or v[0] == "adt" and not v[3]:
                                kinds.setdefault(c.glob, set()).add(v)
        r.check(len(kinds.get(True, ())) == 1 and len(kinds.get(False, ())) == 1 and kinds[True] != kinds[False],
                "kinds", cfg, "scoped and global styles are not told apart by the key: %s" % kinds)


def styled(v):
    """the string of an id"""
    while v is not None and v[0] == "adt" and len(v[3]) == 1:
        v = v[3][0][1]
    return v


def ids(r, c):
    """C14: id, class name, rendered class, entropy"""
    for w in c.created():
        h = w.result()[1]
        idv = styled(c.read(h, "id"))
        if idv is None:
            r.bad("id", c.subj, "the id of %s cannot be read" % showx(h)[:200], c.where())
            continue
        if not c.glob:
            cl = styled(c.read(h, "get_class_name"))
            r.check(cl == idv, "class-is-id", c.subj, "class name %s, id %s" % (showx(cl), showx(idv)), c.where())
        ent = [x for x in walk(idv) if is_entropy(x)]
        lead = cat(c.prefix, S("-global-" if c.glob else "-"))
        items = cat_items(idv)
        k = len(cat_items(lead))
        li = cat_items(lead)
        okp = len(items) > 0 and items[:k - 1] == li[:-1] and len(items) >= k and items[k - 1][0] == "str" \
            and items[k - 1][1].startswith(li[-1][1])
        rest = (S(items[k - 1][1][len(li[-1][1]):]),) + tuple(items[k:]) if okp else ()
        rest = tuple(x for x in rest if x != S(""))
        r.check(okp and bool(rest) and all(x[0] == "str" or is_entropy(x) for x in rest) and any(is_entropy(x) for x in rest),
                "id-format", c.subj, "id is %s; expected %s followed by entropy" % (showx(idv), showx(lead)), c.where())
        loose = [x[1] for x in rest if x[0] == "str" and not re.fullmatch("[A-Za-z0-9_-]*", x[1])]
        r.check(not loose, "id-format", c.subj, "an id contains %r, which does not belong to one class name" % loose, c.where())
        r.check((len(w.entropy) >= 1 or any(x[:1] == ("while",) for x in walk(idv))) and bool(ent), "id-entropy", c.subj,
                "creates a style without drawing entropy for it: id %s" % showx(idv), c.where())
        for e in w.entropy:
            entropy_source(r, c, e)


def is_entropy(x):
    if not isinstance(x, tuple) or not x:
        return False
    if x[0] == "call" and len(x) > 1 and x[1] in ENTROPY:
        return True
    if x[0] == "call" and len(x) > 2 and x[1] == "collect":
        return is_entropy(x[2])
    if x[0] == "take" and x[2][0] == "int" and x[2][1] >= 1:
        return is_entropy(x[1])
    if x[0] == "part":
        return is_entropy(x[1])
    if x[0] == "call" and len(x) > 2 and str(x[1]).startswith("fmt_"):
        return is_entropy(x[2])
    if x[0] == "each" and x[1][:1] == ("while",) and len(x[2]) == 1:          # as many as it takes
        return bool(x[2][0][1]) and all(is_entropy(i) for i in x[2][0][1])
    if x[0] == "each" and len(x[2]) == 1:          # pushed one by one
        return not x[2][0][0] and tuple(x[2][0][1]) == (("elem", x[1]),) and is_entropy(x[1])
    if x[0] == "repeat_with":
        return is_random(x)
    return x[0] == "call" and "fastrand" in str(x[1])


def is_random(x):
    s = repr(x)
    return ("fastrand" in s or "global_rng" in s) and "seed" not in s


def entropy_source(r, c, e):
    if e[1] == "fresh" or "fastrand" in str(e[1]):
        r.check(is_random(e), "entropy-random", c.subj, "entropy comes from %s" % showx(e), c.where())
    elif "fetch_add" in str(e[1]):
        good = len(e) > 3 and e[2][0] == "static" and e[3][0] == "int" and e[3][1] != 0
        r.check(good, "entropy-counter", c.subj,
                "the counter is not a process-wide one that always advances: %s" % showx(e), c.where())


def traces(r, c):
    """C15: failures leave nothing behind, success registers once"""
    nerr = 0
    for w in c.rows:
        tag, v = w.result()
        fail = w.kind == "panic" or tag == "Err"
        if w.kind == "panic":
            r.check(w.parse_failed() or w.poisoned, "panic", c.subj, "may panic when %s: %s" % (w.desc(), showx(w.val)[:200]), c.where())
        if fail:
            nerr += 1
            r.check(not w.reg and not w.added and not w.other, "failure-traces", c.subj,
                    "fails when %s, but leaves %s" % (w.desc(), ", ".join(showx(a) for a, _ in w.reg + w.added + w.other)), c.where())
        bad = [a[1] for a, x in w.o.st.facts.items() if a[0] == "variant" and x == "Err" and not (a[1][0] == "call" and a[1][1] in LOCKS)]
        if bad and w.kind == "ret":
            src = ("pay", bad[0], "Err", "0")
            r.check(tag == "Err" and any(x == src for x in walk(v)), "error-value", c.subj,
                    "%s failed, but the result is %s" % (showx(bad[0])[:200], showx(w.val)[:200]), c.where())
        if tag == "Ok" and w.hit != "Some":
            r.check(not bad, "error-swallowed", c.subj, "succeeds although %s" % w.desc(), c.where())
    r.floor("failing outcomes of " + c.subj, nerr, 1)
    conv = [w for w in c.rows if variant_of(w.o, c.conv) == "Err"]
    r.check(bool(conv), "source-checked", c.subj, "the conversion of the style source is not checked", c.where())
    r.check(bool(c.created()), "creates", c.subj, "never creates a style", c.where())
    for w in c.created():
        h = w.result()[1]
        r.check(len(w.reg) == 1 and not w.other, "registers-once", c.subj,
                "registers %d styles%s" % (len(w.reg), "".join(", changes " + showx(a) for a, _ in w.other)), c.where())
        if len(w.reg) != 1 or not w.look:
            continue
        M, K, _ = w.look[0]
        M2, e = w.reg[0]
        r.check(M2 == M and e[1] == K, "registered-key", c.subj, "requested %s, registered under %s" % (showx(K)[:200], showx(e[1])[:200]),
                c.where())
        inner = [x for _, x in h[3]] if h[0] == "adt" else None
        r.check(inner == [e[2]], "registered-style", c.subj, "returns %s, registers %s" % (showx(h)[:200], showx(e[2])[:200]), c.where())
        key_value(r, "key", c, K)
        texts(r, c, w, "text")


def texts(r, c, w, rule):
    """the text of a new style is the sheet rendered with its own id as class (global: without class)"""
    h = w.result()[1]
    t = c.read(h, "get_style_str")
    idv = styled(c.read(h, "id"))
    got = unid(t)
    want = call("render", c.ast, NONE if c.glob else some(idv))
    r.check(got == want, rule, c.subj, "text is %s; expected %s" % (showx(got)[:300], showx(want)[:300]), c.where())


def unid(t):
    if t is not None and t[:2] == ("call", "render") and t[3][0] == "adt" and t[3][2] == "Some":
        return call("render", t[2], some(styled(t[3][3][0][1])))
    return t


def managers(r, c):
    """C16: everything happens in the manager of the request"""
    for w in c.rows:
        for M, K, _ in w.look:
            r.check(root_mgr(M) == c.mgr, "lookup-manager", c.subj, "looks up in %s, requested manager %s" % (showx(M), showx(c.mgr)), c.where())
        for M, e in w.reg + w.added:
            r.check(root_mgr(M) == c.mgr, "store-manager", c.subj, "stores in %s, requested manager %s" % (showx(M), showx(c.mgr)), c.where())
        for e in w.events:
            for x in walk(e):
                if x == DEFAULT and c.mgr != DEFAULT:
                    r.bad("event-manager", c.subj, "uses the default manager: %s" % showx(e)[:200], c.where())
        if c.mgr != DEFAULT:
            r.check(DEFAULT not in set(walk(w.val)) and not any(DEFAULT in set(walk(a)) for a in w.o.st.facts), "default-unused", c.subj,
                    "uses the default manager when %s" % w.desc(), c.where())
    for w in c.created():
        M, e = w.reg[0] if w.reg else (None, None)
        if M is None:
            r.bad("registers", c.subj, "a created style is not registered", c.where())
            continue
        content = e[2]
        weak = [x[2] for x in walk(content) if x[:2] == ("call", "downgrade")]
        r.check(len(set(weak)) == 1 and is_under(M, weak[0]) and root_mgr(weak[0]) == c.mgr, "back-reference", c.subj,
                "registered in %s, refers back to %s" % (showx(M), showx(weak)), c.where())
        strip = drop_terms(content, lambda x: x[:2] == ("call", "downgrade") or x == c.prefix)
        r.check(not any(x == c.mgr for x in walk(strip)), "weak-only", c.subj,
                "a style holds its manager beyond a weak reference: %s" % showx(strip)[:300], c.where())
        key_value(r, "prefix", c, e[1])


def drop_terms(t, p):
    if isinstance(t, tuple):
        if p(t):
            return ("gone",)
        return tuple(drop_terms(x, p) if isinstance(x, tuple) else x for x in t)
    return t


def root_mgr(t):
    while True:
        if t[0] in ("fld", "pay", "dc", "elem", "it", "at") and isinstance(t[1], tuple):
            t = t[1]
        elif t[:2] == ("call", "lock") or t[:2] == ("call", "upgrade") or t[:2] == ("call", "downgrade"):
            t = t[2]
        else:
            return t


def collecting(r, c):
    """C20: a manager with a writer collects, one without does not"""
    if c.writer is None:
        return r.bad("writer", c.subj, "the writer setting was not found", c.where())
    n = {True: 0, False: 0}
    for w in c.created():
        at_w = [(a[1], v) for a, v in w.o.st.facts.items() if a[0] == "variant" and a[1][0] == "fld" and a[1][2] == c.writer
                and root_mgr(a[1]) == c.mgr]
        if len(at_w) != 1:
            r.bad("writer-decides", c.subj, "a style is created without asking whether the manager has a writer (%s)" % w.desc(), c.where())
            continue
        t, v = at_w[0]
        has = v == "Some"
        n[has] += 1
        h = w.result()[1]
        r.check(len(w.reg) == 1, "registered", c.subj, "writer=%s: %d registrations" % (has, len(w.reg)), c.where())
        dom = [e for e in w.events if e[1] not in ("lock",)]
        if has:
            r.check(len(w.added) == 1 and is_under(w.added[0][0], ("pay", t, "Some", "0")), "collected-once", c.subj,
                    "with a writer, adds %s" % showx([a for a, _ in w.added] or "nothing"), c.where())
            r.check(not dom, "not-mounted", c.subj, "with a writer, also does %s" % showx(dom)[:300], c.where())
            for D, e in w.added[:1]:
                vals = sorted(repr(styled(x)) if styled(x) is not None else "" for _, x in e[3]) if e[0] == "adt" else []
                K = w.look[0][1] if w.look else None
                want = sorted(repr(styled(x)) for x in (K, c.read(h, "id"), c.read(h, "get_style_str")) if x is not None)
                r.check(e[0] == "adt" and vals == want, "collected-entry", c.subj,
                        "collects %s; expected the style's key, id and text" % showx(e)[:400], c.where())
        else:
            r.check(not w.added, "collects-without-writer", c.subj, "without a writer, adds to %s" % showx([a for a, _ in w.added]), c.where())
            if c.cfg == "wasm":
                r.check(bool(dom), "mounted", c.subj, "without a writer, the style is not mounted", c.where())
    r.floor("creation with and without a writer in " + c.subj, min(n.values()), 1)


def debug_check(r, c):
    """C25: the rendered text is parsed again before anything happens; release builds only lack this check"""
    debug = c.cfg in ("host", "wasm")
    nbad = 0
    for w in c.rows:
        if w.hit == "Some" or not w.look:
            r.check(not w.parse, "no-parse", c.subj, "parses on a registry hit", c.where())
            continue
        if not debug:
            r.check(not w.parse, "release-parse", c.subj, "parses in a build without the check", c.where())
            continue
        if w.parse_failed():
            nbad += 1
            r.check(w.kind == "panic", "corrupt-accepted", c.subj, "goes on although the text does not parse: %s" % showx(w.val)[:200], c.where())
            r.check(not (w.reg or w.added or w.other or w.events), "corrupt-effects", c.subj,
                    "before the text is rejected: %s" % showx([a for a, _ in w.reg + w.added + w.other] + w.events)[:300], c.where())
        if w.kind == "ret" and w.result()[0] == "Ok":
            h = w.result()[1]
            t = c.read(h, "get_style_str")
            r.check(any(x == t and v == "Ok" for x, v in w.parse), "unchecked", c.subj,
                    "a style is created whose text was not parsed again (%s)" % w.desc(), c.where())
    if debug:
        r.floor("rejections in " + c.subj, nbad, 1)


def rendering(r, c):
    """C02: class-less rendering for global styles, the own id for scoped ones"""
    for w in c.created():
        texts(r, c, w, "class")
