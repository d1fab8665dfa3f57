"""White space between the tokens of the inline form: the rule (a total table over token classes), the iterator that applies it (a
transducer explored to a fixpoint next to a monitor of its specification), the text of each token and how dashes join identifiers."""
from checks.inline import *

SPACER = ("arg", "spacer")
IT = ("arg", "items")
MON2 = ("H", "spacing monitor")


def item_by(P, name, self_end=None, crate="stylist_macros"):
    out = [i for i in P.fns() if i.get("name") == name and "body" in i and i.get("crate") == crate and
           (self_end is None or short((i.get("impl") or {}).get("self") or "") == self_end)]
    return out


# ---------------------------------------------------------------- the iterator
# monitor: (last emitted: "start" / ("x", i) / ("sp", i), items taken, exhausted); items are numbered from the first taken.
def x(i):
    return ("call", "item", I(i))


def rename(v, f):
    def g(t):
        if isinstance(t, tuple) and t[:2] == ("call", "item"):
            return x(f(t[2][1]))
        return None
    return subst(v, g)


def h_next(ip, st, f, args, cid):
    v = ip.deep(st, ip.val(st, args[0]))
    if v != IT:
        return None
    last, n, end = st.store[MON2]
    s1 = st.copy()
    s1.store[MON2] = (last, n, True)
    if end:
        return [Out("ret", s1, NONE)]
    s2 = st.copy()
    s2.store[MON2] = (last, n + 1, False)
    return [Out("ret", s1, NONE), Out("ret", s2, some(x(n + 1)))]


def h_spacer(ip, st, f, args, cid):
    v = ip.deep(st, ip.val(st, args[0]))
    if v != SPACER:
        return None
    a = [ip.deep(st, ip.val(st, y)) for y in args[1:]]
    if len(a) == 1 and a[0][0] == "tup":
        a = [ip.deep(st, ip.val(st, y)) for y in a[0][1:]]
    elif len(a) == 1 and a[0][0] == "adt":
        a = [ip.deep(st, ip.val(st, y)) for _, y in a[0][3]]
    return ret(st, call("space", *a))


def transducer(r, rule):
    """items come out in order, each once, with the spacer's answer for each adjacent pair between them"""
    P = prog("host")
    make = item_by(P, "spaced_with")
    if len(make) != 1:
        r.bad(rule, "spaced_with", "not found")
        return
    make = make[0]
    r.fn(make)
    ov = {**OVERRIDES, "next": h_next, "call_mut": h_spacer, "call": h_spacer, "call_once": h_spacer}
    ip = Interp(P, overrides=ov)
    outs = ip.run_fn(State(), make, [IT, SPACER], (make.id,))
    if len(outs) != 1 or outs[0].kind != "ret" or outs[0].val[0] != "adt":
        r.bad(rule, "spaced_with", "the iterator it makes cannot be followed", where(make))
        return
    init = outs[0].val
    nx = [i for i in item_by(P, "next") if short(i["impl"]["self"]) == init[1]]
    if len(nx) != 1:
        r.bad(rule, "next of " + init[1], "not found")
        return
    nx = nx[0]
    r.fn(nx)
    W = where(nx)
    LOC = ("H", "spaced")
    work = [(init, ("start", 0, False), ())]
    seen = set()
    steps = said = 0

    def bad(what):
        r.bad(rule, "spaced sequence", what, W)

    while work:
        v, (last, n, end), facts = work.pop()
        st = State()
        st.store[LOC] = v
        st.store[MON2] = (last, n, end)
        for a, b in facts:
            st.facts[a] = b
        ip = Interp(P, overrides=ov)
        ip.recursion = 3
        for o in ip.run_fn(st, nx, [("ref", LOC, ())], (nx.id,)):
            steps += 1
            if o.kind != "ret":
                bad("may panic")
                return
            last2, n2, end2 = o.st.store[MON2]
            out = o.val
            sp = {}
            for a, b in o.st.facts.items():
                if a[0] == "variant" and a[1][:2] == ("call", "space"):
                    i, j = a[1][2], a[1][3]
                    if i[:2] != ("call", "item") or j[:2] != ("call", "item") or j[2][1] != i[2][1] + 1:
                        bad("the spacing is asked for %s and %s, which do not follow one another" % (show(i), show(j)))
                        return
                    sp[i[2][1]] = b
            if last == "start":
                want = [some(x(1))] if n2 >= 1 else [NONE] if end2 else []
            elif last[0] == "x":
                i = last[1]
                if n2 <= i:
                    want = [NONE] if end2 else []
                elif sp.get(i) == "None":
                    want = [some(x(i + 1))]
                elif sp.get(i) == "Some":
                    want = [some(("pay", call("space", x(i), x(i + 1)), "Some", "0"))]
                else:
                    want = []
            else:
                want = [some(x(last[1] + 1))]
            if out not in want:
                bad("after %s the iterator yields %s (expected %s)" % (
                    {"start": "nothing"}.get(last, "item or spacing %s" % (last[1:],)), show(out)[:100], " / ".join(map(show, want)) or "to look at the next item first"))
                return
            if out == NONE:
                key = last
                stop = True
            else:
                key = ("x", out[3][0][1][2][1]) if out[3][0][1][:2] == ("call", "item") else ("sp", last[1])
                stop = False
            # canonical: items counted from the last one emitted
            base = 0 if key == "start" else key[1] - 1
            mv = lambda i: i - base
            if stop:
                continue
            nv = rename(o.st.store[LOC], mv)
            nf = tuple(sorted(((rename(a, mv), b) for a, b in o.st.facts.items()
                               if a[0] == "variant" and a[1][:2] == ("call", "space") and a[1][2][2][1] >= key[1]), key=repr))
            ns = (nv, ((key[0], 1), n2 - base, end2), nf)
            if repr(ns) in seen:
                continue
            seen.add(repr(ns))
            if len(seen) > 200:
                bad("its states cannot be enumerated")
                return
            work.append(ns)
    r.count("states of the spacing iterator", len(seen))
    r.check(steps >= 6, rule, "spaced sequence", "only %d steps explored" % steps, W)


# ---------------------------------------------------------------- the rule
PUNCT = "=<>!~+-*/%^&|@.,;:#$?'"          # every character a Rust punctuation token may have
DELIMS = {("Brace", True): "{", ("Brace", False): "}", ("Bracket", True): "[", ("Bracket", False): "]",
          ("Parenthesis", True): "(", ("Parenthesis", False): ")"}


def h_aschar(ip, st, f, args, cid):
    v = ip.deep(st, ip.val(st, args[0]))
    return ret(st, v[2]) if v[:2] == ("call", "punct") else None


def boolean(b):
    return ("bool", b)


def samples(P):
    """(name, fragment) for every class of fragment: each punctuation character and delimiter, and an arbitrary identifier, literal, ..."""
    fa = P.adt("OutputFragment")
    ta = P.adt("PreservedToken")
    out = []
    frag = lambda v, *fs: adt("OutputFragment", v, tuple((str(i), x) for i, x in enumerate(fs)))
    for v in fa["variants"]:
        n = v["name"]
        if n == "Token":
            for tv in ta["variants"]:
                if tv["name"] == "Punct":
                    for c in PUNCT:
                        out.append((c, frag("Token", adt("PreservedToken", "Punct", (("0", call("punct", ("char", c))),)))))
                else:
                    out.append((tv["name"].lower(), frag("Token", adt("PreservedToken", tv["name"], (("0", ("arg", tv["name"])),)))))
        elif n == "Delimiter":
            for (k, start), c in DELIMS.items():
                out.append((c, frag("Delimiter", adt("Delimiter", k, ()), ("bool", start))))
        else:
            out.append((n, frag(n, *[("arg", n) for _ in v["fields"]])))
    return out


def text_of(P, frag):
    """what a fragment is printed as: the values OutputFragment::into_inner gives for it"""
    its = item_by(P, "into_inner", "OutputFragment")
    if len(its) != 1:
        return None
    out = set()
    for o in Interp(P, overrides={**OVERRIDES, "as_char": h_aschar}).run_fn(State(), its[0], [frag], (its[0].id,)):
        v = o.val
        if o.kind == "ret" and v[0] == "adt" and v[2] == "Str":
            v = v[3][0][1]
        elif o.kind != "ret":
            v = ("panic",)
        out.add(v)
    return out


def table(r, rule):
    """a space exactly between what ends a compound and what starts one; nothing else is ever put between two tokens"""
    P = prog("host")
    its = item_by(P, "fragment_spacing")
    if len(its) != 1:
        r.bad(rule, "fragment_spacing", "not found")
        return
    it = its[0]
    r.fn(it)
    ss = samples(P)
    n = 0
    for ln, l in ss:
        wrong = []
        for rn, rr in ss:
            n += 1
            ends = ln in ("ident", "literal", "&", "*", "}", "]", ")")
            starts = rn in ("ident", "literal", "*", "#")
            ip = Interp(P, overrides={**OVERRIDES, "as_char": h_aschar})
            got = {o.val if o.kind == "ret" else "panic" for o in ip.run_fn(State(), it, [l, rr], (it.id,))}
            g = got.pop() if len(got) == 1 else None
            if g == NONE:
                if ends and starts:
                    wrong.append("no space before %s" % rn)
            elif g and g[:3] == ("adt", "Option", "Some") and text_of(P, g[3][0][1]) == {("str", " ")}:
                if not (ends and starts):
                    wrong.append("a space before %s" % rn)
            else:
                wrong.append("before %s: %s" % (rn, show(g)[:100] if g else "depends on more than the tokens"))
        r.check(not wrong, rule, "after %s" % ln, "; ".join(wrong)[:300], where(it))
    r.count("pairs of tokens", n)


def texts(r, rule):
    """every token is printed as itself"""
    P = prog("host")
    its = item_by(P, "into_inner", "OutputFragment")
    if len(its) != 1:
        r.bad(rule, "OutputFragment::into_inner", "not found")
        return
    W = where(its[0])
    r.fn(its[0])
    parts = ("fld", ("arg", "Ident"), "parts")
    for n, f in samples(P):
        got = text_of(P, f)
        if len(n) == 1:
            good = got in ({("char", n)}, {("str", n)})
        elif n == "literal":
            good = got == {("arg", "Literal")}
        elif n == "ident":
            good = len(got) == 1 and ident_text(list(got)[0], parts)
        elif n == "Str":
            good = got == {("arg", "Str")}
        elif n == "Expr":
            lit = ("pay", ("fld", ("pay", ("arg", "Expr"), "Lit", "0"), "lit"), "Str", "0")
            good = len(got) == 2 and call("LitStr::value", lit) in got or len(got) == 1 and not any(x[:2] == ("call", "LitStr::value") for x in got)
            good = good and all(v[:2] == ("call", "LitStr::value") or v[0] == "adt" and v[2] == "Raw" and ("arg", "Expr") in walk(v) for v in got)
        elif n == "Arg":
            good = len(got) == 1 and all(v[0] == "adt" and v[2] == "Raw" and ("fld", ("arg", "Arg"), "tokens") in walk(v) for v in got)
        else:
            r.bad(rule, "fragment " + n, "a kind of fragment no rule is known for", W)
            continue
        r.check(good, rule, "fragment " + n, "is printed as %s" % "; ".join(sorted(show(v)[:200] for v in got or ())), W)
    # delimiters of groups
    conv = [i for i in P.fns() if i.get("name") == "from" and short((i.get("impl") or {}).get("self") or "") == "OutputFragment" and "body" in i
            and str(i["inputs"]) in ("['char']", "[['char']]", "[['prim', 'char']]")]
    for it in conv:
        r.fn(it)
        for c in "{}[]() ":
            got = {text for o in Interp(P, overrides=OVERRIDES).run_fn(State(), it, [("char", c)], (it.id,))
                   for text in (text_of(P, o.val) if o.kind == "ret" else {("panic",)})}
            r.check(got in ({("str", c)}, {("char", c)}), rule, "delimiter %r" % c, "is printed as %s" % "; ".join(sorted(show(v)[:100] for v in got)), where(it))
    kinds = {"Paren": "()", "Bracketed": "[]", "Braced": "{}"}
    for it in item_by(P, "surround_tokens"):
        r.fn(it)
        seen = set()
        for o in Interp(P, overrides=OVERRIDES).run_fn(State(), it, [SELF], (it.id,)):
            k = o.st.facts.get(("variant", SELF))
            ks = [k] if isinstance(k, str) else sorted(k[1]) if k and k[0] == "|" else []
            seen |= set(ks)
            for k in ks:
                want = kinds.get(k)
                r.check(want and o.kind == "ret" and o.val == ("tup", ("char", want[0]), ("char", want[1])), rule, "group %s" % k,
                        "is surrounded by %s" % show(o.val)[:100], where(it))
        r.check(seen == set(kinds), rule, "groups", "kinds: %s" % sorted(seen), where(it))


def ident_text(v, parts):
    """the dashes and identifiers of a CssIdent, one after the other"""
    if v[:1] == ("cat",) and len(v) == 2:
        v = v[1]
    if v[:1] != ("each",) or v[1] not in (parts, ("it", parts)):
        return False
    el = ("elem", v[1])
    seen = set()
    for facts, items in v[2]:
        d = dict(facts)
        k = d.get(("variant", el))
        if len(items) != 1:
            return False
        x = items[0][1] if items[0][0] in ("one", "spl") else items[0]
        if k == "Dash":
            if x not in (("str", "-"), ("char", "-")):
                return False
        elif k == "Ident":
            p = ("pay", el, "Ident", "0")
            if x not in (call("IdentExt::unraw", p),):
                return False
        else:
            return False
        seen.add(k)
    return seen == {"Dash", "Ident"}


# ---------------------------------------------------------------- identifiers
def joining(r, rule):
    """an identifier takes exactly the following tokens that belong to it: names and dashes alternate, dashes that touch stay together"""
    P = prog("host")
    its = [i for i in parse_impls(P) if short(i["impl"]["self"]) == "CssIdent"]
    if len(its) != 1:
        r.bad(rule, "CssIdent::parse", "not found")
        return
    it = its[0]
    r.fn(it)
    W = where(it)
    said = set()
    KIND = {"Punct": "Dash", "Ident": "Name", "Minus": "Dash", "DoubleMinus": "Dash"}
    joint = lambda t: ("variant", call("Punct::spacing", t))

    def bad(what):
        if what not in said:
            said.add(what)
            r.bad(rule, "CssIdent::parse", what, W)

    def peeks(st):
        """what is known of the token at the current position"""
        here, ps = {}, led(st)
        for a, v in st.facts.items():
            if a[:2] == ("call", "peek") and a[2] == INPUT and a[3] == pos(st) and a[5] == I(1):
                here[a[4][1]] = v
        return here

    def step(st):
        m = led(st)[1]
        for p, n in zip(m, m[1:]):
            k, q = KIND.get(p[1]), KIND.get(n[1])
            tight = joint_of(st, p)
            if k == "Name" and q == "Name":
                bad("two names in a row become one identifier")
            if k == "Dash" and q == "Dash" and tight is not True:
                bad("a dash joins another one it does not touch")
            if k is None or q is None:
                bad("takes a token that is neither a dash nor a name")

    def joint_of(st, t):
        for a, v in st.facts.items():
            if any(x[:1] == ("call",) and isinstance(x[1], str) and x[1].endswith("spacing") and t in walk(x) for x in walk(a)):
                if a[0] == "variant":
                    return v == "Joint" if isinstance(v, str) else None
                if a[0] == "eq":
                    other = [x for x in a[1:] if x[0] == "adt"]
                    if other:
                        return v if other[0][2] == "Joint" else (not v) if other[0][2] == "Alone" else None
        return None

    def explore(ip, st, fr, kind):
        m = led(st)[1]
        if not any(v == INPUT for l, v in st.store.items() if l[0] == "L" and l[1] == fr.fid):
            return None
        if not m:
            return repr(sorted(st.store.items(), key=repr)), st
        step(st)
        last = m[-1]
        keep = ("tokn", last[1], 1)

        def f(t):
            if isinstance(t, tuple) and t[:1] == ("seq",) and len(t) > 1:
                items = [x for x in t[1:] if x != TOKS]
                if not items:
                    return None
                if last not in toks_in(items[-1]) or not all(y in m for x in items for y in toks_in(x)):
                    bad("the tokens taken are not kept in order")
                return ("seq", TOKS, subst(items[-1], f))
            if isinstance(t, tuple) and t[:1] == ("tokn",):
                return keep if t == last else STALE
            return None
        s = State()
        for l, v in st.store.items():
            if l not in (MON, "TRACE"):
                s.store[l] = subst(v, f)
        s.store[MON] = ("ledger", (keep,), 0, frozenset(), 0, frozenset(), frozenset())
        for a, v in st.facts.items():
            if last in walk(a) and not any(x[:2] == ("call", "peek") for x in walk(a)):
                s.facts[subst(a, f)] = v
        return repr(sorted(s.store.items(), key=repr)) + repr(sorted(s.facts.items(), key=repr)), s

    ip = Interp(P, overrides={**OVERRIDES, **PARSE_OV})
    ip.explore = explore
    st = State()
    st.store[MON] = ("ledger", (), 0, frozenset(), 0, frozenset(), frozenset())
    n = 0
    for o in ip.run_fn(st, it, [INPUT], (it.id,)):
        if o.kind != "ret" or o.val[0] != "adt" or o.val[2] != "Ok":
            if o.kind == "ret" and o.val[:1] == ("adt",) and len(led(o.st)[1]) > 1:
                pass
            continue
        n += 1
        step(o.st)
        here = peeks(o.st)
        last = led(o.st)[1][-1]
        no_name = any(v is False for k, v in here.items() if "Ident" in k or "peek_any" in k)
        no_dash = here.get("Minus") is False
        if KIND.get(last[1]) == "Name" and not no_dash:
            bad("may end before a dash after a name (%s)" % here)
        if KIND.get(last[1]) == "Dash" and not no_name:
            bad("may end before a name after a dash (%s)" % here)
        if KIND.get(last[1]) == "Dash" and not no_dash and joint_of(o.st, last) is not False:
            bad("may end between two dashes that touch (%s)" % here)
    r.check(n >= 2, rule, "CssIdent::parse", "never succeeds", W)
    if not said:
        r.ok(rule, "CssIdent::parse joins dashes and names")


# ---------------------------------------------------------------- kinds of tokens
FIRST = ("Brace", "Bracket", "Paren", "Dollar", "Minus", "Ident", "Lit", "Punct")


def worlds():
    """the next two tokens of the input, and whether a parenthesis follows the identifier that starts there"""
    return [(a, b, c) for a in FIRST for b in FIRST + ("End",) for c in (True, False)]


def in_world(w, facts, idtok, table):
    """can the path have been taken in this world?"""
    is_p = lambda t: t in ("Dollar", "Minus", "Punct")
    for a, v in facts.items():
        if a[:2] == ("call", "peek") and a[2] == INPUT and a[3][0] == "int":
            n, name = a[5][1], a[4][1]
            if a[3][1] // 100 == 1 and n == 1 and name == "Paren" and idtok:
                if w[2] != v:
                    return False
                continue
            if a[3][1] // 100 != 0 or n not in (1, 2):
                continue
            t = w[n - 1]
            if name == "DoubleMinus":
                if v and not (n == 1 and t == "Minus" and w[1] == "Minus"):
                    return False
            elif name in ("Punct",):
                if v != is_p(t):
                    return False
            elif name in FIRST and v != (t == name):
                return False
        if a[0] == "variant" and a[1][0] == "call" and a[1][1] in ("Cursor::punct", "Cursor::literal", "Cursor::ident") and a[1][2][:2] == ("call", "cursor"):
            got = {"punct": is_p(w[0]), "literal": w[0] == "Lit", "ident": w[0] == "Ident"}[a[1][1].split("::")[1]]
            if (v == "Some") != got:
                return False
        if a[0] == "variant" and a[1][:2] == ("tokn", "PreservedToken"):
            is_ = {"identifier": "Ident", "punctuation": "Punct", "literal": "Literal"}.get(table.get(w))
            if is_ and (is_ != v if isinstance(v, str) else is_ in v[1]):
                return False
        if a[0] == "variant" and a[1][:2] == ("call", "Cursor::group") and a[1][2][:2] == ("call", "cursor"):
            d = {"Brace": "Brace", "Bracket": "Bracket", "Parenthesis": "Paren"}.get(a[1][3][2] if a[1][3][0] == "adt" else None)
            if d and (v == "Some") != (w[0] == d):
                return False
    return True


def kind_wanted(w):
    ident = w[0] == "Ident" or w[0] == "Minus" and w[1] in ("Minus", "Ident")
    if w[0] in ("Brace", "Bracket", "Paren"):
        return "group"
    if w[0] == "Dollar" and w[1] == "Brace":
        return "interpolation"
    if ident:
        return "function" if w[2] else "identifier"
    return "literal" if w[0] == "Lit" else "punctuation"


def kinds_of_tokens(r, rule):
    """what a component of the inline form is read as follows from its first tokens: a dash belongs to the identifier it touches"""
    P = prog("host")

    class Mute:
        def __getattr__(self, n):
            return lambda *a, **k: None
    table = {}
    for ty in ("PreservedToken", "ComponentValue"):
        its = [i for i in parse_impls(P) if short(i["impl"]["self"]) == ty]
        if len(its) != 1:
            r.bad(rule, ty + "::parse", "not found")
            return
        it = its[0]
        r.fn(it)
        wrong, seen, n = {}, set(), 0
        for o, v in parse_fn(P, Mute(), rule, it):
            v = Interp(P).deep(o.st, v)
            tag = v[2] if v[0] == "adt" else None
            x = v[3][0][1] if v[0] == "adt" and len(v[3]) == 1 else None
            if ty == "ComponentValue":
                got = {"Block": "group", "Expr": "interpolation", "Function": "function"}.get(tag)
                if tag == "Token" and x is not None:
                    inner = x[2] if x[0] == "adt" else None
                    got = {"Ident": "identifier", "Punct": "punctuation", "Literal": "literal"}.get(inner)
                    if x[:2] == ("tokn", "PreservedToken") and inner is None:
                        got = "token"
            else:
                got = {"Ident": "identifier", "Punct": "punctuation", "Literal": "literal"}.get(tag)
            if got is None:
                r.bad(rule, ty, "is read as %s, which is no kind of component" % show(v)[:160], where(it))
                continue
            m = led(o.st)[1]
            idtok = bool(m) and m[0][1] in ("CssIdent", "PreservedToken")
            for w in worlds():
                if not in_world(w, o.st.facts, idtok, table):
                    continue
                want = kind_wanted(w)
                if ty == "PreservedToken":
                    if want in ("group", "interpolation"):
                        continue      # not read by itself
                    want = "identifier" if want == "function" else want
                n += 1
                is_ = table.get(w, "punctuation") if got == "token" else got
                seen.add(want)
                if is_ != want:
                    wrong.setdefault((want, is_), w)
                if ty == "PreservedToken":
                    table[w] = is_
        for (want, is_), w in sorted(wrong.items()):
            r.bad(rule, "%s %s" % (ty, want), "%s is read as %s where the next tokens are %s, %s" % (
                "an " + want if want[0] in "i" else "a " + want, is_, w[0], w[1]), where(it))
        r.count("classified cases", n)
        r.check(len(seen) >= (3 if ty == "PreservedToken" else 6), rule, ty + " kinds", "only %s are read" % sorted(seen), where(it))


# ---------------------------------------------------------------- use
class Only:
    """the part of another rule's report about the named subjects"""

    def __init__(self, r, names):
        self.r, self.names = r, names

    def __getattr__(self, k):
        f = getattr(self.r, k)
        if k == "check":
            return lambda cond, rule, subj, *a: f(cond, rule, subj, *a) if self.wanted(subj) else None
        if k in ("bad", "ok"):
            return lambda rule, subj, *a: f(rule, subj, *a) if self.wanted(subj) else None
        return f if k in ("fn", "count") else (lambda *a, **kw: None)

    def wanted(self, subj):
        return any(n in subj for n in self.names)


def used(r, rule):
    """selectors, conditions of at-rules and values of declarations are spaced, over all their fragments"""
    o = Only(r, ("CssBlockQualifier::into_output", "condition_output", "CssAttribute::into_output values", "fragments of"))
    gathering(o, rule, None)
    conversions(o, rule, None)
