"""The literal macro form: its argument list is explored as an abstract machine (fixpoint over loop states) next to a monitor of the
grammar `LITERAL (, IDENT = TOKEN*)* [,]`; conversion and interpolation come from summaries."""
from checks.mgr import *

TOKIT = ("tokit",)
FIRST, NAME, VAL, STALE = ("arg", "FIRST"), ("arg", "NAME"), ("arg", "VAL"), ("arg", "STALE")
ARGS = ("spl", ("arg", "ARGS"))
MON = ("H", "mon")


def mon(st):
    return st.store[MON]


def set_mon(st, m):
    st = st.copy()
    st.store[MON] = m
    return st


# monitor: ("mon", state, pending tokens, peeked or UNIT, ended)
def h_into_iter(ip, st, f, args, cid):
    v = ip.val(st, args[0]) if args else None
    return ret(st, TOKIT) if v in (("arg", "input"), TOKIT) else None


def fresh_token(st, m):
    if m[1] == "F" and not m[2]:
        return FIRST
    return ("token", len(m[2]) + (1 if m[3] != UNIT else 0))


def draw(ip, st):
    """(token or None, state) for the next token, without consuming it"""
    m = mon(st)
    if m[3] != UNIT:
        return [(m[3], st)]
    if m[4]:
        return [(None, st)]
    t = fresh_token(st, m)
    return [(t, set_mon(st, m[:3] + (t,) + m[4:])), (None, set_mon(st, m[:4] + (True,)))]


def consume(st, t):
    m = mon(st)
    if t is None:
        return st
    return set_mon(st, m[:2] + (m[2] + (t,), UNIT) + m[4:])


def h_next(ip, st, f, args, cid):
    if not args or ip.val(st, args[0]) != TOKIT:
        return None
    return [Out("ret", consume(s, t), NONE if t is None else some(t)) for t, s in draw(ip, st)]


def h_peek(ip, st, f, args, cid):
    if not args or ip.val(st, args[0]) != TOKIT:
        return None
    return [Out("ret", s, NONE if t is None else some(t)) for t, s in draw(ip, st)]


def h_next_if(ip, st, f, args, cid):
    if not args or ip.val(st, args[0]) != TOKIT:
        return None
    out = []
    for t, s in draw(ip, st):
        if t is None:
            out.append(Out("ret", s, NONE))
            continue
        for o in ip.call_value(s, args[1], [t], cid):
            if o.kind != "ret":
                out.append(o)
                continue
            for b, s2 in ip.branch(o.st, o.val):
                out.append(Out("ret", consume(s2, t), some(t)) if b else Out("ret", s2, NONE))
    return out


def h_is_empty(ip, st, f, args, cid):
    if not args or ip.val(st, args[0]) != TOKIT:
        return None
    return [Out("ret", s, ("bool", t is None)) for t, s in draw(ip, st)]


def h_conv(ip, st, f, args, cid):
    st = st.copy()
    x = ip.deep(st, ip.val(st, args[0]))
    c = ip.deep(st, ip.val(st, args[2]))
    if c != ("seq",):
        return None
    ip.write_ref(st, args[2], ("arg", "USED"))
    return ret(st, call("conv", x, ip.deep(st, ip.val(st, args[1]))))


def kind_of(st, t):
    """comma | eq | ident | other (not a comma) | other2 (neither comma nor =) | ?"""
    v = st.facts.get(("variant", t))
    if v == "Ident":
        return "ident"
    names = v[1] if isinstance(v, tuple) and v[0] == "|" else None
    if isinstance(v, str) and v != "Punct" or isinstance(v, tuple) and v[0] == "!" and "Punct" in v[1] \
            or names is not None and "Punct" not in names:
        return "other"
    if v == "Punct":
        ch = [a for a in st.facts if a[0] == "eq" and any(mentions(x, ("pay", t, "Punct", "0")) for x in a[1:])]
        no = set()
        for a in ch:
            c = next((x[1] for x in a[1:] if x[0] in ("char", "str")), None)
            if st.facts[a] is True:
                return {",": "comma", "=": "eq"}.get(c, "other")
            no.add(c)
        if "," in no:
            return "other"
    return "?"


def mentions(t, x):
    return any(y == x for y in walk(t))


def subst(t, f):
    r = f(t)
    if r is not None:
        return r
    if isinstance(t, tuple):
        return tuple(subst(x, f) for x in t)
    if isinstance(t, frozenset):
        return frozenset(subst(x, f) for x in t)
    return t


STEP = {("F", "*"): "S", ("S", "comma"): "N", ("N", "ident"): "E", ("E", "eq"): "V0", ("V0", "comma"): "N", ("V", "comma"): "N",
        ("V0", "other"): "V", ("V0", "ident"): "V", ("V0", "eq"): "V", ("V", "other"): "V", ("V", "ident"): "V", ("V", "eq"): "V"}
WANT = {"V0": "a token known to be a comma or not", "S": "a comma", "N": "an argument name", "E": "`=`", "V": "a token known to be a comma or not"}


def tok_of(x):
    while True:
        if x[0] in ("one", "tok", "it"):
            x = x[1]
        elif x[0] == "each" and len(x[2]) == 1 and not x[2][0][0] and len(x[2][0][1]) == 1 and x[2][0][1][0][-1:] and \
                mentions(x[2][0][1][0], ("elem", x[1])) and x[2][0][1][0] in (("elem", x[1]), ("tok", ("elem", x[1]))):
            x = x[1]
        elif x[0] == "seq" and len(x) == 2 and x[1][0] == "one":
            x = x[1][1]
        elif x[0] == "call" and len(x) == 3 and x[1].split("::")[-1] in ("from", "to_token_stream", "into"):
            x = x[2]
        else:
            return x


class Machine:
    def __init__(self, r, rule):
        self.r = r
        self.rule = rule
        self.states = set()

    def bad(self, what):
        self.r.bad(self.rule, "literal argument list", what, "packages/stylist-macros/src/literal/mod.rs")

    def canon(self, ip, st, fr, kind):
        m = mon(st)
        if kind == "enter" and (m[4] and m[3] == UNIT or not uses_tokens(st)):
            return None
        ren = {}
        state = m[1]
        name, val = (NAME, (VAL,) if state == "V" else ()) if state in ("E", "V0", "V") else (None, ())
        done = []
        for t in m[2]:
            k = "*" if state == "F" else kind_of(st, t)
            nxt = STEP.get((state, k))
            if nxt is None:
                self.bad("a token that is %s is accepted where %s is expected" % (
                    {"?": "unclassified", "other": "something else"}.get(k, "a " + k), WANT.get(state, state)))
                nxt = {"S": "N", "N": "E", "E": "V0"}.get(state, state)
            if state == "N" and nxt == "E":
                name, val = t, ()
            elif state in ("V", "V0") and nxt == "V":
                val += (t,)
            elif state in ("V", "V0") and nxt == "N":
                done.append((name, val))
                name, val = None, ()
            state = nxt
        if m[4] and m[3] == UNIT and kind == "ret":
            if state == "E":
                self.bad("the argument list may end after a name")
            if state in ("V", "V0"):
                done.append((name, val))
                name, val = None, ()
            if state == "F":
                self.bad("an empty invocation is accepted")
            state = "Z"
        inserted = []

        def f(t):
            if not isinstance(t, tuple) or not t:
                return None
            if t[0] == "seq" and len(t) > 1:
                items = []
                new = []
                for x in t[1:]:
                    if x[0] == "one" and x[1][0] == "tup" and len(x[1]) == 3 and x[1][2][0] == "adt" and x[1][2][1] == "Argument":
                        new.append(x[1])
                        if ARGS not in items:
                            items.append(ARGS)
                    else:
                        items.append(x)
                if new:
                    inserted.append(tuple(new))
                    return ("seq",) + tuple(items)
            if val and state == "V" and t[0] in ("cat", "seq", "each", "tok") and val != (VAL,) and self.same_value(t, val):
                return ("cat", VAL)
            if name is not None and t in (name, ("pay", name, "Ident", "0")):
                return NAME
            if t[0] == "token":
                return VAL if state == "V" and val == (t,) and False else STALE
            return None
        new = State()
        facts = st.facts
        for l, v in st.store.items():
            if l in (MON, "TRACE"):
                continue
            new.store[l] = subst(v, f)
        self.check_inserts(st, done, inserted)
        for a, v in facts.items():
            if not any(isinstance(x, tuple) and x and (x[0] == "token" or x == ("arg", "ARGS") or x == NAME or x == VAL) for x in walk(a)):
                new.facts[a] = v
        peeked = m[3]
        new.store[MON] = ("mon", state, (), UNIT if peeked == UNIT else ("token", 0), m[4])
        if peeked != UNIT:
            for l, v in list(new.store.items()):
                pass
        key = (state, m[4], tuple(sorted(((repr(l), repr(v)) for l, v in new.store.items()))))
        self.states.add((state, kind))
        return key, new

    def same_value(self, t, val):
        """t is the tokens of the current argument"""
        got = [tok_of(x) for x in (t[1:] if t[0] in ("seq", "cat") else (t,))]
        want = list(val)
        return got == want

    def check_inserts(self, st, done, inserted):
        want = done
        sets = {i for i in inserted}
        if not want:
            if sets:
                self.bad("an argument is recorded before it ends")
            return
        if len(sets) != 1:
            self.bad("an argument of the list is dropped" if not sets else "arguments are recorded in several places")
            return
        got = sets.pop()
        if len(got) != len(want):
            self.bad("%d arguments read, %d recorded" % (len(want), len(got)))
            return
        for (n, v), (_, k, a) in zip(want, got):
            d = dict(a[3])
            nm = NAME if n == NAME else ("pay", n, "Ident", "0")
            idents = [x for x in walk(k) if x == nm]
            if not idents or k != d.get("name"):
                self.bad("the argument is recorded under %s, not under its name" % show(k))
            if d.get("name_token") != nm:
                self.bad("name_token is %s" % show(d.get("name_token")))
            tk = d.get("tokens")
            if not (self.same_value(tk, v) or v == () and tk in (("seq",), S(""))):
                self.bad("the value recorded for an argument is %s" % show(tk))
            if not any(a2[0] == "variant" and a2[1][:2] == ("call", "map_get") and a2[1][3] == k and x == "None" for a2, x in st.facts.items()):
                self.bad("an argument is recorded without a test that its name is new")


def uses_tokens(st):
    return any(v == TOKIT for v in st.store.values() if isinstance(v, tuple))


def entry(P, tail):
    return next((i for i in P.fns() if i.id.endswith(tail) and "body" in i), None)


def arguments(r, rule):
    P = prog("host")
    it = entry(P, "literal::macro_fn")
    if it is None:
        r.bad(rule, "literal::macro_fn", "not found")
        return
    r.fn(it)
    M = Machine(r, rule)
    ip = Interp(P, overrides={**OVERRIDES, "into_iter": h_into_iter, "next": h_next, "peekable": h_into_iter, "fuse": h_into_iter,
                              "peek": h_peek, "next_if": h_next_if,
                              "by_ref": None, "to_output_with_args": h_conv, "into_token_stream": h_reify0})
    ip.explore = M.canon
    st = State()
    st.store[MON] = ("mon", "F", (), UNIT, False)
    outs = ip.run_fn(st, it, [("arg", n) for n in args_of(it)], (it.id,))
    good = 0
    for o in outs:
        if o.kind != "ret":
            continue
        v = o.val
        if v[:2] == ("call", "tokens") and v[2][:2] == ("call", "conv"):
            good += 1
            sheet, args = v[2][2], v[2][3]
            want = ("pay", call("parse", call("StringLit::value", ("pay", call("try_into", FIRST), "Ok", "0"))), "Ok", "0")
            r.check(sheet == want, rule, "sheet of the literal form", "the sheet converted is %s" % show(sheet), where(it))
            if not mon(o.st)[4]:
                M.bad("the macro succeeds before the end of its input")
            s = State({"R": args, MON: mon(o.st)}, o.st.facts)
            M.canon(ip, s, None, "ret")
            for x in seq_items(args):
                if x[0] == "one" and x[1][0] == "tup":
                    key = x[1][1]
                    ok = any(a == ("variant", call("map_get", ("arg", "USED"), key)) and f == "Some" for a, f in o.st.facts.items())
                elif x == ARGS:
                    el = ("elem", ("it", ARGS[1]))
                    keys = (("fld", el, "0"), ("fld", ("fld", el, "1"), "name"), ("elem", ("it", call("keys", ARGS[1]))),
                            ("fld", ("elem", ("it", call("values", ARGS[1]))), "name"))
                    ok = any(a[0] == "found" and f is False and len(a[2]) == 1 and
                             any(c == (("variant", call("map_get", ("arg", "USED"), k)), "None") for c in a[2] for k in keys)
                             for a, f in o.st.facts.items())
                else:
                    ok = False
                r.check(ok, rule, "unused arguments", "the macro succeeds with an argument that no interpolation uses", where(it))
        else:
            failed = [a for a, f in o.st.facts.items() if a == ("variant", call("try_into", FIRST)) and f == "Err"]
            r.check(bool(failed) and "compile_error" in repr(v), rule, "literal form",
                    "succeeds with %s without converting a sheet" % show(v)[:200], where(it))
    r.floor("successful outcomes of the literal form", good, 2)
    r.count("abstract loop states", len(M.states))
    for st_, k in sorted(M.states):
        r.ok(rule, "state %s (%s)" % (st_, k))


def h_reify0(ip, st, f, args, cid):
    if len(args) < 2:
        return None
    return ret(st, call("tokens", ip.deep(st, ip.val(st, args[0]))))


# ---------------------------------------------------------------- conversion of the parsed sheet
SELF = ("arg", "self")
LISTS = {"Selector": {"selectors": ("fragments", "spl")}, "StyleAttribute": {"values": ("value", "spl")},
         "Block": {"condition": ("condition", "one"), "content": ("content", "one")},
         "Rule": {"condition": ("condition", "spl"), "content": ("content", "one")}, "Sheet": {"contents": ("0", "one")}}
OUTPUT = {"Selector": "OutputSelector", "StyleAttribute": "OutputAttribute", "Block": "OutputBlock", "Rule": "OutputRule",
          "Sheet": "OutputSheet", "RuleBlockContent": "OutputRuleBlockContent", "ScopeContent": "OutputScopeContent"}


def h_sub(ip, st, f, args, cid):
    passed = ip.deep(st, ip.val(st, args[1])) == ("arg", "args") and (
        args[2] == ("arg", "args_used") or args[2][0] == "ref" and args[2][1] == ("T", ("arg", "args_used")) and not args[2][2])
    return ret(st, call("conv" if passed else "conv-with-other-arguments", ip.deep(st, ip.val(st, args[0]))))


def conv_summary(P, it):
    ip = Interp(P, overrides={"to_output_with_args": h_sub}, opaque={"parse"})
    return ip.run_fn(State(), it, [("arg", n) for n in ("self", "args", "args_used")], (it.id,))


def conversions(P):
    out = {}
    for it in P.fns():
        im = it.get("impl")
        if im and im.get("trait") and it.get("name") == "to_output_with_args":
            out[short(im["self"])] = it
    return out


def each_of(src, kind, what):
    return ("seq", ("each", ("it", src), (((), ((kind, what(("elem", ("it", src)))),)),)))


def conversion(r, rule):
    P = prog("host")
    its = conversions(P)
    r.floor("conversions", len(its), 8)
    for ty, it in sorted(its.items()):
        r.fn(it)
        outs = conv_summary(P, it)
        subj = "%s::to_output_with_args" % ty
        if ty == "StringFragment":
            continue
        if ty in LISTS:
            for o in outs:
                if o.kind != "ret":
                    r.bad(rule, subj, "may fail: %s" % show(o.val)[:200], where(it))
                    continue
                d = dict(o.val[3]) if o.val[0] == "adt" else {}
                r.check(o.val[0] == "adt" and o.val[1] == OUTPUT[ty], rule, subj, "builds %s" % show(o.val)[:200], where(it))
                for f, (src, kind) in LISTS[ty].items():
                    want = each_of(("fld", SELF, src), kind, lambda e: call("conv", e))
                    r.check(d.get(f) == want, rule, "%s.%s" % (subj, f), "%s is %s, not every part of %s in order" % (
                        f, show(d.get(f, UNIT))[:300], src), where(it))
                if ty == "StyleAttribute":
                    r.check(d.get("key") == adt("OutputCowString", "Str", (("0", ("fld", SELF, "key")),)), rule, subj + ".key",
                            "the key is %s" % show(d.get("key", UNIT)), where(it))
                rest = set(d) - set(LISTS[ty]) - {"key"}
                r.check(not rest, rule, subj, "fields %s are not known" % sorted(rest), where(it))
            continue
        a = P.adt(ty) if ty in OUTPUT else None
        if a is None:
            r.bad(rule, subj, "conversion of an unknown type", where(it))
            continue
        seen = set()
        for o in outs:
            v = variant_of(o, SELF)
            if o.kind != "ret" or not isinstance(v, str):
                r.bad(rule, subj, "may fail: %s" % show(o.val)[:200], where(it))
                continue
            seen.add(v)
            p = ("pay", SELF, v, "0")
            b = variant_of(o, p)
            if isinstance(b, str):
                p = ("pay", p, b, "0")
            want = adt(OUTPUT[ty], v, (("0", call("conv", p)),))
            r.check(o.val == want, rule, "%s %s" % (subj, v), "becomes %s" % show(o.val)[:300], where(it))
        r.check(seen == {x["name"] for x in a["variants"]}, rule, subj, "variants covered: %s" % sorted(seen), where(it))


def plain(conds, el, got):
    """nothing but the kind of fragment (and that its argument is there) decides"""
    return all(a == ("variant", el) or (a, v) == (("variant", got), "Some") or (a[0] == "variant" and v == ("|", frozenset({"None", "Some"})))
               for a, v in conds)


def interpolation(r, rule, only=None):
    """text fragments: literal pieces as text, each interpolation as the argument of that name, which counts as used"""
    P = prog("host")
    it = conversions(P).get("StringFragment")
    if it is None:
        r.bad(rule, "StringFragment::to_output_with_args", "not found")
        return
    r.fn(it)
    subj = "StringFragment::to_output_with_args"
    frags = None
    n = 0
    for o in conv_summary(P, it):
        parsed = [a[1] for a in o.st.facts if a[0] == "variant" and a[1][:2] == ("call", "Parser::parse")]
        if not parsed or parsed[0][2] != ("fld", SELF, "inner"):
            r.bad(rule, subj, "an outcome without splitting the fragment's text: %s" % show(o.val)[:200], where(it))
            continue
        frags = ("pay", parsed[0], "Ok", "0")
        src = ("it", frags)
        el = ("elem", src)
        got = call("map_get", ("arg", "args"), ("pay", el, "Interpolation", "0"))
        isin = (("variant", el), "Interpolation")
        missing = frozenset({isin, (("variant", got), "None")})
        if o.kind != "ret":
            ok = o.st.facts.get(("variant", parsed[0])) == "Err" or (
                o.st.facts.get(("variant", el)) == "Interpolation" and o.st.facts.get(("variant", got)) == "None")
            r.check(ok, rule, subj, "fails although the text splits and every argument is there", where(it))
            continue
        n += 1
        r.check(o.st.facts.get(("variant", parsed[0])) == "Ok", rule, subj, "goes on after a malformed interpolation", where(it))
        r.check(any(a == ("found", src, missing) and f is False for a, f in o.st.facts.items()), rule, subj,
                "goes on when an argument is missing", where(it))
        items = o.val[1:] if o.val[0] == "seq" else ()
        alts = {}
        if len(items) == 1 and items[0][0] == "each" and items[0][1] == src:
            for conds, parts in items[0][2]:
                alts.setdefault(dict(conds).get(("variant", el)), []).append(parts if plain(conds, el, got) else None)
        want = {"Literal": (("one", adt("OutputFragment", "Str", (("0", ("pay", el, "Literal", "0")),))),),
                "Interpolation": (("one", adt("OutputFragment", "Arg", (("0", ("pay", got, "Some", "0")),))),)}
        for k, w in want.items():
            got_parts = alts.get(k, [()])
            r.check(all(x == w for x in got_parts), rule, "%s %s" % (subj, k),
                    "becomes %s" % " or ".join(showx(x) if x is not None else "something only sometimes" for x in got_parts)[:400], where(it))
        r.check(set(alts) == set(want), rule, subj, "alternatives %s" % sorted(map(str, alts)), where(it))
        used = o.st.store.get(("T", ("arg", "args_used")), ("seq",))
        keys = {("fld", ("pay", got, "Some", "0"), "name"), ("pay", el, "Interpolation", "0")}
        us = used[1:]
        ok = len(us) == 2 and us[0] == ("spl", ("arg", "args_used")) and us[1][0] == "each" and us[1][1] == src
        if ok:
            for conds, parts in us[1][2]:
                v = dict(conds).get(("variant", el))
                if v == "Interpolation":
                    ok = ok and plain(conds, el, got) and len(parts) == 1 and parts[0][0] == "one" and parts[0][1][0] == "tup" and parts[0][1][1] in keys
                elif parts:
                    ok = False
            ok = ok and any(dict(c).get(("variant", el)) == "Interpolation" for c, p in us[1][2])
        r.check(ok, rule, "%s: arguments used" % subj, "the names recorded as used are %s" % show(used)[:300], where(it))
    r.floor("outcomes of " + subj, n, 1)
