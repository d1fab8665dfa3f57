"""The inline macro form. Parsing functions are explored over abstract states next to a ledger of the tokens taken from the input: every
token ends up in the node returned or its validation errors do. The conversion to output is summarised, or explored where it buffers."""
from checks.mgr import *
from checks.literal import subst, mentions
from lib.peg import chareval

INPUT = ("arg", "input")
TOKS, ERRS, STALE = ("spl", ("arg", "TOKS")), ("spl", ("arg", "ERRS")), ("arg", "STALE")
MON = ("H", "ledger")
SYNTAX = {"At", "Semi", "Colon", "Brace", "Paren", "Bracket", "Dollar", "Comma", "Minus"}


# ---------------------------------------------------------------- ledger: ("ledger", taken tokens, tokens looked at ahead, lists in use, tokens before the loop, lists)
def led(st):
    return st.store[MON]


def set_led(st, m):
    st = st.copy()
    st.store[MON] = m
    return st


def is_buf(v):
    return v == INPUT or v[:1] in (("fork",), ("inner",), ("cvs",))


def buf_of(ip, st, v):
    v = ip.deep(st, ip.val(st, v))
    if v[0] == "adt" and v[1] == "ComponentValueStream":
        v = v[3][0][1]
    return v if is_buf(v) else None


def fresh(st, ty):
    m = led(st)
    n = 1 + max([t[2] for t in m[1]] + [m[2]])
    return ("tokn", ty, n)


def take(st, b, ty):
    t = fresh(st, ty)
    m = led(st)
    if b[0] == "fork":
        return t, set_led(st, m[:2] + (m[2] + 1,) + m[3:])
    return t, set_led(st, (m[0], m[1] + (t,)) + m[2:6] + (m[6] | {b},))


def pos(st):
    return I(len(led(st)[1]) * 100 + led(st)[2])


def h_parse(ip, st, f, args, cid):
    if "ParseBuffer" not in f.get("path", ""):
        return None
    b = buf_of(ip, st, args[0])
    if b is None:
        return None
    ty = short((f.get("args") or ["?"])[0])
    if f["name"] == "call":
        ty = short((f.get("args") or ["?"])[0])
    t, s = take(st, b, ty)
    return [Out("ret", s, ok(t)), Out("ret", st.copy(), err(call("parse error", t)))]


def peek_name(ip, st, f, args):
    a = (f.get("args") or ["?"])[0]
    if "->" in a:
        a = a.split("->")[1].split("{")[0].strip()
        return short(a)
    return "Ident" if "PeekFn" in a else a


def h_peek(ip, st, f, args, cid):
    p = f.get("path", "")
    if "MultiPeek" in p:
        t = fresh(st, "ComponentValue")
        st2 = set_led(st, led(st)[:2] + (led(st)[2] + 1,) + led(st)[3:])
        t = ("peeked", t[2])
        return [Out("ret", st2.copy(), v) for v in (NONE, some(ok(t)), some(err(call("parse error", t))))]
    if "ParseBuffer" not in p and "Lookahead1" not in p:
        return None
    b = buf_of(ip, st, args[0])
    if b is None:
        return None
    a = call("peek", b, pos(st), S(peek_name(ip, st, f, args)), I(2 if f["name"] == "peek2" else 1))
    return ret(st, a)


def h_isempty(ip, st, f, args, cid):
    b = buf_of(ip, st, args[0]) if args else None
    return ret(st, call("at end", b, pos(st))) if b is not None else None


def h_same(ip, st, f, args, cid):
    b = buf_of(ip, st, args[0]) if args else None
    return ret(st, b) if b is not None else None


def h_fork(ip, st, f, args, cid):
    b = buf_of(ip, st, args[0])
    return ret(st, ("fork", b)) if b is not None else None


def h_group(ip, st, f, args, cid):
    b = buf_of(ip, st, args[0])
    if b is None:
        return None
    kind = {"parse_braces": "Brace", "parse_brackets": "Bracket", "parse_parens": "Paren"}[f["name"]]
    t, s = take(st, b, kind)
    n = {"Brace": "Braces", "Bracket": "Brackets", "Paren": "Parens"}[kind]
    return [Out("ret", s, ok(adt(n, n, (("token", t), ("content", ("inner", b, t)))))), Out("ret", st.copy(), err(call("parse error", t)))]


def h_cursor(ip, st, f, args, cid):
    b = buf_of(ip, st, args[0])
    return ret(st, call("cursor", b, pos(st))) if b is not None else None


def h_error(ip, st, f, args, cid):
    b = buf_of(ip, st, args[0])
    return ret(st, call("syntax error", b)) if b is not None else None


def h_validate(ip, st, f, args, cid):
    x = ip.deep(st, ip.val(st, args[0]))
    v = call("verr", x)
    if (f.get("name") or "") == "validate_selector_token":
        return [Out("ret", st.copy(), ok(v)), Out("ret", st.copy(), err(call("fatal", x)))]
    return ret(st, v)


PARSE_OV = {"parse": h_parse, "call": h_parse, "peek": h_peek, "peek2": h_peek, "peek3": h_peek, "is_empty": h_isempty,
            "fork": h_fork, "parse_braces": h_group, "parse_brackets": h_group, "parse_parens": h_group, "cursor": h_cursor,
            "error": h_error, "lookahead1": h_same, "multipeek": h_same, "peekable": h_same,
            "validate_selector_token": h_validate, "validate_attribute_token": h_validate}


def toks_in(t, lo=0):
    return [x for x in walk((t,)) if x[:1] == ("tokn",) and x[2] > lo]


def locals_in(body, blocks):
    out = set()

    def go(x):
        if isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                out.add(x[0])
            for y in x:
                go(y)
    for b in blocks:
        go(body["blocks"][b]["s"])
        go(body["blocks"][b]["t"])
    return out


class Ledger:
    def __init__(self, r, rule, subj, w):
        self.r, self.rule, self.subj, self.w = r, rule, subj, w
        self.said = set()

    def bad(self, what):
        if what not in self.said:
            self.said.add(what)
            self.r.bad(self.rule, self.subj, what, self.w)

    def explore(self, ip, st, fr, kind):
        m = led(st)
        if kind == "enter":
            used = locals_in(fr.body, ip.region)
            own = [ip.deep(st, v) for l, v in st.store.items() if l[0] == "L" and l[1] == fr.fid and l[2] in used and isinstance(v, tuple) and v]
            if not any(is_buf(v) or v[:1] == ("adt",) and any(is_buf(x) for x in walk(v)) or v[:1] == ("inner",) for v in own):
                return None
            keep = frozenset(l for l, v in st.store.items() if isinstance(v, tuple) and any(x[:1] == ("seq",) for x in walk(v)))
            st = set_led(st, (m[0], m[1], max([t[2] for t in m[1]] + [m[2]]), m[3], len(m[1]), keep, m[6]))
            return repr(sorted(st.store.items(), key=repr)), st
        base, before = m[2], m[4]
        # m[2] may have moved on by forks: tokens of this iteration are those taken after the loop was entered
        new = m[1][before:]
        lists = set(m[3])
        got = {"TOKS": [], "ERRS": []}

        def f(t):
            if not isinstance(t, tuple) or not t:
                return None
            if t[:1] == ("seq",) and len(t) > 1:
                items, fl = [], False
                for x in t[1:]:
                    k = self.kind(x, new)
                    if k is None:
                        if fl or x in (TOKS, ERRS):
                            pass
                        if x in (TOKS, ERRS):
                            fl = True
                        items.append(x)
                        continue
                    got[k].append(x)
                    mark = TOKS if k == "TOKS" else ERRS
                    lists.add(k)
                    if mark not in items:
                        items.append(mark)
                    elif items[-1] != mark:
                        self.bad("tokens are put out of order: %s" % show(t)[:200])
                return ("seq",) + tuple(items)
            if t[:1] == ("tokn",) and t in new:
                return STALE
            if t[:2] == ("call", "verr") and any(x in new for x in walk(t)) and live[0]:
                got["ERRS"].append(("spl", t))
                lists.add("ERRS")
                return ("seq", ERRS)
            if t[:2] == ("call", "verr") or t[:2] == ("call", "parse error"):
                return STALE if any(x in new for x in walk(t)) else None
            return None
        store = {}
        live = [False]

        def stale(t):
            return STALE if isinstance(t, tuple) and t and (t[:1] == ("tokn",) and t in new or t in (TOKS, ERRS)) else None
        for l, v in st.store.items():
            if l in (MON, "TRACE"):
                continue
            live[0] = l in m[5]
            store[l] = subst(v, f if live[0] else stale)
        self.settle(st, new, got["TOKS"], got["ERRS"])
        s = State()
        s.store.update(store)
        s.store[MON] = (m[0], m[1][:before], max([t[2] for t in m[1][:before]] + [0]), frozenset(lists), before, m[5], m[6])
        for a, v in st.facts.items():
            if not any(x in new or x[:2] in (("call", "peek"), ("call", "at end"), ("call", "cursor")) for x in walk(a)):
                s.facts[a] = v
        return repr(sorted(((l, v) for l, v in s.store.items()), key=repr)), s

    def kind(self, x, new):
        if x[0] == "spl" and any(y[:2] == ("call", "verr") for y in walk(x)):
            return "ERRS"
        if any(y in new for y in walk(x)):
            return "ERRS" if x[0] == "one" and x[1][0] == "call" and "rror" in x[1][1] else "TOKS"
        return None

    def settle(self, st, new, toks, errs):
        """every token taken is kept, or its validation errors are; all validation errors are kept"""
        order = [t for x in toks for t in toks_in(x) if t in new]
        if order != sorted(order, key=lambda t: t[2]):
            self.bad("tokens are kept in another order than in the input")
        for t in new:
            v = call("verr", t)
            n = order.count(t)
            nonempty = st.facts.get(("empty", v)) is False
            reported = sum(1 for x in errs if v in walk(x))
            if n > 1:
                self.bad("a token (%s) is kept twice" % t[1])
            if n == 0 and t[1] not in SYNTAX and not (nonempty and reported):
                self.bad("a token (%s) of the input is dropped without an error" % t[1])
            asked = any(v in walk(a) for a in st.facts) or reported
            if n and not asked and t[1] == "ComponentValue":
                # kept as it is: it must not be what ends the list
                for end in ("Semi", "Brace"):
                    if not excluded(st, t, end):
                        self.bad("a component that may be %s is kept as part of the text before it" % ("`;`" if end == "Semi" else "a block"))
            if asked and not reported and st.facts.get(("empty", v)) is not True:
                self.bad("validation errors are dropped")


def excluded(st, t, end):
    """is the component t known not to be `;` (or a block) where it was taken?"""
    i = led(st)[1].index(t)
    for a, v in st.facts.items():
        if a[:2] == ("call", "peek") and v is False and a[2] == INPUT and a[3][1] // 100 == i and a[4] == S(end) and a[5] == I(1):
            return True
    kind = st.facts.get(("variant", t))
    if kind is None:
        return False
    if end == "Brace":
        return kind != "Block" or st.facts.get(("variant", ("fld", ("pay", t, "Block", "0"), "kind"))) in ("Bracketed", "Parenthesized")
    tok = ("pay", t, "Token", "0")
    return kind != "Token" or st.facts.get(("variant", tok)) not in (None, "Punct") or any(
        a[0] == "eq" and v is False and (";" in repr(a)) and any(x[:2] == ("call", "Punct::as_char") and t in walk(x) for x in a[1:]) for a, v in st.facts.items())


def parse_fn(P, r, rule, it, subj=None):
    """explore one parsing function; returns its outcomes (Ok only, with ledger)"""
    subj = subj or it.disp()
    L = Ledger(r, rule, subj, where(it))
    ip = Interp(P, overrides={**OVERRIDES, **PARSE_OV})
    ip.explore = L.explore
    st = State()
    st.store[MON] = ("ledger", (), 0, frozenset(), 0, frozenset(), frozenset())
    a = [INPUT if "ParseBuffer" in str(t) else ("arg", n) for n, t in zip(args_of(it), it["inputs"])]
    outs = ip.run_fn(st, it, a, (it.id,))
    good = []
    for o in outs:
        if o.kind != "ret":
            continue                      # a panic aborts the macro: the compiler reports it
        v = o.val
        if v[0] == "adt" and v[2] == "Err":
            continue
        if v[0] == "adt" and v[2] == "Ok":
            v = v[3][0][1]
        good.append((o, v))
        m = led(o.st)
        items = [x for s in walk((v,)) if s[:1] == ("seq",) for x in s[1:]]
        errs = [x for x in items if L.kind(x, m[1]) == "ERRS"]
        bare = subst(v, lambda t: ("seq",) + tuple(x for x in t[1:] if x not in errs) if isinstance(t, tuple) and t[:1] == ("seq",)
                     and any(x in errs for x in t[1:]) else None)
        flat = toks_in(bare)
        for t in m[1]:
            n = flat.count(t)
            ve = call("verr", t)
            rep = any(ve in walk(e) for e in errs)
            if n == 0 and t[1] not in SYNTAX and not (rep and o.st.facts.get(("empty", ve)) is False):
                L.bad("a token (%s) of the input is dropped" % t[1])
            inner = ("inner", INPUT, t)
            if t[1] in ("Brace", "Paren", "Bracket") and inner not in m[6] and inner not in walk((v,)) and not any(
                    a[:2] == ("call", "at end") and a[2] == inner for a in o.st.facts):
                L.bad("the contents of a group are dropped")
        for k, mark in (("TOKS", TOKS), ("ERRS", ERRS)):
            if k in m[3]:
                n = sum(1 for x in items if x == mark)
                r.check(n == 1, rule, "%s %s" % (subj, k.lower()), "the %s collected are %s" % (
                    "tokens" if k == "TOKS" else "errors", "dropped" if n == 0 else "used %d times" % n), where(it))
    r.check(bool(good), rule, subj + " outcomes", "never succeeds", where(it))
    if not L.said:
        r.ok(rule, subj + " keeps every token")
    return good


def parse_impls(P):
    out = []
    for it in P.fns():
        im = it.get("impl") or {}
        if it.get("crate") == "stylist_macros" and "::inline::" in it.id and "body" in it and im.get("trait") and short(im["trait"]) == "Parse" \
                and it.get("name") == "parse":
            out.append(it)
    return out


def parse_targets(P):
    """types some macro code parses out of a token stream"""
    out = set()
    for it in P.fns():
        if it.get("crate") != "stylist_macros" or "body" not in it:
            continue
        for b in it["body"]["blocks"]:
            f = b["t"][1] if b["t"][0] == "call" else None
            if isinstance(f, dict) and f.get("name") in ("parse", "parse2") and f.get("path", "").startswith("syn::parse"):
                out.add(short((f.get("args") or ["?"])[0]))
    return out


def parsing(r, rule):
    """every parsing function of the inline form keeps every token it takes, in order"""
    P = prog("host")
    targets = parse_targets(P)
    n = 0
    out = {}
    for it in parse_impls(P):
        ty = short(it["impl"]["self"])
        if targets and ty not in targets and ty != "FunctionToken":
            continue
        n += 1
        r.fn(it)
        out[ty] = parse_fn(P, r, rule, it)
    r.floor("parsing functions of the inline form", n, 10)
    return out


def deciding(r, rule):
    """the kind of node follows from the first tokens: `@` an at-rule, a name before `:` a declaration, anything else a block"""
    P = prog("host")
    it = next((i for i in parse_impls(P) if short(i["impl"]["self"]) == "CssScopeContent"), None)
    if it is None:
        r.bad(rule, "CssScopeContent", "not found")
        return
    r.fn(it)
    seen = set()

    class Mute:
        def __getattr__(self, n):
            return lambda *a, **k: None
    for o, v in parse_fn(P, Mute(), rule, it):
        f = o.st.facts
        p1, p2 = ("peeked", 1), ("peeked", 2)
        first = f.get(("variant", p1))
        tok1 = ("pay", p1, "Token", "0")
        at_sign = first == "Token" and f.get(("variant", tok1)) == "Punct" and is_char(f, ("pay", tok1, "Punct", "0"), "@")
        name = first == "Expr" or first == "Token" and f.get(("variant", tok1)) == "Ident"
        tok2 = ("pay", p2, "Token", "0")
        colon = f.get(("variant", p2)) == "Token" and f.get(("variant", tok2)) == "Punct" and is_char(f, ("pay", tok2, "Punct", "0"), ":")
        want = "AtRule" if at_sign else "Attribute" if name and colon else "Nested"
        got = v[2] if v[0] == "adt" else show(v)
        seen.add(got)
        known = (("variant", p1), ("variant", p2), ("variant", tok1), ("variant", tok2))
        more = [a for a in f if a not in known and not (a[0] == "eq" and any(
            x[:2] == ("call", "Punct::as_char") and x[2] in (("pay", tok1, "Punct", "0"), ("pay", tok2, "Punct", "0")) for x in a[1:]))]
        r.check(not more or got == "Nested", rule, "%s that starts with %s" % (want, show_first(f, p1)),
                "is read as %s depending on %s" % (got, ", ".join(show(a) for a in more)[:200]), where(it))
        r.check(got == want, rule, "%s that starts with %s" % (want, show_first(f, p1)), "is read as %s" % got, where(it))
        r.check(v[0] == "adt" and v[3] and v[3][0][1][:1] == ("tokn",), rule, "%s node" % got, "is %s, not the node parsed" % show(v)[:200], where(it))
    r.check(seen == {"AtRule", "Attribute", "Nested"}, rule, "kinds of nodes", "only %s are read" % sorted(seen), where(it))


def show_first(f, p1):
    k = f.get(("variant", p1))
    k2 = f.get(("variant", ("pay", p1, "Token", "0")))
    return "%s %s" % (k if isinstance(k, str) else "another token", k2 if isinstance(k2, str) else "")


def is_char(f, p, c):
    return any(a[0] == "eq" and v is True and ("char", c) in a[1:] or a[0] == "eq" and v is True and S(c) in a[1:] for a, v in f.items()
               if p in walk(a))


# ---------------------------------------------------------------- conversion to output
CTX = ("H", "ctx")
SRC = ("src",)
OUTS, PEND, P1 = ("spl", ("arg", "OUT")), ("spl", ("arg", "PEND")), ("arg", "P1")
CONVERSIONS = ("into_output", "into_rule_output", "into_rule_block_output", "into_dangling_output", "to_output_fragments",
               "to_output_fragment", "condition_output")


def gives_fragments(it):
    """a function from a component value to its fragments"""
    return it.get("crate") == "stylist_macros" and "body" in it and len(it.get("inputs") or []) == 1 and \
        "inline::component_value::ComponentValue'" in str(it["inputs"]) and "Vec'" not in str(it["inputs"]) and \
        str(it.get("output")).startswith("['adt', 'std::vec::Vec', [['adt', 'stylist_macros::output::str_frag::OutputFragment'")


def out_ov(P):
    """overrides of the conversions, with the functions that give fragments under any name"""
    return {**OUT_OV, **{i["name"]: h_out for i in P.fns() if i.get("name") and gives_fragments(i)}}


def h_out(ip, st, f, args, cid):
    it = ip.p.get(f.get("rid") or f.get("id") or "")
    if it is None or it.get("crate") != "stylist_macros" or "::inline::" not in it.id:
        return None
    st = st.copy()
    x = ip.deep(st, ip.val(st, args[0]))
    if len(args) > 1:
        c = ip.val(st, args[-1])
        e = ip.getf(st, c, "errors")
        if c[0] != "adt":
            return None
        ip.write_ref(st, args[-1], ("adt", c[1], c[2], tuple((k, seq(seq_items(e) + (("spl", call("errs", x)),)) if k == "errors" else v)
                                                            for k, v in c[3])))
    return ret(st, call("out." + f["name"], x))


def h_spaced_with(ip, st, f, args, cid):
    """an iterator that is spaced: what it yields is decided separately (C30)"""
    return ret(st, adt("spaced iterator", "spaced iterator", (("it", ip.deep(st, ip.val(st, args[0]))), ("spacer", args[1]))))


def spacing_of(ip, st, v):
    v = ip.val(st, v)
    if v[0] == "adt" and v[1] == "spaced iterator":
        return v
    return None


def spaced(ip, st, v, cid):
    """[(state, sequence)]: the items of a spaced iterator"""
    d = dict(v[3])
    out = []
    from lib.models import collect as mcollect
    for o in mcollect(ip, st, d["it"], "seq", cid + ("sp",)):
        if o.kind == "ret":
            by = [ip.deep(x.st, x.val) for x in ip.call_value(o.st.copy(), d["spacer"], [("arg", "l"), ("arg", "r")], cid + ("by",))
                  if x.kind == "ret"]
            out.append((o.st, call("spaced", o.val, by[0] if len(by) == 1 else UNIT)))
    return out


def h_iterate(ip, st, it, key):
    v = spacing_of(ip, st, it)
    return None if v is None else spaced(ip, st, v, key)


def h_collect(ip, st, f, args, cid):
    v = spacing_of(ip, st, args[0])
    if v is not None:
        return [Out("ret", s, ("seq", ("spl", x))) for s, x in spaced(ip, st, v, cid)]
    b = ip.val(st, args[0])
    if b[:2] == ("call", "batching"):
        return batches(ip, st, b, cid)
    return None


def h_extend(ip, st, f, args, cid):
    v = spacing_of(ip, st, args[1]) if len(args) > 1 else None
    if v is None:
        return None
    out = []
    for s, x in spaced(ip, st, v, cid):
        s = s.copy()
        cur = ip.val(s, args[0])
        ip.write_ref(s, args[0], seq(seq_items(cur) + (("spl", x),)))
        out.append(Out("ret", s, UNIT))
    return out


# ledger of a source list: ("nodes", taken, ended, looked-at node or UNIT, started, pending)
def h_src(ip, st, f, args, cid):
    if MON not in st.store or not args:
        return None
    v = ip.deep(st, ip.val(st, args[0]))
    if v[0] in ("it", "peekable"):
        v = v[1]
    if v == SRC or v == led(st)[6]:
        return ret(st, SRC)
    return None


def node(st, many=None):
    m = led(st)
    return ("node", len(m[1]) + (0 if m[3] == UNIT else 0))


def h_nnext(ip, st, f, args, cid):
    if MON not in st.store or not args or ip.val(st, args[0]) != SRC:
        return None
    m = led(st)
    name = f["name"]
    if m[3] != UNIT:
        if name == "peek":
            return ret(st, some(m[3]))
        return ret(set_led(st, (m[0], m[1] + (m[3],), m[2], UNIT) + m[4:]), some(m[3]))
    if m[2]:
        return ret(st, NONE)
    n = ("node", len(m[1]))
    s1 = set_led(st, (m[0], m[1], m[2], n) + m[4:]) if name == "peek" else set_led(st, (m[0], m[1] + (n,)) + m[2:])
    s2 = set_led(st, m[:2] + (True,) + m[3:])
    return [Out("ret", s1, some(n)), Out("ret", s2, NONE)]


def h_while(ip, st, f, args, cid):
    """peeking_take_while: all nodes up to the first that fails the test"""
    if MON not in st.store or ip.val(st, args[0]) != SRC:
        return None
    m = led(st)
    n = ("nodes", len(m[1]), ip.deep(st, ip.val(st, args[1])))
    s = set_led(st, (m[0], m[1] + (n,), m[2], UNIT) + m[4:])
    # what stops it: the end, or a node that fails
    stop = ("node", len(m[1]) + 1)
    a = set_led(s, led(s)[:2] + (True, UNIT) + m[4:])
    b = set_led(s, led(s)[:3] + (stop,) + m[4:])
    out = [Out("ret", a, ("it", n))]
    for o in ip.call_value(b, args[1], [stop], cid + ("stop",)):
        if o.kind == "ret":
            for t, s3 in ip.branch(o.st, o.val):
                if not t:
                    out.append(Out("ret", s3, ("it", n)))
    return out


def h_batching(ip, st, f, args, cid):
    if MON not in st.store:
        return None
    v = ip.deep(st, ip.val(st, args[0]))
    while v[0] in ("it", "peekable"):
        v = v[1]
    return ret(st, ("call", "batching", args[1])) if v in (SRC, led(st)[6]) else None


def batches(ip, st, b, cid):
    """the closure is called until it answers None: each call is one step of a loop over the source"""
    loc = ("H", "batches")
    st = st.copy()
    st.store[loc] = ("seq",)
    srcl = ("H", "batchsrc")
    st.store[srcl] = SRC
    first = ip.explore(ip, st, None, "enter")
    seen, work, out = {first[0]}, [first[1]], []
    while work:
        s = work.pop()
        for o in ip.call_value(s, b[2], [("ref", srcl, ())], cid + ("batch",)):
            if o.kind != "ret":
                out.append(o)
                continue
            for n, s2 in ip.variant(o.st, o.val, ["None", "Some"]):
                s2 = s2.copy()
                if n == "None":
                    v = s2.store.pop(loc)
                    s2.store.pop(srcl, None)
                    out.append(Out("ret", s2, v))
                    continue
                s2.store[loc] = seq(seq_items(s2.store[loc]) + (("one", ip.deep(s2, ip.payload(s2, o.val, "Some"))),))
                k, c = ip.explore(ip, s2, None, "cont")
                if k not in seen:
                    seen.add(k)
                    work.append(c)
    return out


def h_spacing(ip, st, f, args, cid):
    return ret(st, call("spacing", *[ip.deep(st, ip.val(st, a)) for a in args]))


SPACING = call("spacing", ("arg", "l"), ("arg", "r"))
OUT_OV = {"fragment_spacing": h_spacing, "spaced_with": h_spaced_with, **{k: h_out for k in CONVERSIONS}, "collect": h_collect, "<iterate>": h_iterate, "extend": h_extend, "into_iter": h_src, "iter": h_src, "peekable": h_src,
          "next": h_nnext, "peek": h_nnext, "peeking_take_while": h_while, "batching": h_batching, "by_ref": h_src, "fuse": h_src}


class Flat:
    """ledger of a conversion that gathers nodes before it puts them out"""

    def __init__(self, r, rule, subj, w, sep=None):
        self.r, self.rule, self.subj, self.w, self.sep = r, rule, subj, w, sep
        self.said = set()

    def bad(self, what):
        if what not in self.said:
            self.said.add(what)
            self.r.bad(self.rule, self.subj, what, self.w)

    def node_of(self, x, kinds):
        """the node a payload stands for"""
        if x[0] == "pay" and x[1][:1] == ("node",) and x[2] in kinds:
            return x[1]
        if x == P1:
            return x
        return None

    def flat(self, items):
        out = []
        for x in items:
            if x in (OUTS, PEND):
                out.append(x)
                continue
            if x[0] == "one" and x[1] == P1:
                out.append(P1)
                continue
            if x[0] == "one" and x[1][:1] == ("pay",) and self.node_of(x[1], ("Attribute",)):
                out.append(x[1][1])
                continue
            v = x[1] if x[0] == "one" else UNIT
            if v[0] == "adt" and v[3]:
                p = v[3][0][1]
                if v[2] == "Block" and p[:2] == ("call", "out.into_dangling_output") and p[2][:1] == ("seq",):
                    inner = self.flat(p[2][1:])
                    if any(y in (OUTS,) for y in inner):
                        self.bad("nodes are put into a block of their own together: %s" % show(v)[:200])
                    out += inner
                    continue
                if v[2] == "Rule" and p[:2] == ("call", "out.into_rule_output") and self.node_of(p[2], ("AtRule",)):
                    out.append(p[2][1])
                    continue
                if v[2] == "Block" and p[:2] == ("call", "out.into_output") and self.node_of(p[2], ("Nested",)):
                    out.append(p[2][1])
                    continue
                if v[1] == "OutputSelector":
                    out += self.selector(p)
                    continue
            self.bad("%s does not stand for nodes of the input" % show(x)[:200])
        return out

    def selector(self, p):
        p = p[1:]
        if len(p) == 1 and p[0][0] == "spl" and p[0][1][:2] == ("call", "spaced"):
            inner, sp = p[0][1][2], p[0][1][3]
            if sp != SPACING:
                self.bad("fragments are spaced by %s" % show(sp)[:100])
            x = inner[1:]
            if len(x) == 1 and x[0][0] == "each" and x[0][1][:1] == ("it",) or len(x) == 1 and x[0][0] == "each":
                src = x[0][1]
                src = src[1] if src[0] == "it" else src
                alts = x[0][2]
                el = ("elem", x[0][1])
                if src[:1] == ("nodes",) and len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1 and \
                        is_parts(alts[0][1][0], el, "plain"):
                    return [src]
        self.bad("a selector is made of %s" % show(("seq",) + tuple(p))[:300])
        return []

    def explore(self, ip, st, fr, kind):
        m = led(st)
        if kind == "enter":
            if not any(v == SRC for v in st.store.values()):
                return None
            self.keep = [l for l, v in st.store.items() if isinstance(v, tuple) and v[:1] == ("seq",) and l[0] != "H" or l == ("H", "batches")]
            return repr(sorted(st.store.items(), key=repr)), st
        s = st.copy()
        s.facts = {a: v for a, v in st.facts.items() if not any(x[:1] in (("node",), ("nodes",)) or x == P1 for x in walk(a))}
        out_new, pend = [], None
        fresh_errs = self.errors(ip, s)
        for l, v in st.store.items():
            if l in (MON, "TRACE", CTX):
                continue
            if l in self.keep and v[:1] == ("seq",):
                items = v[1:]
                if items and all(x in (PEND,) or x[0] == "one" and (x[1] == P1 or x[1][:1] == ("pay",)) for x in items):
                    pend = items if pend is None else pend
                    s.store[l] = ("seq", ("one", P1), PEND)
                    continue
                new = [x for x in items if x != OUTS]
                if items and items[0] != OUTS and m[4] and OUTS in items:
                    self.bad("nodes are put out of order")
                if OUTS not in items and m[4] and items and l == m[7]:
                    self.bad("what was put out before is lost")
                if new:
                    out_new += new
                    s.store[l] = ("seq", OUTS)
                    m = m[:7] + (l,)
            elif isinstance(v, tuple):
                s.store[l] = subst(v, lambda t: STALE if isinstance(t, tuple) and t[:1] in (("node",), ("nodes",)) and t != m[3] else None)
        had = [P1, PEND] if m[5] else []
        want = had + [n for n in m[1] if not self.separator(n, st)]
        got = self.flat(out_new) + (self.flat(pend) if pend else [])
        if got != want:
            self.bad("the nodes %s become %s" % (" ".join(map(show_node, want)), " ".join(map(show_node, got))))
        for n in self.flat(out_new):
            if n != OUTS and self.sep is None and n not in fresh_errs:
                self.bad("errors of a node put out are lost")
        nxt = m[3]
        if nxt != UNIT:
            s.store = {l: subst(v, lambda t: ("node", 0) if t == nxt else None) if l != MON else v for l, v in s.store.items()}
            nxt = ("node", 0)
        s.store[MON] = (m[0], (), m[2], nxt, m[4] or bool(out_new), pend is not None, m[6], m[7])
        return repr((sorted(((l, v) for l, v in s.store.items() if l != "TRACE"), key=repr))), s

    def separator(self, n, st):
        return self.sep is not None and n[0] == "node" and self.sep(n, st)

    def errors(self, ip, st):
        """nodes whose errors are in the context; the context is put back to the canonical one"""
        c = st.store.get(CTX)
        if c is None or c[0] != "adt":
            return set()
        e = dict(c[3]).get("errors", UNIT)
        got = set()
        keep = []
        for x in e[1:] if e[:1] == ("seq",) else ():
            if x[0] == "spl" and x[1][:2] == ("call", "errs") and any(t[:1] == ("node",) or t in (P1, PEND) for t in walk(x)):
                got |= {t for t in walk(x) if t[:1] == ("node",) or t in (P1, PEND)}
            else:
                keep.append(x)
        if not keep or keep[0] != ("spl", ("arg", "e0")):
            self.bad("the errors collected before are lost")
        st.store[CTX] = adt("IntoOutputContext", "IntoOutputContext", (("errors", ("seq",) + tuple(keep)),))
        return got


def show_node(n):
    return {"OUT": "(before)", "PEND": "(pending)", "P1": "(pending)"}.get(n[1][1] if n[0] == "spl" else n[1], None) or "%s%s" % (n[0], n[1])


def context():
    return adt("IntoOutputContext", "IntoOutputContext", (("errors", ("seq", ("spl", ("arg", "e0")))),))


def summary(P, it, extra=None):
    ip = Interp(P, overrides={**OVERRIDES, **out_ov(P), **(extra or {})})
    st = State()
    st.store[CTX] = context()
    a = [("ref", CTX, ()) if "IntoOutputContext" in str(t) else ("arg", n) for n, t in zip(args_of(it), it["inputs"])]
    return ip.run_fn(st, it, a, (it.id,))


def errors_after(o):
    c = o.st.store.get(CTX)
    return dict(c[3])["errors"] if c and c[0] == "adt" else UNIT


def explored(P, r, rule, it, src, sep=None):
    """outcomes of a conversion that gathers; the ledger is checked on the way"""
    F = Flat(r, rule, it.disp(), where(it), sep)
    ip = Interp(P, overrides={**OVERRIDES, **out_ov(P)})
    ip.explore = F.explore
    st = State()
    st.store[CTX] = context()
    st.store[MON] = ("nodes", (), False, UNIT, False, False, src, None)
    a = [("ref", CTX, ()) if "IntoOutputContext" in str(t) else ("arg", n) for n, t in zip(args_of(it), it["inputs"])]
    return F, ip.run_fn(st, it, a, (it.id,))


def arg_method(P, ty, name):
    return next((i for i in P.fns() if i.get("crate") == "stylist_macros" and i.get("name") == name and i.get("impl") and "body" in i
                 and short(i["impl"]["self"]) == ty and not i["impl"].get("trait")), None)


def err_items(o):
    e = errors_after(o)
    return e[1:] if e[:1] == ("seq",) else ()


def comma(n, st):
    t = ("pay", n, "Token", "0")
    return st.facts.get(("variant", n)) == "Token" and is_char(st.facts, ("pay", t, "Punct", "0"), ",")


def same_but_extra(r, rule, subj, got, want, w):
    r.check(got == want, rule, subj, "is %s, not %s" % (show(got)[:300], show(want)[:300]), w)


def gathering(r, nodes, errors):
    """conversions that gather declarations into blocks of their own, or tokens into selectors"""
    P = prog("host")
    for ty, name, fld, sep in (("CssRootNode", "into_output", "contents", None), ("CssScope", "into_rule_output", "contents", None),
                               ("CssBlockQualifier", "into_output", "qualifiers", comma)):
        it = arg_method(P, ty, name)
        subj = "%s::%s" % (ty, name)
        rule = nodes or errors
        if it is None:
            r.bad(rule, subj, "not found")
            continue
        r.fn(it)
        F, outs = explored(P, r, rule, it, ("fld", SELF, fld), sep)
        n = 0
        for o in outs:
            if o.kind != "ret":
                F.bad("may fail: %s" % show(o.val)[:200])
                continue
            n += 1
            v = o.val
            if v[0] == "adt":
                v = dict(v[3]).get("contents", UNIT)
            m = led(o.st)
            if v[:1] != ("seq",):
                F.bad("results in %s" % show(v)[:200])
                continue
            want = ([OUTS] if m[4] else []) + ([P1, PEND] if m[5] else [])
            got = F.flat(v[1:])
            if m[1] or not m[2]:
                F.bad("stops before all nodes are put out")
            if got != want:
                F.bad("the nodes %s become %s" % (" ".join(map(show_node, want)), " ".join(map(show_node, got))))
            es = err_items(o)
            if es[:1] != (("spl", ("arg", "e0")),):
                F.bad("the errors collected before are lost")
            if m[5] and sep is None and not any(P1 in walk(x) for x in es):
                F.bad("errors of the last declarations are lost")
            if sep is not None and ("spl", ("fld", SELF, "errors")) not in es:
                F.bad("the errors found in the selector are lost")
        r.check(n > 1, rule, subj + " outcomes", "%d outcomes" % n, where(it))
        if not F.said:
            r.ok(rule, subj + " keeps every node, in order, with its errors")


SELF = ("arg", "self")


def one(x):
    return ("one", x)


# the functions from a component value to its fragments that are used, by what they are used for
USED = {"plain": set(), "condition": set()}


def is_parts(x, el, role):
    """the fragments of el, by a function that is then held to the role"""
    if x[0] == "spl" and x[1][:1] == ("call",) and x[1][1].startswith("out.") and x[1][2:] == (el,):
        USED[role].add(x[1][1][4:])
        return True
    return False


def is_frags(x, src, role="plain"):
    """each(src){..fragments of the element}"""
    return x[0] == "each" and x[1] in (src, ("it", src)) and len(x[2]) == 1 and not x[2][0][0] and \
        len(x[2][0][1]) == 1 and is_parts(x[2][0][1][0], ("elem", x[1]), role)


def is_spaced(x, src, role="plain"):
    return x[0] == "spl" and x[1][:2] == ("call", "spaced") and x[1][3] == SPACING and x[1][2][:1] == ("seq",) and len(x[1][2]) == 2 and \
        is_frags(x[1][2][1], src, role)


def alts(x, src):
    """{variants of the element: items} of each(src){..}"""
    if x[0] != "each" or x[1] not in (src, ("it", src)):
        return None
    out = {}
    for c, ps in x[2]:
        d = {a: v for a, v in c}
        k = d.get(("variant", ("elem", x[1])))
        if k is None or len(d) > 1:
            return None
        out[k] = tuple(ps)
    return out


def conversions(r, nodes, errors):
    """conversions without a buffer: their summaries"""
    P = prog("host")

    def each_fn(ty, name, f):
        it = arg_method(P, ty, name)
        subj = "%s::%s" % (ty, name)
        if it is None:
            r.bad(nodes or errors, subj, "not found")
            return
        r.fn(it)
        outs = [o for o in summary(P, it)]
        r.check(bool(outs), nodes or errors, subj + " outcomes", "none", where(it))
        for o in outs:
            es = err_items(o)
            if o.kind != "ret":
                if ty != "ComponentValue":
                    r.bad(nodes or errors, subj, "may fail: %s" % show(o.val)[:200], where(it))
                continue
            if errors and any("IntoOutputContext" in str(t) for t in it["inputs"]):
                r.check(es[:1] == (("spl", ("arg", "e0")),), errors, subj + " keeps errors", "the errors collected before are lost", where(it))
            f(o, subj, es, where(it))

    def need(o, subj, es, w, *want):
        if errors:
            for x in want:
                r.check(("spl", x) in es, errors, subj + " reports", "%s do not reach the context: %s" % (show(x), show(("seq",) + es)[:300]), w)

    def node(cond, subj, what, w):
        if nodes:
            r.check(cond, nodes, subj, what, w)

    def qualified(o, subj, es, w):
        q, s = ("fld", SELF, "qualifier"), ("fld", SELF, "scope")
        d = dict(o.val[3]) if o.val[0] == "adt" else {}
        node(d.get("condition") == call("out.into_output", q), subj + " condition", "is %s" % show(d.get("condition", UNIT))[:200], w)
        node(d.get("content") == call("out.into_rule_block_output", s), subj + " content", "is %s" % show(d.get("content", UNIT))[:200], w)
        need(o, subj, es, w, call("errs", q), call("errs", s))
    each_fn("CssQualifiedRule", "into_output", qualified)

    def dangling(o, subj, es, w):
        d = dict(o.val[3]) if o.val[0] == "adt" else {}
        src = ("arg", "attrs")
        c = d.get("content", UNIT)
        node(d.get("condition") == ("seq",), subj + " condition", "is %s" % show(d.get("condition", UNIT))[:200], w)
        x = c[1] if c[:1] == ("seq",) and len(c) == 2 else UNIT
        okx = x[0] == "each" and x[1] in (src, ("it", src)) and len(x[2]) == 1 and not x[2][0][0] and len(x[2][0][1]) == 1 and \
            x[2][0][1][0][:1] == ("one",) and x[2][0][1][0][1][0] == "adt" and x[2][0][1][0][1][2] == "StyleAttr" and \
            x[2][0][1][0][1][3][0][1] == call("out.into_output", ("elem", x[1]))
        node(okx, subj + " content", "is %s" % show(c)[:300], w)
        if errors:
            r.check(any(e[0] == "each" and e[1] in (src, ("it", src)) and len(e[2]) == 1 and not e[2][0][0] and
                        ("spl", call("errs", ("elem", e[1]))) in e[2][0][1] for e in es), errors, subj + " reports",
                    "the errors of the declarations do not reach the context: %s" % show(("seq",) + es)[:300], w)
    each_fn("CssQualifiedRule", "into_dangling_output", dangling)

    def block_body(o, subj, es, w):
        src = ("fld", SELF, "contents")
        v = o.val
        d = alts(v[1], src) if v[:1] == ("seq",) and len(v) == 2 else None
        el = ("elem", v[1][1]) if d is not None else UNIT
        if d is None:
            node(False, subj, "is %s" % show(v)[:300], w)
        else:
            for k, variant, conv in (("Attribute", "StyleAttr", "out.into_output"), ("AtRule", "Rule", "out.into_rule_block_output")):
                x = d.get(k, ())
                okx = len(x) == 1 and x[0][0] == "one" and x[0][1][0] == "adt" and x[0][1][2] == variant and \
                    x[0][1][3][0][1] == call(conv, ("pay", el, k, "0"))
                node(okx, "%s of a %s" % (subj, k), "is %s" % show(("seq",) + tuple(x))[:300], w)
        if errors:
            ds = [alts(e, src) for e in es if e[0] == "each"]
            ds = [x for x in ds if x]
            ee = [e for e in es if e[0] == "each"]
            got = {}
            for e in ee:
                for k, ps in (alts(e, src) or {}).items():
                    got.setdefault(k, []).extend(("elem", e[1]) and [(p, ("elem", e[1])) for p in ps])
            for k in ("Attribute", "AtRule"):
                r.check(any(p == ("spl", call("errs", ("pay", el2, k, "0"))) for p, el2 in got.get(k, ())), errors, "%s of a %s" % (subj, k),
                        "its errors do not reach the context", w)
            put = d.get("Nested", ()) if d is not None else ()
            r.check(bool(got.get("Nested")) or bool(put), errors, subj + " of a nested block", "it is dropped without an error", w)
    each_fn("CssScope", "into_rule_block_output", block_body)

    def at_rule(conv):
        def f(o, subj, es, w):
            d = dict(o.val[3]) if o.val[0] == "adt" else {}
            c = ("fld", SELF, "contents")
            k = o.st.facts.get(("variant", c))
            node(d.get("condition") == call("out.condition_output", SELF), subj + " condition", "is %s" % show(d.get("condition", UNIT))[:200], w)
            scope = ("pay", c, "Scope", "0")
            want = ("seq",) if k == "Empty" else call("out." + conv, scope) if k == "Scope" else None
            node(want is not None and d.get("content") == want, "%s content (%s)" % (subj, k), "is %s" % show(d.get("content", UNIT))[:200], w)
            need(o, subj, es, w, ("fld", SELF, "errors"))
            if k != "Empty":
                need(o, subj + " body", es, w, call("errs", scope))
        return f
    each_fn("CssAtRule", "into_rule_output", at_rule("into_rule_output"))
    each_fn("CssAtRule", "into_rule_block_output", at_rule("into_rule_block_output"))

    def condition(o, subj, es, w):
        v = o.val
        okx = v[:1] == ("seq",) and len(v) == 3 and v[1][0] == "one" and v[1][1][0] == "adt" and v[1][1][2] == "Str" and \
            is_spaced(v[2], ("fld", SELF, "prelude"), "condition")
        t = cat_items(v[1][1][3][0][1]) if okx else ()
        okx = okx and len(t) == 3 and t[0] == S("@") and t[2] == S(" ") and is_ident_text(t[1], ("fld", SELF, "name"))
        node(okx, subj, "is %s" % show(v)[:400], w)
    each_fn("CssAtRule", "condition_output", condition)

    def attribute(o, subj, es, w):
        d = dict(o.val[3]) if o.val[0] == "adt" else {}
        val = ("fld", SELF, "value")
        node(d.get("key") == call("out.into_output", ("fld", SELF, "name")), subj + " key", "is %s" % show(d.get("key", UNIT))[:200], w)
        v = d.get("values", UNIT)
        node(v[:1] == ("seq",) and len(v) == 2 and is_spaced(v[1], ("fld", val, "values")), subj + " values", "is %s" % show(v)[:300], w)
        need(o, subj, es, w, ("fld", val, "errors"))
    each_fn("CssAttribute", "into_output", attribute)
    if nodes:
        attribute_name(r, nodes, P)
        value_fragments(r, nodes, P)


def is_ident_text(t, ident):
    """each(ident.parts){Dash => - | Ident => the name}"""
    src = ("fld", ident, "parts")
    if t[0] != "each" or t[1] not in (src, ("it", src)):
        return False
    got = {}
    el = ("elem", t[1])
    for c, ps in t[2]:
        d = dict(c)
        k = d.get(("variant", el))
        if k is None or len(d) != 1 or len(ps) != 1:
            return False
        got[k] = ps[0]
    nm = ("pay", el, "Ident", "0")
    return set(got) == {"Dash", "Ident"} and got["Dash"] == S("-") and got["Ident"] in (call("IdentExt::unraw", nm),)


def h_inner(ip, st, f, args, cid):
    return ret(st, call("inner", ip.deep(st, ip.val(st, args[0]))))


def attribute_name(r, rule, P):
    it = arg_method(P, "CssAttributeName", "into_output")
    if it is None:
        r.bad(rule, "CssAttributeName::into_output", "not found")
        return
    r.fn(it)
    seen = set()
    for o in summary(P, it, {"into_inner": h_inner}):
        k = o.st.facts.get(("variant", SELF))
        seen.add(k)
        want = {"Identifier": call("inner", adt("OutputFragment", "Token", (("0", adt("PreservedToken", "Ident", (("0", ("pay", SELF, "Identifier", "0")),))),))),
                "Expr": call("inner", call("out.to_output_fragment", ("pay", SELF, "Expr", "0")))}.get(k)
        r.check(o.kind == "ret" and o.val == want, rule, "property name (%s)" % (k,), "is %s" % show(o.val)[:300], where(it))
    r.check(seen == {"Identifier", "Expr"}, rule, "property names", "kinds: %s" % sorted(map(str, seen)), where(it))
    it = arg_method(P, "InterpolatedExpression", "to_output_fragment")
    if it is None:
        r.bad(rule, "InterpolatedExpression::to_output_fragment", "not found")
        return
    r.fn(it)
    for o in summary(P, it):
        v = o.val
        r.check(o.kind == "ret" and v[0] == "adt" and v[2] == "Expr" and v[3][0][1] == ("fld", SELF, "expr"), rule,
                "InterpolatedExpression::to_output_fragment", "is %s" % show(v)[:200], where(it))


KEYWORDS = ("and", "or", "not")


def value_fragments(r, rule, P):
    """the fragments of a component value: all its tokens, in order; those of a condition with `and`, `or`, `not` apart from a parenthesis"""
    USED["plain"].add("to_output_fragments")
    done = set()
    while True:
        todo = sorted((role, n) for role in USED for n in USED[role] if (role, n) not in done)
        if not todo:
            return
        for role, n in todo:
            done.add((role, n))
            fragments_of(r, rule, P, role, n)


def says(a, ident, word):
    """the value of a condition about the text of ident, if that is word; None if it is about anything else"""
    def text(t):
        if is_ident_text(t, ident):
            return word
        if t[0] == "cat" and len(t) == 2:
            return text(t[1])
        if t[0] == "str":
            return t[1]
        if t[0] == "call" and len(t) == 3 and t[1].split("::")[-1] in ("to_lowercase", "to_ascii_lowercase"):
            x = text(t[2])
            return x.lower() if x is not None else None
        return None
    if a[0] == "eq":
        x, y = text(a[1]), text(a[2])
        return x == y if x is not None and y is not None else None
    if a[0] == "call" and len(a) == 4 and a[1].split("::")[-1] == "eq_ignore_ascii_case":
        x, y = text(a[2]), text(a[3])
        return x.lower() == y.lower() if x is not None and y is not None else None
    return None


def fragments_of(r, rule, P, role, name):
    it = arg_method(P, "ComponentValue", name) or next((i for i in P.fns() if i.get("name") == name and gives_fragments(i)), None)
    subj = "ComponentValue::" + name
    if it is None:
        r.bad(rule, subj, "not found")
        return
    r.fn(it)
    seen = set()
    by_word = {}
    outs = [o for o in summary(P, it)]
    me = ("arg", args_of(it)[0])

    def tk(x):
        return one(adt("OutputFragment", "Token", (("0", x),)))

    def dl(kind, start):
        return one(adt("OutputFragment", "Delimiter", (("0", adt("Delimiter", kind, ())), ("1", ("bool", start)))))
    space = one(adt("OutputFragment", "Str", (("0", S(" ")),)))
    kinds = ("Token", "Expr", "Function", "Block")
    groups = ("Bracketed", "Paren", "Braced")
    consts = {w for o in outs for a in o.st.facts for x in walk(a) if x[:1] == ("str",) for w in (x[1],)}
    words = sorted({w for c in consts | set(KEYWORDS) for w in (c, c.lower(), c.upper(), c + "x", c[:-1])} | {"", "selector", "only"})
    for o in outs:
        v = o.val
        for k in spread(o.st.facts.get(("variant", me)), kinds):
            p = ("pay", me, k, "0")
            for bk in spread(o.st.facts.get(("variant", ("fld", p, "kind"))), groups) if k == "Block" else (None,):
                what = "fragments of a %s %s" % (k, bk or "") if role == "plain" else "fragments of a %s %s in a condition" % (k, bk or "")
                if o.kind != "ret":
                    r.check(k == "Block" and bk == "Braced", rule, what, "may fail", where(it))
                    continue
                items = v[1:] if v[:1] == ("seq",) else ()
                seen.add((k, bk))
                plain = role == "condition" and v[:1] == ("call",) and v[1].startswith("out.") and v[2:] == (me,)
                if plain:
                    USED["plain"].add(v[1][4:])
                if k == "Function" and role == "condition":
                    kw = False
                    fnt = [a for a in o.st.facts if any(x == ("fld", p, "name") for x in walk(a))]
                    for w in words:
                        vals = [says(a, ("fld", p, "name"), w) for a in fnt]
                        if None in vals:
                            r.bad(rule, what, "depends on %s" % ", ".join(show(a)[:200] for a, x in zip(fnt, vals) if x is None), where(it))
                            break
                        if vals == [o.st.facts[a] for a in fnt]:
                            by_word.setdefault(w, []).append(o)
                            kw = w.lower() in KEYWORDS
                            named = "%s %s(" % (what, w)
                            head = (tk(adt("PreservedToken", "Ident", (("0", ("fld", p, "name")),))),) + ((space,) if kw else ())
                            good = not kw and plain or len(items) == len(head) + 3 and items[:len(head)] == head and \
                                items[-3] == dl("Parenthesis", True) and items[-1] == dl("Parenthesis", False) and \
                                is_frags(items[-2], ("fld", p, "args"), "condition" if kw else "plain")
                            r.check(good or w.lower() == "only", rule, named, "are %s" % show(v)[:400], where(it))
                    continue
                if k == "Token":
                    good = items == (tk(p),)
                elif k == "Expr":
                    good = items == (one(call("out.to_output_fragment", p)),)
                elif k == "Function":
                    good = len(items) == 4 and items[0] == tk(adt("PreservedToken", "Ident", (("0", ("fld", p, "name")),))) and \
                        items[1] == dl("Parenthesis", True) and items[3] == dl("Parenthesis", False) and is_frags(items[2], ("fld", p, "args"))
                else:
                    d = {"Bracketed": "Bracket", "Paren": "Parenthesis", "Braced": "Brace"}[bk]
                    inside = "condition" if role == "condition" and bk == "Paren" else "plain"
                    good = len(items) == 3 and items[0] == dl(d, True) and items[2] == dl(d, False) and \
                        is_frags(items[1], ("fld", p, "contents"), inside)
                    plain = plain and inside == "plain"
                r.check(good or plain, rule, what, "are %s" % show(v)[:400], where(it))
    r.check({("Token", None), ("Expr", None), ("Function", None), ("Block", "Bracketed"), ("Block", "Paren")} <= seen, rule,
            "fragments of component values" if role == "plain" else "fragments of conditions", "kinds: %s" % sorted(map(str, seen)), where(it))
    if role == "condition":
        missing = [w for w in words if w not in by_word]
        r.check(not missing, rule, "fragments of conditions, by keyword", "nothing for %s" % missing, where(it))


def stream(r, rule):
    """the stream of component values: the next one of the input, until the input ends"""
    P = prog("host")
    it = next((i for i in P.fns() if i.get("name") == "next" and i.get("impl") and short(i["impl"]["self"]) == "ComponentValueStream"), None)
    if it is None:
        r.bad(rule, "ComponentValueStream::next", "not found")
        return
    r.fn(it)
    ip = Interp(P, overrides={**OVERRIDES, **PARSE_OV})
    st = State()
    st.store[MON] = ("ledger", (), 0, frozenset(), 0, frozenset(), frozenset())
    st.store[("H", "cvs")] = adt("ComponentValueStream", "ComponentValueStream", (("input", INPUT),))
    kinds = set()
    for o in ip.run_fn(st, it, [("ref", ("H", "cvs"), ())], (it.id,)):
        end = [v for a, v in o.st.facts.items() if a[:2] == ("call", "at end")]
        v = o.val
        t = led(o.st)[1]
        kind = "end" if v == NONE else "value" if v == some(ok(("tokn", "ComponentValue", 1))) and len(t) == 1 else \
            "error" if v[0] == "adt" and v[2] == "Some" and v[3][0][1][0] == "adt" and v[3][0][1][2] == "Err" and not t else None
        kinds.add(kind)
        r.check(o.kind == "ret" and kind is not None and (end == [True]) == (kind == "end"), rule, "ComponentValueStream::next",
                "%s when the input %s" % (show(v)[:200], "ends" if end == [True] else "goes on"), where(it))
    r.check(kinds == {"end", "value", "error"}, rule, "ComponentValueStream::next outcomes", str(sorted(map(str, kinds))), where(it))


# ---------------------------------------------------------------- errors
PUNCTUATION = {"validate_attribute_token": "-/%:,#", "validate_selector_token": "&>+~|$*=^#.:,"}


def validation(r, rule):
    """what a validation says of a composite value covers its parts; a token the grammar has no place for is an error, and no other"""
    P = prog("host")
    for name, in_group in (("validate_attribute_token", ("Function",)), ("validate_selector_token", ("Block",))):
        it = arg_method(P, "ComponentValue", name)
        subj = "ComponentValue::" + name
        if it is None:
            r.bad(rule, subj, "not found")
            continue
        r.fn(it)

        def h_rec(ip, st, f, args, cid, top=it.id):
            return h_validate(ip, st, f, args, cid)
        ip = Interp(P, overrides={**OVERRIDES, name: h_rec})
        selector = name == "validate_selector_token"
        puncts = {}
        kinds = set()
        lits = set()
        for o in ip.run_fn(State(), it, [SELF], (it.id,)):
            if o.kind != "ret":
                r.bad(rule, subj, "may fail", where(it))
                continue
            v = o.val
            ks = spread(o.st.facts.get(("variant", SELF)), ("Expr", "Function", "Token", "Block"))
            failed = v[0] == "adt" and v[2] == "Err"
            if v[0] == "adt" and v[2] in ("Ok", "Err"):
                v = v[3][0][1]
            items = v[1:] if v[:1] == ("seq",) else (("spl", v),)
            sure = failed or any(x[0] == "one" for x in items)
            for k in ks:
                kinds.add(k)
                p = ("pay", SELF, k, "0")
                if k == "Expr":
                    r.check(not failed and not items, rule, subj + " of an interpolation", "reports %s" % show(v)[:200], where(it))
                elif k == "Function" and selector:
                    r.check(not failed and not items, rule, subj + " of a function", "reports %s" % show(v)[:200], where(it))
                elif k in ("Block", "Function"):
                    for bk in spread(o.st.facts.get(("variant", ("fld", p, "kind"))), ("Braced", "Paren", "Bracketed")) if k == "Block" else [None]:
                        if k == "Block" and not (selector and bk == "Bracketed"):
                            r.check(sure, rule, subj + " of a block", "reports nothing", where(it))
                            continue
                        src = ("fld", p, "args" if k == "Function" else "contents")
                        part = failed and any(x == ("elem", src) or x == ("elem", ("it", src)) for x in walk((v,)))
                        good = part or len(items) == 1 and items[0][0] == "each" and items[0][1] in (src, ("it", src)) and len(items[0][2]) == 1 and \
                            items[0][2][0][0] == () and all(y[0] in ("spl", "one") for y in items[0][2][0][1]) and \
                            any(("call", "verr", ("elem", items[0][1])) in walk((y,)) for y in items[0][2][0][1])
                        r.check(good, rule, subj + " of the parts of a " + k, "their errors are dropped: %s" % show(v)[:300], where(it))
                elif k == "Token":
                    for tk in spread(o.st.facts.get(("variant", p)), ("Punct", "Literal", "Ident")):
                        q = ("pay", p, tk, "0")
                        if tk == "Ident" or tk == "Literal" and not selector:
                            r.check(not failed and not items, rule, "%s of a %s" % (subj, tk), "reports %s" % show(v)[:200], where(it))
                        elif tk == "Literal":
                            text = any(a[0] == "variant" and x == "Str" and q in walk((a,)) for a, x in o.st.facts.items())
                            lits.add((text, sure))
                            r.check(text != sure, rule, subj + " of a literal", "%s %s" % (
                                "a string" if text else "a literal that need not be a string", "is rejected" if sure else "is accepted"), where(it))
                        else:
                            ch = [x for a in o.st.facts for x in walk((a,)) if x[:2] == ("call", "Punct::as_char") and q in x]
                            rest = [a for a in o.st.facts if q in walk((a,)) and not any(c in walk((a,)) for c in ch)]
                            if rest:
                                r.bad(rule, subj + " of punctuation", "depends on %s" % show(rest[0])[:200], where(it))
                                continue
                            for c in "!#$%&'*+,-./:;<=>?@^|~":
                                if all(holds(a, x, ch[0], c) for a, x in o.st.facts.items() if ch and ch[0] in walk((a,))):
                                    puncts.setdefault(c, set()).add(sure)
        allowed = PUNCTUATION[name]
        for c in "!#$%&'*+,-./:;<=>?@^|~":
            got = puncts.get(c, set())
            r.check(got == {c not in allowed}, rule, "%s of `%s`" % (subj, c), "is %s" % (
                "not decided" if not got else "accepted or rejected" if len(got) > 1 else "rejected" if True in got else "accepted"), where(it))
        r.check(kinds == {"Expr", "Function", "Token", "Block"}, rule, subj, "kinds covered: %s" % sorted(kinds), where(it))
        if selector:
            r.check(lits == {(True, False), (False, True)}, rule, subj + " of literals", "are not told apart", where(it))


def spread(v, names):
    """the variants a fact leaves open"""
    if isinstance(v, str):
        return [v]
    if v and v[0] == "!":
        return [n for n in names if n not in v[1]]
    if v and v[0] == "|":
        return [n for n in names if n in v[1]]
    return list(names)


def holds(atom, val, ch, c):
    """can a condition about the character ch have this value if it is c?"""
    a = subst(atom, lambda t: ("pchar",) if t == ch else None)
    if a[0] == "contains":
        a = ("call", "contains") + a[1:]
    try:
        return chareval(a, c) == val
    except KeyError:
        return True


def unsupported(r, rule):
    """an at-rule that is not listed as supported carries an error"""
    P = prog("host")
    it = next((i for i in parse_impls(P) if short(i["impl"]["self"]) == "CssAtRule"), None)
    if it is None:
        r.bad(rule, "CssAtRule", "not found")
        return
    r.fn(it)

    class Mute:
        def __getattr__(self, n):
            return lambda *a, **k: None
    kinds = set()
    for o, v in parse_fn(P, Mute(), rule, it):
        d = dict(v[3])
        text = [a for a, x in o.st.facts.items() if a[0] == "call" and a[1].endswith("contains") or a[0] == "contains"
                or a[0] == "eq" and any(y[:1] == ("str",) for y in a[1:])]
        known = any(o.st.facts[a] is True for a in text)
        names = {y[1] for a in text for y in walk(a) if y[:1] == ("str",) and len(y) == 2 and y[1].isalpha()}
        e = d.get("errors", UNIT)
        has = e[:1] == ("seq",) and any(x[0] == "one" for x in e[1:])
        kinds.add((known, has))
        if known:
            r.check(names <= {"media", "supports"}, rule, "supported at-rules", "are %s" % sorted(names), where(it))
        else:
            r.check(has, rule, "unsupported at-rule", "is accepted without an error", where(it))
    r.check(any(k for k, _ in kinds) and any(not k for k, _ in kinds), rule, "at-rule names", "are not told apart", where(it))


def reporting(r, rule):
    """all errors become compile errors; a sheet is generated only if there is none"""
    P = prog("host")
    it = arg_method(P, "IntoOutputContext", "into_compile_errors")
    if it is None:
        r.bad(rule, "IntoOutputContext::into_compile_errors", "not found")
        return
    r.fn(it)
    seen = set()
    src = ("fld", SELF, "errors")
    for o in Interp(P, overrides=OVERRIDES).run_fn(State(), it, [SELF], (it.id,)):
        e = o.st.facts.get(("empty", src))
        seen.add(e)
        if o.kind != "ret":
            r.bad(rule, "into_compile_errors", "may fail", where(it))
        elif e is False:
            eaches = [x for x in walk(o.val) if x[:1] == ("each",) and len(x) == 3 and x[1] in (src, ("it", src))]
            good = o.val[0] == "adt" and o.val[2] == "Some" and any(
                len(x[2]) == 1 and not x[2][0][0] and any(y[:1] == ("call",) and isinstance(y[1], str) and y[1].endswith(("into_compile_error", "to_compile_error")) and
                                                         y[2] == ("elem", x[1]) for y in walk(x[2][0][1])) for x in eaches)
            r.check(good, rule, "errors found", "not every one becomes a compile error: %s" % show(o.val)[:300], where(it))
        elif e is True:
            r.check(o.val == NONE, rule, "no errors found", "results in %s" % show(o.val)[:200], where(it))
        else:
            r.bad(rule, "into_compile_errors", "does not depend on whether there are errors: %s" % show(o.val)[:200], where(it))
    r.check(seen == {True, False}, rule, "into_compile_errors outcomes", str(seen), where(it))
    # how errors get into the context
    for name, kind in (("push_error", "one"), ("extend_errors", "spl")):
        it = arg_method(P, "IntoOutputContext", name)
        if it is None:
            continue
        r.fn(it)
        st = State()
        st.store[CTX] = context()
        a = [("ref", CTX, ())] + [("arg", n) for n in args_of(it)[1:]]
        for o in Interp(P, overrides=OVERRIDES).run_fn(st, it, a, (it.id,)):
            x = a[1]
            es = err_items(o)
            r.check(o.kind == "ret" and es[:1] == (("spl", ("arg", "e0")),) and len(es) == 2 and es[1] in ((kind, x), ("spl", ("it", x))),
                    rule, "IntoOutputContext::" + name, "results in %s" % show(("seq",) + es)[:200], where(it))
    it = P.get("stylist_macros::inline::macro_fn")
    if it is None:
        r.bad(rule, "inline::macro_fn", "not found")
        return
    r.fn(it)

    def h_conv(ip, st, f, args, cid):
        if not (f.get("rself") or f.get("self") or "").endswith("CssRootNode"):
            return None
        st = st.copy()
        c = ip.val(st, args[-1])
        if c[0] != "adt" or dict(c[3]).get("errors") != ("seq",):
            return None
        ip.write_ref(st, args[-1], adt("IntoOutputContext", "IntoOutputContext", (("errors", ("arg", "ERRORS")),)))
        return ret(st, call("sheet", ip.deep(st, ip.val(st, args[0]))))

    def h_errors(ip, st, f, args, cid):
        v = ip.deep(st, ip.val(st, args[0]))
        return ret(st, call("compile errors", dict(v[3]).get("errors", UNIT) if v[0] == "adt" else v))

    def h_tokens(ip, st, f, args, cid):
        return ret(st, call("tokens", ip.deep(st, ip.val(st, args[0]))))
    ip = Interp(P, overrides={**OVERRIDES, "into_output": h_conv, "into_compile_errors": h_errors, "into_token_stream": h_tokens})
    parsed = call("parse2", ("arg", "input"))
    seen = set()
    for o in ip.run_fn(State(), it, [("arg", n) for n in args_of(it)], (it.id,)):
        if o.kind != "ret":
            continue
        v = o.val
        p = [x for a, x in o.st.facts.items() if a[0] == "variant" and a[1][0] == "call" and a[1][1].endswith("parse2")]
        ce = ("call", "compile errors", ("arg", "ERRORS"))
        k = o.st.facts.get(("variant", ce))
        if p == ["Err"]:
            seen.add("syntax error")
            r.check(any(x[:1] == ("call",) and isinstance(x[1], str) and x[1].endswith(("compile_error",)) for x in walk(v)) and not any(x[:2] == ("call", "sheet") for x in walk(v)),
                    rule, "syntax error", "results in %s" % show(v)[:200], where(it))
        elif k == "Some":
            seen.add("errors")
            r.check(("pay", ce, "Some", "0") in walk(v) and not any(x[:2] == ("call", "sheet") for x in walk(v)), rule, "errors collected",
                    "the expansion is %s" % show(v)[:200], where(it))
        elif k == "None":
            seen.add("sheet")
            r.check(v[:2] == ("call", "tokens") and v[2][:2] == ("call", "sheet"), rule, "no errors", "the expansion is %s" % show(v)[:200], where(it))
        else:
            r.bad(rule, "inline::macro_fn", "a sheet is generated whatever errors were found: %s" % show(v)[:200], where(it))
    r.check(seen == {"syntax error", "errors", "sheet"}, rule, "outcomes of the inline form", str(sorted(seen)), where(it))
