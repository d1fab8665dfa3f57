"""Rules on the parser (C06-C09, C11, C34), stated on the grammar extracted from its functions and on the languages of its parts."""
import functools
import re
from lib import auto
from lib.interp import Interp, State, Out, ret
from lib.lang import Lang
from lib.peg import Grammar, NotFollowed
from lib.prog import short, succs as mir_succs
from lib.spec import facts_str, showx
from lib.terms import *
from checks.mgr import prog, method, args_of
from checks.identity import where_of, walk

WS = " \t\r\n"
LOW = "abcdefghijklmnopqrstuvwxyz"
ALPHA = LOW + LOW.upper()
DIGIT = "0123456789"
NONASCII = auto.Alpha.NONASCII
EXTRA = [WS, ALPHA, DIGIT, "-", "_", ":", ";", "{", "}", ",", "/", "*", '"', "\\", "$", "@", " ", NONASCII]


class Entry:
    """a function text -> Result<tree>: its outcomes, the parsers it applies"""

    def __init__(self, cfg, item):
        self.cfg = cfg
        self.item = item
        P = prog(cfg)
        self.g = Grammar(P)
        self.text = ("arg", args_of(item)[0])
        self.ip = Interp(P)
        self.outs = self.ip.run_fn(State(), item, [self.text], (item.id,))
        self.roots = {}
        self.subj = "%s (%s)" % (item.disp(), cfg)

    def root(self, v):
        if v not in self.roots:
            self.roots[v] = self.g.value(v)
        return self.roots[v]

    def runs(self, o):
        """(parser application, Ok or Err) on the path"""
        return [(a[1], v) for a, v in o.st.facts.items() if a[0] == "variant" and a[1][0] == "papply"]

    def parsed(self, t):
        """(rest, value) of a successful application"""
        p = self.ip.payload(State(), t, "Ok")
        return self.ip.getf(State(), p, "0", 0), self.ip.getf(State(), p, "1", 1)

    def where(self):
        return where_of(self.item)


@functools.lru_cache(None)
def entry(cfg, what):
    P = prog(cfg)
    if what == "sheet":
        it = method(P, "Sheet", "from_str", "FromStr")
    else:
        it = splitter(P)
    if it is None:
        raise NotFollowed("entry of the %s parser not found" % what)
    e = Entry(cfg, it)
    for o in e.outs:
        for t, _ in e.runs(o):
            e.root(t[1])
    e.lang = None
    return e


def splitter(P):
    """the function of the macros that splits a text at its interpolations: text -> Result<Vec<Fragment>>"""
    for i in P.fns():
        b = i["body"]
        if b["argc"] == 1 and re.fullmatch(r"&('\w+ )?str", b["locals"][1][0]) and \
                re.match(r"std::result::Result<std::vec::Vec<stylist_macros::[\w:]+>, stylist_core::", b["locals"][0][0]):
            return i
    return None


def lang(e):
    if e.lang is None:
        e.lang = Lang(e.g, EXTRA)
    return e.lang


def txt(L, w):
    return None if w is None else repr(L.A.text(w))


# ---------------------------------------------------------------- C06
def whole_input(r, cfg, what):
    e = entry(cfg, what)
    r.fn(e.item)
    for i in e.g.items:
        r.fn(i)
    n = fails = 0
    for o in e.outs:
        if o.kind == "panic":
            continue
        tag = o.val[2] if o.val[0] == "adt" else None
        runs = e.runs(o)
        cached = [a[1] for a, v in o.st.facts.items() if a[0] == "variant" and a[1][:2] == ("call", "map_get") and v == "Some"]
        if tag == "Ok":
            v = dict(o.val[3])["0"]
            if any(mentions_pay(v, t) for t in cached):
                continue
            ok_ = [t for t, x in runs if x == "Ok"]
            r.check(len(ok_) == 1 and len(runs) == 1, "ok-only-parsed", e.subj,
                    "returns %s as a success when %s" % (showx(v)[:150], facts_str(o, 300)), e.where())
            if len(ok_) != 1:
                continue
            n += 1
            t = ok_[0]
            r.check(t[2] == e.text, "input", e.subj, "parses %s instead of the given text" % showx(t[2])[:100], e.where())
            rest, val = e.parsed(t)
            r.check(any(x == val for x in walk(v)) or v == val, "value", e.subj, "the result %s is not what was parsed" % showx(v)[:150], e.where())
            if o.st.facts.get(("empty", rest)) is True:
                r.ok("whole-input", e.subj)
                continue
            L = lang(e)
            A = L.A
            s, _ = L.SE(e.root(t[1]))
            w = auto.witness(auto.diff(s, A.concat(A.lang(("any",)), A.mark())))
            r.check(w is None, "whole-input", e.subj, "may succeed leaving input unread (the mark shows where it stops): %s" % txt(L, w), e.where())
        elif tag == "Err":
            fails += 1
            r.check(any(x == "Err" for _, x in runs) or any(x == "Ok" for _, x in runs), "error-source", e.subj,
                    "fails when %s" % facts_str(o, 300), e.where())
        else:
            r.bad("result", e.subj, "returns %s" % showx(o.val)[:200], e.where())
    r.floor("successful parses of " + e.subj, n, 1)
    r.floor("failing parses of " + e.subj, fails, 1)
    r.count("grammar nodes", len(e.g.nodes))
    r.count("parser functions", len(e.g.items))


def mentions_pay(v, t):
    return any(x == t for x in walk(v)) or v == t


# ---------------------------------------------------------------- C07
ORDER = {"key": 0, "value": 1, "condition": 0, "content": 1}


class Conserve:
    """every part of a recogniser that carries text is used by the value it builds, exactly once and in source order"""

    def __init__(self, r, e):
        self.r = r
        self.e = e
        self.L = lang(e)
        self.done = set()
        self.silent_memo = {}
        A = self.L.A
        cm = comment()
        self.quiet = A.lang(("star", ("or", ("set", WS), cm, ("set", ";:{},"))))
        self.n = 0

    def texts(self, n):
        """the texts n may consume"""
        A = self.L.A
        s = self.L.S(n)
        return consumed(A, s)

    def silent(self, n):
        if n.id not in self.silent_memo:
            self.silent_memo[n.id] = n.kind != "fail" and self.L.is_exact(n) and auto.subset(self.texts(n), self.quiet)
        return self.silent_memo[n.id]

    def target(self, n):
        return self.e.g.target(n)

    def carriers(self, n):
        """the parts of n's text, in order, as terms the value of n may mention; checks parts that build values of their own"""
        k = n.kind
        if k in ("fail", "panic", "not", "peek", "eof"):
            return []
        if self.silent(n):
            return []
        if k == "ref":
            t = self.e.g.nts[n.data]
            if n.out == ("pout", n.id):
                self.top(t)
                return [n.out] if t.out != ("pout", t.id) else [n.out]
            return self.carriers(t)
        if k in ("lit", "one", "run", "until", "recognize"):
            return [("pout", n.id)]
        if k == "seq":
            return [c for x in n.kids for c in self.carriers(x)]
        if k == "map":
            if n.out == ("pout", n.id):
                self.cases(n)
                return [n.out]
            return self.carriers(n.kids[0])
        if k in ("cut", "all_consuming", "filter"):
            if n.out == ("pout", n.id):
                raise NotFollowed("a fallible semantic action")
            return self.carriers(n.kids[0])
        if k == "if":
            live = [x for x in n.kids if x.kind != "fail"]
            if len(live) == 1:
                return self.carriers(live[0])
            for x in live:
                self.top(x)
            return [n.out]
        if k == "try":
            if n.out == ("pout", n.id):
                # a choice written without alt: the first outcome is made of both its steps, the other stands for itself
                kid, okn, errn = (list(n.kids) + [None, None])[:3]
                if okn is not None and okn.kind not in ("fail", "panic"):
                    if okn.out is None:
                        raise NotFollowed("a choice written without alt")
                    if ("try", n.id) not in self.done:
                        self.done.add(("try", n.id))
                        self.compare(n, okn.out, self.carriers(kid) + self.carriers(okn), {})
                if errn is not None:
                    self.top(errn)
                return [n.out]
            return self.carriers(n.kids[0]) + (self.carriers(n.kids[1]) if len(n.kids) > 1 and n.kids[1] else [])
        if k == "ok":
            return []
        if k in ("many",):
            self.top(n.kids[0])
            return [n.out]
        if k == "seplist":
            self.r.check(self.silent(n.kids[0]), "separators", self.name(n), "text between the elements of a list is dropped", None)
            self.top(n.kids[1])
            return [n.out]
        if k in ("alt", "opt"):
            for x in n.kids:
                self.top(x)
            return [n.out]
        raise NotFollowed("value of a %s" % k)

    def name(self, n):
        return "%s node" % n.kind

    def cases(self, n):
        if ("cases", n.id) in self.done:
            return
        self.done.add(("cases", n.id))
        cs = self.carriers(n.kids[0])
        for facts, t in n.data:
            self.compare(n, t, cs, dict(facts))

    def top(self, n):
        if n.id in self.done:
            return
        self.done.add(n.id)
        if n.kind in ("fail", "panic"):
            return
        cs = self.carriers(n)
        if n.out == ("pout", n.id) or not cs and not self.builds(n.out):
            return
        self.compare(n, n.out, cs, {})

    def builds(self, t):
        return t[0] in ("adt", "seq") and t[1:2] not in (("Option",),) and t != UNIT

    def compare(self, n, t, cs, facts):
        self.n += 1
        subj = self.subject(t)
        got = []
        errs = []
        self.uses(t, facts, cs, got, errs)
        for x in errs:
            self.r.bad("kept", subj, x, self.e.where())
        if errs:
            return
        need = [c for c in cs if facts.get(("variant", c)) != "None"]
        lost = [c for c in need if c not in got]
        twice = [c for c in got if got.count(c) > 1 and cs.count(c) != got.count(c)]
        if lost:
            self.r.bad("dropped", subj, "the text of %s is not part of %s" % (self.describe(lost[0]), showx(t)[:300]), self.e.where())
        elif twice:
            self.r.bad("duplicated", subj, "the text of %s is used more than once in %s" % (self.describe(twice[0]), showx(t)[:300]), self.e.where())
        elif got != need:
            self.r.bad("order", subj, "the parts of %s are not in source order" % showx(t)[:300], self.e.where())
        else:
            self.r.ok("kept", subj)

    def subject(self, t):
        s = showx(t)
        return s[:60]

    def describe(self, c):
        n = self.e.g.nodes[c[1]] if c[0] == "pout" else None
        if n is None:
            return showx(c)
        if not self.L.is_exact(n):
            return "%s (%s)" % (showx(c), n.name or n.kind)
        w = auto.witness(auto.diff(self.texts(n), self.quiet))
        return "%s such as %s" % (showx(c), txt(self.L, w))

    def uses(self, t, facts, cs, got, errs):
        """the carriers a term mentions, in order"""
        if t in cs:
            return got.append(t)
        k = t[0]
        if k == "call" and t[1] in ("str::trim", "trim") and len(t) == 3:
            if self.is_text(t[2]):
                return self.uses(t[2], facts, cs, got, errs)
            errs.append("trims %s" % showx(t[2])[:100])
        elif k == "adt":
            fs = t[3]
            fs = sorted(fs, key=lambda f: ORDER.get(f[0], 0)) if all(f[0] in ORDER for f in fs) else fs
            for _, x in fs:
                self.uses(x, facts, cs, got, errs)
        elif k == "tup":
            for x in t[1:]:
                self.uses(x, facts, cs, got, errs)
        elif k == "seq":
            for x in t[1:]:
                if x[0] in ("one", "spl"):
                    self.uses(x[1], facts, cs, got, errs)
                elif x[0] == "each":
                    self.each(x, facts, cs, got, errs)
                else:
                    errs.append("builds a list from %s" % showx(x)[:200])
        elif k == "each":
            self.each(t, facts, cs, got, errs)
        elif k == "pay" and facts.get(("variant", t[1])) == t[2] and t[3] == "0":
            self.uses(t[1], facts, cs, got, errs)
        elif k == "str":
            if t[1]:
                errs.append("has the text %r, which is not taken from the input" % t[1])
        elif k in ("unit", "bool", "int"):
            pass
        elif k == "boxp" and len(t) == 2:
            self.uses(t[1], facts, cs, got, errs)
        else:
            errs.append("keeps %s instead of what was recognised" % showx(t)[:200])

    def is_text(self, t):
        if t[0] == "call" and t[1] in ("str::trim", "trim"):
            return self.is_text(t[2])
        return t[0] == "pout" and self.e.g.nodes[t[1]].kind in ("lit", "one", "run", "until", "recognize")

    def each(self, x, facts, cs, got, errs):
        src, alts = x[1], x[2]
        while src[0] == "it":
            src = src[1]
        el = ("elem", x[1])
        self.uses(src, facts, cs, got, errs)
        if errs:
            return
        for conds, items in alts:
            for a, v in conds:
                seen = {dict(c).get(a) for c, _ in alts}
                if a == ("variant", el) and isinstance(v, str) and not any(
                        i["kind"] == "Enum" and {x["name"] for x in i["variants"]} == seen for i in prog(self.e.cfg).items.values()):
                    errs.append("drops some elements of %s" % showx(src)[:80])
                    return
            f = dict(facts)
            f.update(dict(conds))
            sub = []
            if len(items) != 1:
                errs.append("turns one element of %s into %d" % (showx(src)[:80], len(items)))
                return
            i = items[0]
            body = i[1] if i[0] in ("one", "spl") else i
            if i[0] == "spl" and body != el and body[0] != "pay":
                errs.append("turns one element of %s into %s" % (showx(src)[:80], showx(body)[:100]))
                return
            for a, v in conds:
                if a != ("variant", el) or not isinstance(v, str):
                    errs.append("depends on %s=%s" % (showx(a)[:100], v))
                    return
                if body[0] != "adt" or body[2] != v:
                    errs.append("turns a %s into a %s" % (v, body[2] if body[0] == "adt" else showx(body)[:60]))
                    return
            self.uses(body, f, [el], sub, errs)
            if errs:
                return
            if sub != [el]:
                errs.append("turns one element of %s into %s" % (showx(src)[:80], showx(body)[:150]))
                return


def consumed(A, s):
    """{x : x#y in s}"""
    ok = auto.co_reach(s, True)
    d = auto.explore(A.k, 0, lambda q, c: s.t[q][c] if q is not None and c != A.M else None, lambda q: q is not None and ok[s.t[q][A.M]], of=[s])
    return d


def conservation(r, cfg):
    e = entry(cfg, "sheet")
    for i in e.g.items:
        r.fn(i)
    C = Conserve(r, e)
    n = 0
    for o in e.outs:
        tag = o.val[2] if o.kind == "ret" and o.val[0] == "adt" else None
        if tag != "Ok":
            continue
        for t, x in e.runs(o):
            if x != "Ok":
                continue
            n += 1
            root = e.root(t[1])
            _, val = e.parsed(t)
            v = replace_term(dict(o.val[3])["0"], val, root.out)
            C.compare(root, v, C.carriers(root), {})
    r.floor("successful parses", n, 1)
    r.floor("values built by the parser", C.n, 12)
    r.count("grammar nodes", len(e.g.nodes))
    return C


# ---------------------------------------------------------------- C08
def comment():
    c = ("cat", ("lit", "/*"), ("any",), ("lit", "*/"))
    return ("minus", c, ("cat", c, ("plus", ("set", frozenset(chr(i) for i in range(128)) | frozenset(NONASCII)))))


def but(chars):
    return ("set", (frozenset(chr(i) for i in range(128)) | frozenset(NONASCII)) - frozenset(chars))


SP = ("star", ("or", ("set", WS), comment()))
STRING = ("cat", ("lit", '"'), ("star", ("or", but('"\\'), ("cat", ("lit", "\\"), but("")))), ("lit", '"'))
NAME = ("cat", ("set", ALPHA), ("star", ("set", ALPHA + DIGIT + "_")))
IDENT = ("cat", ("or", ("set", "-_"), ("set", ALPHA), ("set", NONASCII)), ("star", ("or", ("set", "-_"), ("set", ALPHA), ("set", DIGIT), ("set", NONASCII))))


class Spec:
    """languages of what the property calls a key, a value, ..."""

    def __init__(self, A):
        self.A = A
        self.sp = A.longest(A.lang(SP))
        self.memo = {}

    def exact(self, r):
        return self.A.then_any(self.A.lang(r))

    def err(self, s):
        return auto.complement_inputs(self.A, self.A.unmarked(s))

    def seq(self, *ss):
        s = ss[0]
        for x in ss[1:]:
            s = self.A.seq(s, x)
        return s

    def alt(self, *ss):
        """ordered choice"""
        A = self.A
        s = ss[0]
        for x in ss[1:]:
            s = auto.union(s, auto.inter(A.freely_marked(self.err(s)), x))
        return s

    def many1(self, s):
        ms, _ = self.A.many(s, self.err(s))
        return self.A.seq(s, ms)

    def spaced(self, s):
        return self.seq(self.sp, s, self.sp)

    def get(self, what):
        if what not in self.memo:
            self.memo[what] = getattr(self, what)()
        return self.memo[what]

    def key(self):
        return self.A.longest(self.A.lang(IDENT))

    def string(self):
        return self.spaced(self.exact(STRING))

    def interpolation(self):
        name = self.A.longest(self.A.lang(NAME))
        return self.spaced(self.seq(self.exact(("lit", "${")), self.spaced(name), self.exact(("lit", "}"))))

    def run(self, chars):
        return self.A.longest(self.A.lang(("plus", but(chars))))

    def value(self):
        return self.many1(self.alt(self.run('${;}/"'), self.get("interpolation"), self.get("string"), self.get("slash")))

    def slash(self):
        """a slash that opens no comment"""
        A = self.A
        return auto.inter(A.freely_marked(self.err(self.exact(("lit", "/*")))), self.exact(("lit", "/")))

    def selector(self):
        A = self.A
        head = self.exact(but('$,;}/@{"'))
        tail = A.longest(A.lang(("star", but('$,;}/"{'))))
        return self.many1(self.alt(self.exact(comment()), self.get("slash"), self.seq(head, tail), self.get("string"), self.get("interpolation")))

    def condition(self):
        return self.many1(self.alt(self.run('${}/"'), self.get("interpolation"), self.get("string"), self.exact(comment()),
                                   self.get("slash")))

    def declaration(self):
        return self.seq(self.spaced(self.get("key")), self.exact(("lit", ":")), self.spaced(self.get("value")))


def leaves(t):
    """text leaves of a term"""
    if t[0] == "call" and t[1] in ("str::trim", "trim"):
        return leaves(t[2])
    if t[0] == "pout":
        return [t]
    if t[0] == "seq":
        return [y for x in t[1:] if x[0] in ("one", "spl") for y in leaves(x[1])]
    if t[0] == "adt":
        return [y for _, x in t[3] for y in leaves(x)]
    return []


def same(r, L, rule, subj, got, want, where, what):
    w = auto.witness(auto.diff(got, want))
    if w is not None:
        return r.bad(rule, subj, "%s; also recognises (the mark shows where it stops) %s" % (what, txt(L, w)), where)
    w = auto.witness(auto.diff(want, got))
    if w is not None:
        return r.bad(rule, subj, "%s; does not recognise %s" % (what, txt(L, w)), where)
    r.ok(rule, subj)


def roles(e):
    """(role, node) of the texts that end up in the sheet, from the values the grammar builds"""
    out = {"key": set(), "value": set(), "selector": set(), "condition": set(), "declaration": set(), "rule": set(), "selectors": set()}
    inner = {k.id for n in e.g.nodes if n.kind in ("seq", "try") for k in n.kids if k is not None and k.out == n.out}
    for n in e.g.nodes:
        if n.id in inner:
            continue
        ts = [t for _, t in n.data] if n.kind == "map" else [n.out] if n.kind in ("seq", "try") else []
        for t in ts:
            if t[0] == "adt" and short(t[1]) == "StyleAttribute":
                out["declaration"].add(n.id)
                f = dict(t[3])
                out["key"] |= set(leaves(f["key"]))
                out["value"] |= set(leaves(f["value"]))
            if t[0] == "adt" and short(t[1]) == "Selector":
                out["selector"] |= set(leaves(t))
            for x in walk(t):
                if x[:1] == ("adt",) and len(x) == 4 and short(x[1]) == "Rule" and "condition" in dict(x[3]):
                    out["rule"].add(dict(x[3])["condition"])
                if x[:1] == ("adt",) and len(x) == 4 and short(x[1]) == "Block" and "condition" in dict(x[3]):
                    out["selectors"] |= set(leaves(dict(x[3])["condition"]))
    return out


def lexing(r, cfg):
    e = entry(cfg, "sheet")
    L = lang(e)
    A = L.A
    L.prepare()
    for i in e.g.items:
        r.fn(i)
    S = Spec(A)
    R = roles(e)
    W = A.lang(("star", ("set", WS)))
    what = {"key": "a declaration key is a CSS identifier",
            "value": "a declaration value runs to `;`, `}` or `{` outside of strings and interpolations",
            "selector": "a selector's strings and interpolations are lexed by their delimiters",
            "condition": "an at-rule condition runs to its `{` outside of strings, comments and interpolations"}
    R["condition"] = set()
    heads = set()
    for c in R["rule"]:
        ls = leaves(c)
        ls = [x for x in ls if x[0] == "pout"]
        if len(ls) == 2:
            heads.add(ls[0])
            R["condition"].add(ls[1])
    for role in ("key", "value", "selector", "condition"):
        r.floor("recognisers of a " + role, len(R[role]), 1)
        for t in sorted(R[role]):
            n = e.g.nodes[t[1]]
            if not L.is_exact(n):
                r.bad("role", role, "the text of a %s is recognised recursively" % role, e.where())
                continue
            s = L.S(n)
            want = S.get(role)
            r.count("recognisers compared")
            same(r, L, "lexing", role, S.spaced(s), S.spaced(want), e.where(), what[role])
            X, Y = [A.concat(A.concat(W, consumed(A, x)), W) for x in (s, want)]
            same(r, L, "text", role, X, Y, e.where(), what[role])
    for i in sorted(R["declaration"]):
        n = e.g.nodes[i]
        if not L.is_exact(n):
            r.bad("role", "declaration", "a declaration is recognised recursively", e.where())
            continue
        r.count("recognisers compared")
        same(r, L, "lexing", "declaration", S.spaced(L.S(n)), S.spaced(S.get("declaration")), e.where(),
             "a declaration is a key, `:` and a value, with white space and comments in between")
    # white space and comments between tokens
    m = 0
    for n in e.g.nodes:
        if n.kind in ("recognize", "many") and L.is_exact(n) and L.nullable(n):
            X = consumed(A, L.S(n))
            if accepts(A, X, " ") and not any(accepts(A, X, c) for c in (";", ",", ":", "x", '"', "{", "}")):
                m += 1
                same(r, L, "lexing", "blank", L.S(n), S.sp, e.where(), "blanks are white space and comments, a comment runs to the first `*/`")
    r.floor("recognisers of blanks", m, 1)


# ---------------------------------------------------------------- C46
def enclosed(forbidden):
    """texts that have the characters, `{`, `}` and the start of a comment or string only as part of a string, comment or interpolation"""
    blank = ("star", ("or", ("set", WS), comment()))
    hole = ("cat", ("lit", "${"), blank, NAME, blank, ("lit", "}"))
    slashes = ("star", ("lit", "/"))
    plain = but('{}"/*' + forbidden)
    step = ("or", plain, STRING, hole)
    # a star directly after a slash is the start of a comment
    word = ("cat", slashes, ("or", step, comment()), ("star", ("lit", "*")))
    return ("cat", ("star", ("lit", "*")), ("star", word), slashes)


def confined(r, cfg):
    """no text of a parsed sheet can open, close or end what it stands in"""
    e = entry(cfg, "sheet")
    L = lang(e)
    A = L.A
    L.prepare()
    for i in e.g.items:
        r.fn(i)
    R = roles(e)
    rules = {x for c in R["rule"] for x in leaves(c) if x[0] == "pout"}
    lit = [c for c in R["rule"] for x in leaves(c) if x[0] not in ("pout", "str")]
    r.check(not lit, "known", "rule", "an at-rule condition contains %s" % showx(lit)[:200], e.where())
    for role, ts, chars in (("key", R["key"], ";"), ("value", R["value"], ";"), ("selector", R["selector"], ";"), ("condition", rules, "")):
        r.floor("recognisers of a " + role, len(ts), 1)
        safe = A.lang(enclosed(chars))
        for t in sorted(ts):
            if t[0] != "pout":
                r.bad("known", role, "a %s contains %s" % (role, showx(t)[:200]), e.where())
                continue
            n = e.g.nodes[t[1]]
            if not L.is_exact(n):
                r.bad("known", role, "the text of a %s is recognised recursively" % role, e.where())
                continue
            r.count("recognisers compared")
            w = auto.witness(auto.diff(consumed(A, L.S(n)), safe))
            r.check(w is None, "confined", role, "a %s may be %s, which ends or opens more than it stands in (a brace%s or an unclosed comment or string)" % (
                role, txt(L, w), ", `;`" if chars else ""), e.where())


    # a block has at least one selector
    r.floor("recognisers of selector lists", len(R["selectors"]), 1)
    blank = A.lang(SP)
    for t in sorted(R["selectors"]):
        n = e.g.nodes[t[1]]
        if not L.is_exact(n):
            r.bad("known", "selectors", "the selectors of a block are recognised recursively", e.where())
            continue
        w = auto.witness(auto.inter(consumed(A, L.S(n)), blank))
        r.check(w is None, "named", "selectors", "the selectors of a block may be %s: a block without a selector is accepted" % txt(L, w or []), e.where())


def accepts(A, d, text):
    q = 0
    for c in text:
        q = d.t[q][A.of[c]]
    return d.acc[q]


# ---------------------------------------------------------------- C11
TAGS = ("@media", "@supports", "@container")
WORD = ("plus", ("set", LOW))
BLANK = ("or", ("eps",), ("lit", " "), ("lit", "/*c*/"), ("lit", " /*c*/ "))
COND = ("or", WORD, ("cat", WORD, ("lit", " ${"), WORD, ("lit", "}")))
DECL = ("cat", WORD, ("lit", ":"), WORD, ("lit", ";"))
BODY = ("cat", BLANK, ("opt", ("cat", DECL, BLANK)))
AFTER = ("cat", BLANK, ("opt", ("lit", "}")))


def rule_text(tags, body):
    heads = tuple(("lit", t + " ") for t in tags)
    return ("cat", BLANK, ("or",) + heads, COND, ("lit", "{"), body, ("lit", "}"))


def universe(A):
    w = A.lang(("cat", ("or", rule_text(TAGS, BODY), rule_text(("@keyframes",), BLANK)), AFTER))
    return A.suffixes(w)


def shape(e, n, stop=()):
    """(kinds of nodes, by (type, variant)) a recogniser builds, not looking into lists"""
    out = set()
    seen = set()

    def go(t):
        for x in walk(t):
            if x[:1] == ("adt",) and len(x) == 4:
                out.add((short(x[1]), x[2]))
            if x[:1] == ("pout",):
                look(e.g.nodes[x[1]])

    def look(m):
        if m.id in seen:
            return
        seen.add(m.id)
        if m.kind in ("many", "seplist"):
            return
        if m.out is not None and m.out != ("pout", m.id):
            go(m.out)
            return
        for t in m.data if m.kind == "map" else ():
            go(t[1])
        if m.kind == "ref":
            look(e.g.nts[m.data])
        elif m.kind != "map":
            for k in m.kids:
                if k is not None:
                    look(k)
    look(n)
    return out


def choices(e, n):
    """the alternatives of a recogniser"""
    seen = set()
    while n.id not in seen:
        seen.add(n.id)
        if n.kind == "alt":
            return [y for k in n.kids for y in choices(e, k)]
        if n.kind == "ref":
            n = e.g.nts[n.data]
        elif n.kind == "if" and len([k for k in n.kids if k.kind != "fail"]) == 1:
            n = [k for k in n.kids if k.kind != "fail"][0]
        elif n.kind in ("map", "cut", "all_consuming") and n.kids[0].kind in ("alt", "ref") and has_alt(e, n.kids[0]):
            n = n.kids[0]
        else:
            break
    return [n]


def has_alt(e, n):
    for _ in range(20):
        if n.kind == "alt":
            return True
        if n.kind == "ref":
            n = e.g.nts[n.data]
        elif n.kind in ("map", "cut"):
            n = n.kids[0]
        elif n.kind == "if" and len([k for k in n.kids if k.kind != "fail"]) == 1:
            n = [k for k in n.kids if k.kind != "fail"][0]
        else:
            return False
    return False


def nesting(r, cfg, tier="quick"):
    e = entry(cfg, "sheet")
    for i in e.g.items:
        r.fn(i)
    L = Lang(e.g, EXTRA + [LOW, "c"], universe)
    A = L.A
    lists = {}
    root = None
    for o in e.outs:
        for t, x in e.runs(o):
            root = e.root(t[1])
    live = live_nodes(e, root)
    for n in e.g.nodes:
        if n.kind != "many" or n.id not in live:
            continue
        sh = shape(e, n.kids[0])
        if ("ScopeContent", "Block") in sh or ("RuleBlockContent", "StyleAttr") in sh or any(a == "RuleBlockContent" for a, _ in sh) and len(choices(e, n.kids[0])) > 1:
            lists[n.id] = sh
    r.floor("lists of statements in the grammar", len(lists), 2)
    for i, sh in sorted(lists.items()):
        n = e.g.nodes[i]
        top = any(a == "ScopeContent" for a, _ in sh)
        level = "top level and conditional rules" if top else "blocks and nested rules"
        subj = "%s (list %d)" % (level, sorted(lists).index(i))
        el = n.kids[0]
        s, err = L.SE(el)
        for tags, body, what in [((t,), BLANK, "a blank body") for t in TAGS] + [((t,), BODY, "a body of declarations") for t in TAGS] + \
                ([(("@keyframes",), BLANK, "a blank body")] if top else []):
            rt = A.lang(rule_text(tags, body))
            I = A.concat(rt, A.lang(AFTER))
            w = auto.witness(auto.inter(I, err))
            ok = r.check(w is None, "accepted", "%s with %s, %s" % (tags[0], what, subj), "is rejected: %s" % txt(L, w), e.where())
            if not ok:
                continue
            stops = A.concat(A.concat(A.concat(rt, A.lang(BLANK)), A.mark()), A.lang(AFTER))
            got = auto.inter(s, A.freely_marked(I))
            w = auto.witness(auto.diff(got, stops))
            r.check(w is None, "extent", "%s with %s, %s" % (tags[0], what, subj), "the rule is read up to the mark: %s" % txt(L, w), e.where())
            w = auto.witness(auto.diff(I, A.unmarked(got)))
            r.check(w is None, "accepted", "%s with %s, %s" % (tags[0], what, subj), "never succeeds on %s" % txt(L, w), e.where())
            for c in choices(e, el):
                sc = shape(e, c)
                if ("Rule", "Rule") in sc or any(a == "Rule" for a, _ in sc):
                    continue
                w = auto.witness(auto.inter(L.S(c), A.freely_marked(I)))
                r.check(w is None, "kind", "%s, %s" % (tags[0], subj), "is read as %s: %s" % (sorted(sc)[:2], txt(L, w)), e.where())
    r.count("rounds", L.rounds)


def live_nodes(e, root):
    seen = set()
    st = [root]
    while st:
        n = st.pop()
        if n is None or n.id in seen:
            continue
        seen.add(n.id)
        if n.kind == "ref":
            st.append(e.g.nts[n.data])
        st += n.kids
    return seen


# ---------------------------------------------------------------- C09
PANICS = {"index", "index_mut", "remove", "swap_remove", "split_at", "split_at_mut", "split_off", "drain", "insert_str", "replace_range",
          "copy_from_slice", "clone_from_slice", "borrow", "borrow_mut", "abort", "exit", "chunks", "chunks_exact", "windows", "step_by",
          "get_unchecked", "get_unchecked_mut", "slice_unchecked", "from_utf8_unchecked", "unwrap_unchecked", "unreachable_unchecked", "transmute",
          "rotate_left", "rotate_right", "swap", "select_nth_unstable", "from_digit", "to_digit", "div_euclid", "rem_euclid", "pow", "isqrt", "ilog2",
          "ilog10", "copy_within", "split_first_chunk", "block_on", "park", "sleep", "join", "recv", "wait"}
MODELLED = {"unwrap", "expect", "unwrap_err", "expect_err", "panic", "panic_fmt", "panic_str", "panic_display", "unreachable", "unreachable_display",
            "assert_failed", "panic_explicit", "begin_panic", "panic_str_2015", "panic_nounwind", "unimplemented", "todo"}
ENDLESS = ("Repeat", "RepeatWith", "Cycle", "Successors", "FromFn", "RangeFrom")


def reachable(P, starts):
    seen = []
    st = list(starts)
    vis = set()
    while st:
        x = st.pop()
        if x in vis:
            continue
        vis.add(x)
        it = P.get(x)
        if it is None or "body" not in it:
            continue
        seen.append(it)
        st += list(P.calls(it))
    return seen


def calls_of(it):
    for b in [it["body"]] + list(it.get("promoted") or []):
        for i, bl in enumerate(b["blocks"]):
            if bl["t"][0] == "call" and isinstance(bl["t"][1], dict):
                yield i, bl["t"]


def total(r, cfg):
    P = prog(cfg)
    starts = [method(P, "Sheet", "from_str", "FromStr")]
    sp = splitter(P)
    starts.append(sp)
    r.check(None not in starts, "entry", cfg, "parser entries not found")
    starts = [s.id for s in starts if s is not None]
    n = 0
    for im in P.trait_impls("ToStyleStr"):
        for nm, i in im["items"]:
            starts.append(i)
            n += 1
    for i in P.fns():
        if i.get("name") == "to_style_str":
            starts.append(i.id)
    r.floor("rendering entries", n, 5)
    its = reachable(P, starts)
    r.floor("functions reachable from parsing and rendering (%s)" % cfg, len(its), 60)
    for it in its:
        r.fn(it)
        subj = "%s (%s)" % (it.disp(), cfg)
        flagged = []
        for i, t in calls_of(it):
            f = t[1]
            nm = f.get("name") or ""
            path = f.get("path") or f.get("rpath") or ""
            if nm in MODELLED:
                flagged.append(nm)
            elif nm == "insert" and ("Vec" in path or "String" in path):
                r.bad("panic", subj, "calls %s, which can panic" % path, where_of(it))
            elif nm in PANICS and not path.startswith("nom::") and P.get(f.get("rid") or f.get("id")) is None:
                if nm in ("index", "index_mut") and full_range(f):
                    continue
                if nm in ("join",) and "thread" not in path:
                    continue
                if nm in ("borrow",) and "RefCell" not in path:
                    continue
                if nm in ("swap", "exit") and "process" not in path and "slice" not in path:
                    continue
                r.bad("panic", subj, "calls %s, which can panic" % path, where_of(it))
            else:
                r.count("calls without a panic of their own")
        for bl in it["body"]["blocks"]:
            if bl["t"][0] == "assert":
                flagged.append("assert")
        if flagged:
            may_panic(r, P, it, subj, flagged)
        else:
            r.check(not any(o[0] == "panic" and o[1] == subj and not o[2] for o in r.obligations), "panic", subj)
        loops(r, P, it, subj)
    r.ok("reach", cfg)


def full_range(f):
    a = f.get("args") or []
    return any("RangeFull" in str(x) for x in a)


def may_panic(r, P, it, subj, flagged):
    """the panicking constructs of a function are unreachable for all arguments, or only reachable on a poisoned lock"""
    try:
        ip = Interp(P)
        outs = ip.run_fn(State(), it, [("arg", n) for n in args_of(it)], (it.id,))
    except Exception as x:
        return r.bad("panic", subj, "has %s, and cannot be followed: %s" % (", ".join(sorted(set(flagged))), str(x)[:100]), where_of(it))
    bad = [o for o in outs if o.kind == "panic" and not poisoned(o)]
    r.check(not bad, "panic", subj, "may panic when %s" % (facts_str(bad[0]) if bad else ""), where_of(it))
    r.count("panicking constructs shown unreachable", len(flagged))


def poisoned(o):
    return any(a[0] == "variant" and a[1][0] == "call" and a[1][1] in LOCKS and v == "Err" for a, v in o.st.facts.items())


def loops(r, P, it, subj):
    """every loop, on each round, takes an element from an iterator that outlives the round, counts towards a bound, goes one step down a
    chain of borrowed parents, or lowers a flag it looks for"""
    blocks = it["body"]["blocks"]
    for h, body in P.loops(it.id, blocks).items():
        steps = set()
        for b in body:
            t = blocks[b]["t"]
            if t[0] == "call" and isinstance(t[1], dict):
                nm = t[1].get("name")
                if nm in ("next", "next_back", "next_key", "pop", "pop_front", "pop_back", "nth", "next_if", "next_if_eq") and t[2] and \
                        not any(x + "<" in str(t[1].get("args")) for x in ENDLESS) and not made_in(blocks, body, t[2][0]):
                    steps.add(b)
        cmp_ = any(s[0] == "=" and s[2][0] == "bin" and s[2][1] in ("Lt", "Le", "Gt", "Ge", "Ne", "Eq") for b in body for s in blocks[b]["s"])
        for b in body:
            for s in blocks[b]["s"]:
                if cmp_ and s[0] == "=" and s[2][0] == "bin" and s[2][1] in ("Add", "Sub", "AddWithOverflow", "SubWithOverflow", "AddUnchecked") \
                        and s[2][3][0] == "k" and s[2][3][1].get("int"):
                    steps.add(b)
        steps |= descents(blocks, body)
        steps |= lowered(P, blocks, body)
        r.check(not cycle(blocks, body, h, steps), "termination", subj, "a loop whose rounds neither take an element from a finite iterator nor count", where_of(it))
        r.count("loops")


def assigned(blocks, body):
    """local -> its whole assignments in some blocks: ("s", rvalue) or ("c", callee)"""
    out = {}
    for b in body:
        for s in blocks[b]["s"]:
            if s[0] == "=" and not s[1][1]:
                out.setdefault(s[1][0], []).append((b, s[2]))
        t = blocks[b]["t"]
        if t[0] == "call" and not t[3][1]:
            out.setdefault(t[3][0], []).append((b, None))
    return out


def made_in(blocks, body, op, depth=8):
    """is the thing a reference operand refers to made anew in each round"""
    if op[0] not in ("c", "m"):
        return False
    defs = assigned(blocks, body)
    l = op[1][0]
    for _ in range(depth):
        d = defs.get(l)
        if not d:
            return False
        if len(d) != 1 or d[0][1] is None:
            return True
        rv = d[0][1]
        if rv[0] == "ref":
            l = rv[2][0]
        elif rv[0] == "use" and rv[1][0] in ("c", "m"):
            l = rv[1][1][0]
        else:
            return True
    return True


def descents(blocks, body):
    """blocks where a local of the loop is replaced by a part of what it refers to"""
    defs = assigned(blocks, body)
    out = set()
    for l, ds in defs.items():
        for b, rv in ds:
            if rv is None:
                continue
            cur, projs, ok = rv, [], False
            for _ in range(8):
                if cur[0] == "ref" and not cur[1]:
                    pl = cur[2]
                elif cur[0] == "use" and cur[1][0] in ("c", "m"):
                    pl = cur[1][1]
                else:
                    break
                projs = list(pl[1]) + projs
                if pl[0] == l:
                    ok = True
                    break
                d = defs.get(pl[0])
                if not d or len(d) != 1 or d[0][1] is None:
                    break
                cur = d[0][1]
            if ok and any(p[0] == "*" and any(q[0] == "f" for q in projs[i + 1:]) for i, p in enumerate(projs)):
                if not any(x is not rv and not (x is not None and x[0] == "use" and x[1][0] == "k") for _, x in ds):
                    out.add(b)
    return out


def stores(P, it, depth=4):
    """(field, value or parameter) pairs a function stores in a flag: on every path; on some path"""
    blocks = it["body"]["blocks"]
    defs = assigned(blocks, range(len(blocks)))

    def field(op):
        d = defs.get(op[1][0]) if op[0] in ("c", "m") else None
        if d and len(d) == 1 and d[0][1] is not None and d[0][1][0] == "ref" and d[0][1][2][1] and d[0][1][2][1][-1][0] == "f":
            return tuple(d[0][1][2][1][-1][2:4])

    def value(op):
        if op[0] == "k":
            return op[1].get("bool")
        for _ in range(4):
            l = op[1][0]
            d = defs.get(l)
            if not d:
                return ("param", l)
            if len(d) != 1 or d[0][1] is None or d[0][1][0] != "use":
                return None
            op = d[0][1][1]
            if op[0] == "k":
                return op[1].get("bool")
    may, must = {}, set()
    for i, t in ((i, bl["t"]) for i, bl in enumerate(blocks) if not bl["c"] and bl["t"][0] == "call" and isinstance(bl["t"][1], dict)):
        f = t[1]
        got = set()
        if f.get("name") in ("store", "set") and len(t[2]) >= 2 and field(t[2][0]):
            got = {(field(t[2][0]), value(t[2][1]))}
        elif depth:
            c = P.get(f.get("rid") or f.get("id"))
            if c is not None and "body" in c:
                m, a = stores(P, c, depth - 1)
                got = {(x, (value(t[2][v[1] - 1]) if v[1] - 1 < len(t[2]) else None) if isinstance(v, tuple) else v) for x, v in m}
                for x, v in a - m:
                    may.setdefault((x, v if not isinstance(v, tuple) else None), set())
        for g in got:
            may.setdefault(g, set()).add(i)
    for g, at in may.items():
        if at and not reaches_return(blocks, at, already(P, blocks, defs, g)):
            must.add(g)
    return must, set(may)


def already(P, blocks, defs, g):
    """edges taken when the flag already has the value"""
    out = set()
    f, v = g
    if v not in (True, False):
        return out
    for i, bl in enumerate(blocks):
        t = bl["t"]
        if t[0] != "switch" or t[1][0] not in ("c", "m") or t[1][1][1]:
            continue
        l, neg = t[1][1][0], False
        for _ in range(6):
            d = defs.get(l)
            if not d or len(d) != 1:
                break
            b, rv = d[0]
            if rv is None:
                c = blocks[b]["t"]
                if isinstance(c[1], dict) and is_load(P, c, defs, f):
                    want = v != neg
                    for val, to in t[2]:
                        if (val != "0") == want:
                            out.add((i, to))
                    if [val for val, _ in t[2]] == ["0"] and want:
                        out.add((i, t[3]))
                break
            if rv[0] == "un" and rv[1] == "Not" and rv[2][0] in ("c", "m"):
                neg, l = not neg, rv[2][1][0]
            elif rv[0] == "use" and rv[1][0] in ("c", "m") and not rv[1][1][1]:
                l = rv[1][1][0]
            else:
                break
    return out


def is_load(P, t, defs, f):
    """does a call read a flag, directly or through a function that only does so"""
    if t[1].get("name") in ("load", "get") and t[2] and t[2][0][0] in ("c", "m"):
        d = defs.get(t[2][0][1][0])
        return bool(d) and len(d) == 1 and d[0][1] is not None and d[0][1][0] == "ref" and bool(d[0][1][2][1]) and \
            tuple(d[0][1][2][1][-1][2:4]) == f
    c = P.get(t[1].get("rid") or t[1].get("id"))
    if c is None or "body" not in c:
        return False
    bs = c["body"]["blocks"]
    cd = assigned(bs, range(len(bs)))
    d = cd.get(0)
    return bool(d) and len(d) == 1 and d[0][1] is None and isinstance(bs[d[0][0]]["t"][1], dict) and is_load(P, bs[d[0][0]]["t"], cd, f)


def reaches_return(blocks, without, cut=()):
    st, seen = [0], {0}
    if 0 in without:
        return False
    while st:
        x = st.pop()
        if blocks[x]["t"][0] == "ret":
            return True
        for y in mir_succs(blocks[x]["t"]):
            if (x, y) in cut:
                continue
            if y not in seen and y not in without and not blocks[y]["c"]:
                seen.add(y)
                st.append(y)
    return False


def loads(P, it, depth=5, seen=None):
    seen = set() if seen is None else seen
    if it.id in seen or not depth:
        return set()
    seen.add(it.id)
    out = set()
    for b in it["body"]["blocks"]:
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "ref" and s[2][2][1] and s[2][2][1][-1][0] == "f":
                out.add(tuple(s[2][2][1][-1][2:4]))
    for x in P.calls(it):
        c = P.get(x)
        if c is not None and "body" in c:
            out |= loads(P, c, depth - 1, seen)
    return out


def lowered(P, blocks, body):
    """blocks that give a flag the value that ends what the loop looks for, when nothing in the loop gives it the other one"""
    musts, mays, seen = {}, set(), set()
    for b in body:
        t = blocks[b]["t"]
        if t[0] != "call" or not isinstance(t[1], dict):
            continue
        c = P.get(t[1].get("rid") or t[1].get("id"))
        if c is None or "body" not in c:
            continue
        m, a = stores(P, c)
        for g in m:
            musts.setdefault(g, set()).add(b)
        mays |= a
        if not m:
            seen |= loads(P, c)
    out = set()
    for (f, v), at in musts.items():
        if v in (True, False) and f in seen and all(w == v for g, w in mays if g == f):
            out |= at
    return out


def cycle(blocks, body, h, without):
    """can the header be reached again avoiding some blocks"""
    if h in without:
        return False
    st, seen = [h], set()
    while st:
        x = st.pop()
        for y in mir_succs(blocks[x]["t"]):
            if y == h:
                return True
            if y in body and y not in seen and y not in without:
                seen.add(y)
                st.append(y)
    return False


# ---------------------------------------------------------------- left recursion
def progress(r, cfg, what):
    e = entry(cfg, what)
    L = lang(e)
    for k, n in e.g.nts.items():
        if n is None:
            continue
        lc = L.left_calls(n)
        nm = k[1] if isinstance(k[1], str) else str(k[1])
        r.check(k not in lc, "left-recursion", nm, "can call itself again without having consumed anything", e.where())
        r.count("recognisers")
    for n in e.g.nodes:
        r.check(n.kind != "panic", "panic", "recogniser %d" % n.id, "panics: %s" % showx(n.data)[:100] if n.kind == "panic" else "")


# ---------------------------------------------------------------- C34
def effective(L, cs):
    """languages of the alternatives of an ordered choice, each without the inputs an earlier one accepts"""
    A = L.A
    out = []
    before = None
    for c in cs:
        s = L.S(c)
        eff = s if before is None else auto.diff(s, A.freely_marked(before))
        out.append((c, eff))
        dom = A.unmarked(s)
        before = dom if before is None else auto.union(before, dom)
    return out


def built(e, n):
    """the term a recogniser returns, through references"""
    for _ in range(20):
        if n.kind == "map":
            return [t for _, t in n.data]
        if n.out != ("pout", n.id):
            return [n.out]
        if n.kind == "ref":
            n = e.g.nts[n.data]
        elif n.kind in ("cut", "all_consuming"):
            n = n.kids[0]
        else:
            break
    return [n.out]


def splitting(r, cfg):
    e = entry(cfg, "fstr")
    L = lang(e)
    A = L.A
    for i in e.g.items:
        r.fn(i)
    S = Spec(A)
    live = live_nodes(e, [e.root(t[1]) for o in e.outs for t, _ in e.runs(o)][0])
    lists = [n for n in e.g.nodes if n.kind == "many" and n.id in live and
             any(a == "Fragment" for a, _ in shape(e, n.kids[0]))]
    r.check(len(lists) == 1, "pieces", cfg, "%d repetitions of pieces in the splitter" % len(lists), e.where())
    if len(lists) != 1:
        return
    esc = A.then_any(A.lang(("lit", "$${")))
    interp = S.seq(S.exact(("lit", "${")), S.exact(("star", ("set", WS))), S.exact(NAME), S.exact(("star", ("set", WS))), S.exact(("lit", "}")))
    plain = A.lang(("plus", but("${")))
    nobrace = A.lang(("cat", but("${"), ("any",)))
    seen = {"escape": None, "interpolation": None, "text": None}

    def join(k, s):
        seen[k] = s if seen[k] is None else auto.union(seen[k], s)
    n = 0
    for c, eff in effective(L, choices(e, lists[0].kids[0])):
        if auto.empty(eff):
            continue
        n += 1
        ts = built(e, c)
        if len(ts) != 1 or ts[0][:1] != ("adt",) or short(ts[0][1]) != "Fragment":
            r.bad("piece", cfg, "a piece is built as %s" % [showx(t)[:100] for t in ts], e.where())
            continue
        t = ts[0]
        v = dict(t[3]).get("0")
        if v[0] == "call" and v[1] in ("str::to_string", "to_string"):
            v = v[2]
        if t[2] == "Interpolation":
            ls = leaves(v)
            if len(ls) != 1 or ls[0] != v:
                r.bad("piece", cfg, "the name of an interpolation is %s" % showx(v)[:150], e.where())
                continue
            m = e.g.nodes[v[1]]
            join("interpolation", eff)
            w = auto.witness(auto.diff(consumed(A, L.S(m)), A.lang(NAME)))
            r.check(w is None, "name", cfg, "an interpolated name may be %s" % txt(L, w), e.where())
        elif v[0] == "str":
            r.check(v[1] == "${", "escape", cfg, "an escape yields %r" % v[1], e.where())
            join("escape", eff)
        else:
            ls = leaves(v)
            if len(ls) != 1 or ls[0] != v:
                r.bad("piece", cfg, "a literal piece is %s" % showx(v)[:150], e.where())
                continue
            m = e.g.nodes[v[1]]
            a, b = consumed(A, L.S(m)), consumed(A, L.S(c))
            w = auto.witness(auto.diff(b, a)) or auto.witness(auto.diff(a, b))
            r.check(w is None, "verbatim", cfg, "the text of a literal piece is not what was read: %s" % txt(L, w), e.where())
            join("text", eff)
    r.floor("pieces of an interpolated string", n, 3)
    for k in seen:
        if seen[k] is None:
            return r.bad("piece", cfg, "there are no pieces of the kind %s" % k, e.where())
    same(r, L, "escape-syntax", cfg, seen["escape"], esc, e.where(), "exactly `$${` is the escape")
    same(r, L, "interpolation-syntax", cfg, seen["interpolation"], interp, e.where(), "an interpolation is `${`, a name with blanks around it, `}`")
    got = consumed(A, seen["text"])
    w = auto.witness(auto.diff(got, plain))
    r.check(w is None, "literal", cfg, "the literal text %s is read over a delimiter" % txt(L, w), e.where())
    dom = A.unmarked(auto.diff(seen["text"], A.front_marked(A.lang(("any",)))))
    w = auto.witness(auto.diff(nobrace, dom))
    r.check(w is None, "literal", cfg, "literal text is not accepted: %s" % txt(L, w), e.where())


def fragments_kept(r, cfg):
    """the pieces are returned as they were built, in order"""
    e = entry(cfg, "fstr")
    for o in e.outs:
        if o.kind != "ret" or o.val[:1] != ("adt",) or o.val[2] != "Ok":
            continue
        for t, x in e.runs(o):
            if x == "Ok":
                _, val = e.parsed(t)
                v = dict(o.val[3])["0"]
                root = e.root(t[1])
                many = root
                while many.kind in ("cut", "all_consuming", "ref") and many.out in (("pout", many.id), many.kids[0].out if many.kids else None):
                    many = e.g.nts[many.data] if many.kind == "ref" else many.kids[0]
                v2 = replace_term(v, val, many.out)
                r.check(v2 == ("pout", many.id) and many.kind == "many", "order", cfg, "returns %s" % showx(v2)[:200], e.where())
