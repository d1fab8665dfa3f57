"""The grammar a nom parser denotes, extracted from the functions that build it.

Functions and closures are interpreted (lib.interp) with nom's combinators as constructors of grammar terms; the
result is a graph of grammar nodes with the semantic actions as terms over the results of their parts."""
from .interp import Interp, State, Out, ret, MODELS, norm_path, contains, subst
from .terms import *
from .prog import short
from . import auto

ASCII = [chr(i) for i in range(128)]
REPS = ASCII + auto.Alpha.NONASCII
ALL = frozenset(REPS)
LEAF = {"alpha1": (str.isalpha, True, 1), "alpha0": (str.isalpha, True, 0), "digit1": (str.isdigit, True, 1), "digit0": (str.isdigit, True, 0),
        "alphanumeric1": (str.isalnum, True, 1), "alphanumeric0": (str.isalnum, True, 0),
        "hex_digit1": (lambda c: c in "0123456789abcdefABCDEF", True, 1), "hex_digit0": (lambda c: c in "0123456789abcdefABCDEF", True, 0),
        "space1": (lambda c: c in " \t", True, 1), "space0": (lambda c: c in " \t", True, 0),
        "multispace1": (lambda c: c in " \t\r\n", True, 1), "multispace0": (lambda c: c in " \t\r\n", True, 0)}
COMB = {"tag", "char", "is_not", "is_a", "take_while", "take_while1", "take_till", "take_till1", "none_of", "one_of", "satisfy", "not", "opt", "map",
        "recognize", "peek", "cut", "all_consuming", "complete", "value", "verify", "map_res", "map_opt", "into", "cond", "consumed",
        "many0", "many1", "separated_list0", "separated_list1", "many0_count", "many1_count", "pair", "preceded", "terminated", "delimited",
        "separated_pair", "tuple", "alt", "context", "success", "take_until", "take_until1", "fold_many0", "fold_many1", "many_till", "permutation"}
APPLY = {"alpha1", "alpha0", "digit1", "digit0", "alphanumeric1", "alphanumeric0", "hex_digit1", "hex_digit0", "space1", "space0", "multispace1",
         "multispace0", "anychar", "fail", "eof", "rest", "newline", "tab", "line_ending", "crlf"}


class NotFollowed(Exception):
    pass


def nom_call(ip, st, f, args, cid):
    path = norm_path(f.get("path", ""))
    name = f["name"]
    if name == "parse" and path.endswith("Parser::parse"):
        return ip.call_value(st, args[0], [args[1]], cid)
    if path.startswith("nom::internal::Parser::") or "::Parser::" in path:
        m = {"map": "map", "and": "pair", "or": "alt2", "and_then": "and_then", "flat_map": "flat_map", "into": "into"}.get(name)
        if m:
            return ret(st, ("nom", m) + tuple(ip.deep(st, a) for a in args))
    if "::complete::" in path or path.startswith(("nom::combinator::", "nom::multi::", "nom::sequence::", "nom::branch::", "nom::error::context")):
        if name in APPLY:
            return ret(st, ("papply", ("nom", name), ip.deep(st, args[0])))
        if name in COMB:
            return ret(st, ("nom", name) + tuple(ip.deep(st, a) for a in args))
    return None


class Node:
    """kind, kids; out: term of the result"""
    __slots__ = ("id", "kind", "kids", "data", "out", "name")

    def __init__(self, id, kind, kids=(), data=None, out=None, name=None):
        self.id = id
        self.kind = kind
        self.kids = list(kids)
        self.data = data
        self.out = out
        self.name = name

    def __repr__(self):
        return "<%d %s %s>" % (self.id, self.kind, self.data if self.kind in ("lit", "one", "run", "ref") else [k.id for k in self.kids])


class Grammar:
    def __init__(self, prog):
        self.p = prog
        self.ip = Interp(prog)
        self.nodes = []
        self.nts = {}      # key of a parser value -> node ('ref' target)
        self.names = {}
        self.items = set()

    def mk(self, kind, kids=(), data=None, out=None, name=None):
        n = Node(len(self.nodes), kind, kids, data, out, name)
        self.nodes.append(n)
        if n.out is None:
            n.out = ("pout", n.id)
        return n

    # ---- entry: a function item
    def fn(self, item):
        return self.value(("itemfn", item.id))

    def target(self, n):
        while n.kind == "ref":
            n = self.nts[n.data]
        return n

    def value(self, v):
        while v[0] == "ref":
            v = self.ip.val(State(), v)
        if v[0] == "nom":
            return self.comb(v)
        if v[0] == "fnitem":
            d = v[1].d
            path = norm_path(d.get("path", ""))
            if path.startswith("nom::") and d["name"] in APPLY:
                return self.comb(("nom", d["name"]))
            key = ("item", d.get("rid") or d.get("id"))
        elif v[0] == "itemfn":
            key = ("item", v[1])
        elif v[0] == "clo":
            key = v
        else:
            raise NotFollowed("a parser that is neither a function, a closure nor a combinator: %s" % show(v)[:120])
        if key not in self.nts:
            self.nts[key] = None
            self.nts[key] = self.body(key, v)
        n = self.mk("ref", (), key)
        if self.nts[key] is not None:
            n.out = self.nts[key].out
        it = self.p.get(key[1])
        n.name = it.disp() if it is not None and hasattr(it, "disp") else str(key[1])
        return n

    def body(self, key, v):
        arg = ("pin", 0)
        st = State()
        if key[0] == "item":
            it = self.p.get(key[1])
            if it is None or "body" not in it:
                raise NotFollowed("parser function without body: %s" % key[1])
            self.items.add(it.id)
            outs = self.ip.run_fn(st, it, [arg], (key[1],))
        else:
            self.items.add(v[1])
            outs = self.ip.call_value(st, v, [arg], (v[1],))
        for o in outs:
            if any(x[0] == "one" for x in o.st.trace()[1:]):
                raise NotFollowed("%s has effects besides parsing: %s" % (key[1], show(o.st.trace())[:160]))
        return self.tree([(list(o.st.facts.items()), o) for o in outs], arg, 0)

    # ---- decision trees
    def tree(self, paths, cur, depth, binds=()):
        """paths: [(remaining facts, outcome)] -> node parsing from the input `cur`"""
        if depth > 40:
            raise NotFollowed("parser function too deep")
        if len(paths) == 1 and not paths[0][0]:
            return self.leaf(paths[0][1], cur, binds)
        if any(not fs for fs, _ in paths):
            raise NotFollowed("paths of a parser function do not form a decision tree")
        atom = paths[0][0][0][0]
        if any(fs[0][0] != atom for fs, _ in paths):
            raise NotFollowed("paths of a parser function do not form a decision tree")
        groups = {}
        for fs, o in paths:
            groups.setdefault(fs[0][1], []).append((fs[1:], o))
        if atom[0] == "variant" and atom[1][0] == "papply":
            r = atom[1]
            if r[2] != cur:
                raise NotFollowed("a parser applied to %s instead of the current input" % show(r[2]))
            kid = self.value(r[1])
            okb = errb = None
            for v, g in groups.items():
                if v == "Ok":
                    okb = g
                elif v == "Err":
                    errb = g
                elif isinstance(v, tuple):
                    raise NotFollowed("partial case distinction on a parse result")
            okn = errn = None
            payload = self.ip.payload(State(), r, "Ok")
            if okb is not None:
                rest = self.ip.getf(State(), payload, "0", 0)
                val = self.ip.getf(State(), payload, "1", 1)
                okn = self.tree(okb, rest, depth + 1, binds + ((val, kid.out),))
            if errb is not None:
                e = self.ip.payload(State(), r, "Err")
                errn = self.errtree(errb, e, cur, depth + 1, binds)
            if okn is not None and errn is None or errn is not None and errn.kind == "fail":
                return self.mk("try", [kid, okn], out=okn.out if okn else None)
            return self.mk("try", [kid, okn, errn], out=None)
        # conditions on the text
        sub = {}
        for v, g in groups.items():
            if v not in (True, False):
                raise NotFollowed("case distinction on %s" % show(atom)[:120])
            sub[v] = self.tree(g, cur, depth + 1, binds)
        cond = self.cond(atom, cur)
        ks = [sub.get(True) or self.mk("fail"), sub.get(False) or self.mk("fail")]
        live = [k for k in ks if k.kind != "fail"]
        return self.mk("if", ks, cond, out=live[0].out if len(live) == 1 else None)

    def errtree(self, paths, e, cur, depth, binds):
        """what is done when a parser failed: the failure passed on is a failure, a recoverable one tried elsewhere a choice"""
        flat = []
        fatal = []
        for fs, o in paths:
            if fs and fs[0][0] == ("variant", e):
                v = fs[0][1]
                vs = v if isinstance(v, str) else None
                if vs in ("Failure", "Incomplete"):
                    fatal.append((fs[1:], o))
                    continue
                fs = fs[1:]
            flat.append((fs, o))
        for fs, o in fatal:
            n = self.tree([(fs, o)], cur, depth, binds)
            if n.kind != "fail":
                raise NotFollowed("a fatal parse error is recovered from")
        if not flat:
            return self.mk("fail")
        return self.tree(flat, cur, depth, binds)

    def cond(self, atom, cur):
        if atom[0] == "empty" and atom[1] == cur:
            return ("eps",)
        if atom[0] == "call" and atom[1].endswith("starts_with") and atom[2] == cur and atom[3][0] in ("str", "char"):
            return ("starts", atom[3][1])
        if atom[0] == "eq" and atom[1][0] == "len" and atom[1][1] == cur and atom[2] == ("int", 0):
            return ("eps",)
        raise NotFollowed("a parser depends on %s" % show(atom)[:160])

    def leaf(self, o, cur, binds):
        if o.kind == "panic":
            return self.mk("panic", data=o.val)
        v = o.val
        if v[0] == "papply":
            if v[2] != cur:
                raise NotFollowed("a parser applied to %s instead of the current input" % show(v[2]))
            return self.value(v[1])
        if v[0] == "adt" and v[2] == "Ok":
            p = dict(v[3])["0"]
            if p[0] != "tup" or p[1] != cur:
                raise NotFollowed("success with the rest %s" % show(p)[:120])
            out = p[2]
            for a, b in binds:
                out = replace_term(out, a, b)
            return self.mk("ok", out=out)
        if v[0] == "adt" and v[2] == "Err":
            return self.mk("fail")
        raise NotFollowed("result of a parser: %s" % show(v)[:160])

    # ---- combinators
    def chars(self, v):
        """a set of characters given as a list of characters"""
        if v[0] == "str":
            bad = [c for c in v[1] if c not in ALL]
            if bad:
                raise NotFollowed("characters outside the alphabet: %r" % bad)
            return frozenset(v[1])
        if v[0] == "char":
            return frozenset(v[1])
        if v[0] == "seq":
            xs = seq_known(v)
            if xs is not None and all(x[0] == "char" for x in xs):
                return frozenset(x[1] for x in xs)
        raise NotFollowed("a character set that is not a constant: %s" % show(v)[:80])

    def pred(self, f):
        """characters satisfying a predicate"""
        x = ("pchar",)
        outs = self.ip.call_value(State(), f, [x], ("pred",))
        s = set()
        for c in REPS:
            vals = set()
            for o in outs:
                if o.kind != "ret":
                    raise NotFollowed("a character predicate that can panic")
                try:
                    if all(chareval(a, c) == v for a, v in o.st.facts.items()):
                        vals.add(chareval(o.val, c))
                except KeyError as e:
                    raise NotFollowed("character predicate: %s" % show(e.args[0])[:120])
            if len(vals) != 1:
                raise NotFollowed("character predicate with %d values" % len(vals))
            if vals.pop() is True:
                s.add(c)
        return frozenset(s)

    def action(self, f, x):
        """[(facts, term)] of a mapping applied to a result"""
        outs = self.ip.call_value(State(), f, [x], ("action",))
        res = []
        for o in outs:
            if o.kind != "ret":
                raise NotFollowed("a semantic action that can panic: %s" % show(o.val)[:100])
            if any(e[0] == "one" for e in o.st.trace()[1:]):
                raise NotFollowed("a semantic action with effects: %s" % show(o.st.trace())[:160])
            res.append((tuple(o.st.facts.items()), self.ip.deep(o.st, o.val)))
        return res

    def seqn(self, kids, out):
        return self.mk("seq", kids, out=out)

    def tupargs(self, v):
        if v[0] == "tup":
            return list(v[1:])
        if v[0] == "seq" and seq_known(v) is not None:
            return list(seq_known(v))
        raise NotFollowed("a list of parsers that is not a tuple: %s" % show(v)[:80])

    def comb(self, v):
        name, a = v[1], v[2:]
        if name in LEAF:
            f, asc, mn = LEAF[name]
            return self.mk("run", data=(frozenset(c for c in ASCII if f(c)), mn))
        if name == "anychar":
            return self.mk("one", data=ALL)
        if name == "fail":
            return self.mk("fail")
        if name == "eof":
            return self.mk("eof")
        if name == "rest":
            return self.mk("run", data=(ALL, 0))
        if name in ("newline", "tab"):
            return self.mk("one", data=frozenset("\n" if name == "newline" else "\t"))
        if name == "crlf":
            return self.mk("lit", data="\r\n")
        if name == "line_ending":
            return self.mk("alt", [self.mk("lit", data="\n"), self.mk("lit", data="\r\n")])
        if name in ("tag", "char"):
            if a[0][0] not in ("str", "char"):
                raise NotFollowed("%s of something that is not a constant: %s" % (name, show(a[0])[:80]))
            if any(c not in ALL for c in a[0][1]):
                raise NotFollowed("characters outside the alphabet: %r" % a[0][1])
            return self.mk("lit", data=a[0][1])
        if name == "is_not":
            return self.mk("run", data=(ALL - self.chars(a[0]), 1))
        if name == "is_a":
            return self.mk("run", data=(self.chars(a[0]), 1))
        if name in ("take_while", "take_while1"):
            return self.mk("run", data=(self.pred(a[0]), 1 if name.endswith("1") else 0))
        if name in ("take_till", "take_till1"):
            return self.mk("run", data=(ALL - self.pred(a[0]), 1 if name.endswith("1") else 0))
        if name == "none_of":
            return self.mk("one", data=ALL - self.chars(a[0]))
        if name == "one_of":
            return self.mk("one", data=self.chars(a[0]))
        if name == "satisfy":
            return self.mk("one", data=self.pred(a[0]))
        if name in ("take_until", "take_until1"):
            if a[0][0] != "str":
                raise NotFollowed("take_until of something that is not a constant")
            return self.mk("until", data=(a[0][1], 1 if name.endswith("1") else 0))
        if name in ("context",):
            return self.value(a[1])
        if name == "complete":
            return self.value(a[0])
        if name == "into":
            return self.value(a[0])
        if name in ("map",):
            k = self.value(a[0])
            d = self.action(a[1], k.out)
            return self.mk("map", [k], data=d, out=d[0][1] if len(d) == 1 and not d[0][0] else None)
        if name == "value":
            k = self.value(a[1])
            return self.mk("map", [k], data=[((), a[0])], out=a[0])
        if name in ("verify", "map_res", "map_opt"):
            k = self.value(a[0])
            return self.mk("filter", [k], data=(name, a[1]), out=k.out if name == "verify" else None)
        if name == "recognize":
            k = self.value(a[0])
            return self.mk("recognize", [k])
        if name == "cond":
            raise NotFollowed("cond combinator")
        if name in ("opt", "not", "peek", "cut", "all_consuming"):
            k = self.value(a[0])
            return self.mk(name, [k], out=k.out if name in ("cut", "all_consuming", "peek") else (UNIT if name == "not" else None))
        if name == "success":
            return self.mk("ok", out=a[0])
        if name in ("many0", "many1", "many0_count", "many1_count"):
            k = self.value(a[0])
            return self.mk("many", [k], data=(1 if "1" in name else 0, name))
        if name in ("fold_many0", "fold_many1"):
            k = self.value(a[0])
            m = self.mk("many", [k], data=(1 if "1" in name else 0, name))
            res = []
            for o in self.ip.call_value(State(), a[1], [], ("action", "init")):
                for o2 in MODELS["std::iter::Iterator::fold"](self.ip, o.st, None, [("it", m.out), o.val, a[2]], ("action", "fold")) or [None]:
                    if o2 is None or o2.kind != "ret" or any(e[0] == "one" for e in o2.st.trace()[1:]):
                        raise NotFollowed("a fold over parsed elements")
                    res.append((tuple(o2.st.facts.items()), self.ip.deep(o2.st, o2.val)))
            return self.mk("map", [m], data=res, out=res[0][1] if len(res) == 1 and not res[0][0] else None)
        if name in ("separated_list0", "separated_list1"):
            s, k = self.value(a[0]), self.value(a[1])
            return self.mk("seplist", [s, k], data=(1 if "1" in name else 0))
        if name in ("pair", "preceded", "terminated", "delimited", "separated_pair"):
            ks = [self.value(x) for x in a]
            o = [k.out for k in ks]
            out = {"pair": lambda: ("tup", o[0], o[1]), "preceded": lambda: o[1], "terminated": lambda: o[0], "delimited": lambda: o[1],
                   "separated_pair": lambda: ("tup", o[0], o[2])}[name]()
            return self.seqn(ks, out)
        if name == "tuple":
            ks = [self.value(x) for x in self.tupargs(a[0])]
            return self.seqn(ks, ("tup",) + tuple(k.out for k in ks))
        if name == "alt":
            return self.mk("alt", [self.value(x) for x in self.tupargs(a[0])])
        if name == "alt2":
            return self.mk("alt", [self.value(x) for x in a])
        raise NotFollowed("combinator %s" % name)


def chareval(t, c):
    """value of a term about the character c"""
    k = t[0]
    if t == ("pchar",):
        return c
    if k in ("bool", "char", "str", "int"):
        return t[1]
    if k == "not":
        return not chareval(t[1], c)
    if k == "and":
        return all(chareval(x, c) for x in t[1:])
    if k == "or":
        return any(chareval(x, c) for x in t[1:])
    if k == "ite":
        return chareval(t[2] if chareval(t[1], c) else t[3], c)
    if k == "eq":
        return chareval(t[1], c) == chareval(t[2], c)
    if k == "lt":
        return chareval(t[1], c) < chareval(t[2], c)
    if k == "le":
        return chareval(t[1], c) <= chareval(t[2], c)
    if k == "call":
        t = t[1:]
        k = t[0]
    n = k.split("::")[-1]
    if n == "is_ascii":
        return ord(chareval(t[1], c)) < 128
    if n == "is_ascii_alphabetic":
        x = chareval(t[1], c)
        return ord(x) < 128 and x.isalpha()
    if n == "is_ascii_digit":
        x = chareval(t[1], c)
        return ord(x) < 128 and x.isdigit()
    if n == "is_ascii_alphanumeric":
        x = chareval(t[1], c)
        return ord(x) < 128 and x.isalnum()
    if n == "is_ascii_whitespace":
        return chareval(t[1], c) in " \t\n\r\x0c"
    if n == "is_whitespace":
        return chareval(t[1], c).isspace() and chareval(t[1], c) not in "\x1c\x1d\x1e\x1f"
    if n == "is_alphabetic":
        return chareval(t[1], c).isalpha()
    if n == "is_numeric":
        return chareval(t[1], c).isnumeric()
    if n == "is_alphanumeric":
        x = chareval(t[1], c)
        return x.isalpha() or x.isnumeric()
    if n == "contains" and len(t) == 3:
        a, b = t[1], t[2]
        if a[0] == "seq" and seq_known(a) is not None:
            return chareval(b, c) in [x[1] for x in seq_known(a)]
        return chareval(b, c) in chareval(a, c)
    raise KeyError(t)
