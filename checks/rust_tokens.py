"""Rust expressions out of the token terms the macros build: enough of the language for generated code."""
from lib.terms import *


class NotRust(Exception):
    pass


KEYWORDS = {"as", "const", "static", "let", "use", "fn", "move", "mut", "ref", "dyn", "true", "false", "self", "Self", "super",
            "crate", "if", "else", "match", "return", "impl", "where", "for", "in", "pub", "unsafe", "loop", "while", "struct",
            "enum", "mod", "extern", "type", "trait", "async", "await", "break", "continue"}
PRIMITIVE = {"str", "bool", "char", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64", "_"}


def norm(t):
    """items of a token term: ('id', name, hygienic) ('p', text) ('grp', delim, items) ('child', x) ('lit', v) ('user', v)
    ('each', src, [(conds, items)])"""
    out = []
    for x in cat_items(t):
        k = x[0]
        if k == "tk":
            s = x[1]
            out.append(("id", s, False) if s[:1].isalpha() or s[:1] == "_" else ("lt", s) if s[:1] == "'" else ("p", s))
        elif k == "tok":
            out += tok(x[1])
        elif k == "grp":
            out.append(("grp", x[1], norm(x[2])))
        elif k == "call" and x[1] == "tokens":
            out.append(("child", x[2]))
        elif k == "each":
            out.append(separated(("each", x[1], [(c, [i for p in ps for i in norm(p)]) for c, ps in x[2]])))
        elif k == "str" and x[1] == "":
            pass
        elif k == "str":
            raise NotRust("text %r among tokens" % x[1])
        else:
            out.append(("user", x))
    return out


def separated(e):
    """`#(..),*`: a comma before every item but the first, or after every item but the last, is the same list as a comma after each"""
    alts = dict((c, xs) for c, xs in e[2])
    first = ((("firstp", e[1]), True),)
    rest = ((("firstp", e[1]), False),)
    if set(alts) == {first, rest} and alts[rest] == [("p", ",")] + alts[first]:
        return ("each", e[1], [((), alts[first] + [("p", ",")])])
    mid, last = ((("lastp", e[1]), False),), ((("lastp", e[1]), True),)
    if set(alts) == {mid, last} and alts[mid] == alts[last] + [("p", ",")]:
        return ("each", e[1], [((), alts[mid])])
    return e


def tok(v):
    if v[0] == "adt" and v[2] == "RepInterp":
        v = v[3][0][1]
        if v[0] in ("tk", "tok", "grp", "cat", "each") or v[:2] == ("call", "tokens"):
            return norm(v)
    if v[0] in ("tk", "tok", "grp", "cat", "each"):
        return norm(v)
    if v[0] == "ident":
        s = v[1][1] if v[1][0] == "str" else None
        if s is None:
            return [("user", v)]
        return [("id", s, v[2][:2] == ("call", "mixed_site"))]
    if v[0] == "lit":
        return [("lit", v[1])]
    if v[:2] == ("call", "LitStr::new"):
        return [("lit", v[2])]
    if v[0] in ("len", "count", "int", "add"):
        return [("lit", v)]
    return [("user", v)]


def user_parts(items):
    """(child|user parts, in order, with the alternatives they are under)"""
    for x in items:
        if x[0] in ("child", "user"):
            yield x
        elif x[0] == "grp":
            yield from user_parts(x[2])
        elif x[0] == "each":
            for c, xs in x[2]:
                yield from user_parts(xs)


class Parser:
    def __init__(self, items):
        self.x = items
        self.i = 0

    def peek(self, n=0):
        return self.x[self.i + n] if self.i + n < len(self.x) else ("end",)

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def is_p(self, s, n=0):
        return self.peek(n) == ("p", s)

    def is_id(self, s=None, n=0):
        t = self.peek(n)
        return t[0] == "id" and (s is None or t[1] == s)

    def is_grp(self, d, n=0):
        t = self.peek(n)
        return t[0] == "grp" and t[1] == d

    def expect(self, t):
        if self.next() != t:
            raise NotRust("expected %s, got %s" % (t, self.x[self.i - 1] if self.i <= len(self.x) else "end"))

    def done(self):
        return self.i >= len(self.x)

    # ---- paths and types (kept as text)
    def angle(self):
        n = 0
        out = []
        while True:
            t = self.next()
            if t[0] == "end":
                raise NotRust("unbalanced <")
            if t[0] == "p":
                n += t[1].count("<") if set(t[1]) <= {"<"} else 0
                n -= t[1].count(">") if set(t[1]) <= {">"} else 0
            out.append(t)
            if n <= 0:
                return out

    def path(self):
        """('path', absolute, [segments], [generic tokens])"""
        segs, gens, absolute = [], [], False
        if self.is_p("<"):
            q = self.angle()[1:-1]
            gens.append(q)
            absolute = True
            p = Parser(q)
            ty = p.type_text()
            segs.append(ty)
        elif self.is_p("::"):
            self.next()
            absolute = True
            segs.append(self.seg())
        else:
            segs.append(self.seg())
        while self.is_p("::"):
            self.next()
            if self.is_p("<"):
                gens.append(self.angle()[1:-1])
                continue
            segs.append(self.seg())
        return ("path", absolute, tuple(segs), gens)

    def seg(self):
        t = self.next()
        if t[0] != "id":
            raise NotRust("expected a path segment, got %s" % (t,))
        return t[1]

    def type_text(self):
        """the type up to a delimiter at depth 0, its last segment"""
        n = 0
        last = ""
        while not self.done():
            t = self.peek()
            if n == 0 and (t[0] == "p" and t[1] in ("=", ",", ";") or t == ("id", "as", False)):
                break
            if t[0] == "p":
                n += t[1].count("<") if set(t[1]) <= {"<"} else 0
                n -= t[1].count(">") if set(t[1]) <= {">"} else 0
                if n < 0:
                    break
            if t[0] == "id" and n == 0:
                last = t[1]
            self.next()
        return last

    # ---- expressions
    def expr(self):
        e = self.unary()
        while self.is_id("as"):
            self.next()
            self.type_text()
            e = ("cast", e)
        return e

    def unary(self):
        if self.is_p("&"):
            self.next()
            if self.is_id("mut"):
                self.next()
            return ("ref", self.unary())
        if self.is_p("*"):
            self.next()
            return ("deref", self.unary())
        e = self.primary()
        while True:
            if self.is_p("."):
                self.next()
                n = self.seg()
                if self.is_p("::"):
                    self.next()
                    self.angle()
                if self.is_grp("Parenthesis"):
                    e = ("method", n, e, Parser(self.next()[2]).args())
                else:
                    e = ("field", n, e)
            elif self.is_grp("Parenthesis"):
                e = ("call", e, Parser(self.next()[2]).args())
            elif self.is_p("?"):
                self.next()
                e = ("try", e)
            else:
                return e

    def args(self):
        out = []
        while not self.done():
            if self.peek()[0] == "each":
                out.append(self.repeat(self.next()))
                if self.is_p(","):
                    self.next()
                continue
            out.append(self.expr())
            if self.done():
                break
            self.expect(("p", ","))
        return out

    def repeat(self, t):
        return ("each", t[1], [(c, Parser(xs).args()) for c, xs in t[2]])

    def primary(self):
        t = self.peek()
        if t[0] == "lit":
            self.next()
            return t
        if t[0] in ("child", "user"):
            self.next()
            return t
        if t[0] == "grp":
            self.next()
            if t[1] == "Parenthesis":
                a = Parser(t[2]).args()
                return a[0] if len(a) == 1 else ("tuple", a)
            if t[1] == "Bracket":
                return ("list", Parser(t[2]).args())
            if t[1] == "Brace":
                return Parser(t[2]).block()
            raise NotRust("group %s" % t[1])
        if t == ("p", "||") or t == ("p", "|") or t[:2] == ("id", "move"):
            self.next()
            if t[:2] == ("id", "move"):
                t = self.next()
            if t == ("p", "|"):
                raise NotRust("closure with arguments")
            return ("closure", self.expr())
        if t[:2] == ("id", "unsafe"):
            raise NotRust("unsafe block")
        if t[:2] == ("id", "const") and self.is_grp("Brace", 1):
            self.next()
            return ("constblock", Parser(self.next()[2]).block())
        p = self.path()
        if self.is_p("!"):
            self.next()
            g = self.next()
            if g[0] != "grp":
                raise NotRust("macro call without a group")
            if p[2][-1] == "vec":
                return ("macro", p, [("list", Parser(g[2]).args())])
            return ("macro", p, g)
        if self.is_grp("Brace") and p[2][-1][:1].isupper():
            f = []
            q = Parser(self.next()[2])
            while not q.done():
                n = q.seg()
                if q.is_p(":"):
                    q.next()
                    f.append((n, q.expr()))
                else:
                    f.append((n, ("name", n)))
                if not q.done():
                    q.expect(("p", ","))
            return ("struct", p, f)
        if not p[1] and len(p[2]) == 1:
            return ("name", p[2][0])
        return ("pathx", p)

    def block(self):
        """('block', statements, tail)"""
        stmts = []
        while not self.done():
            t = self.peek()
            if t == ("p", "#"):        # attribute
                self.next()
                if self.is_p("!"):
                    self.next()
                self.next()
                continue
            if t[:2] == ("id", "use"):
                self.next()
                body = []
                while not self.is_p(";"):
                    body.append(self.next())
                    if self.done():
                        raise NotRust("use without ;")
                self.next()
                stmts.append(("use", body))
                continue
            if t[:2] in (("id", "const"), ("id", "static"), ("id", "let")) and not self.is_grp("Brace", 1):
                self.next()
                if self.is_id("mut"):
                    self.next()
                n = self.next()
                if n[0] != "id":
                    raise NotRust("pattern %s" % (n,))
                if self.is_p(":"):
                    self.next()
                    self.type_text()
                self.expect(("p", "="))
                e = self.expr()
                self.expect(("p", ";"))
                stmts.append((t[1], n, e))
                continue
            if t[:2] == ("id", "macro_rules"):
                self.i += 2
                n = self.next()
                g = self.next()
                stmts.append(("macro_rules", n, g))
                continue
            e = self.expr()
            if self.is_p(";"):
                self.next()
                stmts.append(("expr", e))
                continue
            if self.done():
                return ("block", stmts, e)
            if e[0] in ("block", "user", "child", "macro"):
                stmts.append(("expr", e))
                continue
            raise NotRust("statement goes on with %s" % (self.peek(),))
        return ("block", stmts, None)


def parse(term):
    p = Parser(norm(term))
    e = p.expr()
    if not p.done():
        raise NotRust("more tokens after the expression: %s" % (p.peek(),))
    return e


# ---------------------------------------------------------------- what an expression builds
WRAP = {("Cow", "Borrowed"), ("Cow", "Owned"), ("Bow", "Borrowed"), ("Bow", "Boxed"), ("Box", "new"), ("Lazy", "new"), ("Rc", "new"),
        ("Arc", "new"), ("Into", "into"), ("From", "from"), ("ToString", "to_string"), ("ToOwned", "to_owned"), ("Clone", "clone"),
        ("Cow", "from"), ("Box", "from"), ("Vec", "from"), ("Bow", "from"), ("String", "from"), ("AsRef", "as_ref"), ("Deref", "deref"),
        ("LazyLock", "new"), ("Some", "")}
WRAP_METHODS = {"clone", "into", "to_string", "to_owned", "to_vec", "as_ref", "into_boxed_slice", "borrow", "deref", "into_vec"}


def build(e, env, names):
    """the tree of nodes an expression builds. names: enum variants and structs of the AST that are nodes"""
    k = e[0]
    if k in ("ref", "deref", "cast", "closure", "constblock"):
        return build(e[1], env, names)
    if k in ("child", "user", "lit"):
        return e
    if k == "name":
        if e[1] in env:
            return env[e[1]]
        raise NotRust("name %s" % e[1])
    if k == "block":
        env = dict(env)
        for s in e[1]:
            if s[0] in ("const", "static", "let"):
                env[s[1][1]] = build(s[2], env, names)
            elif s[0] == "expr" and list(user_of(s[1])):
                raise NotRust("a statement with interpolated parts")
        if e[2] is None:
            raise NotRust("block without a value")
        return build(e[2], env, names)
    if k == "list":
        return ("list", [build_item(x, env, names) for x in e[1]])
    if k == "macro" and e[1][2][-1] == "vec":
        return build(e[2][0], env, names)
    if k == "struct":
        return ("node", e[1][2][-1], [(n, build(x, env, names)) for n, x in e[2]])
    if k == "method" and e[1] in WRAP_METHODS and not e[3]:
        return build(e[2], env, names)
    if k == "call" and e[1][0] == "pathx":
        segs = e[1][1][2]
        key = (segs[-2] if len(segs) > 1 else "", segs[-1])
        if key in names:
            return ("node", "::".join(key), [(str(i), build(x, env, names)) for i, x in enumerate(e[2])])
        if key in WRAP and len(e[2]) == 1:
            return build(e[2][0], env, names)
    raise NotRust("expression %s" % (str(e)[:200],))


def build_item(x, env, names):
    if x[0] == "each":
        return ("each", x[1], [(c, [build_item(y, env, names) for y in ys]) for c, ys in x[2]])
    return build(x, env, names)


def user_of(e):
    if isinstance(e, tuple):
        if e and e[0] in ("child", "user"):
            yield e
            return
        for x in e:
            yield from user_of(x)
    elif isinstance(e, list):
        for x in e:
            yield from user_of(x)


def cached(e, kinds=("const", "static", "constblock")):
    """[(kind, parts)]: interpolated parts inside items that are evaluated once"""
    out = []
    if isinstance(e, tuple):
        if e and e[0] in kinds and isinstance(e[0], str):
            out.append((e[0], list(user_of(e))))
        if e and e[0] in ("child", "user"):
            return out
        for x in e:
            out += cached(x, kinds)
    elif isinstance(e, list):
        for x in e:
            out += cached(x, kinds)
    return out
