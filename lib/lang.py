"""Languages of the grammar nodes of lib.peg: S = {x#y: succeeds on xy consuming x}, E = {inputs on which it reports a recoverable error}.
Recursive references are over-approximated (any consumption, or any non-empty one; any error), so S and E contain the true languages;
for nodes that reach no recursive reference both are exact."""
from . import auto
from .peg import ALL, NotFollowed


class Lang:
    def __init__(self, g, extra=(), universe=None):
        """universe: function Alpha -> suffix-closed language the inputs are restricted to (makes recursive parts computable)"""
        self.g = g
        sets = set(frozenset(x) for x in extra)
        for n in g.nodes:
            if n.kind == "lit":
                sets |= {frozenset(c) for c in n.data}
            elif n.kind == "one":
                sets.add(n.data)
            elif n.kind == "run":
                sets.add(n.data[0])
            elif n.kind in ("until",):
                sets |= {frozenset(c) for c in n.data[0]}
            elif n.kind == "if" and n.data[0] == "starts":
                sets |= {frozenset(c) for c in n.data[1]}
        self.A = auto.Alpha(sorted(sets, key=sorted))
        self.memo = {}
        self.nullmemo = {}
        self.stack = []
        self.recursive = self.find_recursive()
        self.stage = 0
        self.defs = {}
        self.cons = {}
        self.sizes = 0
        self.done = False
        self.U = universe(self.A) if universe else None
        self.UM = self.A.freely_marked(self.U) if universe else None

    # ---- structure
    def reach(self, n, seen=None):
        """keys of the functions referenced from a node"""
        seen = set() if seen is None else seen
        st = [n]
        vis = set()
        while st:
            x = st.pop()
            if x.id in vis:
                continue
            vis.add(x.id)
            if x.kind == "ref" and x.data not in seen:
                seen.add(x.data)
                st.append(self.g.nts[x.data])
            st += [k for k in x.kids if k is not None]
        return seen

    def find_recursive(self):
        """keys whose references close a cycle (every cycle has one)"""
        cut = set()
        done = set()

        def go(key, stack):
            if key in stack:
                cut.add(key)
                return
            if key in done:
                return
            for x in self.direct(self.g.nts[key]):
                go(x, stack | {key})
            done.add(key)
        for k, n in self.g.nts.items():
            if n is not None:
                go(k, frozenset())
        return cut

    def direct(self, n):
        out = []
        st = [n]
        while st:
            x = st.pop()
            if x.kind == "ref":
                out.append(x.data)
            st += [k for k in x.kids if k is not None]
        return out

    def is_exact(self, n):
        return not ((self.reach(n) | ({n.data} if n.kind == "ref" else set())) & self.recursive)

    def nullable(self, n, stack=()):
        """may it succeed without consuming?"""
        if n.id in self.nullmemo:
            return self.nullmemo[n.id]
        if n.id in stack:
            return False
        stack = stack + (n.id,)
        k = n.kind
        f = lambda x: self.nullable(x, stack)  # noqa: E731
        if k == "lit":
            r = not n.data
        elif k in ("one",):
            r = False
        elif k in ("run", "until"):
            r = n.data[1] == 0
        elif k in ("fail", "panic"):
            r = False
        elif k in ("ok", "eof", "opt", "not", "peek"):
            r = True
        elif k in ("seq",):
            r = all([f(x) for x in n.kids])
        elif k == "try":
            r = (f(n.kids[0]) and f(n.kids[1]) if len(n.kids) > 1 and n.kids[1] else False) or (len(n.kids) > 2 and n.kids[2] is not None and f(n.kids[2]))
        elif k == "if":
            r = any([f(x) for x in n.kids])
        elif k == "alt":
            r = any([f(x) for x in n.kids])
        elif k == "many":
            r = n.data[0] == 0 or f(n.kids[0])
        elif k == "seplist":
            r = n.data == 0 or f(n.kids[1])
        elif k == "ref":
            r = f(self.g.nts[n.data])
        else:
            r = f(n.kids[0])
        if not stack[:-1] or not (self.reach(n) & self.recursive):
            self.nullmemo[n.id] = r
        return r

    def left_calls(self, n, seen=None):
        """keys that can be entered from n before anything is consumed"""
        seen = set() if seen is None else seen
        out = set()

        def go(x):
            """-> may x be passed without consuming"""
            if x is None:
                return False
            if x.kind == "ref":
                out.add(x.data)
                if x.data not in seen:
                    seen.add(x.data)
                    go(self.g.nts[x.data])
                return self.nullable(x)
            if x.kind in ("seq",):
                for k in x.kids:
                    go(k)
                    if not self.nullable(k):
                        return False
                return True
            if x.kind == "try":
                go(x.kids[0])
                if self.nullable(x.kids[0]) and len(x.kids) > 1:
                    go(x.kids[1])
                if len(x.kids) > 2:
                    go(x.kids[2])
                return self.nullable(x)
            if x.kind == "seplist":
                go(x.kids[1])
                if self.nullable(x.kids[1]):
                    go(x.kids[0])
                return self.nullable(x)
            for k in x.kids:
                go(k)
            return self.nullable(x)
        go(n)
        return out

    # ---- languages
    def top(self, nullable):
        A = self.A
        anyd = A.lang(("any",))
        s = A.then_any(anyd)
        if not nullable:
            s = A.consuming(s)
        return s, anyd

    def prepare(self):
        if self.done:
            return
        self.done = True
        if self.U is not None:
            return self.iterate()
        for stage in (1,):
            new = {}
            self.memo = {k: v for k, v in self.memo.items() if self.is_exact(self.g.nodes[k])}
            for key in self.recursive:
                self.memo = {k: v for k, v in self.memo.items() if self.is_exact(self.g.nodes[k])}
                new[key] = self.compute(self.g.nts[key])
            self.defs = new
        self.memo = {k: v for k, v in self.memo.items() if self.is_exact(self.g.nodes[k])}

    def iterate(self):
        """recursive parts over a restricted universe: refine the widened languages until they are stable"""
        self.rounds = 0
        while True:
            self.rounds += 1
            new = {}
            for key in self.recursive:
                self.memo = {k: v for k, v in self.memo.items() if self.is_exact(self.g.nodes[k])}
                new[key] = self.compute(self.g.nts[key])
            same = set(new) == set(self.defs) and all(auto.equal(a, b) for k in new for a, b in zip(new[k], self.defs[k]))
            self.defs = new
            if same:
                break
            if self.rounds > 12:
                raise NotFollowed("languages of the recursive recognisers do not settle")
        self.memo = {k: v for k, v in self.memo.items() if self.is_exact(self.g.nodes[k])}

    def SE(self, n):
        self.prepare()
        return self.compute(n)

    def S(self, n):
        return self.SE(n)[0]

    def E(self, n):
        return self.SE(n)[1]

    def compute(self, n):
        if n.id in self.memo:
            return self.memo[n.id]
        ck = self.key(n)
        r = self.cons.get(ck) if ck is not None else None
        if r is None:
            r = self.lang(n)
            if self.U is not None:
                r = (auto.inter(r[0], self.UM), auto.inter(r[1], self.U))
            self.sizes += r[0].n
            if ck is not None:
                self.cons[ck] = r
        self.memo[n.id] = r
        return r

    def key(self, n):
        """structural key, to share automata of equal sub-grammars (exact nodes only)"""
        if not self.is_exact(n):
            return None
        return self.skey(n)

    def skey(self, n):
        if n is None:
            return None
        if n.kind == "ref":
            return self.skey(self.g.nts[n.data])
        if n.kind in ("recognize", "map"):
            return self.skey(n.kids[0])
        d = n.data if n.kind in ("lit", "one", "run", "until", "if", "many", "seplist", "filter") else None
        if n.kind == "filter":
            d = None
        return (n.kind, d) + tuple(self.skey(k) for k in n.kids)

    def coarse_many(self, s, e):
        """repetition of an over-approximated recogniser: anything, up to a place where it errs"""
        A = self.A
        anyd = A.lang(("any",))
        return A.concat(A.concat(anyd, A.mark()), e), A.lang(("void",)) if auto.empty(A.idle(s)) else anyd

    def lang(self, n):
        A = self.A
        k = n.kind
        c = self.compute
        if k == "ref":
            if n.data in self.recursive:
                if n.data in self.defs:
                    return self.defs[n.data]
                return self.top(self.nullable(n))
            return c(self.g.nts[n.data])
        if k in ("map", "recognize", "cut"):
            s, e = c(n.kids[0])
            return (s, A.lang(("void",))) if k == "cut" else (s, e)
        if k == "lit":
            l = A.lang(("lit", n.data))
            s = A.then_any(l)
            return s, auto.complement_inputs(A, A.unmarked(s))
        if k == "one":
            s = A.then_any(A.lang(("set", n.data)))
            return s, auto.complement_inputs(A, A.unmarked(s))
        if k == "run":
            r = A.lang(("plus" if n.data[1] else "star", ("set", n.data[0])))
            s = A.longest(r)
            return s, auto.complement_inputs(A, A.unmarked(s))
        if k == "until":
            t = ("lit", n.data[0])
            one = ("minus", ("cat", ("any",), t), ("cat", ("any",), t, ("plus", ("set", ALL))))
            m = auto.inter(A.freely_marked(A.lang(one)), A.concat(A.concat(A.lang(("any",)), A.mark()), A.lang(t)))
            s = A.concat(m, A.lang(("any",)))
            if n.data[1]:
                s = A.consuming(s)
            return s, auto.complement_inputs(A, A.unmarked(s))
        if k == "eof":
            return A.mark(), auto.complement_inputs(A, A.lang(("eps",)))
        if k == "ok":
            return A.front_marked(A.lang(("any",))), A.lang(("void",))
        if k == "fail":
            return A.lang(("void",)), A.lang(("any",))
        if k == "panic":
            return A.lang(("void",)), A.lang(("void",))
        if k == "seq":
            s, e = c(n.kids[0])
            for x in n.kids[1:]:
                s2, e2 = c(x)
                e = auto.union(e, A.seq_fail(s, e2))
                s = A.seq(s, s2)
            return s, e
        if k == "try":
            ps, pe = c(n.kids[0])
            s, e = A.lang(("void",)), A.lang(("void",))
            if len(n.kids) > 1 and n.kids[1] is not None:
                s2, e2 = c(n.kids[1])
                s, e = A.seq(ps, s2), A.seq_fail(ps, e2)
            if len(n.kids) > 2 and n.kids[2] is not None:
                s3, e3 = c(n.kids[2])
                s = auto.union(s, auto.inter(A.freely_marked(pe), s3))
                e = auto.union(e, auto.inter(pe, e3))
            else:
                e = auto.union(e, pe)
            return s, e
        if k == "if":
            if n.data[0] == "eps":
                l = A.lang(("eps",))
            else:
                l = A.lang(("cat", ("lit", n.data[1]), ("any",)))
            (s1, e1), (s2, e2) = c(n.kids[0]), c(n.kids[1])
            ml = A.freely_marked(l)
            return (auto.union(auto.inter(ml, s1), auto.diff(s2, ml)), auto.union(auto.inter(l, e1), auto.diff(e2, l)))
        if k == "alt":
            s, e = c(n.kids[0])
            for x in n.kids[1:]:
                s2, e2 = c(x)
                s = auto.union(s, auto.inter(A.freely_marked(e), s2))
                e = auto.inter(e, e2)
            return s, e
        if k == "opt":
            s, e = c(n.kids[0])
            return auto.union(s, A.front_marked(e)), A.lang(("void",))
        if k == "not":
            s, e = c(n.kids[0])
            return A.front_marked(e), A.unmarked(s)
        if k == "peek":
            s, e = c(n.kids[0])
            return A.front_marked(A.unmarked(s)), e
        if k == "all_consuming":
            s, e = c(n.kids[0])
            full = A.concat(A.lang(("any",)), A.mark())
            return auto.inter(s, full), auto.union(e, A.unmarked(auto.diff(s, full)))
        if k == "filter":
            s, e = c(n.kids[0])
            return s, auto.union(e, A.unmarked(s))
        if k == "many":
            s, e = c(n.kids[0])
            ms, me = A.many(s, e) if self.U is not None or self.is_exact(n.kids[0]) else self.coarse_many(s, e)
            if n.data[0]:
                return A.seq(s, ms), auto.union(e, A.seq_fail(s, me))
            return ms, me
        if k == "seplist":
            (ss, se), (s, e) = c(n.kids[0]), c(n.kids[1])
            ps, pe = A.seq(ss, s), auto.union(se, A.seq_fail(ss, e))
            ms, me = A.many(ps, pe) if self.U is not None or self.is_exact(n) else self.coarse_many(ps, pe)
            rs, re = A.seq(s, ms), auto.union(e, A.seq_fail(s, me))
            if n.data == 0:
                return auto.union(rs, A.front_marked(e)), re
            return rs, re
        raise NotFollowed("language of a %s node" % k)
