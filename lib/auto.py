"""Finite automata over a partitioned character alphabet.

Languages of recognisers are sets of words x#y: on input xy the recogniser succeeds having consumed x.
The marker # is the last symbol of the alphabet."""
from collections import deque


class DFA:
    __slots__ = ("n", "t", "acc", "k", "_cols")

    def __init__(self, k, t, acc, cols=None):
        self.k = k          # number of symbols, marker included
        self.t = t          # t[state][symbol] -> state; state 0 is the start
        self.acc = acc      # list of bool
        self.n = len(t)
        self._cols = cols   # class of each symbol: symbols of one class have equal transitions

    def cols(self):
        if self._cols is None:
            ids = {}
            self._cols = [ids.setdefault(c, len(ids)) for c in zip(*self.t)]
        return self._cols


def groups(k, dfas):
    """symbols that all automata treat alike (the marker alone): (class of each symbol, a symbol of each class)"""
    ids = {}
    cl = []
    cs = [d.cols() for d in dfas]
    for x in range(k):
        cl.append(ids.setdefault((x == k - 1,) + tuple(c[x] for c in cs), len(ids)))
    rep = [None] * len(ids)
    for x in range(k - 1, -1, -1):
        rep[cl[x]] = x
    return cl, rep


def explore(k, start, step, accept, limit=60000, of=None):
    """DFA of a deterministic step function over hashable states; of: the automata the step function looks at"""
    cl, rep = groups(k, of) if of is not None else (list(range(k)), list(range(k)))
    idx = {start: 0}
    order = [start]
    t = []
    i = 0
    while i < len(order):
        s = order[i]
        row = []
        for c in rep:
            n = step(s, c)
            j = idx.get(n)
            if j is None:
                j = idx[n] = len(order)
                order.append(n)
                if len(order) > limit:
                    raise OverflowError("automaton too large")
            row.append(j)
        t.append(row)
        i += 1
    return minimise(k, t, [bool(accept(s)) for s in order], cl)


def determinise(k, starts, step, eps, accept, of=None):
    """subset construction: step(s,c)->iterable, eps(s)->iterable"""
    ememo = {}

    def close(ss):
        seen = set(ss)
        st = list(ss)
        while st:
            s = st.pop()
            if s not in ememo:
                ememo[s] = list(eps(s))
            for n in ememo[s]:
                if n not in seen:
                    seen.add(n)
                    st.append(n)
        return frozenset(seen)
    memo = {}

    def stp(s, c):
        out = set()
        for q in s:
            key = (q, c)
            r = memo.get(key)
            if r is None:
                r = memo[key] = list(step(q, c))
            out.update(r)
        return close(out)
    return explore(k, close(starts), stp, lambda s: any(accept(q) for q in s), of=of)


def minimise(k, t, acc, cl):
    """t: rows over symbol classes cl; unreachable states are never created; partition refinement"""
    n = len(t)
    # columns that are equal need not be compared twice
    ids = {}
    col = [ids.setdefault(c, len(ids)) for c in zip(*t)]
    keep = [col.index(x) for x in range(len(ids))]
    cl = [col[x] for x in cl]
    t = [[row[x] for x in keep] for row in t] if len(keep) < len(col) else t
    cls = [1 if a else 0 for a in acc]
    count = len(set(cls))
    while True:
        sig = {}
        new = []
        for s in range(n):
            key = (cls[s],) + tuple([cls[x] for x in t[s]])
            j = sig.get(key)
            if j is None:
                j = sig[key] = len(sig)
            new.append(j)
        if len(sig) == count:
            break
        count = len(sig)
        cls = new
    # renumber from the start
    order = []
    idx = {}
    rep = {}
    for s in range(n):
        rep.setdefault(cls[s], s)
    dq = deque([cls[0]])
    idx[cls[0]] = 0
    order.append(cls[0])
    while dq:
        c = dq.popleft()
        for x in t[rep[c]]:
            if cls[x] not in idx:
                idx[cls[x]] = len(order)
                order.append(cls[x])
                dq.append(cls[x])
    small = [[idx[cls[x]] for x in t[rep[c]]] for c in order]
    full = [[row[c] for c in cl] for row in small]
    return DFA(k, full, [acc[rep[c]] for c in order])


def product(a, b, op):
    ta, tb, aa, ba = a.t, b.t, a.acc, b.acc
    return explore(a.k, (0, 0), lambda s, c: (ta[s[0]][c], tb[s[1]][c]), lambda s: op(aa[s[0]], ba[s[1]]), of=[a, b])


def inter(a, b):
    return product(a, b, lambda x, y: x and y)


def union(a, b):
    return product(a, b, lambda x, y: x or y)


def diff(a, b):
    return product(a, b, lambda x, y: x and not y)


def complement(a):
    return DFA(a.k, a.t, [not x for x in a.acc], a._cols)


def witness(a):
    """a shortest accepted word, or None"""
    if a.acc[0]:
        return []
    prev = {0: None}
    dq = deque([0])
    while dq:
        s = dq.popleft()
        for c in range(a.k):
            n = a.t[s][c]
            if n not in prev:
                prev[n] = (s, c)
                if a.acc[n]:
                    w = []
                    while prev[n] is not None:
                        n, c = prev[n]
                        w.append(c)
                    return w[::-1]
                dq.append(n)
    return None


def empty(a):
    return witness(a) is None


def equal(a, b):
    return witness(product(a, b, lambda x, y: x != y)) is None


def subset(a, b):
    return witness(diff(a, b)) is None


class Alpha:
    """partition of the characters"""

    # representative characters beyond ASCII: white space, letter, digit, something else
    NONASCII = ["\u3000", "\u00e9", "\u0663", "\u20ac"]

    def __init__(self, sets):
        """sets: iterable of python sets of representatives (characters)"""
        reps = [chr(i) for i in range(128)] + self.NONASCII
        sets = [frozenset(s) for s in sets]
        cls = {}
        for c in reps:
            cls.setdefault(tuple(c in s for s in sets), []).append(c)
        self.classes = [frozenset(v) for v in cls.values()]
        self.n = len(self.classes)
        self.k = self.n + 1
        self.M = self.n
        self.of = {c: i for i, v in enumerate(self.classes) for c in v}

    def syms(self, s):
        r = {self.of[c] for c in s}
        for i in r:
            assert self.classes[i] <= frozenset(s), "character set splits a class"
        return r

    def text(self, w):
        out = []
        for c in w:
            if c == self.M:
                out.append("\u2588")
                continue
            v = sorted(self.classes[c], key=lambda x: (not x.isalnum(), not x.isprintable(), x))
            x = v[0]
            out.append(x)
        return "".join(out)

    # ---- regular expressions over characters -> DFA without markers
    def lang(self, r):
        """r: ('set', chars) | ('lit', text) | ('cat', ...) | ('or', ...) | ('star', r) | ('plus', r) | ('opt', r) | ('eps',) | ('any',) | ('void',)
        | ('and', a, b) | ('minus', a, b) | ('dfa', DFA)"""
        k = r[0]
        if k == "set":
            ss = self.syms(r[1])
            return explore(self.k, 0, lambda s, c: 1 if s == 0 and c in ss else 2, lambda s: s == 1)
        if k == "lit":
            w = [self.of[c] for c in r[1]]
            for c in r[1]:
                assert len(self.classes[self.of[c]]) == 1, "literal character %r shares its class" % c
            return explore(self.k, 0, lambda s, c: s + 1 if s is not None and s < len(w) and c == w[s] else None, lambda s: s == len(w))
        if k == "eps":
            return explore(self.k, 0, lambda s, c: 1, lambda s: s == 0)
        if k == "void":
            return explore(self.k, 0, lambda s, c: 0, lambda s: False)
        if k == "any":
            return explore(self.k, 0, lambda s, c: 0 if s == 0 and c != self.M else 1, lambda s: s == 0)
        if k == "dfa":
            return r[1]
        if k == "cat":
            d = self.lang(r[1])
            for x in r[2:]:
                d = self.concat(d, self.lang(x))
            return d
        if k == "or":
            d = self.lang(r[1])
            for x in r[2:]:
                d = union(d, self.lang(x))
            return d
        if k == "and":
            return inter(self.lang(r[1]), self.lang(r[2]))
        if k == "minus":
            return diff(self.lang(r[1]), self.lang(r[2]))
        if k == "star":
            return self.star(self.lang(r[1]))
        if k == "plus":
            d = self.lang(r[1])
            return self.concat(d, self.star(d))
        if k == "opt":
            return union(self.lang(r[1]), self.lang(("eps",)))
        raise ValueError(k)

    def concat(self, a, b):
        aa, ba = co_reach(a, True), co_reach(b, True)

        def step(s, c):
            n = (a if s[0] == 0 else b).t[s[1]][c]
            return [(s[0], n)] if (aa if s[0] == 0 else ba)[n] else []
        return determinise(self.k, [(0, 0)], step, lambda s: [(1, 0)] if s[0] == 0 and a.acc[s[1]] else [], lambda s: s[0] == 1 and b.acc[s[1]], of=[a, b])

    def star(self, a):
        aa = co_reach(a, True)
        return determinise(self.k, [-1], lambda s, c: [] if s == -1 or not aa[a.t[s][c]] else [a.t[s][c]], lambda s: [0] if s == -1 or a.acc[s] else [],
                           lambda s: s == -1 or a.acc[s], of=[a])

    # ---- marked languages
    def freely_marked(self, a):
        """words of a with one marker inserted anywhere"""
        return explore(self.k, (0, 0), lambda s, c: (s[0], s[1] + 1) if c == self.M and s[1] < 2 else (a.t[s[0]][c] if c != self.M else s[0], s[1]),
                       lambda s: s[1] == 1 and a.acc[s[0]], of=[a])

    def unmarked(self, s):
        """the inputs xy of the words x#y"""
        sa = co_reach(s, True)
        return determinise(self.k, [0], lambda q, c: [s.t[q][c]] if c != self.M and sa[s.t[q][c]] else [],
                           lambda q: [s.t[q][self.M]] if sa[s.t[q][self.M]] else [], lambda q: s.acc[q], of=[s])

    def suffixes(self, a):
        aa = co_reach(a, True)
        live = reach(a)
        return determinise(self.k, [s for s in range(a.n) if aa[s] and live[s]], lambda q, c: [a.t[q][c]] if c != self.M and aa[a.t[q][c]] else [],
                           lambda q: [], lambda q: a.acc[q], of=[a])

    def front_marked(self, a):
        """#y for y in a"""
        return explore(self.k, -1, lambda s, c: (0 if c == self.M else -2) if s == -1 else (-2 if s == -2 or c == self.M else a.t[s][c]),
                       lambda s: s >= 0 and a.acc[s], of=[a])

    def then_any(self, a):
        """{x#y : x in a, y any}"""
        return self.concat(self.concat(a, self.mark()), self.lang(("any",)))

    def mark(self):
        return explore(self.k, 0, lambda s, c: 1 if s == 0 and c == self.M else 2, lambda s: s == 1)

    def seq(self, p, q):
        """{x1 x2 # y : x1#x2y in p, x2#y in q}"""
        M = self.M
        pa, qa = co_reach(p, True), co_reach(q, True)

        def ok(l):
            return [x for x in l if pa[x[1]] and (x[0] == 0 or qa[x[2]])]

        def step(s, c):
            if s[0] == 0:
                return [] if c == M else ok([(0, p.t[s[1]][c])])
            if c == M:
                return ok([(1, s[1], q.t[s[2]][M])])
            return ok([(1, p.t[s[1]][c], q.t[s[2]][c])])
        return determinise(self.k, [(0, 0)], step, lambda s: ok([(1, p.t[s[1]][M], 0)]) if s[0] == 0 else [],
                           lambda s: s[0] == 1 and p.acc[s[1]] and q.acc[s[2]], of=[p, q])

    def seq_fail(self, p, e):
        """{x z : x#z in p, z in e}"""
        M = self.M
        pa, qa = co_reach(p, True), co_reach(e, True)

        def ok(l):
            return [x for x in l if pa[x[1]] and (x[0] == 0 or qa[x[2]])]

        def step(s, c):
            if c == M:
                return []
            if s[0] == 0:
                return ok([(0, p.t[s[1]][c])])
            return ok([(1, p.t[s[1]][c], e.t[s[2]][c])])
        return determinise(self.k, [(0, 0)], step, lambda s: ok([(1, p.t[s[1]][M], 0)]) if s[0] == 0 else [],
                           lambda s: s[0] == 1 and p.acc[s[1]] and e.acc[s[2]], of=[p, e])

    def consuming(self, p):
        """words x#y of p with x non-empty"""
        return explore(self.k, (0, 0), lambda s, c: self._cons(p, s, c), lambda s: s[1] == 1 and p.acc[s[0]], of=[p])

    def _cons(self, p, s, c):
        q, f = s
        if f == 0:
            f = 2 if c == self.M else 1
        return (p.t[q][c], f)

    def idle(self, p):
        """the inputs y with #y in p"""
        s = p.t[0][self.M]
        return explore(self.k, s, lambda q, c: p.t[q][c] if c != self.M and q is not None else None, lambda q: q is not None and p.acc[q], of=[p])

    def many(self, p, e):
        """(success, error) languages of repeating p until it errs (on e); succeeding without consuming is an error"""
        M = self.M
        pc = self.consuming(p)
        idle = self.idle(p)
        D = [pc, e, idle]
        # states from which everything / nothing is accepted, to keep obligations small
        alive = []
        full = []
        for d in D:
            alive.append(co_reach(d, True))
            full.append([not x for x in co_reach(complement(d), True)])

        def norm(obl):
            out = set()
            for (i, s) in obl:
                if not alive[i][s]:
                    return None
                if not unmarked_full(D[i], s, M, full[i]):
                    out.add((i, s))
            return frozenset(out)
        fullcache = {}

        def unmarked_full(d, s, M, f):
            key = (id(d), s)
            if key not in fullcache:
                # all continuations without a further marker accepted
                seen = {s}
                st = [s]
                okk = True
                while st and okk:
                    x = st.pop()
                    if not d.acc[x]:
                        okk = False
                        break
                    for c in range(d.k):
                        if c != M and d.t[x][c] not in seen:
                            seen.add(d.t[x][c])
                            st.append(d.t[x][c])
                fullcache[key] = okk
            return fullcache[key]

        def adv(obl, c):
            return norm({(i, D[i].t[s][c]) for (i, s) in obl})

        def build(final, marked):
            # state: (phase, q, obligations); phase 0: between segments, 1: inside, 2: after the marker / at the end
            def eps(s):
                if s[0] == 0:
                    out = [(1, 0, s[2])]
                    if not marked:
                        o = norm(set(s[2]) | {(final, 0)})
                        if o is not None:
                            out.append((2, 0, o))
                    return out
                if s[0] == 1:
                    o = norm(set(s[2]) | {(0, pc.t[s[1]][M])})
                    return [(0, 0, o)] if o is not None else []
                return []

            def step(s, c):
                if c == M:
                    if marked and s[0] == 0:
                        o = norm(set(s[2]) | {(final, 0)})
                        return [(2, 0, o)] if o is not None else []
                    return []
                if s[0] == 0:
                    return []
                o = adv(s[2], c)
                if o is None:
                    return []
                if s[0] == 1:
                    q = pc.t[s[1]][c]
                    return [(1, q, o)] if alive[0][q] else []
                return [(2, 0, o)]
            return determinise(self.k, [(0, 0, frozenset())], step, eps, lambda s: s[0] == 2 and all(D[i].acc[x] for i, x in s[2]), of=D)
        return build(1, True), build(2, False)

    def longest(self, r):
        """{x#y : x in r, and no longer prefix of xy is in r}"""
        M = self.M
        dead = [not x for x in co_reach(r, True)]

        def step(s, c):
            ph, q = s
            if ph == 0:
                if c == M:
                    return (1, q) if r.acc[q] else (2, 0)
                return (0, r.t[q][c])
            if ph == 1:
                if c == M:
                    return (2, 0)
                if q is None:
                    return s
                n = r.t[q][c]
                if r.acc[n]:
                    return (2, 0)
                return (1, None if dead[n] else n)
            return (2, 0)
        return explore(self.k, (0, 0), step, lambda s: s[0] == 1, of=[r])


def reach(d):
    seen = [False] * d.n
    seen[0] = True
    st = [0]
    while st:
        for x in d.t[st.pop()]:
            if not seen[x]:
                seen[x] = True
                st.append(x)
    return seen


def co_reach(d, val):
    """states from which an accepting state can be reached"""
    rev = [[] for _ in range(d.n)]
    for s in range(d.n):
        for x in d.t[s]:
            rev[x].append(s)
    ok = [a == val for a in d.acc]
    st = [s for s in range(d.n) if ok[s]]
    while st:
        s = st.pop()
        for p in rev[s]:
            if not ok[p]:
                ok[p] = True
                st.append(p)
    return ok


def complement_inputs(A, a):
    """the unmarked words that are not in a"""
    return diff(A.lang(("any",)), a)
