"""Terms of the abstract domain and their normal forms. Terms are tuples, first item is the tag."""

UNIT = ("unit",)
TRUE = ("bool", True)
FALSE = ("bool", False)


def S(s):
    return ("str", s)


def I(n):
    return ("int", n)


def adt(path, variant, fields):
    return ("adt", path, variant, tuple(fields))


def some(v):
    return ("adt", "Option", "Some", (("0", v),))


NONE = ("adt", "Option", "None", ())


def ok(v):
    return ("adt", "Result", "Ok", (("0", v),))


def err(v):
    return ("adt", "Result", "Err", (("0", v),))


def call(name, *args):
    return ("call", name) + args


# ---------------------------------------------------------------- strings / token streams
def cat_items(v):
    if v[0] == "cat":
        return v[1:]
    if v[0] == "str":
        return (v,) if v[1] else ()
    if v[0] == "char":
        return (S(v[1]),)
    return (v,)


def cat(*vs):
    out = []
    for v in vs:
        for it in cat_items(v):
            if it[0] == "str" and out and out[-1][0] == "str":
                out[-1] = S(out[-1][1] + it[1])
            else:
                out.append(it)
    if not out:
        return S("")
    if any(o[0] == "each" for o in out[1:]):
        out = head_tail(out)
    if len(out) == 1 and out[0][0] != "each":
        return out[0]
    return ("cat",) + tuple(out)


def replace_term(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(replace_term(x, a, b) for x in t)
    if isinstance(t, frozenset):
        return frozenset(replace_term(x, a, b) for x in t)
    return t


def at(v, i):
    """the i-th element of a sequence or of an iterator over it"""
    while v[0] == "it":
        v = v[1]
    return ("at", v, i)


def head_tail(out):
    """f(x[0]) followed by sep, f(x) for the rest of xs  ==  f of every x, sep between"""
    res = []
    for it in out:
        done = False
        if it[0] == "each" and len(it[2]) == 1 and not it[2][0][0] and res:
            src = it[1]
            S0 = None
            if src[0] == "skip" and src[2] == I(1) and src[1][0] == "it":
                S0 = src[1]
            elif src[0] == "it" and src[1][:2] == ("call", "tail"):
                S0 = ("it", src[1][2])
            if S0 is not None:
                ps = it[2][0][1]
                e = ("elem", src)
                for k in range(len(ps)):
                    sep, f = ps[:k], ps[k:]
                    f0 = tuple(replace_term(x, e, at(S0, I(0))) for x in f)
                    if f0 == f or len(res) < len(f0) or tuple(res[len(res) - len(f0):]) != f0:
                        continue
                    del res[len(res) - len(f0):]
                    f1 = tuple(replace_term(x, e, ("elem", S0)) for x in f)
                    if sep:
                        lp = ("lastp", S0)
                        j = f1 + sep
                        if f1[-1][0] == "str" and sep[0][0] == "str":
                            j = f1[:-1] + (S(f1[-1][1] + sep[0][1]),) + sep[1:]
                        new = mk_each(S0, [(frozenset({(lp, True)}), f1), (frozenset({(lp, False)}), j)], "cat")
                    else:
                        new = mk_each(S0, [(frozenset(), f1)], "cat")
                    res.extend(new)
                    done = True
                    break
        if not done:
            res.append(it)
    return res


# ---------------------------------------------------------------- sequences
def seq_items(v):
    if v[0] == "seq":
        return v[1:]
    return (("spl", v),)


def seq(items):
    items = tuple(items)
    if len(items) == 1 and items[0][0] == "spl":
        return items[0][1]
    return ("seq",) + items


def seq_of(*vals):
    return ("seq",) + tuple(("one", v) for v in vals)


def seq_cat(a, b):
    return seq(seq_items(a) + seq_items(b))


def seq_known(v):
    """list of element values if the sequence is fully known"""
    if v[0] == "seq" and all(i[0] == "one" for i in v[1:]):
        return [i[1] for i in v[1:]]
    return None


# ---------------------------------------------------------------- each
def merge_alts(alts, variants=None):
    """alts: list of (conds(frozenset of (atom,val)), payload). Merge complementary alternatives."""
    alts = list(dict.fromkeys(alts))
    changed = True
    while changed:
        changed = False
        for i in range(len(alts)):
            for j in range(i + 1, len(alts)):
                a, b = alts[i], alts[j]
                if a[1] != b[1]:
                    continue
                if a[0] <= b[0]:
                    alts.pop(j)
                    changed = True
                    break
                if b[0] <= a[0]:
                    alts.pop(i)
                    changed = True
                    break
                da, db = a[0] - b[0], b[0] - a[0]
                if len(da) == 1 and len(db) == 1:
                    (x, vx), = da
                    (y, vy), = db
                    if x == y:
                        m = merge_vals(x, vx, vy, variants)
                        if m is not None:
                            rest = a[0] & b[0]
                            if m is not True:
                                rest = rest | {(x, m[0])}
                            alts[i] = (frozenset(rest), a[1])
                            alts.pop(j)
                            changed = True
                            break
                    # {p} and {q, not p}  ->  {p} or {q}: keep
            if changed:
                break
    return alts


def merge_vals(atom, a, b, variants):
    """True: total; (val,): merged value; None: cannot merge"""
    if isinstance(a, bool) and isinstance(b, bool):
        return True if a != b else (a,)
    univ = None
    if variants:
        univ = variants.get(atom)

    def setof(v):
        if isinstance(v, tuple) and v and v[0] == "!":
            return ("!", v[1])
        if isinstance(v, tuple) and v and v[0] == "|":
            return ("|", v[1])
        return ("|", frozenset([v]))
    ka, sa = setof(a)
    kb, sb = setof(b)
    if ka == "!" and kb == "!":
        r = sa & sb
        return True if not r else (("!", r),)
    if ka == "!" or kb == "!":
        neg, pos = (sa, sb) if ka == "!" else (sb, sa)
        r = neg - pos
        return True if not r else (("!", r),)
    r = sa | sb
    if univ and r >= univ:
        return True
    return (("|", r),)


def mk_each(src, alts, kind, variants=None):
    """items of `for x in src { alternatives }` appended to a string ('cat') or sequence ('seq')."""
    alts = [(frozenset(c), tuple(p)) for c, p in alts if p]
    if not alts:
        return ()
    alts = merge_alts(alts, variants)
    alts = canon_sep(src, alts)
    if kind == "seq" and len(alts) == 1 and not alts[0][0]:
        p = alts[0][1]
        if p == (("one", ("elem", src)),) and src[0] == "it":
            return (("spl", src[1]),)
    alts = tuple(sorted(((tuple(sorted(c, key=repr)), p) for c, p in alts), key=repr))
    return (("each", src, alts),)


def canon_sep(src, alts):
    """separators written before every element but the first == after every element but the last"""
    fp = ("firstp", src)
    lp = ("lastp", src)
    if not any((fp, True) in c for c, _ in alts) or not any((fp, False) in c for c, _ in alts):
        return alts
    by = {}
    for c, p in alts:
        rest = frozenset(x for x in c if x[0] != fp)
        v = [x[1] for x in c if x[0] == fp]
        if len(v) != 1:
            return alts
        by.setdefault(rest, {})[v[0]] = p
    out = []
    seps = set()
    for rest, d in by.items():
        if set(d) != {True, False}:
            return alts
        a, b = d[True], d[False]
        # split b = sep + a; constants may have been merged across the border
        sep = None
        if len(b) > len(a) and b[len(b) - len(a):] == a:
            sep = b[:len(b) - len(a)]
        elif a and b and len(b) >= len(a) and a[0][0] == "str" and b[len(b) - len(a)][0] == "str" and \
                b[len(b) - len(a)][1].endswith(a[0][1]) and b[len(b) - len(a) + 1:] == a[1:]:
            k = len(b) - len(a)
            sep = b[:k] + (S(b[k][1][:len(b[k][1]) - len(a[0][1])]),)
        if not sep:
            return alts
        seps.add(sep)
        out.append((rest | {(lp, True)}, a))
        out.append((rest | {(lp, False)}, cat(*(a + sep))[1:] if cat(*(a + sep))[0] == "cat" else (cat(*(a + sep)),)))
    if len(seps) != 1:
        return alts
    return out


# ---------------------------------------------------------------- arithmetic
def add(a, b):
    if a[0] == "int" and b[0] == "int":
        return I(a[1] + b[1])
    if a[0] == "int":
        a, b = b, a
    if b == I(0):
        return a
    if b[0] == "int" and a[0] == "add" and a[2][0] == "int":
        return add(a[1], I(a[2][1] + b[1]))
    if b[0] != "int" and a[0] != "add" and repr(b) < repr(a):
        a, b = b, a
    return ("add", a, b)


def sub(a, b):
    if b[0] == "int":
        return add(a, I(-b[1]))
    if a == b:
        return I(0)
    return ("sub", a, b)


def length(v):
    if v[0] == "seq":
        n = 0
        acc = None
        for it in v[1:]:
            if it[0] == "one":
                n += 1
            elif it[0] == "spl":
                acc = length(it[1]) if acc is None else add(acc, length(it[1]))
            elif it[0] == "each" and len(it[2]) == 1 and not it[2][0][0] and all(p[0] == "one" for p in it[2][0][1]) \
                    and len(it[2][0][1]) == 1:
                c = count(it[1])
                acc = c if acc is None else add(acc, c)
            else:
                c = ("len", ("seq", it))
                acc = c if acc is None else add(acc, c)
        return I(n) if acc is None else add(acc, I(n))
    if v[0] == "str":
        return I(len(v[1].encode()))
    return ("len", v)


def count(src):
    k = src[0]
    if k == "it":
        return length(src[1])
    if k in ("rev",):
        return count(src[1])
    if k == "range":
        if src[1] == I(0):
            return src[2]
        return sub(src[2], src[1])
    if k == "map" or k == "enumerate":
        return count(src[1])
    if k == "chain":
        return add(count(src[1]), count(src[2]))
    if k == "once":
        return I(1)
    if k in ("empty", "emptyit"):
        return I(0)
    if k == "skip":
        return ("subsat", count(src[1]), src[2])
    return ("count", src)


def bnot(t):
    if t[0] == "bool":
        return ("bool", not t[1])
    if t[0] == "not":
        return t[1]
    return ("not", t)


def empty(v):
    if v[0] == "seq":
        if len(v) == 1:
            return TRUE
        if any(i[0] == "one" for i in v[1:]):
            return FALSE
        if len(v) == 2 and v[1][0] == "spl":
            return empty(v[1][1])
        if len(v) == 2 and v[1][0] == "each" and len(v[1][2]) == 1 and not v[1][2][0][0] and \
                any(p[0] == "one" for p in v[1][2][0][1]) and v[1][1][0] == "it":
            return empty(v[1][1][1])
    if v[0] == "str":
        return ("bool", v[1] == "")
    if v[0] == "cat" and any(i[0] == "str" for i in v[1:]):
        return FALSE
    return ("empty", v)


def empty_src(src):
    if src[0] == "it":
        return empty(src[1])
    if src[0] in ("map", "rev", "enumerate"):
        return empty_src(src[1])
    if src[0] in ("empty", "emptyit"):
        return TRUE
    if src[0] == "once":
        return FALSE
    if src[0] == "skip":
        # nothing left after skipping n of src
        return ("not", lt(src[2], count(src[1]))) if lt(src[2], count(src[1]))[0] not in ("bool",) else bnot(lt(src[2], count(src[1])))
    if src[0] == "chain":
        return ("and", empty_src(src[1]), empty_src(src[2]))
    return ("empty", src)


def lt(a, b):
    if a[0] == "int" and b[0] == "int":
        return ("bool", a[1] < b[1])
    if a == I(0) and b[0] == "len":
        return bnot(empty(b[1]))
    if b == I(1) and a[0] == "len":
        return empty(a[1])
    if a == I(0) and b[0] == "idx":
        return ("not", ("firstp", b[1]))
    if b == I(0) and a[0] in ("len", "idx", "count"):
        return FALSE
    if b == I(1) and a[0] == "idx":
        return ("firstp", a[1])
    if a == b:
        return FALSE
    if a[0] == "idx" and b == count(a[1]):
        return TRUE
    if a[0] == "ridx" and a[1][0] == "range" and b == a[1][2]:
        return TRUE
    if a == I(0) and b[0] == "subsat":
        return lt(b[2], b[1])
    if a == I(0) and after_range(b):
        return TRUE
    if a[0] == "idx" and b[0] == "add" and b[2] == I(-1) and b[1] == count(a[1]):
        return ("not", ("lastp", a[1]))
    if a[0] == "add" and a[1][0] == "idx" and a[2] == I(1) and b == count(a[1][1]):
        return ("not", ("lastp", a[1][1]))
    return ("lt", a, b)


def after_range(t):
    """an element of a range of counts, plus something"""
    return t[0] == "add" and t[2][0] == "int" and t[2][1] > 0 and t[1][0] in ("elem", "ridx", "idx") and \
        (t[1][0] == "idx" or t[1][1][0] == "rev" and t[1][1][1][0] == "range" or t[1][1][0] == "range")


LOCKS = ("lock", "read", "write")      # calls whose failure is a poisoned lock


def eq(a, b):
    if a == b:
        return TRUE
    if a == I(0) and after_range(b) or b == I(0) and after_range(a):
        return FALSE
    if a[0] in ("int", "str", "char", "bool", "unit") and b[0] == a[0]:
        return FALSE
    if a[0] == "bool":
        a, b = b, a
    if b == TRUE:
        return a
    if b == FALSE:
        return bnot(a)
    if a[0] in ("int", "str", "char"):
        a, b = b, a
    if b == I(0):
        if a[0] == "len":
            return empty(a[1])
        if a[0] == "idx":
            return ("firstp", a[1])
        if a[0] == "subsat":
            return bnot(lt(a[2], a[1]))
    if b == S("") :
        return empty(a)
    if a[0] == "add" and a[1][0] == "idx":
        if a[2] == I(1) and b == count(a[1][1]):
            return ("lastp", a[1][1])
    for x, y in ((a, b), (b, a)):
        if x[0] == "idx" and y[0] == "add" and y[2] == I(-1) and y[1] == count(x[1]):
            return ("lastp", x[1])
    if a[0] == "adt" and b[0] == "adt":
        if a[2] != b[2]:
            return FALSE
        if not a[3] and not b[3]:
            return TRUE
    if b[0] not in ("int", "str", "char") and repr(b) < repr(a):
        a, b = b, a
    return ("eq", a, b)


# ---------------------------------------------------------------- printing
def show(t, depth=12):
    if not isinstance(t, tuple):
        return str(t)
    if depth == 0:
        return "…"
    d = depth - 1
    k = t[0] if t else ""
    if k == "str":
        return repr(t[1])
    if k in ("int", "bool", "char"):
        return repr(t[1])
    if k == "unit":
        return "()"
    if k == "arg":
        return "arg%s" % t[1]
    if k == "fld":
        return "%s.%s" % (show(t[1], d), t[2])
    if k == "dc":
        return "(%s as %s)" % (show(t[1], d), t[2])
    if k == "call":
        return "%s(%s)" % (t[1], ", ".join(show(x, d) for x in t[2:]))
    if k == "adt":
        f = ", ".join("%s: %s" % (n, show(v, d)) for n, v in t[3])
        return "%s%s" % (t[2], "{%s}" % f if f else "")
    if k == "cat":
        return " ++ ".join(show(x, d) for x in t[1:])
    if k == "seq":
        return "[%s]" % ", ".join(show(x[1], d) if x[0] == "one" else ("..%s" % show(x[1], d) if x[0] == "spl" else show(x, d)) for x in t[1:])
    if k == "one":
        return show(t[1], d)
    if k == "spl":
        return ".." + show(t[1], d)
    if k == "countif" and len(t) == 3:
        return "count of %s where %s" % (show(t[1], d), " or ".join(showc(c, d) for c, _ in t[2]))
    if k == "each":
        al = " | ".join("%s => %s" % (showc(c, d) if c else "*", " ".join(show(p, d) for p in ps)) for c, ps in t[2])
        return "each(%s){%s}" % (show(t[1], d), al)
    if k == "elem":
        return "elem<%s>" % show(t[1], d)
    if k == "idx":
        return "idx<%s>" % show(t[1], d)
    if k == "it":
        return show(t[1], d)
    if k == "clo":
        return "closure(%s)" % t[1].split("::", 1)[-1]
    if k == "ref":
        return "&%s%s" % (t[1][-1] if t[1] else "", t[2] if t[2] else "")
    if k == "tup":
        return "(%s)" % ", ".join(show(x, d) for x in t[1:])
    return "%s(%s)" % (k, ", ".join(show(x, d) for x in t[1:]))


def showc(conds, d=8):
    return " & ".join("%s%s" % ("" if v is True else ("!" if v is False else ""), show(a, d) + ("" if isinstance(v, bool) else "=%s" % (showv(v),))) for a, v in conds)


def showv(v):
    if isinstance(v, tuple) and v and v[0] == "!":
        return "not{%s}" % ",".join(sorted(map(str, v[1])))
    if isinstance(v, tuple) and v and v[0] == "|":
        return "{%s}" % ",".join(sorted(map(str, v[1])))
    return str(v)
