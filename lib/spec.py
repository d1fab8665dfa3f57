"""Comparing outcome tables with specifications."""
import itertools
from .terms import *


def matches(fact, val):
    """may the atom have value val, given the fact recorded for it (None: unknown)"""
    if fact is None:
        return True
    if isinstance(fact, tuple) and fact and fact[0] == "!":
        return val not in fact[1]
    if isinstance(fact, tuple) and fact and fact[0] == "|":
        return val in fact[1]
    return fact == val


def completions(o, atoms):
    """assignments of the specification's atoms an outcome may be reached under; atoms: name -> (term, values)"""
    names = list(atoms)
    for vs in itertools.product(*[atoms[n][1] for n in names]):
        if all(matches(o.st.facts.get(atoms[n][0]), v) for n, v in zip(names, vs)):
            yield dict(zip(names, vs))


def rewrite(t, f):
    """bottom-up, with frozensets"""
    if isinstance(t, tuple):
        return f(tuple(rewrite(x, f) if isinstance(x, (tuple, frozenset)) else x for x in t))
    if isinstance(t, frozenset):
        return frozenset(rewrite(x, f) for x in t)
    return t


def facts_str(o, n=400):
    s = " & ".join("%s=%s" % (show(a, 7), showv(v)) for a, v in o.st.facts.items()) or "always"
    return s[:n]


def table(r, rule, subj, outs, atoms, spec, actual, where=None, allow_panic=None):
    """every outcome must be what the specification says for every assignment it is reachable under.
    spec(assign) -> list of accepted values (or a predicate); actual(outcome, assign) -> value"""
    n = 0
    good = True
    covered = set()
    for o in outs:
        if o.kind == "panic":
            if allow_panic and allow_panic(o):
                continue
            r.bad(rule, subj, "may panic when %s: %s" % (facts_str(o), show(o.val)[:200]), where)
            good = False
            continue
        for a in completions(o, atoms):
            n += 1
            covered.add(tuple(sorted(a.items())))
            acc = spec(a)
            v = actual(o, a)
            okv = acc(v) if callable(acc) else v in acc
            if not okv:
                want = "" if callable(acc) else "; expected %s" % " or ".join(showx(x)[:300] for x in acc)
                r.bad(rule, subj, "when %s (%s): does %s%s" % (
                    ", ".join("%s=%s" % kv for kv in a.items()), facts_str(o, 300), showx(v)[:500], want), where)
                good = False
                break
    r.count("decision_table_rows", n)
    if good:
        r.ok(rule, subj)
    return good


def showx(v):
    if isinstance(v, (list, tuple)) and not (v and isinstance(v[0], str)):
        return "[" + ", ".join(showx(x) for x in v) + "]"
    if isinstance(v, tuple):
        return show(v)
    return str(v)
