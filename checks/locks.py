"""Locks and cell borrows: which are held where, and what runs while they are.

For every body: which locals may hold a guard (a forward may-analysis over the MIR, guards found in the types owned by a local), and which
terminators run while one is held. For every function: which locks it may acquire, through calls, closures it is given, trait
implementations chosen by the bounds of a foreign callee, destructors of what is dropped, and initialisers of lazy values."""
import re
from checks.mgr import prog
from lib.prog import succs, strip_generics, short

CRATES = ("stylist_core", "stylist")
MOMENTARY = re.compile(r"(?:RefCell|Mutex|RwLock)(?:<.*>)?::(replace|replace_with|swap|take|set|get_cloned)$")
LAZY = re.compile(r"^&*(?:mut )?(?:once_cell::(?:un)?sync|std::(?:sync|cell))::Lazy(?:Lock|Cell)?<(.*)>$")
IMPLIED = {"TryInto": ("TryFrom", "TryInto", "From", "Into"), "Into": ("From", "Into"), "ToString": ("Display", "ToString"),
           "ToOwned": ("Clone", "ToOwned"), "IntoIterator": ("IntoIterator", "Iterator")}
SHARED = ("Ref", "RwLockReadGuard")


def first_arg(s):
    d = 0
    for i, c in enumerate(s):
        if c == "<" or c == "(":
            d += 1
        elif c == ">" or c == ")":
            d -= 1
        elif c == "," and d == 0:
            return s[:i]
    return s


class Effects:
    def __init__(self, P):
        self.P = P
        self.own = {}
        self.eff = {}          # fn id -> {atom: witness}
        self.adt_ids = {}
        self.lazy_init = {}
        self.sites = {}
        for f in P.fns():
            if f["crate"] in CRATES:
                self.own[f.id] = {repr(p): o for p, o in f["body"]["own"]}
        for f in P.fns():
            if f["crate"] in CRATES:
                self.find_lazy(f)
        for f in P.fns():
            if f["crate"] in CRATES:
                self.sites[f.id] = self.site_list(f)
                self.eff[f.id] = {}
        self.solve()

    # ---- facts of one body
    def owned(self, f, place):
        o = self.own[f.id].get(repr(place))
        return o or {"guards": [], "drops": [], "flags": []}

    def find_lazy(self, f):
        for bl in f["body"]["blocks"]:
            t = bl["t"]
            if t[0] == "call" and isinstance(t[1], dict) and t[1].get("name") == "new":
                m = LAZY.match(t[1].get("self", "")) if "self" in t[1] else None
                if re.search(r"::Lazy(Lock|Cell)?$", strip_generics(t[1].get("path", "")).rsplit("::", 1)[0]) and t[1].get("args"):
                    self.lazy_init.setdefault(t[1]["args"][0], set()).update(
                        c for c in self.P.calls(f) if c in self.P.items and self.P.items[c]["kind"] == "Closure" or c in self.P.items and c != f.id)

    def implementations(self, trait, adts):
        last = trait.split("<")[0].split("::")[-1]
        names = IMPLIED.get(last, (last,))
        shorts = {a.split("::")[-1] for a in adts}
        out = []
        for im in self.P.impls:
            if im["crate"] not in CRATES:
                continue
            t = im["impl"].get("trait")
            if not t or t.split("::")[-1] not in names:
                continue
            txt = im["impl"]["self"] + " " + " ".join(im["impl"].get("targs") or [])
            if any(re.search(r"\b%s\b" % re.escape(x), txt) for x in shorts):
                out += [i for _, i in im["items"] if i in self.P.items and "body" in self.P.items[i]]
        return out

    def bound_atoms(self, f):
        """what a call may run through the bounds of its callee: ("fn", id) | ("param",) | ("dyn", text)"""
        out = set()
        for trait, adts, code, flags in f.get("bounds") or []:
            for c in code:
                if c in self.P.items:
                    out.add(("fn", c))
            if trait == "drop":
                continue
            for i in self.implementations(trait, adts):
                out.add(("fn", i))
            std = re.match(r"std::ops::(Try|FromResidual|Residual)\b", trait)
            for x in flags:
                if x == "param" and not std:
                    out.add(("param",))
                elif x == "fnptr" and trait.startswith("std::ops::Fn"):
                    out.add(("dyn", "a function pointer"))
                elif x.startswith("dyn") and "Fn" in x and not std:
                    out.add(("dyn", x))
        return out

    def site_list(self, f):
        """[(block, kind, atoms, where, callee)] for the terminators that run something"""
        out = []
        b = f["body"]
        for i, bl in enumerate(b["blocks"]):
            if bl["c"]:
                continue
            t = bl["t"]
            if t[0] == "drop":
                o = self.owned(f, t[1])
                at = {("fn", d) for d in o["drops"] if d in self.P.items}
                if "param" in o["flags"]:
                    at.add(("param",))
                if at:
                    out.append((i, "drop", at, None, None))
            elif t[0] == "call":
                c = t[1]
                at = set()
                callee = None
                if not isinstance(c, dict) or "dynop" in c:
                    at.add(("dyn", "a function pointer"))
                else:
                    at |= self.bound_atoms(c)
                    for k in ("rid", "id"):
                        x = self.P.items.get(c.get(k))
                        if x is not None and "body" in x and x["crate"] in CRATES:
                            callee = x.id
                            break
                    if callee:
                        at.add(("fn", callee))
                    else:
                        # a foreign callee that hands out a guard it was not given acquires it
                        res = self.owned(f, t[3])["guards"]
                        had = [g for a in t[2] if a[0] in ("m", "c") for g in self.owned(f, a[1])["guards"]]
                        n = c.get("name", "")
                        for g in res:
                            if g not in had:
                                at.add(("acq", g[1], "r" if g[0] in SHARED else "w", n.startswith("try_")))
                        p = strip_generics(c.get("rpath") or c.get("path") or "")
                        if MOMENTARY.search(p) and c.get("args"):
                            at.add(("acq", c["args"][0], "w", False))
                        if n in ("deref", "force", "deref_mut", "force_mut"):
                            for a in (c.get("args") or [])[:1]:
                                m = LAZY.match(a)
                                ty = first_arg(m.group(1)) if m else (a if "Lazy" in p else None)
                                if ty:
                                    at.add(("acq", "Lazy " + ty, "w", False))
                                    for x in self.lazy_init.get(ty, ()):
                                        at.add(("fn", x))
                if at:
                    out.append((i, "call", at, t[5], callee))
        return out

    # ---- effects: ("acq", class, mode) | ("param",) | ("dyn", text)
    def atoms_effects(self, at, callee=None):
        out = {}
        for a in at:
            if a[0] == "acq":
                if not a[3]:
                    out.setdefault(("acq", a[1], a[2]), ())
            elif a[0] == "fn":
                for e, w in self.eff.get(a[1], {}).items():
                    if e == ("param",):
                        continue      # what the parameter is here is among the bounds of this call
                    out.setdefault(e, (a[1],) + w[:6])
            else:
                out.setdefault(a, ())
        return out

    def solve(self):
        ch = True
        while ch:
            ch = False
            for i, sites in self.sites.items():
                e = self.eff[i]
                for s in sites:
                    for k, w in self.atoms_effects(s[2]).items():
                        if k not in e:
                            e[k] = w
                            ch = True

    # ---- guards held
    def held(self, f):
        """block -> guards that may be held when its terminator runs: {local: [guard]}"""
        b = f["body"]
        guards = {}
        for p, o in b["own"]:
            if not p[1] and o["guards"]:
                guards[p[0]] = [tuple(g) for g in o["guards"]]
        if not guards:
            return {}
        n = len(b["blocks"])
        ins = [None] * n
        ins[0] = frozenset(l for l in guards if 1 <= l <= b["argc"])
        at_term = {}
        work = [0]

        def kill(st, op):
            if op[0] == "m" and op[1][0] in st and (not op[1][1] or self.owned(f, op[1])["guards"]):
                st.discard(op[1][0])

        def operands(rv):
            for x in rv[1:]:
                if isinstance(x, list):
                    if len(x) == 2 and x[0] in ("m", "c"):
                        yield x
                    elif x and isinstance(x[0], list):
                        for y in x:
                            if isinstance(y, list) and len(y) == 2 and y[0] in ("m", "c"):
                                yield y
        while work:
            i = work.pop()
            st = set(ins[i])
            bl = b["blocks"][i]
            for s in bl["s"]:
                if s[0] != "=":
                    continue
                moved = False
                for op in operands(s[2]):
                    if op[0] == "m" and self.owned(f, op[1])["guards"]:
                        moved = moved or op[1][0] in st
                        kill(st, op)
                if moved and s[1][0] in guards:
                    st.add(s[1][0])
            at_term[i] = frozenset(st) | at_term.get(i, frozenset())
            t = bl["t"]
            if t[0] == "call":
                for op in t[2]:
                    kill(st, op)
                if t[3][0] in guards and (not t[3][1] or self.owned(f, t[3])["guards"]):
                    st.add(t[3][0])
            elif t[0] == "drop" and t[1][0] in st and (not t[1][1] or self.owned(f, t[1])["guards"]):
                st.discard(t[1][0])
            for x in succs(t):
                if b["blocks"][x]["c"]:
                    continue
                new = frozenset(st) if ins[x] is None else ins[x] | st
                if new != ins[x]:
                    ins[x] = new
                    work.append(x)
        return {i: {l: guards[l] for l in ls} for i, ls in at_term.items() if ls}


def name(c):
    return re.sub(r"\b(?:\w+::)+(?=\w)", "", c)


def path(E, e, w):
    return " -> ".join([E.P.items[x].disp() for x in w if x in E.P.items])


def conflicts(guards, mode_of, e):
    return e[0] == "acq" and e[1] in mode_of and not (e[2] == "r" and mode_of[e[1]] == "r")


def reentry(r, cfg, rule="reentry"):
    P = prog(cfg)
    E = Effects(P)
    exposes = {}
    order = {}
    regions = 0
    classes = {}
    for i, sites in E.sites.items():
        f = P.items[i]
        for s in sites:
            for a in s[2]:
                if a[0] == "acq":
                    classes.setdefault(a[1], set()).add(f.disp())
        H = E.held(f)
        if not H:
            continue
        r.fn(f)
        for blk, kind, at, where, callee in sites:
            if blk not in H:
                continue
            modes = {}
            for l, gs in H[blk].items():
                if kind == "drop" and f["body"]["blocks"][blk]["t"][1] == [l, []] and len(H[blk]) == 1:
                    continue
                for g in gs:
                    m = "r" if g[0] in SHARED else "w"
                    modes[g[1]] = "w" if modes.get(g[1]) == "w" else m
            if not modes:
                continue
            regions += 1
            what = "a value is dropped" if kind == "drop" else "%s is called" % (
                P.items[callee].disp() if callee else strip_generics(str(f["body"]["blocks"][blk]["t"][1].get("path", "a function pointer")) if isinstance(
                    f["body"]["blocks"][blk]["t"][1], dict) else "a function pointer"))
            w = "%s:%d" % tuple(where) if where else f.where()
            for e, wit in E.atoms_effects(at).items():
                if e[0] == "acq":
                    for k in modes:
                        order.setdefault((k, e[1]), (f.disp(), what, w))
                    if conflicts(None, modes, e):
                        r.bad(rule, "%s %s: %s" % (cfg, f.disp(), name(e[1])), "%s while %s is held, and that may borrow or lock it again (%s)" % (
                            what, name(e[1]), path(E, e, wit) or "directly"), w)
                elif e[0] == "param":
                    exposes.setdefault(f.id, {}).update(modes)
                else:
                    r.bad(rule, "%s %s: %s" % (cfg, f.disp(), e[1]), "%s while %s is held: what runs is not known (%s)" % (
                        what, ", ".join(map(name, modes)), e[1]), w)
    # code given by callers that runs while a lock is held
    ch = True
    done = set()
    while ch:
        ch = False
        for i, sites in E.sites.items():
            f = P.items[i]
            for blk, kind, at, where, callee in sites:
                if callee not in exposes:
                    continue
                modes = exposes[callee]
                w = "%s:%d" % tuple(where) if where else f.where()
                t = f["body"]["blocks"][blk]["t"]
                for e, wit in E.atoms_effects(E.bound_atoms(t[1])).items():
                    if conflicts(None, modes, e):
                        r.bad(rule, "%s %s: %s" % (cfg, f.disp(), name(e[1])), "%s runs code given here while it holds %s, and that may borrow or lock it again (%s)" % (
                            P.items[callee].disp(), name(e[1]), path(E, e, wit) or "directly"), w)
                    elif e[0] == "acq":
                        for k in modes:
                            order.setdefault((k, e[1]), (f.disp(), "", w))
                    elif e == ("param",) and not set(modes) <= set(exposes.get(i, {})):
                        exposes.setdefault(i, {}).update(modes)
                        ch = True
    for i in exposes:
        f = P.items[i]
        root = P.items.get(f.get("root") or i, f)
        r.check(not (root.get("exported") or root.get("impl", {}).get("trait")), rule, "%s %s: caller's code" % (cfg, f.disp()),
                "runs code supplied by the caller while %s is held" % ", ".join(map(name, exposes[i])), f.where())
    # lazy values: the initialiser must not need the value
    for ty, init in E.lazy_init.items():
        for x in init:
            for e, wit in E.eff.get(x, {}).items():
                if e[0] == "acq":
                    order.setdefault(("Lazy " + ty, e[1]), (P.items[x].disp(), "", P.items[x].where()))
                    r.check(e[1] != "Lazy " + ty, rule, "%s Lazy %s" % (cfg, name(ty)), "its initialiser uses it (%s)" % path(E, e, wit), P.items[x].where())
    for k in sorted(classes):
        r.ok(rule, "%s %s acquired in %s" % (cfg, name(k), ", ".join(sorted(classes[k]))))
    cyclic(r, rule, cfg, order)
    r.count("functions_with_effects", len(E.sites))
    r.count("held_terminators", regions)
    r.floor(cfg + " locks", len(classes), 2)
    r.floor(cfg + " terminators that run something while a lock is held", regions, 3)
    return E


def cyclic(r, rule, cfg, order):
    """one order of acquisition"""
    g = {}
    for a, b in order:
        if a != b:
            g.setdefault(a, set()).add(b)

    def reach(a):
        seen, st = set(), [a]
        while st:
            for y in g.get(st.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen
    for a in sorted(g):
        r.check(a not in reach(a), rule, "%s order of %s" % (cfg, name(a)), "is acquired before and after another lock: %s" % (
            "; ".join("%s then %s in %s" % (name(x), name(y), order[(x, y)][0]) for x, y in order if x in reach(a) and y in reach(a) or x == a)))
