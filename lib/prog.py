"""The type-checked program as dumped by the driver: items, bodies, impl lookup."""
import json
import os
import re
from . import names


def strip_generics(p):
    """`a::B::<T>::c` -> `a::B::c`; `<X as Y>::z` and `<impl str>` groups are kept out."""
    out = []
    i = 0
    n = len(p)
    while i < n:
        if p.startswith("::<", i):
            d = 1
            j = i + 3
            while j < n and d:
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                j += 1
            i = j
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


def head(ty):
    """Head path of a type string, references and lifetimes removed."""
    t = ty.strip()
    while t.startswith("&"):
        t = t[1:].lstrip()
        t = re.sub(r"^'\w+ ", "", t)
        if t.startswith("mut "):
            t = t[4:]
    t = t.split("<")[0].strip()
    return t


def short(ty):
    return head(ty).split("::")[-1]


class Item(dict):
    __hash__ = object.__hash__

    def __eq__(self, o):
        return self is o

    @property
    def id(self):
        return self["id"]

    @property
    def name(self):
        return self.get("name")

    def where(self):
        f, l = self["span"]
        return "%s:%d" % (f, l)

    def disp(self):
        im = self.get("impl")
        if im:
            t = im.get("trait")
            s = short(im["self"])
            return "<%s as %s>::%s" % (s, t.split("::")[-1], self.name) if t else "%s::%s" % (s, self.name)
        return self["id"]


class Program:
    def __init__(self, dumpdir, crates):
        self.items = {}
        self.by_crate = {}
        self.impls = []
        raw = []
        for c in crates:
            p = os.path.join(dumpdir, c + ".json")
            if not os.path.exists(p):
                continue
            with open(p) as f:
                d = json.load(f)
            self.by_crate[c] = []
            for it in d["items"]:
                it["crate"] = c
                raw.append(it)
        raw, self.renamed = names.canonical(os.path.basename(dumpdir), raw)
        for it in raw:
            it = Item(it)
            self.items[it["id"]] = it
            self.by_crate[it["crate"]].append(it)
            if it["kind"] == "Impl":
                self.impls.append(it)
        self._loops = {}
        self._calls = {}
        self._callers = None

    # ---- lookup
    def get(self, id):
        return self.items.get(id)

    def fns(self, crate=None):
        for it in (self.by_crate[crate] if crate else self.items.values()):
            if "body" in it:
                yield it

    def adt(self, name, crate=None):
        """ADT by last path segment; unique or None."""
        r = [i for i in self.items.values() if i["kind"] in ("Struct", "Enum") and i["id"].split("::")[-1] == name
             and (crate is None or i["crate"] == crate) and "{" not in i["id"]]
        return r[0] if len(r) == 1 else None

    def derives(self, name, trait):
        """is the trait derived for the type? (by last segments)"""
        if not hasattr(self, "_derives"):
            self._derives = {(short(i["impl"]["self"]), short(i["impl"]["trait"])) for i in self.items.values()
                             if i.get("impl") and i["impl"].get("derived") and i["impl"].get("trait")}
        return (name, trait) in self._derives

    def methods(self, selfty, name, trait=False, crate=None):
        """Methods by self type's last segment and name. trait: False inherent, None any, str trait last segment."""
        out = []
        for it in self.items.values():
            if it["kind"] not in ("AssocFn",) or it.get("name") != name:
                continue
            im = it.get("impl")
            if not im:
                continue
            if short(im["self"]) != selfty:
                continue
            if crate and it["crate"] != crate:
                continue
            t = im.get("trait")
            if trait is False and t:
                continue
            if isinstance(trait, str) and (not t or t.split("::")[-1] != trait):
                continue
            out.append(it)
        return out

    def trait_impls(self, trait, selfty=None, targ=None):
        out = []
        for im in self.impls:
            t = im["impl"].get("trait")
            if not t or t.split("::")[-1] != trait:
                continue
            if selfty and short(im["impl"]["self"]) != selfty:
                continue
            out.append(im)
        return out

    def impl_method(self, im, name):
        for n, i in im["items"]:
            if n == name:
                return self.items.get(i)
        return None

    def trait_method(self, trait, selfty, name=None):
        r = []
        for im in self.trait_impls(trait, selfty):
            for n, i in im["items"]:
                if name is None or n == name:
                    it = self.items.get(i)
                    if it is not None:
                        r.append(it)
        return r

    def fn(self, name, crate=None, module=None):
        """Free function by name."""
        r = [i for i in self.items.values() if i["kind"] == "Fn" and i.get("name") == name
             and (crate is None or i["crate"] == crate) and (module is None or module in i["id"])]
        return r

    # ---- calls
    def calls(self, it):
        """functions called or mentioned by a body: ids of local ones, generic-free paths of others; closures it creates"""
        if it.id in self._calls:
            return self._calls[it.id]
        out = set()

        def callee(f):
            if not isinstance(f, dict):
                return
            for k in ("rid", "id"):
                if f.get(k) in self.items:
                    out.add(f[k])
                    return
            if f.get("rpath") or f.get("path"):
                out.add(strip_generics(f.get("rpath") or f["path"]))
                out.add(strip_generics(f.get("path") or f["rpath"]))

        def consts(x):
            if isinstance(x, dict):
                if isinstance(x.get("fn"), dict):
                    callee(x["fn"])
                for v in x.values():
                    if isinstance(v, (list, dict)):
                        consts(v)
            elif isinstance(x, list):
                if len(x) > 1 and x[0] == "closure" and isinstance(x[1], str) and x[1] in self.items:
                    out.add(x[1])
                for v in x:
                    if isinstance(v, (list, dict)):
                        consts(v)
        for b in [it["body"]] + list(it.get("promoted") or []):
            for bl in b["blocks"]:
                if bl["t"][0] == "call":
                    callee(bl["t"][1])
                    consts(bl["t"][2])
                    consts(bl["t"][1].get("targs") if isinstance(bl["t"][1], dict) else None)
                consts(bl["s"])
        self._calls[it.id] = out
        return out

    def callers(self):
        if self._callers is None:
            self._callers = {}
            for i in self.fns():
                for f in self.calls(i):
                    self._callers.setdefault(f, set()).add(i.id)
        return self._callers

    def sig_by_value(self, it):
        """the receiver (or first argument) is taken by value"""
        t = it.get("inputs") or []
        return bool(t) and t[0][0] == "adt"

    # ---- loops
    def loops(self, body_key, blocks):
        """header -> set of blocks, for natural loops of the body (cleanup blocks ignored)."""
        if body_key in self._loops:
            return self._loops[body_key]
        n = len(blocks)
        succ = [succs(b["t"]) if not b["c"] else [] for b in blocks]
        # dominators (iterative)
        order = []
        seen = set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen and not blocks[y]["c"]:
                    seen.add(y)
                    stack.append((y, iter(succ[y])))
                    break
            else:
                order.append(x)
                stack.pop()
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                if s in idx:
                    preds[s].append(b)
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while idx[a] > idx[c]:
                                    a = idom[a]
                                while idx[c] > idx[a]:
                                    c = idom[c]
                            new = a
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if s in idx and dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self._loops[body_key] = loops
        return loops


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[3]]
    return []
