"""Names of private items. The checks name the functions, types, variants, fields and parameters of the code they judge. Where the tree has
renamed or moved some of them, the dump is read under the known names again: what is missing from lib/names.json is matched to what is new
by its shape (owner, signature, calls, constants, fields). A name only says which rule an item has to satisfy; a wrong match cannot make a
rule pass, because the rule is then decided on the matched item."""
import collections
import json
import os
import re

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "names.json")
GONE = ("_",)


def short(p):
    return re.sub(r"<.*", "", p.replace("&", "").strip()).split("::")[-1]


def ty(t):
    """a structured type as text, paths shortened"""
    if isinstance(t, list):
        return "(" + " ".join(ty(x) for x in t) + ")"
    return short(t) if isinstance(t, str) else str(t)


def walk(x):
    stack = [x]
    while stack:
        y = stack.pop()
        yield y
        if isinstance(y, dict):
            stack.extend(y.values())
        elif isinstance(y, list):
            stack.extend(y)


def features(body):
    out = collections.Counter()
    for b in body["blocks"]:
        t = b["t"]
        if t and t[0] == "call" and isinstance(t[1], dict):
            out["call " + str(t[1].get("name") or t[1].get("path") or "?")] += 1
        for y in walk(b["s"]):
            if isinstance(y, list) and y:
                if y[0] == "v" and len(y) == 2 and isinstance(y[1], str):
                    out["is " + y[1]] += 1
                elif y[0] == "agg" and isinstance(y[1], list) and y[1][:1] == ["adt"]:
                    out["make " + y[1][2]] += 1
                elif y[0] == "f" and len(y) == 4 and isinstance(y[2], str):
                    out["field " + y[2]] += 1
        for y in walk([b["s"], t]):
            if isinstance(y, dict) and "ty" in y:
                for k in ("str", "int", "bool", "char"):
                    if k in y:
                        out["const %r" % (y[k],)] += 1
    return out


def owner(it):
    im = it.get("impl")
    if im:
        return "impl %s for %s" % (ty(re.sub(r"^(?:\w+::)+", "", im["trait"])) if im.get("trait") else "", short(im["self"]))
    if it.get("in_trait"):
        return "trait " + short(it["in_trait"]) if isinstance(it["in_trait"], str) else "trait"
    return "mod " + "::".join(it["id"].split("::")[:-1])


def summary(items):
    """{"types": [..], "fns": [..]}: what is known of every named item"""
    types, fns = [], []
    closures = collections.defaultdict(list)
    methods = collections.defaultdict(set)
    for it in items:
        if "body" in it and "{closure" in it["id"]:
            closures[it["id"].split("::{closure")[0]].append(it)
        im = it.get("impl")
        if im and it.get("name") and it["kind"] == "AssocFn" and not im.get("derived"):
            methods[short(im["self"])].add(it["name"])
        if im and im.get("trait"):
            methods[short(im["self"])].add("impl " + short(im["trait"]))
    for it in items:
        n = it.get("name")
        if not n or n in GONE or "{closure" in it["id"]:
            continue
        crate = it["id"].split("::")[0]
        if it["kind"] in ("Struct", "Enum", "Union", "Trait", "Static", "Const", "TyAlias"):
            if "{" in it["id"]:
                continue
            types.append({"id": it["id"], "kind": it["kind"], "crate": crate, "line": it["span"], "ty": ty(it.get("ty")) if it.get("ty") else None,
                          "variants": [[v["name"], [[f["name"], ty(f["ty"])] for f in v["fields"]]] for v in it.get("variants") or []],
                          "methods": sorted(methods[n])})
        elif it["kind"] in ("Fn", "AssocFn"):
            if (it.get("impl") or {}).get("derived") or it["kind"] == "Fn" and n[:1].isupper():
                continue
            b = it.get("body")
            f = collections.Counter()
            if b:
                f = features(b)
                for c in closures[it["id"]]:
                    f += features(c["body"])
            fns.append({"id": it["id"], "name": n, "owner": owner(it), "crate": crate, "line": it["span"],
                        "ins": [ty(t) for t in it.get("inputs") or []], "out": ty(it.get("output")) if it.get("output") else None,
                        "params": [l[1] for l in b["locals"][1:1 + b["argc"]]] if b else None, "feats": dict(f)})
    return {"types": types, "fns": fns}


def jaccard(a, b):
    a, b = collections.Counter(a), collections.Counter(b)
    n = sum((a | b).values())
    return sum((a & b).values()) / n if n else 1.0


def assign(missing, extra, score, floor):
    """pairs by falling score, each side once, ambiguous ones left out"""
    ps = sorted(((score(m, e), i, j) for i, m in enumerate(missing) for j, e in enumerate(extra)), key=lambda x: -x[0])
    left, right, out = set(), set(), []
    for s, i, j in ps:
        if s < floor:
            break
        if i in left or j in right:
            continue
        left.add(i)
        right.add(j)
        out.append((missing[i], extra[j]))
    return out


def near(m, e):
    """items that stay in place keep their place"""
    if m["line"][0] != e["line"][0]:
        return 0.0
    return 0.3 / (1 + abs(m["line"][1] - e["line"][1]) / 40.0)


def type_pairs(base, now):
    known = {(t["crate"], short(t["id"])) for t in base}
    have = {(t["crate"], short(t["id"])) for t in now}
    missing = [t for t in base if (t["crate"], short(t["id"])) not in have]
    extra = [t for t in now if (t["crate"], short(t["id"])) not in known]

    def score(m, e):
        if m["crate"] != e["crate"] or m["kind"] != e["kind"]:
            return 0
        self_m, self_e = short(m["id"]), short(e["id"])
        vm = [(n if n != self_m else "Self", len(fs)) for n, fs in m["variants"]]
        ve = [(n if n != self_e else "Self", len(fs)) for n, fs in e["variants"]]
        s = jaccard(vm, ve)
        s += jaccard([f[0] for _, fs in m["variants"] for f in fs], [f[0] for _, fs in e["variants"] for f in fs])
        s += jaccard([f[1] for _, fs in m["variants"] for f in fs], [f[1] for _, fs in e["variants"] for f in fs])
        s += jaccard(m["methods"], e["methods"])
        if m["kind"] in ("Static", "Const", "TyAlias"):
            s = 3 if m["ty"] == e["ty"] else 0
        return s + near(m, e)
    out = [(m["id"], e["id"]) for m, e in assign(missing, extra, score, 1.8)]
    # moved: the same name elsewhere in the crate
    for m in base:
        k = (m["crate"], short(m["id"]))
        e = [t for t in now if (t["crate"], short(t["id"])) == k]
        if len(e) == 1 and e[0]["id"] != m["id"] and sum((t["crate"], short(t["id"])) == k for t in base) == 1:
            out.append((m["id"], e[0]["id"]))
    return out


def part_pairs(base, now):
    """renamed variants and fields of types known by name: {(type id, "v", new): old} and {(type id, "f", new): old}"""
    out = {}
    by = {t["id"]: t for t in now}
    for m in base:
        e = by.get(m["id"])
        if e is None or m["variants"] == e["variants"]:
            continue
        vs = []
        mv = [v for v in m["variants"] if v[0] not in [x[0] for x in e["variants"]]]
        ev = [v for v in e["variants"] if v[0] not in [x[0] for x in m["variants"]]]
        for v in m["variants"]:
            x = [y for y in e["variants"] if y[0] == v[0]]
            if x:
                vs.append((v, x[0]))
        if len(mv) == len(ev):
            for v, x in zip(mv, ev):
                if len(v[1]) == len(x[1]):
                    vs.append((v, x))
                    if m["kind"] == "Enum":
                        out[m["id"], "v", x[0]] = v[0]
        for v, x in vs:
            mf = [f for f in v[1] if f[0] not in [y[0] for y in x[1]]]
            ef = [f for f in x[1] if f[0] not in [y[0] for y in v[1]]]
            if len(mf) != len(ef) or any(f[0].isdigit() for f in mf + ef):
                continue
            pos = {f[0]: n for n, f in enumerate(v[1])}
            posx = {f[0]: n for n, f in enumerate(x[1])}
            for a, b in assign(mf, ef, lambda a, b: 2 * (a[1] == b[1]) + (pos[a[0]] == posx[b[0]]), 1):
                out[m["id"], "f", b[0]] = a[0]
    return out


def fn_pairs(base, now):
    key = lambda f: (f["crate"], f["owner"], f["name"])
    have, known = collections.Counter(map(key, now)), collections.Counter(map(key, base))
    missing = [f for f in base if key(f) not in have]
    extra = [f for f in now if key(f) not in known]
    alias = {}
    out = []

    def score(m, e):
        if m["crate"] != e["crate"]:
            return 0
        sig = 1.0 if (m["ins"], m["out"]) == (e["ins"], e["out"]) else 0.5 if sorted(m["ins"]) == sorted(e["ins"]) and m["out"] == e["out"] else 0.0
        fe = collections.Counter()
        for k, n in e["feats"].items():
            fe[k[:5] + alias.get(k[5:], k[5:]) if k[:5] == "call " else k] += n
        body = jaccard(m["feats"], fe)
        if m["params"] is None or e["params"] is None:
            body = 0.6 if m["params"] is e["params"] else 0
        own = 1.0 if m["owner"] == e["owner"] else 0.4 if m["owner"][:4] == "mod " == e["owner"][:4] else 0.0
        return 2 * sig + 2 * body + own + 1.5 * (m["name"] == e["name"]) + near(m, e)
    for floor in (4.6, 4.2, 3.8, 3.8, 3.4):
        got = assign(missing, extra, score, floor)
        for m, e in got:
            out.append((m, e))
            alias[e["name"]] = m["name"]
            missing = [x for x in missing if x is not m]
            extra = [x for x in extra if x is not e]
    return out


class Rewrite:
    def __init__(self, paths):
        self.paths = paths               # {new path: old path}
        self.cache = {}
        self.pat = None
        if paths:
            self.pat = re.compile(r"(?<![\w:}])(?:" + "|".join(re.escape(p) for p in sorted(paths, key=len, reverse=True)) + r")(?!\w)")
            self.firsts = {short(p) if "{" not in p else p.split("::")[-1] for p in paths}

    def text(self, s):
        r = self.cache.get(s)
        if r is None:
            r = self.pat.sub(lambda m: self.paths[m.group(0)], s) if "::" in s and any(f in s for f in self.firsts) else s
            self.cache[s] = r
        return r

    def json(self, x):
        if isinstance(x, str):
            return self.text(x)
        if isinstance(x, list):
            return [self.json(y) for y in x]
        if isinstance(x, dict):
            old = {k: x.get(k) for k in ("id", "path", "ctor_adt") if isinstance(x.get(k), str)}
            x = {k: self.json(v) for k, v in x.items()}
            n = x.get("name")
            if isinstance(n, str):
                for k, p in old.items():
                    if p != x[k] and p.split("::")[-1] == n:
                        x["name"] = x[k].split("::")[-1]
                        break
            if old.get("ctor_adt") and old["ctor_adt"] != x["ctor_adt"] and x.get("ctor_variant") == old["ctor_adt"].split("::")[-1]:
                x["ctor_variant"] = x["ctor_adt"].split("::")[-1]
            return x
        return x


def rename_types(items, pairs):
    """structs are their own variant"""
    rw = Rewrite({new: old for old, new in pairs})
    short_of = {old: (short(new), short(old)) for old, new in pairs}
    items = [rw.json(it) for it in items]
    for it in items:
        if it["id"] in short_of:
            a, b = short_of[it["id"]]
            it["name"] = b
            for v in it.get("variants") or []:
                if v["name"] == a:
                    v["name"] = b
        for y in walk([it.get("body"), it.get("promoted")]):
            if isinstance(y, list) and y[:1] == ["adt"] and len(y) == 5 and y[1] in short_of and y[2] == short_of[y[1]][0]:
                y[2] = short_of[y[1]][1]
    return items


def rename_parts(items, parts, base):
    vs = {(t, n): o for (t, k, n), o in parts.items() if k == "v"}
    fs = {(t, n): o for (t, k, n), o in parts.items() if k == "f"}
    names = {v[0] for t in base["types"] for v in t["variants"]}
    loose = {n: o for (t, n), o in vs.items() if n not in names}
    types = {t for t, _ in list(vs) + list(fs)}
    for it in items:
        if it["id"] in types:
            for v in it.get("variants") or []:
                v["name"] = vs.get((it["id"], v["name"]), v["name"])
                for f in v["fields"]:
                    f["name"] = fs.get((it["id"], f["name"]), f["name"])
        for y in walk([it.get("body"), it.get("promoted")]):
            if isinstance(y, list) and y:
                if y[0] == "f" and len(y) == 4 and isinstance(y[3], str):
                    y[2] = fs.get((y[3], y[2]), y[2])
                elif y[0] == "v" and len(y) == 2 and isinstance(y[1], str):
                    y[1] = loose.get(y[1], y[1])
                elif y[0] == "adt" and len(y) == 5 and isinstance(y[3], list):
                    y[2] = vs.get((y[1], y[2]), y[2])
                    y[3] = [fs.get((y[1], f), f) for f in y[3]]
                elif y[0] == "discr" and len(y) == 4:
                    h = re.sub(r"<.*", "", re.sub(r"^(&('\w+ )?(mut )?)+", "", y[3]))
                    for row in y[2]:
                        row[1] = vs.get((h, row[1]), row[1])
            elif isinstance(y, dict) and isinstance(y.get("ctor_adt"), str):
                k = (y["ctor_adt"], y.get("ctor_variant"))
                if k in vs:
                    y["ctor_variant"] = vs[k]
                    for f in ("id", "path", "name"):
                        if isinstance(y.get(f), str):
                            y[f] = re.sub(r"\b%s\b" % re.escape(k[1]), vs[k], y[f])
    return items


def rename_params(items, base, now):
    key = lambda f: (f["crate"], f["owner"], f["name"])
    one = collections.Counter(map(key, now))
    old = {key(f): f for f in base if f["params"] is not None}
    by = {f["id"]: f for f in now}
    n = 0
    for it in items:
        f = by.get(it["id"])
        if f is None or "body" not in it or f["params"] is None or one[key(f)] != 1 or key(f) not in old:
            continue
        want = old[key(f)]
        if len(want["params"]) != len(f["params"]) or want["params"] == f["params"] or want["ins"] != f["ins"]:
            continue
        ls = it["body"]["locals"]
        for i, p in enumerate(want["params"]):
            if ls[1 + i][1] != p:
                ls[1 + i] = [ls[1 + i][0], p] + ls[1 + i][2:]
                n += 1
    return n


def canonical(config, items):
    """(items under the known names, [(known, current)])"""
    if not os.path.exists(HERE) or os.environ.get("VERIF_NAMES") == "off":
        return items, []
    base = load().get(config)
    if base is None:
        return items, []
    log = []
    now = summary(items)
    pairs = type_pairs(base["types"], now["types"])
    if pairs:
        items = rename_types(items, pairs)
        now = summary(items)
        log += [(a, b) for a, b in pairs]
    parts = part_pairs(base["types"], now["types"])
    if parts:
        items = rename_parts(items, parts, base)
        now = summary(items)
        log += [("%s.%s" % (t, o), n) for (t, k, n), o in parts.items()]
    pairs = fn_pairs(base["fns"], now["fns"])
    if pairs:
        rw = {}
        for m, e in pairs:
            if m["owner"][:4] == "mod " and e["owner"][:4] == "mod ":
                rw[e["id"]] = m["id"]
            elif e["name"] != m["name"]:
                rw[e["id"]] = "::".join(e["id"].split("::")[:-1] + [m["name"]])
        if rw:
            items = [Rewrite.json(R, it) for R in [Rewrite(rw)] for it in items]
            now = summary(items)
            log += [(o, n) for n, o in rw.items()]
    rename_params(items, base["fns"], now["fns"])
    return items, log


_base = None


def load():
    global _base
    if _base is None:
        with open(HERE) as f:
            _base = json.load(f)
    return _base
