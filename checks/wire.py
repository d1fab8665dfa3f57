"""Serialised form (C40): what every Serialize implementation writes against what the Deserialize implementation of the same type reads.

Both are interpreted up to serde's data model.  Rule: reading back what was written gives the value written, i.e. with R the value the
reader builds, the k-th thing written for R is the k-th thing that was read (positional formats, such as the one Yew uses), and the
thing written under a name is the thing read under that name (self-describing formats)."""
from checks.mgr import *
from checks.types import field_types, has_impl

# methods of serde's data model whose type argument says what is written or read: position of that argument
TYPED = {"serialize_field": 1, "serialize_element": 1, "serialize_newtype_struct": 1, "serialize_newtype_variant": 1, "serialize": 0,
         "deserialize": 0, "next_element": 1, "next_value": 1, "newtype_variant": 1}
PEEL = {"Box", "Rc", "Arc", "Cow", "Bow"}


def wire(t):
    """type as it appears in the data model: pointers and borrowing do not"""
    t = t.strip()
    while t.startswith("&"):
        t = t[1:].strip()
        if t.startswith("'"):
            t = t.partition(" ")[2].strip()
        if t.startswith("mut "):
            t = t[4:].strip()
    if t.startswith("[") and t.endswith("]") and ";" not in t:
        return "seq(%s)" % wire(t[1:-1])
    h, lt, rest = t.partition("<")
    s = h.split("::")[-1].strip()
    if lt and rest.endswith(">"):
        a = [x for x in split(rest[:-1]) if not x.strip().startswith("'")]
        if s in PEEL and a:
            return wire(a[0])
        if s == "Vec" and a:
            return "seq(%s)" % wire(a[0])
        return "%s<%s>" % (s, ",".join(wire(x) for x in a))
    return "str" if s in ("String", "str") else s


def split(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]


def h_typed(ip, st, f, args, cid):
    i = TYPED.get(f["name"])
    ar = f.get("args") or []
    if i is None or not (f.get("path") or "").startswith("serde") or i >= len(ar):
        return None
    it = ip.P.get(f.get("rid") or "") if hasattr(ip, "P") else None
    if it is not None and "body" in it and it["crate"] in CRATES:
        return None
    return ip.event(st, f["name"], args, [ip.deep(st, a) for a in args] + [("ty", wire(ar[i]))])


def outcomes(P, it):
    ov = {n: h_typed for n in TYPED}
    ip = Interp(P, overrides=ov)
    ip.P = P
    return ip.run_fn(State(), it, [("arg", n) for n in args_of(it)], (it.id,))


def bind(t, me, val):
    """the term t, written about self, for self = val"""
    if t == me:
        return val
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "fld":
        b = bind(t[1], me, val)
        if b[0] == "adt":
            return dict(b[3]).get(t[2], ("fld", b, t[2]))
        return ("fld", b, t[2])
    if t[0] == "pay":
        b = bind(t[1], me, val)
        if b[0] == "adt" and b[2] == t[2]:
            return dict(b[3]).get(t[3], ("pay", b) + t[2:])
        return ("pay", b) + t[2:]
    return tuple(bind(x, me, val) if isinstance(x, tuple) else x for x in t)


def events(o):
    return [e[1] if e[0] == "one" else e for e in o.st.trace()[1:]]


def ok_payload(v):
    return v[3][0][1] if v[0] == "adt" and v[1] == "Result" and v[2] == "Ok" else None


def read_of(v, name):
    """the data-model call a value was read by: (term, type), looking through Ok and Some"""
    if v[0] == "pay" and v[2] in ("Ok", "Some"):
        return read_of(v[1], name)
    if v[0] == "call" and v[1] == name:
        ty = [x for x in v[2:] if x[0] == "ty"]
        return v, ty[0][1] if ty else None
    return None


def num(t):
    if t[0] == "int":
        return t[1]
    if t[0] == "bool":
        return int(t[1])
    if t[0] == "add":
        xs = [num(x) for x in t[1:]]
        return None if None in xs else sum(xs)
    return None


def strs(t):
    if t[0] == "seq" and all(x[0] == "one" and x[1][0] == "str" for x in t[1:]):
        return [x[1][1] for x in t[1:]]
    return None


def last(name):
    return name.split("::")[-1]


def selfname(it):
    ty = it["impl"].get("selfty")
    if isinstance(ty, list) and ty and ty[0] == "adt":
        return ty[1].split("::")[-1]
    return short(it["impl"]["self"])


def visitor(P, d, v):
    """methods of the visitor handed to a deserializer call: name -> item"""
    if v[0] != "adt":
        return {}
    ms = {}
    cands = [it for it in P.trait_method("Visitor", None) if selfname(it) == v[1]]
    near = [it for it in cands if it.id.startswith(d.id + "::")]
    own = near or cands
    # field and value visitors of one derive live in the same function: the impls of the value's type only
    impls = {it["impl"]["id"] for it in own}
    if len(impls) != 1:
        return {}
    for it in own:
        ms[it["name"]] = it
    return ms


class Bad(Exception):
    pass


def field_names(P, d):
    """the visitor of field or variant names: (index -> tag, string -> tag)"""
    ms = {}
    for it in P.trait_method("Visitor", None):
        if it.id.startswith(d.id + "::") and it["name"] in ("visit_u64", "visit_str"):
            ms.setdefault(it["impl"]["id"], {})[it["name"]] = it
    ms = [m for m in ms.values() if set(m) == {"visit_u64", "visit_str"}]
    if len(ms) != 1:
        raise Bad("%d visitors of names in %s" % (len(ms), d.disp()))
    tabs = []
    for n in ("visit_u64", "visit_str"):
        tab = {}
        it = ms[0][n]
        a = ("arg", args_of(it)[-1])
        for o in outcomes(P, it):
            if o.kind != "ret":
                raise Bad("%s may panic" % it.disp())
            v = ok_payload(o.val)
            hit = [t[2] for t, x in o.st.facts.items() if t[0] == "eq" and t[1] == a and x is True]
            if v is None or v[0] != "adt":
                if hit:
                    tab[hit[0][1]] = None
                continue
            for h in hit:
                tab[h[1]] = v[2]
        tabs.append(tab)
    return tabs


def written(P, s):
    """outcomes of serialize that do not report the serializer's own error"""
    res = []
    for o in outcomes(P, s):
        if o.kind != "ret":
            raise Bad("serialising may panic when %s" % facts_str(o))
        if o.val[0] == "adt" and o.val[1] == "Result" and o.val[2] == "Err":
            v = dict(o.val[3])["0"]
            if v[0] == "pay" and v[2] == "Err":
                continue
            raise Bad("serialising fails by itself when %s: %s" % (facts_str(o), showx(o.val)[:200]))
        res.append(o)
    return res


def one_read(P, d):
    outs = [o for o in outcomes(P, d)]
    if any(o.kind != "ret" for o in outs):
        raise Bad("deserialising may panic")
    good = [o for o in outs if not (o.val[0] == "adt" and o.val[2] == "Err" and dict(o.val[3])["0"][0] == "pay" and
                                    dict(o.val[3])["0"][2] == "Err")]
    if len(good) != 1:
        raise Bad("deserialising depends on more than what is read: %d ways to end other than by the deserializer's error" % len(good))
    return good[0]


def roundtrip(P, T, adt, s, d):
    """checks one type; returns (how, fields left out, types met)"""
    me = ("arg", args_of(s)[0])
    ws = written(P, s)
    rd = one_read(P, d)
    kinds = {last(e[1]) for o in ws for e in events(o)[:1] if e[0] == "ev"}
    if len(kinds) != 1:
        raise Bad("writes different forms: %s" % sorted(kinds))
    kind = kinds.pop()
    enum = len(adt["variants"]) > 1
    met = []

    def deser_call():
        v = rd.val
        if v[0] != "call":
            raise Bad("reads a form other than the one written: %s" % showx(v)[:200])
        return last(v[1]), v[2:]

    def good_seq(m):
        """the one successful outcome of visit_seq, with the reads in order"""
        os = [(o, ok_payload(o.val)) for o in outcomes(P, m)]
        if any(o.kind != "ret" for o, v in os):
            raise Bad("%s may panic" % m.disp())
        # a sequence that ends early is never written
        os = [(o, v) for o, v in os if v is not None and not any(
            t[0] == "variant" and x == "None" and read_of(t[1], "next_element") for t, x in o.st.facts.items())]
        if len(os) != 1:
            raise Bad("%s succeeds in %d ways" % (m.disp(), len(os)))
        o, v = os[0]
        reads = []
        for e in events(o):
            if e[0] == "ev" and last(e[1]) == "next_element":
                reads.append(("pay", ("pay", ("call",) + e[1:], "Ok", "0"), "Some", "0"))
        return v, reads

    if kind == "serialize_struct":
        if len(ws) != 1:
            raise Bad("what is written depends on more than the value's type: %s" % " / ".join(facts_str(o, 120) for o in ws)[:400])
        ev = events(ws[0])
        head, fs = ev[0], [e for e in ev if e[0] == "ev" and last(e[1]) == "serialize_field"]
        extra = [e for e in ev[1:] if e not in fs and not (e[0] == "ev" and last(e[1]) == "end")]
        if extra:
            raise Bad("also writes %s" % showx(extra[0])[:200])
        name = head[3]
        if num(head[4]) != len(fs):
            raise Bad("announces %s fields and writes %d" % (showx(head[4]), len(fs)))
        wr = [(e[3][1] if e[3][0] == "str" else showx(e[3]), e[4], e[5][1]) for e in fs]
        n, a = deser_call()
        if n != "deserialize_struct" or a[1] != name:
            raise Bad("writes struct %s, reads %s %s" % (showx(name), n, showx(a[1])[:100]))
        ann = strs(a[2])
        if ann != [k for k, _, _ in wr]:
            raise Bad("writes the fields %s in this order, announces %s when reading" % ([k for k, _, _ in wr], ann))
        ms = visitor(P, d, a[3])
        if not {"visit_seq", "visit_map"} <= set(ms):
            raise Bad("the visitor does not read both sequences and maps")
        val, reads = good_seq(ms["visit_seq"])
        if len(reads) != len(wr):
            raise Bad("writes %d fields and reads %d in sequence" % (len(wr), len(reads)))
        for (k, t, wt), got in zip(wr, reads):
            x = bind(t, me, val)
            if x != got:
                raise Bad("the field written under %r is read back as %s, not as the element read in its place (%s)" % (
                    k, showx(x)[:160], showx(got)[:160]))
            rt = read_of(got, "SeqAccess::next_element") or read_of(got, "next_element")
            if rt is None or rt[1] != wt:
                raise Bad("the field %r is written as %s and read as %s" % (k, wt, rt and rt[1]))
            met.append(wt)
        # by name
        idx, byname = field_names(P, d)
        for i, (k, t, wt) in enumerate(wr):
            if byname.get(k) is None or idx.get(i) != byname[k]:
                raise Bad("the name %r and the position %d are read as different fields (%s, %s)" % (k, i, byname.get(k), idx.get(i)))
        if len(set(byname.values())) != len(byname):
            raise Bad("two names are read as one field: %s" % byname)
        os = outcomes(P, ms["visit_map"])
        if any(o.kind != "ret" for o in os):
            raise Bad("%s may panic" % ms["visit_map"].disp())
        slots = {}
        for o in os:
            if o.val[0] == "adt" and o.val[2] == "Err":
                e = dict(o.val[3])["0"]
                if e[0] == "call" and last(e[1]) == "duplicate_field":
                    tag = [v for t, v in o.st.facts.items() if t[0] == "variant" and t[1][0] == "pay" and "next_key" in repr(t[1]) and
                           isinstance(v, str) and v.startswith("__field")]
                    slot = [t[1] for t, v in o.st.facts.items() if t[0] == "variant" and t[1][0] == "loopv" and v == "Some"]
                    if len(tag) == 1 and len(slot) == 1:
                        slots[tag[0]] = slot[0]
        full = [v for v in (ok_payload(o.val) for o in os) if v is not None]
        full.sort(key=lambda v: -sum(1 for _, x in v[3] if "loopv" in repr(x)))
        if not full:
            raise Bad("no map is ever read back")
        for k, t, wt in wr:
            x = bind(t, me, full[0])
            sl = slots.get(byname[k])
            if sl is None or x != ("pay", sl, "Some", "0"):
                raise Bad("in a map, the field written under %r is read back as %s" % (k, showx(x)[:160]))
        cov = {t[2] for _, t, _ in wr if t[0] == "fld" and t[1] == me}
        out = [f["name"] for _, f in field_types(adt) if f["name"] not in cov]
        return "struct", out, met
    if kind == "serialize_newtype_struct":
        if len(ws) != 1:
            raise Bad("writes in %d ways" % len(ws))
        h = events(ws[0])[0]
        name, t, wt = h[3], h[4], h[5][1]
        n, a = deser_call()
        if n != "deserialize_newtype_struct" or a[1] != name:
            raise Bad("writes newtype %s, reads %s %s" % (showx(name), n, showx(a[1])[:100]))
        ms = visitor(P, d, a[2])
        if not {"visit_newtype_struct", "visit_seq"} <= set(ms):
            raise Bad("the visitor does not read a newtype")
        val, reads = good_seq(ms["visit_seq"])
        if len(reads) != 1 or bind(t, me, val) != reads[0]:
            raise Bad("what was written is not the element read in its place")
        o = one_read(P, ms["visit_newtype_struct"])
        val = ok_payload(o.val)
        got = bind(t, me, val) if val is not None else None
        rt = got is not None and read_of(got, "deserialize")
        if not rt or rt[1] != wt or got[0] != "pay" or got[1] != rt[0]:
            raise Bad("writes %s of type %s, reads %s" % (showx(t), wt, showx(o.val)[:200]))
        out = [f["name"] for _, f in field_types(adt)][1:]
        return "newtype struct", out, [wt]
    if kind == "serialize_newtype_variant":
        n, a = deser_call()
        if n != "deserialize_enum":
            raise Bad("writes an enum, reads %s" % n)
        ann = strs(a[2]) or []
        ms = visitor(P, d, a[3])
        if "visit_enum" not in ms:
            raise Bad("the visitor reads no enum")
        reads = {}
        for o in outcomes(P, ms["visit_enum"]):
            if o.kind != "ret":
                raise Bad("%s may panic" % ms["visit_enum"].disp())
            v = ok_payload(o.val)
            if v is None:
                continue
            tag = [x for t, x in o.st.facts.items() if t[0] == "variant" and isinstance(x, str) and x.startswith("__field")]
            if len(tag) != 1 or tag[0] in reads:
                raise Bad("reads %s in several ways" % tag)
            reads[tag[0]] = v
        idx, byname = field_names(P, d)
        seen = set()
        for o in ws:
            V = o.st.facts.get(("variant", me))
            if not isinstance(V, str):
                raise Bad("writes the variants %s alike" % showx(V) if V else "writes all variants alike")
            h = events(o)
            if len(h) != 1 or V in seen:
                raise Bad("what is written for %s depends on more than the variant" % V)
            seen.add(V)
            h = h[0]
            name, i, vn, t, wt = h[3], num(h[4]), h[5][1], h[6], h[7][1]
            if a[1] != name or (ann[i:i + 1] != [vn]):
                raise Bad("variant %s is written as %s number %s, %s is announced when reading" % (V, vn, i, ann))
            tag = idx.get(i)
            if tag is None or byname.get(vn) != tag or tag not in reads:
                raise Bad("variant %s: number %s is read as %s, name %r as %s" % (V, i, tag, vn, byname.get(vn)))
            R = reads[tag]
            if R[2] != V:
                raise Bad("variant %s is read back as %s" % (V, R[2]))
            got = bind(t, me, R)
            rt = read_of(got, "newtype_variant")
            if rt is None or rt[1] != wt or got != ("pay", rt[0], "Ok", "0"):
                raise Bad("variant %s: written %s as %s, read %s" % (V, showx(t), wt, showx(got)[:160]))
            met.append(wt)
        miss = {v["name"] for v in adt["variants"]} - seen
        if miss:
            raise Bad("the variants %s are not written" % sorted(miss))
        if any(len(v["fields"]) != 1 for v in adt["variants"]):
            raise Bad("a variant's further fields are not written")
        return "enum", [], met
    if kind == "serialize":
        R = ok_payload(rd.val)
        seen = set()
        for o in ws:
            h = events(o)
            if len(h) != 1:
                raise Bad("writes more than one value")
            h = h[0]
            t, wt = h[2], h[-1][1]
            V = o.st.facts.get(("variant", me)) if enum else None
            full = ("pay", me, V, "0") if enum else ("fld", me, "0")
            if t != full:
                raise Bad("writes %s" % showx(t)[:160])
            if enum:
                seen.add(V)
            if R is None or R[0] != "adt":
                raise Bad("reads %s" % showx(rd.val)[:200])
            got = bind(t if not enum else ("pay", me, R[2], "0"), me, R)
            rt = read_of(got, "deserialize")
            if rt is None or got != ("pay", rt[0], "Ok", "0"):
                raise Bad("what is written is not what is read: %s" % showx(R)[:300])
            if rt[1] != wt:
                raise Bad("written as %s, read as %s" % (wt, rt[1]))
            met.append(wt)
        if enum and seen != {v["name"] for v in adt["variants"]}:
            raise Bad("not all variants are written")
        out = [] if enum else [f["name"] for _, f in field_types(adt)][1:]
        return "its content", out, met
    raise Bad("the form %s is not one this analysis follows" % kind)


def inner(wt):
    while wt.startswith("seq("):
        wt = wt[4:-1]
    return wt.partition("<")[0]


def check(r, cfg):
    P = prog(cfg)
    sers = {im["impl"]["self"].partition("<")[0]: im for im in P.trait_impls("Serialize")}
    des = {im["impl"]["self"].partition("<")[0]: im for im in P.trait_impls("Deserialize")
           if "::deserialize::" not in im["id"]}
    left, ok, types = {}, 0, {}
    for ty in sorted(set(sers) | set(des)):
        T = short(ty)
        s = P.impl_method(sers[ty], "serialize") if ty in sers else None
        d = P.impl_method(des[ty], "deserialize") if ty in des else None
        adt = P.items.get(ty) or P.adt(T)
        if s is None or d is None:
            r.bad("pairs", T, "%s is %s" % (T, "read but never written" if d is not None else "written but cannot be read back"),
                  (s or d) is not None and (s or d).where())
            continue
        r.fn(s)
        r.fn(d)
        try:
            how, out, met = roundtrip(P, T, adt, s, d)
        except Bad as e:
            r.bad("same form", T, "%s: %s" % (T, e), s.where())
            continue
        r.ok("same form", T, "written and read as %s" % how)
        types[T] = set(met)
        if out:
            left[T] = (adt, out)
        if cfg == "host":
            r.sample("%s: %s of %s%s" % (T, how, ", ".join(met), ", without %s" % out if out else ""))
        ok += 1
    # everything met has an implementation of its own here, or is a plain string, number or boolean
    plain = {"str", "bool", "T", "usize", "u8", "u16", "u32", "u64", "i32", "i64", "char", "Option"}
    for T, met in types.items():
        for m in met:
            i = inner(m)
            r.check(i in plain or any(short(x) == i for x in sers), "known forms", "%s/%s" % (T, i),
                    "%s contains %s, whose serialised form is not known here" % (T, m))
    # fields left out: they must not be read from data that came over the wire
    for T, (adt, out) in left.items():
        users = reads_of(P, adt["id"], out)
        entry = loaders(P)
        r.check(bool(entry), "left out", T + "/loaders", "no public function takes the data read back")
        for e in entry:
            reach = reachable(P, e)
            hit = sorted(i for i in users if i in reach)
            r.check(not hit, "left out", "%s/%s" % (T, e.disp()),
                    "%s uses %s of %s, which is not part of the serialised form (in %s)" % (
                        e.disp(), "/".join(out), T, ", ".join(P.get(h).disp() for h in hit)), e.where())
            r.fn(e)
    r.count("types written and read", ok)
    return types


def reads_of(P, adt, names):
    """functions that project one of the fields"""
    res = set()
    for it in P.fns():
        if "::_" in it.id and "serialize" in it.id:
            continue
        if scan(it["body"]["blocks"], adt, names) and not derived(it):
            res.add(it.id)
    return res


def derived(it):
    im = it.get("impl")
    return bool(im and im.get("trait") and im["trait"].split("::")[-1] in ("Debug", "Clone", "Serialize", "Deserialize"))


def scan(x, adt, names):
    if isinstance(x, list):
        if len(x) >= 4 and x[0] == "f" and isinstance(x[2], str) and x[2] in names and strip(x[3]) == adt:
            return True
        return x[:1] != ["drop"] and any(scan(y, adt, names) for y in x)
    if isinstance(x, dict):
        return any(scan(y, adt, names) for y in x.values())
    return False


def strip(p):
    return p.partition("<")[0] if isinstance(p, str) else p


def loaders(P):
    """public functions that take serialised style data"""
    res = []
    for it in P.fns("stylist"):
        if it.get("kind") not in ("Fn", "AssocFn") or it.get("vis") != "pub":
            continue
        b = it["body"]
        if it.get("impl") and (it["impl"].get("trait") or short(it["impl"]["self"]) == "StyleData"):
            continue
        ps = [short_ty(l[0]) for l in b["locals"][1:1 + b["argc"]]]
        if "StyleData" in ps:
            res.append(it)
    return res


def short_ty(t):
    while t.startswith("&"):
        t = t[1:].strip()
        if t.startswith("'"):
            t = t.partition(" ")[2]
        if t.startswith("mut "):
            t = t[4:]
    return short(t)


def reachable(P, it):
    seen, todo = set(), [it]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        for c in P.calls(x):
            cid = getattr(c, "id", None) or (c if isinstance(c, str) else None)
            y = P.get(cid) if isinstance(cid, str) else None
            if y is not None and "body" in y:
                todo.append(y)
        for k in list(P.items):
            if k.startswith(x.id + "::{closure") and "body" in P.items[k]:
                todo.append(P.items[k])
    return seen
