"""What the analysis knows about the standard library, quote and once_cell."""
from .terms import *
from . import interp as I_
from .interp import model, Out, ret, is_opaque, norm_path, short_path, ITER_TAGS, MODELS, seq_known
from .prog import short, head, strip_generics

INT = I_.I


def targs(ty):
    """generic arguments of a type string"""
    i = ty.find("<")
    if i < 0:
        return []
    d = 0
    cur = ""
    out = []
    for j in range(i, len(ty)):
        c = ty[j]
        if c in "<([":
            d += 1
            if d == 1:
                continue
        elif c in ")]" or (c == ">" and ty[j - 1] != "-"):
            d -= 1
            if d == 0:
                break
        if c == "," and d == 1:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return [x for x in out if not x.startswith("'")]


def opt(ip, st, v):
    v = ip.val(st, v)
    return [(n, s, ip.payload(s, v, "Some") if n == "Some" else None) for n, s in ip.variant(st, v, ["None", "Some"])]


def res(ip, st, v):
    v = ip.val(st, v)
    return [(n, s, ip.payload(s, v, n)) for n, s in ip.variant(st, v, ["Ok", "Err"])]


def is_result(f):
    return "Result" in norm_path(f.get("path", ""))


# ------------------------------------------------------------------ conversions
def find_impl(ip, trait, selfty, arg):
    """local impl of trait<arg> for selfty"""
    best = None
    for im in ip.p.impls:
        info = im["impl"]
        t = info.get("trait")
        if not t or short_path(t) != trait or short(info["self"]) != short(selfty):
            continue
        ta = info.get("targs") or []
        a = ta[0] if ta else ""
        if arg is None:
            return im
        if norm_ty(a) == norm_ty(arg):
            return im
        if is_param(a):
            best = best or im
    return best


def norm_ty(t):
    t = I_.re.sub(r"'\w+ ?", "", t)
    t = t.replace("core::", "std::").replace("alloc::", "std::")
    t = t.replace(" ", "")
    return I_.re.sub(r"[\w:]+::", "", t).replace("<,", "<").replace("<>", "")


def is_param(t):
    return bool(I_.re.match(r"^[A-Z][A-Za-z0-9]{0,3}$", t)) and "::" not in t


def conv(ip, st, src, dst, v, cid):
    """From<src> for dst"""
    if src and dst and norm_ty(src) == norm_ty(dst):
        return ret(st, v)
    if dst:
        im = find_impl(ip, "From", dst, src) if not dst.startswith("&") else None
        if im is not None:
            m = ip.p.impl_method(im, "from")
            if m is not None and m.id not in ip.stack:
                return ip.run_fn(st, m, [v], cid + ("from",))
        im = None
        for x in ip.p.impls:
            t = x["impl"].get("trait")
            if t and short_path(t) == "Into" and src and short(x["impl"]["self"]) == short(src):
                m = ip.p.impl_method(x, "into")
                if m is not None and m.id not in ip.stack:
                    return ip.run_fn(st, m, [v], cid + ("into",))
        if short(dst) == "Option" and not (src and short(src) == "Option"):
            return ret(st, some(v))
        if short(dst) == "Classes" and ip.val(st, v)[0] != "seq":
            return ret(st, ("seq", ("one", v)))
    return ret(st, v)


@model("std::convert::Into::into")
def _into(ip, st, f, a, cid):
    ar = f.get("args") or [None, None]
    return conv(ip, st, ar[0], ar[1] if len(ar) > 1 else None, a[0], cid)


@model("std::convert::From::from")
def _from(ip, st, f, a, cid):
    ar = f.get("args") or [None, None]
    if f.get("rid") and ip.p.get(f["rid"]) is not None and "body" in ip.p.get(f["rid"]):
        return None
    return conv(ip, st, ar[1] if len(ar) > 1 else None, ar[0], a[0], cid)


@model("std::convert::TryInto::try_into", "std::convert::TryFrom::try_from")
def _tryinto(ip, st, f, a, cid):
    ar = f.get("args") or [None, None]
    src, dst = (ar[0], ar[1]) if f["name"] == "try_into" else (ar[1], ar[0])
    if src and dst and norm_ty(src) == norm_ty(dst):
        return ret(st, ok(a[0]))
    im = find_impl(ip, "TryFrom", dst, src) if dst else None
    if im is not None:
        ta = (im["impl"].get("targs") or [""])[0]
        if not is_param(src or "") or norm_ty(ta) == norm_ty(src):
            m = ip.p.impl_method(im, "try_from")
            if m is not None and m.id not in ip.stack:
                return ip.run_fn(st, m, [a[0]], cid + ("try_from",))
    im = find_impl(ip, "From", dst, src) if dst else None
    if im is not None and not is_param(src or ""):
        return [Out(o.kind, o.st, ok(o.val) if o.kind == "ret" else o.val) for o in conv(ip, st, src, dst, a[0], cid)]
    return ret(st, call("try_into", ip.deep(st, a[0])))


@model("std::str::parse", "std::str::FromStr::from_str")
def _parse(ip, st, f, a, cid):
    ar = f.get("args") or []
    ty = ar[-1] if f["name"] == "parse" and ar else (ar[0] if ar else None)
    if ty:
        for m in ip.p.trait_method("FromStr", short(ty), "from_str"):
            if m.id in ip.opaque or m.name in ip.opaque or m.id in ip.stack:
                break
            return ip.run_fn(st, m, [a[0]], cid + ("from_str",))
        return ip.opaque_call(st, "parse<%s>" % short(ty), [a[0]], None)
    return None


@model("std::default::Default::default")
def _default(ip, st, f, a, cid):
    ty = (f.get("args") or [f.get("self") or "?"])[0]
    return default_of(ip, st, ty, cid)


def default_of(ip, st, ty, cid):
    s = short(ty)
    if s in ("Rc", "Arc", "Box", "RefCell", "Mutex", "RwLock", "Cell", "AssertUnwindSafe"):
        t = targs(ty)
        if t:
            return default_of(ip, st, t[0], cid)
        return ret(st, call("default", S(ty)))
    if s in ("String", "str", "TokenStream", "Cow"):
        return ret(st, S(""))
    if s in ("Vec", "HashMap", "HashSet", "BTreeMap", "VecDeque", "BTreeSet", "Classes"):
        return ret(st, ("seq",))
    if s == "Option":
        return ret(st, NONE)
    if s == "bool" or s == "AtomicBool":
        return ret(st, FALSE)
    if s in ("usize", "u8", "u16", "u32", "u64", "i32", "i64", "isize", "i8", "i16") or s.startswith("Atomic"):
        return ret(st, INT(0))
    if ty.strip() == "()":
        return ret(st, UNIT)
    ms = ip.p.trait_method("Default", s, "default")
    for m in ms:
        if m.id in ip.stack or m.id in ip.opaque:
            return ip.opaque_call(st, m, [], None)
        return ip.run_fn(st, m, [], cid + ("default",))
    return ret(st, call("default", S(short(ty))))


IDENT = """
std::clone::Clone::clone std::borrow::ToOwned::to_owned std::convert::AsRef::as_ref std::convert::AsMut::as_mut
std::string::String::as_str std::string::String::as_mut_str std::rc::Rc::new std::sync::Arc::new std::boxed::Box::new
std::cell::RefCell::new std::sync::Mutex::new std::sync::RwLock::new std::cell::Cell::new std::cell::RefCell::borrow
std::cell::RefCell::borrow_mut std::option::Option::as_ref std::option::Option::as_deref
std::option::Option::cloned std::option::Option::copied std::hint::must_use std::iter::Iterator::by_ref
std::iter::Iterator::cloned std::iter::Iterator::copied std::borrow::Cow::into_owned std::string::String::into_boxed_str
std::vec::Vec::into_boxed_slice std::slice::to_vec std::slice::into_vec std::borrow::Borrow::borrow
std::borrow::BorrowMut::borrow_mut std::vec::Vec::as_slice std::vec::Vec::as_mut_slice std::iter::Iterator::fuse
std::sync::Arc::make_mut std::rc::Rc::make_mut std::result::Result::as_ref std::result::Result::cloned
std::rc::Rc::as_ref std::string::String::from std::str::to_owned std::cell::RefCell::into_inner
std::sync::atomic::Atomic::new std::sync::atomic::AtomicBool::new std::option::Option::as_slice std::pin::Pin::new
std::boxed::Box::pin std::string::String::from_str std::borrow::Cow::to_mut std::mem::ManuallyDrop::new
std::rc::Rc::unwrap_or_clone std::convert::identity std::slice::as_ref std::ops::Index::index_full
std::boxed::box_new std::str::as_str std::ops::range::Bound::as_ref
""".split()


@model(*IDENT)
def _ident(ip, st, f, a, cid):
    n = f["name"]
    if n in ("clone", "to_owned", "cloned", "copied", "into_owned", "to_vec"):
        return ret(st, ip.val(st, a[0]))
    if n in ("as_ref", "as_deref") and f["path"].split("::")[-2] in ("Option", "Result"):
        return ret(st, ip.val(st, a[0]))
    if n == "borrow_mut" or n == "make_mut":
        return ret(st, guard(ip, st, a[0]))
    return ret(st, a[0] if a else UNIT)


def guard(ip, st, v):
    """a pointer to the place behind v"""
    n = 0
    while v[0] == "ref" and n < 20:
        x = ip.proj(st, ip.rd(st, v[1]), v[2])
        if x[0] == "ref" or (is_opaque(x) and x[0] not in ("undef", "acc", "loopv", "loopout")):
            v = x
        else:
            break
        n += 1
    return v


@model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut")
def _deref(ip, st, f, a, cid):
    sty = (f.get("args") or [""])[0]
    s = short(sty)
    if sty.startswith("&") or s in ("String", "Vec", "PathBuf"):
        return ret(st, a[0])
    # a local type behind Deref is resolved before; smart pointers are transparent
    return ret(st, guard(ip, st, a[0]))


@model("std::string::ToString::to_string")
def _tostring(ip, st, f, a, cid):
    ty = (f.get("args") or [""])[0]
    return display(ip, st, a[0], ty, cid)


# ------------------------------------------------------------------ formatting
def display(ip, st, v, ty, cid):
    ms = []
    s = short(ty)
    if s and ty:
        ms = [m for m in ip.p.trait_method("Display", s, "fmt")]
    x = ip.val(st, v)
    if ms and ms[0].id not in ip.stack and ms[0].id not in ip.opaque:
        m = ms[0]
        loc = ("H", "fmt", cid)
        s2 = st.copy()
        s2.store[loc] = S("")
        out = []
        for o in ip.run_fn(s2, m, [v, ("ref", loc, ())], cid + ("fmt",)):
            if o.kind == "panic":
                out.append(o)
                continue
            t = o.st.store.pop(loc)
            out.append(Out("ret", o.st, t))
        return out
    if x[0] == "int":
        return ret(st, S(str(x[1])))
    if x[0] == "char":
        return ret(st, S(x[1]))
    if x[0] == "bool":
        return ret(st, S("true" if x[1] else "false"))
    return ret(st, ip.deep(st, x))


def decode_template(b):
    """[str | (argindex, spec)]"""
    out = []
    i = 0
    arg = 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(b[i:i + n].decode("utf8", "replace"))
            i += n
        elif n == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            out.append(b[i:i + ln].decode("utf8", "replace"))
            i += ln
        else:
            spec = b""
            if n & 1:
                spec += b[i:i + 4]
                i += 4
            if n & 2:
                spec += b[i:i + 2]
                i += 2
            if n & 4:
                spec += b[i:i + 2]
                i += 2
            if n & 8:
                arg = b[i] | b[i + 1] << 8
                i += 2
            out.append((arg, spec))
            arg += 1
    return out


def expand_fmt(ip, st, v, cid):
    """outcomes with the text of fmt::Arguments"""
    v = ip.val(st, v)
    if v[0] == "str":
        return ret(st, v)
    if v[0] != "fmtargs":
        return ret(st, call("fmt", ip.deep(st, v)))
    parts = v[1]
    argv = v[2]
    outs = [(st, S(""))]
    for n, p in enumerate(parts):
        if isinstance(p, str):
            outs = [(s, cat(t, S(p))) for s, t in outs]
            continue
        idx, spec = p
        nxt = []
        for s, t in outs:
            av = ip.val(s, argv)
            x = ip.index(s, av, INT(idx))
            x = ip.val(s, x)
            if x[0] != "fmtarg":
                nxt.append((s, cat(t, call("fmtarg", ip.deep(s, x)))))
                continue
            if x[1] != "display" or spec:
                nxt.append((s, cat(t, call("fmt_" + x[1] + spec.hex(), ip.deep(s, ip.val(s, x[2]))))))
                continue
            for o in display(ip, s, x[2], x[3], cid + ("arg%d" % n,)):
                if o.kind == "ret":
                    nxt.append((o.st, cat(t, o.val)))
        outs = nxt
    return [Out("ret", s, t) for s, t in outs]


def _argmodel(kind):
    def m(ip, st, f, a, cid):
        ty = (f.get("args") or [""])[-1]
        return ret(st, ("fmtarg", kind, a[0], ty))
    return m


for _k in ("display", "debug", "lower_hex", "upper_hex", "pointer", "octal", "binary", "lower_exp"):
    MODELS["std::fmt::rt::Argument::new_" + _k] = _argmodel(_k)


@model("std::fmt::Arguments::new", "std::fmt::rt::Arguments::new", "std::fmt::Arguments::new_v1")
def _fmtnew(ip, st, f, a, cid):
    b = ip.val(st, a[0])
    if b[0] == "bytes":
        return ret(st, ("fmtargs", tuple(decode_template(b[1])), a[1]))
    return ret(st, ("fmtargs", ((0, b"?"),), a[1]))


@model("std::fmt::Arguments::from_str", "std::fmt::Arguments::from_str_nonconst", "std::fmt::Arguments::new_const")
def _fmtstr(ip, st, f, a, cid):
    return ret(st, ip.val(st, a[0]))


@model("std::fmt::format")
def _format(ip, st, f, a, cid):
    return expand_fmt(ip, st, a[0], cid)


@model("std::fmt::Formatter::write_fmt", "std::fmt::Write::write_fmt", "std::io::Write::write_fmt",
       "std::fmt::Formatter::write_str", "std::fmt::Write::write_str", "std::fmt::Formatter::pad", "std::fmt::Write::write_char")
def _write_fmt(ip, st, f, a, cid):
    out = []
    sty = (f.get("args") or [f.get("self") or ""])[0]
    concrete = "Formatter" in norm_path(f["path"]) or short(sty) in ("String", "Formatter")
    for o in (expand_fmt(ip, st, a[1], cid) if f["name"] == "write_fmt" else ret(st, ip.val(st, a[1]))):
        if o.kind == "panic":
            out.append(o)
        elif concrete:
            s = o.st.copy()
            append(ip, s, a[0], o.val)
            out.append(Out("ret", s, ok(UNIT)))
        else:
            out += ip.event(o.st, "write", [a[0], o.val], [ip.deep(o.st, a[0]), ip.deep(o.st, o.val)])
    return out


# ------------------------------------------------------------------ strings
def append(ip, st, r, v):
    cur = ip.val(st, r)
    ip.write_ref(st, r, cat(cur, v))


@model("std::string::String::new", "std::string::String::with_capacity", "proc_macro2::TokenStream::new")
def _snew(ip, st, f, a, cid):
    return ret(st, S(""))


@model("std::string::String::push_str", "std::string::String::push")
def _push_str(ip, st, f, a, cid):
    st = st.copy()
    append(ip, st, a[0], strval(ip, st, a[1]))
    return ret(st, UNIT)


def strval(ip, st, v):
    return ip.deep(st, ip.val(st, v))


@model("std::string::String::insert_str", "std::string::String::insert")
def _insert_str(ip, st, f, a, cid):
    cur = ip.val(st, a[0])
    if f["name"] in ("insert", "insert_str") and ip.val(st, a[1]) == INT(0):
        st = st.copy()
        ip.write_ref(st, a[0], cat(strval(ip, st, a[2]), cur))
        return ret(st, UNIT)
    st = st.copy()
    ip.write_ref(st, a[0], call("insert", cur, strval(ip, st, a[1]), strval(ip, st, a[2])))
    return ret(st, UNIT)


@model("std::string::String::clear", "std::vec::Vec::clear", "std::collections::HashMap::clear")
def _clear(ip, st, f, a, cid):
    st = st.copy()
    ip.write_ref(st, a[0], S("") if "String" in f["path"] else ("seq",))
    return ret(st, UNIT)


@model("std::string::String::truncate", "std::string::String::pop", "std::string::String::retain", "std::string::String::remove",
       "std::string::String::drain", "std::vec::Vec::truncate", "std::vec::Vec::remove", "std::vec::Vec::retain",
       "std::vec::Vec::drain", "std::vec::Vec::insert", "std::vec::Vec::swap_remove", "std::slice::reverse", "std::slice::sort",
       "std::vec::Vec::dedup", "std::slice::sort_by", "std::slice::sort_unstable", "std::slice::swap", "std::vec::Vec::pop",
       "std::slice::rotate_left", "std::slice::rotate_right", "std::vec::Vec::split_off", "std::slice::sort_by_key",
       "std::collections::VecDeque::pop_front", "std::collections::HashMap::retain", "std::vec::Vec::dedup_by_key")
def _mutate(ip, st, f, a, cid):
    n = f["name"]
    cur = ip.val(st, a[0])
    rest = [ip.deep(st, x) for x in a[1:]]
    st = st.copy()
    if n == "pop" and cur[0] == "seq":
        if len(cur) == 1:
            return ret(st, NONE)
        if cur[-1][0] == "one":
            ip.write_ref(st, a[0], seq(cur[1:-1]))
            return ret(st, some(cur[-1][1]))
    if n == "insert" and ip.val(st, a[1]) == INT(0):
        ip.write_ref(st, a[0], seq((("one", a[2]),) + seq_items(cur)))
        return ret(st, UNIT)
    r = call(n + "_result", cur, *rest)
    ip.write_ref(st, a[0], call(n, cur, *rest))
    if n in ("pop", "remove", "swap_remove", "drain", "split_off", "pop_front"):
        return ret(st, r)
    return ret(st, UNIT)


@model("std::string::String::is_empty", "std::str::is_empty", "std::vec::Vec::is_empty", "std::slice::is_empty",
       "std::collections::HashMap::is_empty", "std::collections::VecDeque::is_empty")
def _is_empty(ip, st, f, a, cid):
    return ret(st, empty(ip.deep(st, ip.val(st, a[0]))))


@model("std::string::String::len", "std::str::len", "std::vec::Vec::len", "std::slice::len", "std::collections::HashMap::len",
       "std::iter::ExactSizeIterator::len")
def _len(ip, st, f, a, cid):
    v = ip.val(st, a[0])
    if v[0] in ITER_TAGS:
        return consume_count(ip, st, v, cid)
    return ret(st, length(ip.deep(st, v)))


@model("std::str::chars")
def _chars(ip, st, f, a, cid):
    s = ip.deep(st, ip.val(st, a[0]))
    if s[0] == "str":
        return ret(st, ("it", seq_of(*[("char", c) for c in s[1]])))
    return None


@model("std::str::contains", "std::str::starts_with", "std::str::ends_with")
def _contains(ip, st, f, a, cid):
    n = f["name"]
    s, p = ip.deep(st, ip.val(st, a[0])), pat(ip, st, a[1])
    if s[0] == "str" and p[0] == "str":
        r = {"contains": p[1] in s[1], "starts_with": s[1].startswith(p[1]), "ends_with": s[1].endswith(p[1])}[n]
        return ret(st, ("bool", r))
    if p == S(""):
        return ret(st, TRUE)
    if p[0] == "str" and s[0] == "cat":
        if n == "starts_with" and s[1][0] == "str" and len(s[1][1]) >= len(p[1]):
            return ret(st, ("bool", s[1][1].startswith(p[1])))
        if n == "contains" and any(x[0] == "str" and p[1] in x[1] for x in s[1:]):
            return ret(st, TRUE)
    return ret(st, (n, s, p))


def pat(ip, st, v):
    v = ip.deep(st, ip.val(st, v))
    if v[0] == "char":
        return S(v[1])
    if v[0] == "seq":
        return ("pats",) + tuple(sorted((x[1] if x[0] == "one" else x for x in v[1:]), key=repr))
    return v


@model("std::str::replace", "std::str::replacen")
def _replace(ip, st, f, a, cid):
    s, p, r = ip.deep(st, ip.val(st, a[0])), pat(ip, st, a[1]), strval(ip, st, a[2])
    n = (ip.deep(st, a[3]),) if len(a) > 3 else ()
    # a replacement that cannot occur changes nothing
    if st.facts.get(("contains", s, p)) is False:
        return ret(st, s)
    return ret(st, call(f["name"], s, p, r, *n))


@model("std::ops::Add::add")
def _add(ip, st, f, a, cid):
    ty = (f.get("args") or [""])[0]
    if short(ty) in ("String", "Cow"):
        return ret(st, cat(strval(ip, st, a[0]), strval(ip, st, a[1])))
    return ret(st, add(ip.val(st, a[0]), ip.val(st, a[1])))


@model("std::ops::AddAssign::add_assign")
def _addassign(ip, st, f, a, cid):
    ty = (f.get("args") or [""])[0]
    st = st.copy()
    if short(ty) in ("String", "Cow"):
        append(ip, st, a[0], strval(ip, st, a[1]))
    else:
        ip.write_ref(st, a[0], add(ip.val(st, a[0]), ip.val(st, a[1])))
    return ret(st, UNIT)


@model("std::slice::join", "std::slice::concat", "std::slice::Join::join", "std::slice::Concat::concat", "itertools::Itertools::join")
def _join(ip, st, f, a, cid):
    src = to_iter(ip, st, a[0])
    if f["name"] == "concat" and len(a) == 1 and len(f.get("args") or []) > 1 and short(f["args"][-1]) not in ("str", "String"):
        return collect(ip, st, ("flatten", src), "seq", cid)
    sep = strval(ip, st, a[1]) if len(a) > 1 else S("")
    # sequence first, then text with separators
    outs = []
    for o in collect(ip, st, src, "seq", cid):
        if o.kind == "panic":
            outs.append(o)
            continue
        v = o.val
        if seq_known(v) is not None:
            v = seq_of(*[strval(ip, o.st, x) for x in seq_known(v)])
        outs.append(Out("ret", o.st, join_seq(v, sep)))
    return outs


def join_seq(v, sep):
    ks = seq_known(v)
    if ks is not None:
        r = []
        for i, x in enumerate(ks):
            if i:
                r.append(sep)
            r.append(x)
        return cat(*r)
    items = seq_items(v)
    if sep == S(""):
        r = []
        for x in items:
            if x[0] == "one":
                r.append(x[1])
            elif x[0] == "spl":
                src = ("it", x[1])
                r.extend(mk_each(src, [(frozenset(), (("elem", src),))], "cat"))
            elif x[0] == "each" and all(q[0] == "one" for _, p in x[2] for q in p):
                r.extend(mk_each(x[1], [(frozenset(c), tuple(y for q in p for y in cat_items(q[1]))) for c, p in x[2]], "cat"))
            else:
                r.append(("concat", x))
        return cat(*r)
    if len(items) == 1:
        x = items[0]
        if x[0] == "spl":
            src = ("it", x[1])
            alts = [((), (("elem", src),))]
        elif x[0] == "each" and all(len(p) == 1 and p[0][0] == "one" for _, p in x[2]):
            src = x[1]
            alts = [(c, cat_items(p[0][1])) for c, p in x[2]]
            # only when every element yields exactly one text
            if len(alts) > 1 and not total(alts):
                return ("join", v, sep)
        else:
            return ("join", v, sep)
        lp = ("lastp", src)
        out = []
        for c, p in alts:
            out.append((frozenset(c) | {(lp, True)}, p))
            t = cat(*(tuple(p) + (sep,)))
            out.append((frozenset(c) | {(lp, False)}, cat_items(t)))
        return cat(*mk_each(src, out, "cat"))
    return ("join", v, sep)


def total(alts):
    m = merge_alts([(frozenset(c), 1) for c, _ in alts])
    return len(m) == 1 and not m[0][0]


# ------------------------------------------------------------------ sequences
@model("std::vec::Vec::new", "std::vec::Vec::with_capacity", "std::collections::HashMap::new", "std::collections::HashSet::new",
       "std::collections::HashMap::with_capacity", "std::collections::HashSet::with_capacity", "std::collections::VecDeque::new",
       "yew::Classes::new", "yew::Classes::with_capacity")
def _vnew(ip, st, f, a, cid):
    return ret(st, ("seq",))


@model("std::vec::Vec::push", "std::collections::VecDeque::push_back")
def _push(ip, st, f, a, cid):
    st = st.copy()
    cur = ip.val(st, a[0])
    ip.write_ref(st, a[0], seq(seq_items(cur) + (("one", a[1]),)))
    return ret(st, UNIT)


@model("yew::Classes::push", "yew::Classes::unchecked_push")
def _clpush(ip, st, f, a, cid):
    st = st.copy()
    cur, x = ip.val(st, a[0]), ip.val(st, a[1])
    ip.write_ref(st, a[0], seq(seq_items(cur) + (seq_items(x) if x[0] == "seq" else (("one", x),))))
    return ret(st, UNIT)


@model("std::vec::Vec::append", "std::vec::Vec::extend_from_slice")
def _vappend(ip, st, f, a, cid):
    st = st.copy()
    cur = ip.val(st, a[0])
    o = ip.val(st, a[1])
    ip.write_ref(st, a[0], seq(seq_items(cur) + seq_items(o)))
    if f["name"] == "append":
        ip.write_ref(st, a[1], ("seq",))
    return ret(st, UNIT)


@model("std::slice::iter", "std::slice::iter_mut", "std::vec::Vec::iter", "std::collections::HashMap::iter", "std::vec::Vec::into_iter",
       "std::collections::HashMap::values", "std::option::Option::iter", "std::collections::HashMap::into_iter",
       "std::option::Option::into_iter", "std::iter::IntoIterator::into_iter", "std::collections::HashMap::keys")
def _iter(ip, st, f, a, cid):
    v = ip.val(st, a[0])
    n = f["name"]
    if n in ("keys", "values"):
        v = ip.deep(st, v)
        if v[0] == "seq" and all(x[0] == "spl" or x[0] == "one" and x[1][0] == "tup" for x in v[1:]):
            at = 1 if n == "keys" else 2
            return ret(st, ("it", seq([("one", x[1][at]) if x[0] == "one" else ("spl", call(n, x[1])) for x in v[1:]])))
        return ret(st, ("it", call(n, v)))
    if "option::Option" in (f.get("rpath") or f.get("path") or "") and v[0] in ("pay", "fld", "call", "arg", "elem"):
        ip.options.add(v)
    return ret(st, to_iter(ip, st, a[0]))


def to_iter(ip, st, v):
    x = ip.val(st, v)
    if x[0] in ITER_TAGS:
        return x
    if x[0] == "adt" and x[2] in ("Some", "None"):
        return ("optit", x)
    if x[0] == "adt" and x[2] in ("Ok", "Err"):
        return ("optit", some(x[3][0][1])) if x[2] == "Ok" else ("emptyit",)
    if x[0] == "adt" and x[1] == "Range":
        d = dict(x[3])
        return ("range", d.get("start"), d.get("end"))
    if x[0] == "adt":
        return v if v[0] == "ref" else x
    if x[0] == "call" and x[1] in ("RangeInclusive::new",):
        return ("range", x[2], add(x[3], INT(1)))
    return ("it", x)


def _lazy(tag):
    def m(ip, st, f, a, cid):
        return ret(st, (tag, to_iter(ip, st, a[0])) + tuple(a[1:]))
    return m


for _n in ("map", "filter", "filter_map", "flat_map", "flatten", "rev", "skip", "take", "enumerate", "take_while", "skip_while",
           "inspect", "map_while", "peekable", "step_by"):
    MODELS["std::iter::Iterator::" + _n] = _lazy(_n)


@model("std::iter::Iterator::chain", "std::iter::Iterator::zip", "std::iter::zip")
def _chain(ip, st, f, a, cid):
    k = "zip" if f["name"] == "zip" else "chain"
    return ret(st, (k, to_iter(ip, st, a[0]), to_iter(ip, st, a[1])))


@model("std::iter::once")
def _once(ip, st, f, a, cid):
    return ret(st, ("once", a[0]))


@model("std::iter::empty")
def _empty(ip, st, f, a, cid):
    return ret(st, ("emptyit",))


@model("std::iter::repeat_with", "std::iter::repeat")
def _repeat_with(ip, st, f, a, cid):
    return ret(st, ("repeat_with", a[0]))


def collect(ip, st, it, kind, cid, wrap=None):
    """iterate and append every element"""
    loc = ("H", "col", cid)
    st = st.copy()
    st.store[loc] = S("") if kind == "cat" else ("seq",)

    def put(s, e):
        s = s.copy()
        cur = s.store[loc]
        s.store[loc] = cat(cur, strval(ip, s, e)) if kind == "cat" else seq(seq_items(cur) + (("one", e),))
        return s

    def body(s, e):
        if wrap:
            out = []
            ns = ["Ok", "Err"] if wrap == "Result" else ["None", "Some"]
            good = "Ok" if wrap == "Result" else "Some"
            e = ip.val(s, e)
            for n, s2 in ip.variant(s, e, ns):
                if n == good:
                    out.append(("cont", put(s2, ip.payload(s2, e, good)), None))
                else:
                    out.append(("break", s2, err(ip.payload(s2, e, "Err")) if wrap == "Result" else NONE))
            return out
        return [("cont", put(s, e), None)]
    out = []
    for ctl, s, v in ip.iterate(st, it, body, cid + ("col",)):
        x = s.store.pop(loc, None)
        if ctl == "done":
            out.append(Out("ret", s, x if not wrap else (ok(x) if wrap == "Result" else some(x))))
        elif ctl == "break":
            out.append(Out("ret", s, v))
        else:
            out.append(Out("panic", s, v))
    return out


CATTY = ("String", "TokenStream")


@model("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter", "itertools::Itertools::collect_vec")
def _collect(ip, st, f, a, cid):
    ar = f.get("args") or []
    ty = ar[0] if f["name"] == "from_iter" else (ar[-1] if len(ar) > 1 else "Vec")
    wrap = None
    s = short(ty)
    if s in ("Result", "Option"):
        wrap = s
        ty = (targs(ty) or ["Vec"])[0]
        s = short(ty)
    it = to_iter(ip, st, a[0])
    if it[0] in ("adt", "ref"):
        return None
    if it[0] == "take" and it[1][0] == "repeat_with":
        return ret(st, call("collect", ip.deep(st, it)))
    return collect(ip, st, it, "cat" if s in CATTY else "seq", cid, wrap)


@model("std::iter::Extend::extend", "std::vec::Vec::extend")
def _extend(ip, st, f, a, cid):
    ty = (f.get("args") or [""])[0]
    kind = "cat" if short(ty) in CATTY else "seq"
    if short(ty) == "TokenStream" and any(short(x) == "TokenStream" for x in (f.get("args") or [])[1:]):
        st = st.copy()            # the tokens of a stream, one after the other
        x = strval(ip, st, ip.val(st, a[1]))
        if x[0] not in ("tk", "grp", "tok", "cat", "each", "str") and x[:2] != ("call", "tokens"):
            x = ("tok", x)
        ip.write_ref(st, a[0], cat(ip.val(st, a[0]), x))
        return ret(st, UNIT)
    it = to_iter(ip, st, a[1])
    if it[0] in ("adt", "ref"):
        return None
    out = []

    def body(s, e):
        s = s.copy()
        cur = ip.val(s, a[0])
        ip.write_ref(s, a[0], cat(cur, strval(ip, s, e)) if kind == "cat" else seq(seq_items(cur) + (("one", e),)))
        return [("cont", s, None)]
    for ctl, s, v in ip.iterate(st.copy(), it, body, cid + ("ext",)):
        out.append(Out("ret", s, UNIT) if ctl == "done" else Out("panic", s, v))
    return out


def consume_count(ip, st, it, cid):
    loc = ("H", "cnt", cid)
    st = st.copy()
    st.store[loc] = INT(0)

    def body(s, e):
        s = s.copy()
        s.store[loc] = add(s.store[loc], INT(1))
        return [("cont", s, None)]
    out = []
    for ctl, s, v in ip.iterate(st, it, body, cid + ("cnt",)):
        x = s.store.pop(loc, None)
        out.append(Out("ret", s, x) if ctl == "done" else Out("panic", s, v))
    return out


@model("std::iter::Iterator::count")
def _count(ip, st, f, a, cid):
    it = to_iter(ip, st, a[0])
    if it[0] in ("adt", "ref"):
        return None
    # counting a map counts its source
    while it[0] in ("map",) or (it[0] in ("rev", "peekable") and len(it) == 2):
        it = it[1]
    if it[0] in ("it", "skip", "chain", "zip", "take"):
        try:
            src = ip.as_src(st, it)
            c = count(src)
            return ret(st, c)
        except I_.Unsupported:
            pass
    return consume_count(ip, st, it, cid)


@model("std::iter::Iterator::for_each")
def _for_each(ip, st, f, a, cid):
    it = to_iter(ip, st, a[0])
    if it[0] in ("adt", "ref"):
        return None

    def body(s, e):
        return [("cont" if o.kind == "ret" else "panic", o.st, o.val) for o in ip.call_value(s, a[1], [e], cid + ("fe",))]
    return [Out("ret", s, UNIT) if ctl == "done" else Out("panic", s, v)
            for ctl, s, v in ip.iterate(st, it, body, cid)]


@model("std::iter::Iterator::try_for_each")
def _try_for_each(ip, st, f, a, cid):
    it = to_iter(ip, st, a[0])
    if it[0] in ("adt", "ref"):
        return None

    def body(s, e):
        out = []
        for o in ip.call_value(s, a[1], [e], cid + ("fe",)):
            if o.kind == "panic":
                out.append(("panic", o.st, o.val))
                continue
            v = ip.val(o.st, o.val)
            for n, s2 in ip.variant(o.st, v, ["Ok", "Err"]):
                out.append(("cont", s2, None) if n in ("Ok", "Some", "Continue") else ("break", s2, v if v[0] == "adt" else err(ip.payload(s2, v, "Err"))))
        return out
    return [Out("ret", s, ok(UNIT)) if ctl == "done" else (Out("ret", s, v) if ctl == "break" else Out("panic", s, v))
            for ctl, s, v in ip.iterate(st, it, body, cid)]


@model("std::iter::Iterator::fold")
def _fold(ip, st, f, a, cid):
    it = to_iter(ip, st, a[0])
    if it[0] in ("adt", "ref"):
        return None
    loc = ("H", "fold", cid)
    st = st.copy()
    st.store[loc] = a[1]

    def body(s, e):
        out = []
        for o in ip.call_value(s, a[2], [s.store[loc], e], cid + ("fold",)):
            if o.kind == "panic":
                out.append(("panic", o.st, o.val))
            else:
                s2 = o.st.copy()
                s2.store[loc] = o.val
                out.append(("cont", s2, None))
        return out
    out = []
    for ctl, s, v in ip.iterate(st, it, body, cid):
        x = s.store.pop(loc, None)
        out.append(Out("ret", s, x) if ctl == "done" else Out("panic", s, v))
    return out


@model("std::iter::Iterator::any", "std::iter::Iterator::all", "std::iter::Iterator::find", "std::iter::Iterator::position",
       "std::iter::Iterator::find_map")
def _any(ip, st, f, a, cid):
    n = f["name"]
    r = guard(ip, st, a[0])
    it = to_iter(ip, st, a[0])
    if it[0] in ("adt", "ref"):
        return None

    def body(s, e):
        out = []
        for o in ip.call_value(s, a[1], [e], cid + (n,)):
            if o.kind == "panic":
                out.append(("panic", o.st, o.val))
                continue
            if n == "find_map":
                for nn, s2 in ip.variant(o.st, o.val, ["None", "Some"]):
                    out.append(("break", s2, o.val) if nn == "Some" else ("cont", s2, None))
                continue
            for b, s2 in ip.branch(o.st, o.val):
                if b == (n != "all"):
                    out.append(("break", s2, {"any": TRUE, "all": FALSE}.get(n) or some(e)))
                else:
                    out.append(("cont", s2, None))
        return out
    fin = {"any": FALSE, "all": TRUE}.get(n, NONE)
    if n == "position":
        return ret(st, call("position", ip.deep(st, it)))
    return [Out("ret", s, fin) if ctl == "done" else (Out("ret", s, v) if ctl == "break" else Out("panic", s, v))
            for ctl, s, v in ip.iterate(st, it, body, cid)]


@model("std::iter::Iterator::next", "std::iter::Iterator::nth", "std::iter::Iterator::last", "std::iter::DoubleEndedIterator::next_back")
def _next(ip, st, f, a, cid):
    n = f["name"]
    r = a[0]
    v = ip.val(st, r)
    sty = (f.get("args") or [""])[0]
    if v[0] == "feed":
        st = st.copy()
        ip.write_ref(st, r, ("emptyit",))
        return ret(st, some(v[1]))
    it = to_iter(ip, st, v)
    if it[0] in ("adt", "ref"):
        return None
    if it[0] == "it" and v[0] not in ITER_TAGS:
        # a foreign iterator value
        if n == "next" and not (v[0] == "adt"):
            pass
    if n == "next" and it[0] == "it":
        x = ip.val(st, it[1])
        if x[0] == "seq" and len(x) > 1 and x[1][0] == "one":
            st = st.copy()
            ip.write_ref(st, r, ("it", seq(x[2:]) if len(x) > 2 else ("seq",)))
            return ret(st, some(x[1][1]))
        if x == ("seq",):
            return ret(st, NONE)
    if n == "next" and it[0] == "emptyit":
        return ret(st, NONE)
    if n == "next" and it[0] == "once":
        st = st.copy()
        ip.write_ref(st, r, ("emptyit",))
        return ret(st, some(it[1]))
    try:
        src = ip.as_src(st, it)
    except I_.Unsupported:
        src = ip.deep(st, it)
    out = []
    for b, s in ip.branch(st, empty_src(src)):
        if b:
            out.append(Out("ret", s, NONE))
        else:
            s = s.copy()
            if n == "next":
                ip.write_ref(s, r, ("skip", it, INT(1)))
            elif n == "next_back":
                ip.write_ref(s, r, ("opit", call("butlast", src)))
            out.append(Out("ret", s, some(at(src, {"next": INT(0), "last": INT(-1), "next_back": INT(-1)}.get(n) or ip.deep(s, a[1])))))
    return out


@model("std::slice::first", "std::slice::last", "std::slice::get", "std::slice::split_first", "std::slice::split_last", "std::vec::Vec::first",
       "std::vec::Vec::last")
def _first(ip, st, f, a, cid):
    n = f["name"]
    v = ip.deep(st, ip.val(st, a[0]))
    ks = seq_known(v)
    if n == "get":
        i = ip.val(st, a[1])
        if ks is not None and i[0] == "int":
            return ret(st, some(ks[i[1]]) if i[1] < len(ks) else NONE)
        c = lt(i, length(v))
        return [Out("ret", s, some(ip.index(s, v, i)) if b else NONE) for b, s in ip.branch(st, c)] if i[0] in ("int", "idx", "add") \
            else ret(st, call("get", v, ip.deep(st, i)))
    out = []
    for b, s in ip.branch(st, empty(v)):
        if b:
            out.append(Out("ret", s, NONE))
            continue
        its = seq_items(v)
        if n in ("first", "split_first"):
            e = its[0][1] if its[0][0] == "one" else at(v, INT(0))
            rest = seq(its[1:]) if its[0][0] == "one" else call("tail", v)
            if its[0][0] == "one" and len(its) == 1:
                rest = ("seq",)
        else:
            e = its[-1][1] if its[-1][0] == "one" else at(v, INT(-1))
            rest = seq(its[:-1]) if its[-1][0] == "one" else call("butlast", v)
        out.append(Out("ret", s, some(e) if n in ("first", "last") else some(("tup", e, rest))))
    return out


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def _index(ip, st, f, a, cid):
    v = ip.deep(st, ip.val(st, a[0]))
    i = ip.val(st, a[1])
    if i[0] == "adt" and i[2] == "RangeFull":
        return ret(st, a[0])
    if i[0] in ("adt",) and i[1].startswith("Range"):
        d = dict(i[3])
        if i[1] == "RangeFrom" and d.get("start") == INT(0):
            return ret(st, a[0])
        return ret(st, call("slice_" + i[1], v, *[ip.deep(st, x) for _, x in i[3]]))
    ty = (f.get("args") or [""])[0]
    if short(ty) in ("HashMap", "BTreeMap"):
        return ret(st, ("pay", call("map_get", v, ip.deep(st, i)), "Some", "0"))
    return ret(st, ip.index(st, v, i))


# ------------------------------------------------------------------ maps
def maplike(ip, st, r):
    return ip.deep(st, ip.val(st, r))


@model("std::collections::HashMap::get", "std::collections::HashMap::get_mut", "std::collections::HashMap::contains_key",
       "std::collections::HashSet::contains", "std::collections::HashSet::get", "std::collections::BTreeMap::get",
       "std::collections::BTreeMap::contains_key", "std::collections::BTreeSet::contains")
def _mget(ip, st, f, a, cid):
    t = call("map_get", maplike(ip, st, a[0]), ip.deep(st, ip.val(st, a[1])))
    if f["name"] in ("contains_key", "contains"):
        return [Out("ret", s, ("bool", n == "Some")) for n, s in ip.variant(st, t, ["None", "Some"])]
    return ret(st, t)


@model("std::collections::HashMap::insert", "std::collections::HashSet::insert", "std::collections::BTreeMap::insert",
       "std::collections::HashSet::replace", "std::collections::BTreeSet::insert")
def _minsert(ip, st, f, a, cid):
    cur = maplike(ip, st, a[0])
    k = a[1]
    v = a[2] if len(a) > 2 else UNIT
    old = call("map_get", cur, ip.deep(st, ip.val(st, k)))
    st = st.copy()
    ip.write_ref(st, a[0], seq(seq_items(cur) + (("one", ("tup", ip.deep(st, k), ip.deep(st, v))),)))
    if "Set" in f["path"] and f["name"] == "insert":
        return [Out("ret", s, ("bool", n == "None")) for n, s in ip.variant(st, old, ["None", "Some"])]
    return ret(st, old)


@model("std::collections::HashMap::remove", "std::collections::HashSet::remove", "std::collections::HashMap::remove_entry",
       "std::collections::BTreeMap::remove")
def _mremove(ip, st, f, a, cid):
    cur = maplike(ip, st, a[0])
    k = ip.deep(st, ip.val(st, a[1]))
    old = call("map_get", cur, k)
    st = st.copy()
    ip.write_ref(st, a[0], call("map_remove", cur, k))
    if "Set" in f["path"]:
        return [Out("ret", s, ("bool", n == "Some")) for n, s in ip.variant(st, old, ["None", "Some"])]
    return ret(st, old)


def the_map(ip, st, t):
    return t


@model("std::collections::HashMap::entry", "std::collections::BTreeMap::entry")
def _mentry(ip, st, f, a, cid):
    cur = maplike(ip, st, a[0])
    k = ip.deep(st, ip.val(st, a[1]))
    m = guard(ip, st, a[0])
    out = []
    for n, s in ip.variant(st, call("map_get", cur, k), ["None", "Some"]):
        if n == "Some":
            out.append(Out("ret", s, adt("Entry", "Occupied", (("0", ("occ", m, k)),))))
        else:
            out.append(Out("ret", s, adt("Entry", "Vacant", (("0", ("vac", m, k)),))))
    return out


def occ_of(ip, st, v, tag):
    v = ip.val(st, v) if v[0] == "ref" else v
    return v if v[0] == tag else None


@model("std::collections::hash_map::OccupiedEntry::get", "std::collections::hash_map::OccupiedEntry::get_mut",
       "std::collections::hash_map::OccupiedEntry::into_mut", "std::collections::hash_map::OccupiedEntry::key",
       "std::collections::hash_map::VacantEntry::key", "std::collections::hash_map::OccupiedEntry::insert",
       "std::collections::hash_map::OccupiedEntry::remove")
def _occget(ip, st, f, a, cid):
    e = occ_of(ip, st, a[0], "occ") or occ_of(ip, st, a[0], "vac")
    if e is None:
        return None
    if f["name"] == "key":
        return ret(st, e[2])
    cur = maplike(ip, st, e[1])
    old = ("pay", call("map_get", cur, e[2]), "Some", "0")
    if f["name"] in ("insert", "remove"):
        st = st.copy()
        if f["name"] == "remove":
            ip.write_ref(st, e[1], call("map_remove", cur, e[2]))
        else:
            ip.write_ref(st, e[1], call("map_replace", cur, e[2], ip.deep(st, a[1])))
        return ret(st, old)
    return ret(st, old)


@model("std::collections::hash_map::VacantEntry::insert")
def _vacins(ip, st, f, a, cid):
    e = occ_of(ip, st, a[0], "vac")
    if e is None:
        return None
    cur = maplike(ip, st, e[1])
    st = st.copy()
    v = ip.deep(st, a[1])
    ip.write_ref(st, e[1], seq(seq_items(cur) + (("one", ("tup", e[2], v)),)))
    return ret(st, v)


@model("std::collections::hash_map::Entry::or_insert", "std::collections::hash_map::Entry::or_insert_with")
def _orins(ip, st, f, a, cid):
    en = ip.val(st, a[0])
    if en[0] != "adt":
        return None
    e = en[3][0][1]
    cur = maplike(ip, st, e[1])
    if en[2] == "Occupied":
        return ret(st, ("pay", call("map_get", cur, e[2]), "Some", "0"))
    out = []
    for o in (ip.call_value(st, a[1], [], cid + ("oi",)) if f["name"] == "or_insert_with" else ret(st, a[1])):
        if o.kind == "panic":
            out.append(o)
            continue
        s = o.st.copy()
        cur = maplike(ip, s, e[1])
        ip.write_ref(s, e[1], seq(seq_items(cur) + (("one", ("tup", e[2], ip.deep(s, o.val))),)))
        out.append(Out("ret", s, o.val))
    return out


# ------------------------------------------------------------------ Option / Result
def panic(st, what):
    return Out("panic", st, what)


def generic(name):
    """Option/Result combinators by name"""
    def m(ip, st, f, a, cid):
        isr = is_result(f)
        good, bad = ("Ok", "Err") if isr else ("Some", "None")
        v = ip.val(st, a[0])
        mk = ok if isr else some
        out = []

        def pay(s, n):
            return ip.payload(s, v, n)

        def apply(s, fn, args, wrap=None):
            for o in ip.call_value(s, fn, args, cid + (name,)):
                out.append(o if o.kind == "panic" or wrap is None else Out("ret", o.st, wrap(o.val)))
        if name == "as_mut" or name == "as_deref_mut":
            r = guard(ip, st, a[0])
            if r[0] == "ref" and v[0] == "adt":
                if v[2] == good:
                    return ret(st, mk(("ref", r[1], tuple(r[2]) + (("v", good), ("f", 0, "0", "Option")))))
                return ret(st, v)
            return ret(st, v)
        if name == "take":
            st = st.copy()
            ip.write_ref(st, a[0], NONE)
            return ret(st, v)
        if name in ("replace", "insert", "get_or_insert_with"):
            if name == "get_or_insert_with":
                for n, s in ip.variant(st, v, [bad, good]):
                    if n == good:
                        out.append(Out("ret", s, pay(s, good)))
                    else:
                        for o in ip.call_value(s, a[1], [], cid + (name,)):
                            if o.kind == "ret":
                                s2 = o.st.copy()
                                ip.write_ref(s2, a[0], some(o.val))
                                out.append(Out("ret", s2, o.val))
                            else:
                                out.append(o)
                return out
            st = st.copy()
            ip.write_ref(st, a[0], some(a[1]))
            return ret(st, v if name == "replace" else a[1])
        for n, s in ip.variant(st, v, [bad, good]):
            g = n == good
            if name in ("is_some", "is_ok"):
                out.append(Out("ret", s, ("bool", g)))
            elif name in ("is_none", "is_err"):
                out.append(Out("ret", s, ("bool", not g)))
            elif name in ("unwrap", "expect"):
                out.append(Out("ret", s, pay(s, good)) if g else panic(s, (name, f["path"], None)))
            elif name in ("unwrap_err", "expect_err"):
                out.append(Out("ret", s, pay(s, bad)) if not g else panic(s, (name, f["path"], None)))
            elif name == "unwrap_unchecked":
                out.append(Out("ret", s, pay(s, good)))
            elif name == "unwrap_or":
                out.append(Out("ret", s, pay(s, good) if g else a[1]))
            elif name == "unwrap_or_default":
                if g:
                    out.append(Out("ret", s, pay(s, good)))
                else:
                    ar = f.get("args") or ["?"]
                    out.extend(default_of(ip, s, ar[0], cid))
            elif name == "unwrap_or_else":
                if g:
                    out.append(Out("ret", s, pay(s, good)))
                else:
                    apply(s, a[1], [pay(s, bad)] if isr else [])
            elif name in ("map", "and_then", "is_some_and", "is_ok_and", "map_or", "map_or_else", "inspect"):
                if name == "map_or":
                    if g:
                        apply(s, a[2], [pay(s, good)])
                    else:
                        out.append(Out("ret", s, a[1]))
                elif name == "map_or_else":
                    if g:
                        apply(s, a[2], [pay(s, good)])
                    else:
                        apply(s, a[1], [pay(s, bad)] if isr else [])
                elif not g:
                    if name.endswith("_and"):
                        out.append(Out("ret", s, FALSE))
                    else:
                        out.append(Out("ret", s, err(pay(s, bad)) if isr else NONE))
                elif name == "inspect":
                    for o in ip.call_value(s, a[1], [pay(s, good)], cid + (name,)):
                        out.append(Out("ret", o.st, mk(pay(o.st, good))) if o.kind == "ret" else o)
                else:
                    apply(s, a[1], [pay(s, good)], mk if name == "map" else None)
            elif name == "map_err":
                if g:
                    out.append(Out("ret", s, ok(pay(s, good))))
                else:
                    apply(s, a[1], [pay(s, bad)], err)
            elif name in ("or_else", "or"):
                if g:
                    out.append(Out("ret", s, mk(pay(s, good))))
                elif name == "or":
                    out.append(Out("ret", s, a[1]))
                else:
                    apply(s, a[1], [pay(s, bad)] if isr else [])
            elif name == "and":
                out.append(Out("ret", s, a[1] if g else (err(pay(s, bad)) if isr else NONE)))
            elif name == "xor":
                out.append(Out("ret", s, call("xor", v, a[1])))
            elif name in ("ok_or", "ok_or_else"):
                if g:
                    out.append(Out("ret", s, ok(pay(s, good))))
                elif name == "ok_or":
                    out.append(Out("ret", s, err(a[1])))
                else:
                    apply(s, a[1], [], err)
            elif name == "ok":
                out.append(Out("ret", s, some(pay(s, good)) if g else NONE))
            elif name == "err":
                out.append(Out("ret", s, NONE if g else some(pay(s, bad))))
            elif name == "filter":
                if not g:
                    out.append(Out("ret", s, NONE))
                else:
                    for o in ip.call_value(s, a[1], [pay(s, good)], cid + (name,)):
                        if o.kind == "panic":
                            out.append(o)
                            continue
                        for b, s2 in ip.branch(o.st, o.val):
                            out.append(Out("ret", s2, some(pay(s2, good)) if b else NONE))
            elif name == "flatten":
                out.append(Out("ret", s, pay(s, good) if g else (err(pay(s, bad)) if isr else NONE)))
            elif name == "zip":
                if not g:
                    out.append(Out("ret", s, NONE))
                else:
                    w = ip.val(s, a[1])
                    for n2, s2 in ip.variant(s, w, ["None", "Some"]):
                        out.append(Out("ret", s2, some(("tup", pay(s2, good), ip.payload(s2, w, "Some"))) if n2 == "Some" else NONE))
            else:
                return None
        return out
    return m


for _n in """is_some is_none is_ok is_err unwrap expect unwrap_err expect_err unwrap_or unwrap_or_default unwrap_or_else map
and_then or_else or and xor ok_or ok_or_else ok err filter flatten zip as_mut as_deref_mut take replace insert
get_or_insert_with map_or map_or_else is_some_and is_ok_and map_err inspect""".split():
    for _t in ("option::Option", "result::Result"):
        MODELS["std::%s::%s" % (_t, _n)] = generic(_n)


@model("std::ops::Try::branch")
def _branch(ip, st, f, a, cid):
    v = ip.val(st, a[0])
    ty = short((f.get("args") or ["Result"])[0])
    if ty == "ControlFlow" or (v[0] == "adt" and v[1] == "ControlFlow"):
        return ret(st, v)
    out = []
    if ty == "Option":
        for n, s in ip.variant(st, v, ["None", "Some"]):
            out.append(Out("ret", s, adt("ControlFlow", "Continue", (("0", ip.payload(s, v, "Some")),)) if n == "Some" else
                           adt("ControlFlow", "Break", (("0", NONE),))))
        return out
    for n, s in ip.variant(st, v, ["Ok", "Err"]):
        out.append(Out("ret", s, adt("ControlFlow", "Continue", (("0", ip.payload(s, v, "Ok")),)) if n == "Ok" else
                       adt("ControlFlow", "Break", (("0", err(ip.payload(s, v, "Err"))),))))
    return out


@model("std::ops::FromResidual::from_residual")
def _resid(ip, st, f, a, cid):
    v = ip.val(st, a[0])
    ar = f.get("args") or ["", ""]
    if short(ar[0]) == "Option":
        return ret(st, NONE)
    e = ip.payload(st, v, "Err")
    fe = targs(ar[0])
    se = targs(ar[1]) if len(ar) > 1 else []
    dst = fe[1] if len(fe) > 1 else None
    src = se[1] if len(se) > 1 else None
    if len(fe) == 1:
        dst = None
    return [Out(o.kind, o.st, err(o.val) if o.kind == "ret" else o.val) for o in conv(ip, st, src, dst, e, cid)]


@model("std::bool::then_some", "std::bool::then")
def _then(ip, st, f, a, cid):
    out = []
    for b, s in ip.branch(st, a[0]):
        if not b:
            out.append(Out("ret", s, NONE))
        elif f["name"] == "then_some":
            out.append(Out("ret", s, some(a[1])))
        else:
            out += [Out(o.kind, o.st, some(o.val) if o.kind == "ret" else o.val) for o in ip.call_value(s, a[1], [], cid + ("then",))]
    return out


# ------------------------------------------------------------------ comparison
@model("std::ops::Not::not")
def _not(ip, st, f, a, cid):
    if (f.get("args") or [""])[0].lstrip("&") != "bool":
        return None
    return ret(st, bnot(ip.val(st, a[0])))


@model("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def _eq(ip, st, f, a, cid):
    x, y = ip.deep(st, ip.val(st, a[0])), ip.deep(st, ip.val(st, a[1]))
    t = eqv(x, y)
    return ret(st, t if f["name"] == "eq" else bnot(t))


def eqv(x, y):
    if x[0] == "char":
        x = S(x[1])
    if y[0] == "char":
        y = S(y[1])
    return eq(x, y)


@model("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def _ord(ip, st, f, a, cid):
    ty = (f.get("args") or [""])[0]
    if short(ty) not in ("usize", "u8", "u16", "u32", "u64", "i32", "i64", "isize", "&usize"):
        return None
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[f["name"]]
    return ret(st, ip.binop(st, op, a[0], a[1]))


@model("std::rc::Rc::ptr_eq", "std::sync::Arc::ptr_eq", "std::ptr::eq", "std::rc::Weak::ptr_eq", "std::ptr::addr_eq")
def _ptr_eq(ip, st, f, a, cid):
    return ret(st, same_place(ip, st, a[0], a[1]))


def same_place(ip, st, x, y):
    x, y = [pointee(ip.deep(st, ip.val(st, v))) for v in (x, y)]
    if x == y:
        return TRUE
    x, y = sorted((x, y), key=repr)
    return ("ptr_eq", x, y)


def pointee(v):
    return v[2] if v[:2] == ("call", "as_ptr") else v


@model("std::rc::Rc::as_ptr", "std::sync::Arc::as_ptr", "std::rc::Weak::as_ptr")
def _as_ptr(ip, st, f, a, cid):
    return ret(st, call("as_ptr", ip.deep(st, ip.val(st, a[0]))))


# ------------------------------------------------------------------ cells, memory, functions
@model("std::rc::Rc::downgrade", "std::sync::Arc::downgrade", "std::rc::Weak::upgrade", "std::sync::Weak::upgrade",
       "std::sync::Mutex::lock", "std::sync::RwLock::write", "std::sync::RwLock::read", "std::cell::RefCell::try_borrow_mut",
       "std::cell::RefCell::try_borrow")
def _weak(ip, st, f, a, cid):
    n = f["name"]
    v = guard(ip, st, a[0])
    v = v if n in ("lock", "write", "read", "try_borrow_mut", "try_borrow") else ip.deep(st, ip.val(st, v))
    return ret(st, call(n, v))


@model("std::sync::atomic::Atomic::load", "std::sync::atomic::AtomicBool::load", "std::cell::Cell::get")
def _load(ip, st, f, a, cid):
    return ret(st, ip.val(st, a[0]))


@model("std::sync::atomic::Atomic::store", "std::sync::atomic::AtomicBool::store", "std::cell::Cell::set")
def _store(ip, st, f, a, cid):
    st = st.copy()
    ip.write_ref(st, a[0], ip.val(st, a[1]))
    return ret(st, UNIT)


@model("std::sync::atomic::Atomic::swap", "std::cell::Cell::replace", "std::mem::replace", "std::cell::RefCell::replace")
def _mreplace(ip, st, f, a, cid):
    old = ip.val(st, a[0])
    st = st.copy()
    ip.write_ref(st, a[0], a[1])
    return ret(st, old)


@model("std::mem::take", "std::cell::Cell::take", "std::cell::RefCell::take")
def _mtake(ip, st, f, a, cid):
    old = ip.val(st, a[0])
    out = []
    for o in default_of(ip, st, (f.get("args") or ["?"])[0], cid):
        s = o.st.copy()
        ip.write_ref(s, a[0], o.val)
        out.append(Out("ret", s, old))
    return out


@model("std::mem::swap")
def _mswap(ip, st, f, a, cid):
    x, y = ip.val(st, a[0]), ip.val(st, a[1])
    st = st.copy()
    ip.write_ref(st, a[0], y)
    ip.write_ref(st, a[1], x)
    return ret(st, UNIT)


@model("std::mem::drop", "std::mem::forget")
def _drop(ip, st, f, a, cid):
    return ret(st, UNIT)


@model("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once")
def _fncall(ip, st, f, a, cid):
    t = ip.val(st, a[1]) if len(a) > 1 else UNIT
    args = list(t[1:]) if t[0] == "tup" else []
    return ip.call_value(st, a[0], args, cid)


@model("std::thread::LocalKey::with", "std::thread::LocalKey::with_borrow", "std::thread::LocalKey::with_borrow_mut")
def _with(ip, st, f, a, cid):
    return ip.call_value(st, a[1], [ip.deep(st, ip.val(st, a[0]))], cid + ("with",))


@model("std::boxed::Box::new_uninit", "std::boxed::Box::new_zeroed")
def _new_uninit(ip, st, f, a, cid):
    st = st.copy()
    loc = ("H", "box", cid)
    st.store[loc] = ("undef",)
    return ret(st, ("ref", loc, ()))


@model("std::boxed::box_assume_init_into_vec_unsafe", "std::boxed::Box::assume_init", "std::slice::into_vec_unsafe")
def _assume(ip, st, f, a, cid):
    v = a[0]
    x = ip.val(st, v)
    if v[0] == "ref" and v[1][0] == "H":
        st = st.copy()
        st.store.pop(v[1], None)
    return ret(st, x)


@model("std::rt::panic_fmt", "std::panicking::panic_fmt", "std::panicking::panic", "std::panicking::panic_display",
       "std::panicking::assert_failed", "std::rt::begin_panic", "std::panicking::unreachable_display", "std::panicking::panic_explicit",
       "std::option::unwrap_failed", "std::option::expect_failed", "std::panicking::panic_nounwind")
def _panic(ip, st, f, a, cid):
    msg = ""
    out = []
    if a and f["name"] in ("panic_fmt",):
        for o in expand_fmt(ip, st, a[0], cid):
            out.append(Out("panic", o.st, ("panic", o.val)))
        return out
    return [Out("panic", st, ("panic", ip.deep(st, a[0]) if a else f["name"]))]


@model("std::iter::Sum::sum", "std::iter::Iterator::sum", "std::iter::Iterator::max", "std::iter::Iterator::min")
def _sum(ip, st, f, a, cid):
    it = to_iter(ip, st, a[0])
    return ret(st, call(f["name"], ip.as_src(st, it) if it[0] in ITER_TAGS else ip.deep(st, it)))


# ------------------------------------------------------------------ quote
PUNCT = {"add": "+", "add_eq": "+=", "and": "&", "and_and": "&&", "and_eq": "&=", "at": "@", "bang": "!", "caret": "^",
         "caret_eq": "^=", "colon": ":", "colon2": "::", "comma": ",", "div": "/", "div_eq": "/=", "dot": ".", "dot2": "..",
         "dot3": "...", "dot_dot_eq": "..=", "eq": "=", "eq_eq": "==", "ge": ">=", "gt": ">", "le": "<=", "lt": "<",
         "mul_eq": "*=", "ne": "!=", "or": "|", "or_eq": "|=", "or_or": "||", "pound": "#", "question": "?", "rarrow": "->",
         "larrow": "<-", "rem": "%", "rem_eq": "%=", "fat_arrow": "=>", "semi": ";", "shl": "<<", "shl_eq": "<<=", "shr": ">>",
         "shr_eq": ">>=", "star": "*", "sub": "-", "sub_eq": "-=", "underscore": "_"}


def _qpush(text):
    def m(ip, st, f, a, cid):
        st = st.copy()
        append(ip, st, a[0], ("tk", text))
        return ret(st, UNIT)
    return m


def _qpush_sp(text):
    def m(ip, st, f, a, cid):
        st = st.copy()
        append(ip, st, a[0], ("tk", text))
        return ret(st, UNIT)
    return m


for _k, _v in PUNCT.items():
    MODELS["quote::__private::push_" + _k] = _qpush(_v)
    MODELS["quote::__private::push_" + _k + "_spanned"] = _qpush_sp(_v)


@model("quote::__private::push_ident", "quote::__private::push_ident_spanned", "quote::__private::push_lifetime",
       "quote::__private::push_lifetime_spanned", "quote::__private::parse", "quote::__private::parse_spanned")
def _qident(ip, st, f, a, cid):
    s = ip.val(st, a[-1])
    st = st.copy()
    t = s[1] if s[0] == "str" else None
    if f["name"].startswith("push_lifetime"):
        t = t and t
    append(ip, st, a[0], ("tk", t) if t is not None else ("tok", ip.deep(st, s)))
    return ret(st, UNIT)


@model("quote::__private::push_group", "quote::__private::push_group_spanned")
def _qgroup(ip, st, f, a, cid):
    sp = f["name"].endswith("spanned")
    d = ip.val(st, a[2] if sp else a[1])
    inner = strval(ip, st, a[3] if sp else a[2])
    st = st.copy()
    append(ip, st, a[0], ("grp", d[2] if d[0] == "adt" else "?", inner))
    return ret(st, UNIT)


@model("quote::ToTokens::to_tokens")
def _totokens(ip, st, f, a, cid):
    v = ip.val(st, a[0])
    ty = (f.get("args") or [""])[0]
    st = st.copy()
    append(ip, st, a[1], tokval(ip, st, v, ty))
    return ret(st, UNIT)


def tokval(ip, st, v, ty=""):
    v = ip.deep(st, v)
    s = short(ty)
    if s == "TokenStream" or (v[0] == "cat" and any(x[0] in ("tk", "grp", "tok") for x in v[1:])) or v[0] in ("tk", "grp", "tok"):
        return v
    if s in ("str", "String") or v[0] in ("str",):
        return ("tok", ("lit", v))
    return ("tok", v)


@model("quote::ToTokens::to_token_stream", "quote::ToTokens::into_token_stream")
def _tots(ip, st, f, a, cid):
    ty = (f.get("args") or [""])[0]
    s = short(ty)
    ms = ip.p.trait_method("ToTokens", s, "to_tokens")
    if ms and ms[0].id not in ip.stack:
        loc = ("H", "ts", cid)
        s2 = st.copy()
        s2.store[loc] = S("")
        out = []
        for o in ip.run_fn(s2, ms[0], [a[0], ("ref", loc, ())], cid + ("tt",)):
            t = o.st.store.pop(loc, None)
            out.append(Out(o.kind, o.st, t if o.kind == "ret" else o.val))
        return out
    return ret(st, tokval(ip, st, ip.val(st, a[0]), ty))


@model("quote::__private::get_span", "quote::__private::get_span::GetSpan::__into_span", "proc_macro2::Span::call_site",
       "proc_macro2::Span::mixed_site")
def _span(ip, st, f, a, cid):
    return ret(st, call(f["name"], *[ip.deep(st, x) for x in a]))


@model("quote::__private::ext::RepAsIteratorExt::quote_into_iter", "quote::__private::ext::RepIteratorExt::quote_into_iter",
       "quote::__private::ext::RepToTokensExt::quote_into_iter")
def _qiter(ip, st, f, a, cid):
    return ret(st, ("tup", to_iter(ip, st, a[0]), ("adt", "HasIterator", "HasIterator", ())))


@model("quote::__private::CheckHasIterator::check")
def _qcheck(ip, st, f, a, cid):
    return ret(st, UNIT)


@model("std::ops::BitOr::bitor")
def _bitor(ip, st, f, a, cid):
    return ret(st, ("adt", "HasIterator", "HasIterator", ())) if "quote" in str(f.get("args")) or "quote" in f["path"] or "__private" in str(f.get("args")) \
        else ret(st, ip.binop(st, "BitOr", a[0], a[1]))


@model("proc_macro2::Ident::new", "proc_macro2::Ident::new_raw", "syn::Ident::new")
def _identnew(ip, st, f, a, cid):
    s = ip.deep(st, ip.val(st, a[0]))
    return ret(st, ("ident", s, ip.deep(st, ip.val(st, a[1]))))


I_.PURE.update({"log::max_level", "Location::caller"})
