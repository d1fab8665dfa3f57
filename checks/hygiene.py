"""Names in generated code. Every identifier a macro generates is judged by where it stands in the token stream; what a generated group brings
into scope is compared with the user code inside the group."""
from checks.macros import *
from checks.spacing import Only

BUILTIN_ATTR = {"allow", "warn", "deny", "expect", "inline", "cold", "doc", "cfg", "must_use", "automatically_derived", "track_caller",
                "non_exhaustive", "deprecated", "rustfmt"}
DECLARES = {"const", "static", "fn", "struct", "enum", "union", "type", "mod", "trait"}
FRAGMENTS = {"tt", "expr", "ident", "ty", "path", "pat", "stmt", "block", "item", "meta", "vis", "literal", "lifetime"}


def is_p(x, s):
    return x == ("p", s)


def use_names(items):
    """names a `use` brings into scope, '*' for a glob"""
    out = []
    for i, x in enumerate(items):
        nx = items[i + 1] if i + 1 < len(items) else None
        if x[0] == "grp":
            out += use_names(x[2])
        elif x == ("p", "*"):
            out.append("*")
        elif x[0] == "id" and x[1] != "as" and not (nx is not None and (is_p(nx, "::") or is_p(nx, ":") or nx[:2] == ("id", "as"))):
            out.append(x[1])
    return out


def brings(items):
    """[(name, what, hygienic, index)] a list of tokens brings into the scope of its group"""
    out = []
    i = 0
    while i < len(items):
        x = items[i]
        if x[0] == "id" and x[1] == "use":
            j = i + 1
            while j < len(items) and not is_p(items[j], ";"):
                j += 1
            out += [(n, "use", False, None) for n in use_names(items[i + 1:j]) if n != "_"]
            i = j
        elif x[0] == "id" and x[1] == "macro_rules" and i + 2 < len(items) and items[i + 2][0] == "id":
            out.append((items[i + 2][1], "macro", False, i + 2))
            i += 2
        elif x[0] == "id" and x[1] in DECLARES or x[:2] == ("id", "let"):
            j = i + 1
            while j < len(items) and items[j][0] == "id" and items[j][1] in ("mut", "ref"):
                j += 1
            if j < len(items) and items[j][0] == "id" and items[j][1] not in RT.KEYWORDS:
                # only a local variable can be hidden from the call site: mixed_site resolves items there
                out.append((items[j][1], x[1], x[1] == "let" and items[j][2], j))
            elif x[1] == "let":
                out.append(("?", "let with a pattern", False, None))
            i = j
        elif is_p(x, "|") and i + 2 < len(items) and items[i + 1][0] == "id" and (is_p(items[i + 2], "|") or is_p(items[i + 2], ":") or is_p(items[i + 2], ",")):
            out.append((items[i + 1][1], "closure argument", items[i + 1][2], i + 1))
            i += 1
        i += 1
    return out


class Names:
    def __init__(self, r, rule, subj, w, safe, provided=()):
        self.r, self.rule, self.subj, self.w = r, rule, subj, w
        self.safe = safe                 # is this user part certain to contain no interpolated expression?
        self.provided = set(provided)    # names deliberately given to the user
        self.n = 0

    def bad(self, what):
        self.r.bad(self.rule, self.subj, what, self.w)

    def group(self, items, delim, scope, before=None, kind=None, src=None, own=True):
        """scope: {name: (what, hygienic)}"""
        if own:
            new = brings(items)
            scope = {**scope, **{n: (k, h) for n, k, h, _ in new}}
            declared = {i for _, _, _, i in new}
        else:
            declared = set()
        for i, x in enumerate(items):
            prev = items[i - 1] if i else before
            nxt = items[i + 1] if i + 1 < len(items) else None
            if x[0] == "id":
                self.n += 1
                if i not in declared:
                    why = self.judge(x, prev, nxt, delim, scope, kind)
                    if why:
                        self.bad("`%s` %s" % (x[1], why))
            elif x[0] == "grp":
                k = kind
                if prev is not None and (is_p(prev, "#") or is_p(prev, "!") and i > 1 and is_p(items[i - 2], "#")):
                    k = "attribute"
                elif i >= 2 and items[i - 1][0] == "id" and i >= 3 and items[i - 3][:2] == ("id", "macro_rules"):
                    k = "macro"
                self.group(x[2], x[1], scope, None, k, src)
            elif x[0] == "each":
                for c, xs in x[2]:
                    self.group(xs, delim, scope, prev, kind, x[1])
            elif x[0] in ("child", "user"):
                seen = sorted(n for n, (k, h) in scope.items() if not h and n not in self.provided)
                if seen and not self.safe(x, src):
                    self.bad("an interpolated expression in %s can see the generated name %s" % (show(x[1])[:100], ", ".join(
                        "`%s` (%s)" % (n, scope[n][0]) for n in seen)))
                else:
                    self.r.ok(self.rule, "%s %s" % (self.subj, show(x[1])[:60]))

    def judge(self, x, prev, nxt, delim, scope, kind):
        """why an identifier depends on the call site, or None"""
        n = x[1]
        if prev is not None and (is_p(prev, "::") or is_p(prev, ".") or prev[0] == "lt"):
            return None
        if n in scope:
            what, h = scope[n]
            return "is resolved at the call site, not to the generated variable" if h and not x[2] else None
        if kind == "attribute":
            return None if delim != "Bracket" or n in BUILTIN_ATTR or prev is not None or n in RT.KEYWORDS else "is an attribute looked up at the call site"
        if kind == "macro" and prev is not None and (is_p(prev, "$") or is_p(prev, ":") and n in FRAGMENTS):
            return None
        if n in ("crate", "super"):
            return "is a path relative to the call site"
        if n == "macro_rules":
            return None
        if n in RT.KEYWORDS or n in RT.PRIMITIVE:
            return None
        if delim == "Brace" and nxt is not None and is_p(nxt, ":"):
            return None                      # a field of a struct expression
        return "is looked up at the call site"


def safe_in(o):
    bound = bounded(o)

    def safe(x, src):
        us = part_usage(x)
        if us is None:
            return True
        keys = [("each", src, y) for y in us] if src is not None else us
        return bool(keys) and any(bound.get(k, 2) <= 1 for k in keys)
    return safe


def never(x, src):
    return False


def templates(r, rule):
    P = prog("host")
    total = 0
    impls = reify_impls(P)
    r.floor("Reify implementations", len(impls), 10)

    def scan(it, subj, term, safe, provided=()):
        nonlocal total
        if term[0] == "adt" and term[2] in ("Ok", "Some"):
            term = term[3][0][1]
        if term[0] == "adt" and term[2] in ("Err", "None"):
            return
        try:
            items = RT.norm(term)
        except RT.NotRust as x:
            r.bad(rule, subj, "the generated code cannot be followed: %s" % x, where(it))
            return
        n = Names(r, rule, subj, where(it), safe, provided)
        n.group(items, None, {})
        total += n.n
        r.ok(rule, subj)
    for ty, it in sorted(impls.items()):
        r.fn(it)
        for o in reified(it.id):
            if o.kind == "ret":
                scan(it, "%s::into_token_stream" % ty, o.val, safe_in(o))
    for name in ("sheet", "css", "style", "global_style", "use_style"):
        it, outs = expansions(P, name)
        if it is None:
            r.bad(rule, name + "!", "not found")
            continue
        r.fn(it)
        for o in outs:
            if o.kind == "ret":
                scan(it, name + "!", o.val, never)
    for name in ("styled_component", "styled_component_impl"):
        it, outs = attribute(P, name)
        if it is None:
            r.bad(rule, "#[%s]" % name, "not found")
            continue
        r.fn(it)
        for o in outs:
            if o.kind == "ret":
                scan(it, "#[%s]" % name, o.val, never, ("css",))
    it = [i for i in P.methods("IntoOutputContext", "into_compile_errors") if "body" in i]
    for i in it:
        r.fn(i)
        for o in interp_for(P).run_fn(State(), i, [("arg", n) for n in args_of(i)], (i.id,)):
            if o.kind == "ret":
                scan(i, "IntoOutputContext::into_compile_errors", o.val, never)
    r.check(bool(it), rule, "IntoOutputContext::into_compile_errors", "not found")
    r.count("generated identifiers judged", total)
    r.floor("generated identifiers", total, 200)


def attribute(P, name):
    """outcomes of an attribute macro"""
    it = P.get("stylist_macros::" + name)
    if it is None:
        return None, []
    ip = interp_for(P, {"entry_point": h_entry}, opaque={"parse"})
    return it, ip.run_fn(State(), it, [("arg", n) for n in args_of(it)], (it.id,))


def forms(r, rule):
    """the two forms generate nothing around the code of the sheet"""
    from checks.literal import arguments
    from checks.inline import reporting
    arguments(Only(r, ("literal form",)), rule)
    reporting(Only(r, ("inline::macro_fn", "no errors", "errors collected", "syntax error", "outcomes of the inline form")), rule)
