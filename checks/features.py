"""Feature selections (C38): the compiler's verdict on the crate, and on a program that uses what each feature promises, for
selections of features; nothing is run."""
import concurrent.futures
import itertools
import json
import os
import re
import shutil
import tomllib

from lib import repo
from lib.repo import CACHE, REPO, VERIF, Lock, ensure_lock, env, force, sh

# feature of the witness -> feature of stylist
PLAIN = ["debug_parser", "debug_style_locations", "macros", "random", "parser", "with_yew", "yew_integration", "yew_use_media_query",
         "yew_use_style", "ssr", "hydration"]
VIEWS = {
    # a user's crate, debug and release
    "user": ({}, "witness"),
    # lints are capped, as cargo does for the dependencies of a user's crate
    "release": ({"CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false", "RUSTFLAGS": "--cap-lints=warn"}, "witness"),
    # the browser's view of the crate itself, type-checked with the host's std
    "wasm": (None, "crate"),
}


def declared():
    """features of the package as its manifest declares them"""
    m = tomllib.load(open(os.path.join(REPO, "packages/stylist/Cargo.toml"), "rb"))
    fs = set(m.get("features", {}))
    used = {x[4:] for v in m.get("features", {}).values() for x in v if x.startswith("dep:")}
    for n, d in m.get("dependencies", {}).items():
        if isinstance(d, dict) and d.get("optional") and n not in used:
            fs.add(n)
    return m.get("features", {}), fs


def witness(name):
    """the using crate, with paths to the tree under analysis"""
    d = os.path.join(CACHE, "witness-%s" % name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    shutil.copy(os.path.join(VERIF, "witness/src/lib.rs"), os.path.join(d, "src/lib.rs"))
    t = open(os.path.join(VERIF, "witness/Cargo.toml.in")).read().replace("@REPO@", REPO)
    p = os.path.join(d, "Cargo.toml")
    if not os.path.exists(p) or open(p).read() != t:
        open(p, "w").write(t)
    shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    return d


def target(view, worker):
    return os.path.join(CACHE, "features-%s-%s" % (view, worker))


def compile_one(view, worker, feats):
    """None, or the first errors"""
    extra, kind = VIEWS[view]
    t = target(view, worker)
    fl = ["--no-default-features", "--features", ",".join(feats)]
    if kind == "witness":
        e = env({"CARGO_TARGET_DIR": t, **extra})
        cwd = os.path.join(CACHE, "witness-%s-%s" % (view, worker))
        cmd = ["cargo", "check", "--offline", "--message-format=short"] + fl
    else:
        e = repo.cargo_env(t, repo.WASM.strip())
        cwd = REPO
        cmd = ["cargo", "+nightly", "check", "--offline", "--message-format=short", "-p", "stylist"] + fl
    rc, out = sh(cmd, cwd, e, 800)
    if rc == 0:
        return None
    err = [l for l in out.splitlines() if re.search(r"(^|: )error(\[|:)", l)]
    return err or out.splitlines()[-5:]


def stylist_features(fs):
    return ["yew" if f == "with_yew" else f for f in fs]


def run_view(args):
    view, worker, combos = args
    res = []
    with Lock("features-%s-%s" % (view, worker)):
        if VIEWS[view][1] == "witness":
            witness("%s-%s" % (view, worker))
        force(target(view, worker))
        for c in combos:
            fs = list(c)
            if VIEWS[view][1] == "crate":
                fs = ["default" if f == "default_of_stylist" else f for f in stylist_features(fs)]
            res.append((view, c, compile_one(view, worker, fs)))
    return res


def selections(tier, view):
    one = [()] + [("default_of_stylist",)] + [(f,) for f in PLAIN] + [tuple(PLAIN)]
    # everything but one feature shows what that feature silently provided
    but = [tuple(f for f in PLAIN if f != g and not (g in ("with_yew", "yew_use_style", "yew_use_media_query") and f == "yew_integration"))
           for g in PLAIN]
    if tier != "thorough":
        return one + (but if view == "user" else [])
    # every selection, up to what features imply
    implied = {"yew_use_media_query": "with_yew", "yew_use_style": "with_yew"}
    base = [f for f in PLAIN if f != "yew_integration"]
    every = []
    for n in range(len(base) + 1):
        for c in itertools.combinations(base, n):
            if all(implied[f] in c for f in c if f in implied):
                every.append(c)
    return one + every


def warm():
    ensure_lock()
    jobs = [(v, 0, [tuple(PLAIN)]) for v in VIEWS]
    for j in jobs:
        run_view(j)


def check(r, tier):
    table, fs = declared()
    known = set(stylist_features(PLAIN)) | {"default"}
    extra = sorted(fs - known - {"stylist-macros", "html-escape"})
    if extra:
        r.notes.append("features not selected here: %s" % extra)
    for f in sorted(known - fs):
        r.bad("features", f, "the documented feature %s is gone" % f, "packages/stylist/Cargo.toml")
    ensure_lock()
    repo.build_driver()
    jobs = []
    for v in VIEWS:
        s = selections(tier, v)
        n = 1 if tier != "thorough" else (2 if v == "wasm" else 3)
        for k in range(n):
            jobs.append((v, k, s[k::n]))
    done = 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for res in ex.map(run_view, jobs):
            for view, c, err in res:
                done += 1
                name = "%s: %s" % (view, "+".join(stylist_features(c)).replace("default_of_stylist", "default") or "(none)")
                if err:
                    # one report per distinct error
                    r.bad("compiles", "%s / %s" % (view, re.sub(r":\d+:\d+", "", err[0])[:140]),
                          "with %s: %s" % (name, " | ".join(e[:200] for e in err[:3])))
                else:
                    r.ok("compiles", name)
    r.count("feature selections", done)
    r.sample("views: a using crate in debug and in release; the crate's browser view")
    r.floor("feature selections", done, 40)
