"""Builds the analysis inputs from /repo's current working tree: type-checked program dumps per configuration."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
DRIVER = os.path.join(VERIF, "driver", "target", "release", "mirdump")
MIRFLAGS = "-Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull"
WASM = ' --cfg target_arch="wasm32" -A explicit_builtin_cfgs_in_flags'

# name -> (packages, cargo feature args, extra rustflags, crates dumped)
CONFIGS = {
    "host": (["stylist", "stylist-core", "stylist-macros"], ["--all-features"], "", ["stylist_core", "stylist", "stylist_macros"]),
    "release": (["stylist", "stylist-core", "stylist-macros"], ["--all-features"], " -C debug-assertions=off", ["stylist_core", "stylist"]),
    "norandom": (["stylist"], ["--no-default-features", "--features", "parser,ssr,hydration"], "", ["stylist_core", "stylist"]),
    "nodebugparser": (["stylist"], ["--no-default-features", "--features", "ssr,hydration,random"], "", ["stylist_core", "stylist"]),
    "wasm": (["stylist"], ["--no-default-features", "--features",
                           "macros,random,parser,debug_parser,debug_style_locations,ssr,hydration,yew_integration"], WASM,
             ["stylist_core", "stylist"]),
    "yew": (["stylist"], ["--no-default-features", "--features",
                          "macros,random,parser,ssr,hydration,yew_integration,yew/ssr,yew/hydration,yew/csr"], "", ["stylist_core", "stylist"]),
}


class BuildError(Exception):
    """the tree does not compile in this configuration"""

    def __init__(self, what, out):
        super().__init__(what)
        self.out = out


def env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith("CARGO_") and k not in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC")}
    e["HOME"] = e.get("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.pop("RUSTUP_TOOLCHAIN", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e.update(extra or {})
    return e


def sh(cmd, cwd, e, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


class Lock:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.path = os.path.join(CACHE, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def source_files():
    out = []
    for top in ("packages", "examples", "Cargo.toml", "Cargo.lock", ".cargo", "rust-toolchain", "rust-toolchain.toml"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            out.append(p)
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ("target", "node_modules", ".git", "dist"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".md", ".lock")):
                    out.append(os.path.join(d, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    for f in source_files():
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read() + b"\0")
    for d, _, fs in os.walk(os.path.join(VERIF, "driver", "src")):
        for f in sorted(fs):
            with open(os.path.join(d, f), "rb") as fh:
                h.update(fh.read())
    with open(os.path.abspath(__file__), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:20]


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        rc, out = sh(["rustc", "+nightly", "--print", "sysroot"], "/", env())
        if rc:
            raise BuildError("no nightly toolchain", out)
        _sysroot = out.strip()
    return _sysroot


def build_driver():
    with Lock("driver"):
        rc, out = sh(["cargo", "+nightly", "build", "--release", "--offline"], os.path.join(VERIF, "driver"), env())
        if rc or not os.path.exists(DRIVER):
            raise BuildError("driver does not build", out)


def ensure_lock():
    l = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(l) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", l)


def cargo_env(target, rustflags, dump=None):
    e = {"LD_LIBRARY_PATH": os.path.join(sysroot(), "lib"), "CARGO_TARGET_DIR": target}
    e["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
    # flags for the workspace crates only: dependencies are built once and shared by all configurations
    e["MIRDUMP_FLAGS"] = rustflags
    if dump:
        e["MIRDUMP_OUT"] = dump
    return env(e)


def dump(config):
    """Dump the crates of a configuration; returns the directory. Cached by the content of the source tree."""
    pk, feats, flags, crates = CONFIGS[config]
    key = tree_hash()
    base = os.path.join(CACHE, "dumps")
    out = os.path.join(base, key, config)
    if os.path.exists(os.path.join(out, "OK")):
        return out
    with Lock("dump"):
        if os.path.exists(os.path.join(out, "OK")):
            return out
        build_driver()
        ensure_lock()
        if os.path.isdir(base):
            old = sorted((os.path.join(base, d) for d in os.listdir(base) if d != key), key=os.path.getmtime)
            for d in old[:-3]:
                shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        target = os.path.join(CACHE, "target")
        force(target)
        cmd = ["cargo", "+nightly", "check", "--offline"]
        for p in pk:
            cmd += ["-p", p]
        cmd += feats
        rc, log = sh(cmd, REPO, cargo_env(target, MIRFLAGS + flags, out))
        if rc:
            raise BuildError("cargo check failed for configuration %s" % config, log)
        missing = [c for c in crates if not os.path.exists(os.path.join(out, c + ".json"))]
        if missing:
            raise BuildError("no dump for %s in configuration %s" % (missing, config), log)
        open(os.path.join(out, "OK"), "w").close()
    return out


def force(target):
    """forget the workspace crates' build products, so that they are dumped again"""
    b = os.path.join(target, "debug", "build")
    f = os.path.join(target, "debug", ".fingerprint")
    for d in (b, f):
        if os.path.isdir(d):
            for x in os.listdir(d):
                if x.startswith("stylist"):
                    shutil.rmtree(os.path.join(d, x), ignore_errors=True)


_progs = {}


def program(config="host"):
    if config not in _progs:
        from .prog import Program
        d = dump(config)
        _progs[config] = Program(d, CONFIGS[config][3])
        _progs[config].config = config
    return _progs[config]


def setup():
    t = time.time()
    build_driver()
    for c in CONFIGS:
        dump(c)
        print("setup: %s dumped at %.1fs" % (c, time.time() - t))
        sys.stdout.flush()
    from checks import features
    features.warm()
    print("setup: feature selections warmed at %.1fs" % (time.time() - t))
