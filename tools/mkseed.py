#!/usr/bin/env python3
"""Generates and verifies the planted bugs described in tools/seeds/*.txt.
usage: mkseed.py [-k REGEX] [--no-verify] [--checks]
Each description: an edit of the repository (as in variants), and a program that exits non-zero when the property is broken.
  === id | property
  needs: ...
  breaks: ...
  features: parser,ssr
  env: ...                 (optional: rustflags etc. for the demonstration, as KEY=VALUE)
  --- path
  <<<< / ==== / >>>>
  +++ main.rs
  program
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/verif-seed"
REPO = SCR + "/repo"
ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="line-tables-only")

DEMO = '''#!/bin/bash
# exit 0: the property holds for the tree in the current directory; non-zero: it does not
src=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src" && cp "$src"/*.rs "$d/src/" || exit 2
cp "$repo/Cargo.lock" "$d/" || exit 2
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
stylist = { path = "$repo/packages/stylist", default-features = %(default)s, features = [%(features)s] }
%(deps)s
[profile.dev]
debug = 0
%(profile)s
TOML
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$d/target"
%(env)s
%(run)s
'''
RUN = '''cd "$d" && timeout 280 cargo %(cmd)s -q --offline 2>&1 | tail -40
exit ${PIPESTATUS[0]}'''
# the program must be rejected, for the right reason
REJECTED = '''cd "$d" && out=$(timeout 280 cargo %(cmd)s -q --offline 2>&1); rc=$?
echo "$out" | tail -40
[ "$rc" -ne 0 ] && grep -q -- %(expect)s <<< "$out"'''


def parse():
    out = []
    for f in sorted(glob.glob(os.path.join(V, "tools", "seeds", "*.txt"))):
        cur = path = None
        lines = open(f).read().split("\n")
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("=== "):
                a, b = [x.strip() for x in l[4:].split("|")]
                cur = {"id": a, "property": b, "edits": [], "needs": "", "breaks": "", "features": "", "env": "", "deps": "", "cmd": "run", "files": {},
                       "default": "true", "profile": "", "expect": ""}
                out.append(cur)
            elif re.match(r"(needs|breaks|features|env|deps|cmd|default|profile|expect): ", l):
                k, v = l.split(": ", 1)
                cur[k] = (cur[k] + "\n" + v).strip()
                if k == "cmd":
                    cur[k] = v
                if k == "default":
                    cur[k] = v
            elif l.startswith("--- "):
                path = l[4:].strip()
            elif l == "<<<<":
                j = lines.index("====", i)
                k = lines.index(">>>>", j)
                cur["edits"].append((path, "\n".join(lines[i + 1:j]), "\n".join(lines[j + 1:k])))
                i = k
            elif l.startswith("+++ "):
                n = l[4:].strip()
                j = i + 1
                while j < len(lines) and not lines[j].startswith(("=== ", "+++ ")):
                    j += 1
                cur["files"][n] = "\n".join(lines[i + 1:j]).rstrip() + "\n"
                i = j - 1
            i += 1
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    os.makedirs(REPO, exist_ok=True)
    subprocess.check_call(["rsync", "-a", "--delete", "--checksum", "--exclude", "/target", "/repo/", REPO + "/"])


def main():
    key = sys.argv[sys.argv.index("-k") + 1] if "-k" in sys.argv else ""
    bad = []
    for s in parse():
        if not re.search(key, s["id"]):
            continue
        fresh()
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        okk = True
        for p, old, new in s["edits"]:
            fp = os.path.join(REPO, p)
            t = open(fp).read()
            if t.count(old) != 1:
                print("EDIT DOES NOT APPLY (%d): %s: %s" % (t.count(old), s["id"], old[:80]))
                okk = False
                break
            open(fp, "w").write(t.replace(old, new))
        if not okk:
            bad.append(s["id"])
            continue
        diff = subprocess.run(["git", "diff", "--no-color"], cwd=REPO, stdout=subprocess.PIPE, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        feats = ", ".join('"%s"' % x.strip() for x in s["features"].split(",") if x.strip())
        prof = "\n".join(s["profile"].split(";")).strip()
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % {"features": feats, "default": s["default"], "deps": s["deps"], "cmd": s["cmd"],
                                                            "run": (REJECTED if s["expect"] else RUN) % s,
                                                            "profile": prof, "env": "\n".join("export " + x for x in s["env"].split("\n") if x)})
        for n, t in s["files"].items():
            open(os.path.join(d, n), "w").write(t)
        for n in os.listdir(d):
            if n.endswith(".rs") and n not in s["files"]:
                os.remove(os.path.join(d, n))
        if "--no-verify" in sys.argv:
            continue
        msg = []
        r = sh(["bash", os.path.join(d, "demo.sh")], cwd=REPO, env=ENV)
        if r.returncode == 0:
            msg.append("demo passes with the patch:\n" + r.stdout[-1500:])
        elif "error: could not compile" in r.stdout and s["cmd"] == "run" and "COMPILE" not in s["needs"]:
            msg.append("demo does not compile:\n" + r.stdout[-2500:])
        why = r.stdout[-300:]
        r = sh(["cargo", "test", "--workspace", "--all-features", "--no-fail-fast", "--offline", "--", "--test-threads", "8"], cwd=REPO,
               env=dict(ENV, CARGO_TARGET_DIR=SCR + "/target"))
        open(SCR + "/log", "w").write(r.stdout)
        sh(["python3", "/opt/vp/results.py", SCR + "/out.json", "cargo:" + SCR + "/log"])
        try:
            res = json.load(open(SCR + "/out.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            names = base.get("stable") or base.get("tests") or base
            passed = set(res.get("passed") or [k for k, v in res.get("tests", {}).items() if v in ("pass", "passed", True)])
            miss = [n for n in (names if isinstance(names, list) else list(names)) if n not in passed]
            if miss:
                msg.append("tests fail: %s" % miss[:5] + (r.stdout[-1500:] if len(miss) > 40 else ""))
        except Exception as e:
            msg.append("no results: %r %s" % (e, r.stdout[-800:]))
        fresh()
        r = sh(["bash", os.path.join(d, "demo.sh")], cwd=REPO, env=ENV)
        if r.returncode != 0:
            msg.append("demo fails on the unchanged tree:\n" + r.stdout[-2500:])
        caught = ""
        if "--checks" in sys.argv:
            sh(["git", "apply", os.path.join(d, "patch.diff")], cwd=REPO)
            c = sh([os.path.join(V, "check"), s["property"]], env=dict(os.environ, VERIF_REPO=REPO))
            caught = "caught" if c.returncode == 1 and "VIOLATION property=%s" % s["property"] in c.stdout else "MISSED (%d)" % c.returncode
            if c.returncode not in (0, 1):
                caught += c.stdout[-500:]
        print("%-4s %-30s %s %s %s" % ("ok" if not msg else "BAD", s["id"], s["property"], caught, "" if not msg else "\n".join(msg)))
        print("       ", why.strip().replace("\n", " | ")[-200:])
        sys.stdout.flush()
        if msg:
            bad.append(s["id"])
    print("bad:", bad)


if __name__ == "__main__":
    main()
