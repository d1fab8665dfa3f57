#!/usr/bin/env python3
"""Runs checks on edited copies of the repository: edits that keep behaviour (must be quiet) and edits that break it.
usage: variants.py [-k SUBSTR] [-v]     (variants are listed in tools/variants/*.txt; those for ALL checks only with -k)
Format of a variant file, any number of blocks:
  === name | quiet or alarm | C01,C02
  --- path
  <<<<
  old text
  ====
  new text
  >>>>
A file to add: `+++ path`, its text, `>>>>`. Names to change in files: `~~~ glob old=new old=new ..`.
"""
import glob
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/verif-variants/repo"


def parse():
    out = []
    for f in sorted(glob.glob(os.path.join(V, "tools", "variants", "*.txt"))):
        cur = None
        path = None
        lines = open(f).read().split("\n")
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("=== "):
                n, k, c = [x.strip() for x in l[4:].split("|")]
                cur = {"name": n, "kind": k, "checks": c.split(","), "edits": []}
                out.append(cur)
            elif l.startswith("--- "):
                path = l[4:].strip()
            elif l.startswith("+++ "):
                j = next(x for x in range(i + 1, len(lines) + 1) if x == len(lines) or lines[x] == ">>>>")
                cur["edits"].append((l[4:].strip(), None, "\n".join(lines[i + 1:j]) + "\n"))
                i = j
            elif l.startswith("~~~ "):
                g, *names = l[4:].split()
                cur["edits"] += [(g, ("name", a), b) for a, b in (x.split("=") for x in names)]
            elif l == "<<<<":
                j = lines.index("====", i)
                k = lines.index(">>>>", j)
                cur["edits"].append((path, "\n".join(lines[i + 1:j]), "\n".join(lines[j + 1:k])))
                i = k
            i += 1
    return out


def edited(text, old, new):
    """the text with the edit, or None; comment lines may be left out of the old text"""
    if text.count(old) != 1:
        def plain(s):
            return "\n".join(l for l in s.split("\n") if not re.match(r" *//", l))
        text, old = plain(text), plain(old)
    return text.replace(old, new) if text.count(old) == 1 else None


def apply(v, root):
    """applies the edits of a variant to a copy of the repository; None, or the text that is not there"""
    for p, old, new in v["edits"]:
        fp = os.path.join(root, p)
        if old is None:
            os.makedirs(os.path.dirname(fp), exist_ok=True)
            open(fp, "w").write(new)
        elif isinstance(old, tuple):
            n = 0
            for f in glob.glob(fp, recursive=True):
                s = open(f).read()
                t = re.sub(r"(?<!@)\b%s\b" % re.escape(old[1]), new, s)
                if t != s:
                    n += 1
                    open(f, "w").write(t)
            if not n:
                return old[1]
        else:
            s = edited(open(fp).read(), old, new)
            if s is None:
                return old
            open(fp, "w").write(s)
    return None


def main():
    key = sys.argv[sys.argv.index("-k") + 1] if "-k" in sys.argv else ""
    bad = []
    n = 0
    for v in parse():
        if not re.search(key, v["name"]):
            continue
        cks = v["checks"]
        if cks == ["ALL"]:
            if not key:
                continue            # these are run by refactors.py
            cks = ["C%02d" % i for i in range(1, 43) if i != 38]
        n += 1
        os.makedirs(SCR, exist_ok=True)
        subprocess.check_call(["rsync", "-a", "--delete", "--exclude", "/target", "--exclude", "/.git", "/repo/", SCR + "/"])
        miss = apply(v, SCR)
        if miss is not None:
            print("EDIT DOES NOT APPLY: %s: %s" % (v["name"], miss[:80]))
            bad.append(v["name"])
        else:
            e = dict(os.environ, VERIF_REPO=SCR)
            r = subprocess.run([os.path.join(V, "check")] + cks, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = r.stdout.decode()
            got = "quiet" if r.returncode == 0 else ("alarm" if r.returncode == 1 and "VIOLATION" in o and "Traceback" not in o else "ERROR")
            if v["kind"] == "alarm" and got == "alarm":
                # every listed check must raise it
                miss = [c for c in v["checks"] if "VIOLATION property=%s " % c not in o]
                got = "missed by " + ",".join(miss) if miss else "alarm"
            flag = "ok  " if got == v["kind"] else "FAIL"
            if flag == "FAIL":
                bad.append(v["name"])
            print("%s %-55s expected %s, got %s" % (flag, v["name"], v["kind"], got))
            if "-v" in sys.argv or got == "ERROR":
                print("\n".join(l[:900] for l in o.split("\n")[-25:]))
            sys.stdout.flush()
    print("%d variants, %d wrong %s" % (n, len(bad), bad))


if __name__ == "__main__":
    main()
