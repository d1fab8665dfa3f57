#!/usr/bin/env python3
"""Runs every check on every listed edit of the repository, several at a time, each worker with its own copy of /verif and the repository.
usage: refactors.py [-k REGEX] [-j N] [--skip LOG] [--with-features]     (edits: tools/variants/*.txt whose checks are given as ALL; or any, with -k)"""
import glob
import os
import queue
import re
import shutil
import subprocess
import sys
import threading
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import variants  # noqa: E402

ROOT = "/tmp/verif-refactors"


def main():
    key = sys.argv[sys.argv.index("-k") + 1] if "-k" in sys.argv else ""
    n = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 4
    done = set()
    if "--skip" in sys.argv:          # names found quiet in an earlier log
        done = {l[:40].strip() for l in open(sys.argv[sys.argv.index("--skip") + 1]) if l.rstrip().endswith("quiet")}
    ids = sorted("C" + os.path.basename(f)[1:3] for f in glob.glob(V + "/checks/c??.py"))
    if "--with-features" not in sys.argv:
        ids.remove("C38")
    todo = queue.Queue()
    for v in variants.parse():
        if v["name"] not in done and re.search(key, v["name"]) and v["kind"] == "quiet" and (v["checks"] == ["ALL"] or "-k" in sys.argv):
            todo.put(v)
    bad = []

    def work(k):
        w = "%s/w%d" % (ROOT, k)
        os.makedirs(w, exist_ok=True)
        subprocess.check_call(["rsync", "-a", "--delete", "--exclude", "/.git", "--exclude", "/seeded", "--exclude", "/.cache", V + "/", w + "/verif/"])
        if not os.path.isdir(w + "/verif/.cache/target"):
            os.makedirs(w + "/verif/.cache", exist_ok=True)
            subprocess.check_call(["cp", "-a", V + "/.cache/target", w + "/verif/.cache/"])
        while True:
            try:
                v = todo.get_nowait()
            except queue.Empty:
                return
            t = time.time()
            repo = w + "/repo"
            subprocess.check_call(["rsync", "-a", "--delete", "--exclude", "/target", "--exclude", "/.git", "/repo/", repo + "/"])
            got = None
            miss = variants.apply(v, repo)
            if miss is not None:
                got = "DOES NOT APPLY: %s" % miss[:60]
            if got is None:
                r = subprocess.run([w + "/verif/check"] + ids, env=dict(os.environ, VERIF_REPO=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                o = r.stdout.decode("utf-8", "replace")
                if r.returncode == 0:
                    got = "quiet"
                else:
                    lines = [l[:260] for l in o.split("\n") if "VIOLATION" in l or "error" in l or "Traceback" in l or "  " == l[:2]]
                    got = "NOT QUIET rc=%d\n      %s" % (r.returncode, "\n      ".join(lines[:40] if r.returncode == 1 else o.split("\n")[-40:]))
            if got != "quiet":
                bad.append(v["name"])
            print("%-40s %4.0fs %s" % (v["name"], time.time() - t, got))
            sys.stdout.flush()

    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    print("done, not quiet: %s" % bad)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
