"""Obligations, violations, known findings, evidence."""
import json
import os
import sys
import time

from . import repo

KNOWN = os.path.join(repo.VERIF, "known-findings.txt")


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.rstrip("\n")
            if l.startswith("finding: "):
                head, _, what = l[len("finding: "):].partition(" :: ")
                p, _, key = head.partition(" ")
                if p == "property=" + prop:
                    out[key] = what
    return out


class Report:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.obligations = []      # (rule, subject, ok, detail)
        self.functions = set()
        self.samples = []
        self.counts = {}
        self.assumptions = []
        self.seen = set()
        self.notes = []

    def ok(self, rule, subject, detail=""):
        self.obligations.append((rule, subject, True, detail))

    def bad(self, rule, subject, detail, where=None):
        if (rule, subject) in self.seen:
            return
        self.seen.add((rule, subject))
        self.obligations.append((rule, subject, False, detail + (" [%s]" % where if where else "")))

    def check(self, cond, rule, subject, detail="", where=None):
        if cond:
            self.ok(rule, subject, "")
        else:
            self.bad(rule, subject, detail, where)
        return cond

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def fn(self, item):
        self.functions.add(item if isinstance(item, str) else item.disp())

    def floor(self, what, n, least):
        """an analysis that finds fewer subjects than it must is broken or blind"""
        self.check(n >= least, "floor", what, "only %d found, at least %d expected" % (n, least))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def finish(self, technique):
        bad = [o for o in self.obligations if not o[2]]
        known = known_findings(self.prop)
        viol, kf = [], []
        for rule, subj, _, det in bad:
            key = "%s/%s" % (rule, subj)
            (kf if key in known else viol).append((key, det))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": technique,
                "obligations": len(self.obligations),
                "discharged": len(self.obligations) - len(bad),
                "rules": sorted({o[0] for o in self.obligations}),
                "functions_analysed": sorted(self.functions),
                "samples": self.samples or ["%s: %s" % (o[0], o[1]) for o in self.obligations[:8]],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(viol),
        }
        ev["coverage"].update(self.counts)
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        d = os.path.join(repo.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for key, det in kf:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, key, known[key]))
        rp = os.path.join(d, self.prop + ".violations.txt")
        if viol:
            with open(rp, "w") as f:
                for key, det in viol:
                    f.write("%s\n    %s\n" % (key, det))
            for key, det in viol[:20]:
                print("  %s" % key)
                print("      %s" % det[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(rp, repo.VERIF)))
            return 1
        if os.path.exists(rp):
            os.remove(rp)
        print("%s: %d obligations hold (%d functions analysed)" % (self.prop, len(self.obligations) - len(bad), len(self.functions)))
        return 0
