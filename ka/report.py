"""Obligation ledger shared by all rules: evidence, known findings, exit status."""
import json, os, sys, time
from .core import HERE, AnalysisError

KNOWN = os.path.join(HERE, "known_findings.json")


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.obs = []          # (rule, key, ok, where, msg)
        self.counts = {}
        self.rules = {}
        self.analysed = set()  # functions
        self.notes = []
        self.minimum = {}

    def rule(self, name, text, minimum=1):
        """declare a rule and the number of instances confirmed by hand"""
        self.rules[name] = text
        self.minimum[name] = minimum

    def ob(self, rule, key, ok, where="", msg=""):
        self.obs.append((rule, key, bool(ok), where, msg))
        return ok

    def saw(self, f):
        self.analysed.add((f.sig(), f.file))

    def note(self, s):
        self.notes.append(s)

    def finish(self, F, tier, seed):
        known = {}
        if os.path.exists(KNOWN):
            for k in json.load(open(KNOWN))["findings"]:
                if k["property"] == self.pid:
                    known[k["key"]] = k
        viol, seen = [], set()
        for rule, key, ok, where, msg in self.obs:
            if ok:
                continue
            full = rule + ":" + key
            if full in seen:
                continue
            seen.add(full)
            viol.append((full, where, msg, full in known))
        new = [v for v in viol if not v[3]]
        old = [v for v in viol if v[3]]
        for r, m in self.minimum.items():
            n = sum(1 for o in self.obs if o[0] == r)
            if n < m and not new:
                raise AnalysisError("rule %s matched %d instance(s), expected at least %d: its anchors vanished" % (r, n, m))
        held = sum(1 for o in self.obs if o[2])
        per = {}
        for o in self.obs:
            d = per.setdefault(o[0], {"obligations": 0, "discharged": 0})
            d["obligations"] += 1
            d["discharged"] += o[2]
        files = sorted({f for _, f in self.analysed})
        ev = {
            "property": self.pid, "tier": tier, "seed": seed, "level": "other",
            "coverage": {
                "explanation": "static analysis of the current tree; each obligation is one rule instance on the resolved AST/CFG/call graph. " + "; ".join(self.notes),
                "translation_units": len(F.units) if F else 0,
                "functions_in_fact_base": len([f for f in F.all if f.body]) if F else 0,
                "functions_analysed_by_this_check": len(self.analysed),
                "files": files,
                "obligations": len(self.obs), "discharged": held,
                "rules": {k: {"text": self.rules[k], **per.get(k, {"obligations": 0, "discharged": 0})} for k in self.rules},
            },
            "assumptions": ["clang 18 front end resolves names and overloads as the real build does (same defines; the absent cxxpool submodule is replaced by a declaration-compatible header)",
                            "class-hierarchy analysis bounds virtual calls; no user subclass outside /repo/src changes the in-tree dispatch"],
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(viol),
            "violation_list": [{"key": k, "where": w, "what": m, "known": kn} for k, w, m, kn in viol],
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as fp:
            json.dump(ev, fp, indent=1, sort_keys=False)
        print("%s: %d obligations, %d discharged, %d function(s) in %d file(s), %d rule(s)" % (
            self.pid, len(self.obs), held, len(self.analysed), len(files), len(self.rules)))
        for r in self.rules:
            p = per.get(r, {"obligations": 0, "discharged": 0})
            print("  rule %-28s %4d/%d  %s" % (r, p["discharged"], p["obligations"], self.rules[r][:150]))
        for k, w, m, _ in old:
            print("KNOWN-FINDING: property=%s %s at %s: %s" % (self.pid, k, w, m))
        if new:
            rd = os.path.join(HERE, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.pid + ".txt")
            with open(rp, "w") as fp:
                for k, w, m, _ in new:
                    fp.write("%s\n  at %s\n  %s\n  rule: %s\n" % (k, w, m, self.rules.get(k.split(":")[0], "")))
            for k, w, m, _ in new[:20]:
                print("  %s at %s: %s" % (k, w, m))
            if len(new) > 20:
                print("  ... %d more in %s" % (len(new) - 20, rp))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        return 0
