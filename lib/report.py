"""Verdicts, evidence, known findings."""
import json, os, sys, time
from facts import VERIF


def known(prop):
    """exact keys listed as known findings of this property"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("known: property=%s " % prop):
                rest = line[len("known: property=%s " % prop):]
                key, _, text = rest.partition(" :: ")
                out[key.strip()] = text.strip()
    return out


class Report:
    def __init__(self, prop, level="other"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.viol = []      # (key, text)
        self.cov = {}
        self.assumptions = []
        self.n = 0
        self.ok = 0
        self.samples = []
        self.fatal = []

    # one decided obligation
    def oblige(self, good, key, text, sample=None):
        self.n += 1
        if good:
            self.ok += 1
            if sample is not None and len(self.samples) < 25:
                self.samples.append(sample)
        else:
            self.viol.append((key, text))

    def violation(self, key, text):
        self.viol.append((key, text))

    def floor(self, name, got, want):
        """fail closed when the analysis saw fewer instances than were confirmed by hand"""
        self.cov[name] = got
        if got < want:
            self.viol.append(("floor:" + name, "only %d instances of %s were found, %d were confirmed on the reference tree" % (got, name, want)))

    def finish(self, rule, **cov):
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        kn = known(self.prop)
        seen = set()
        bad = []
        hit = []
        for key, text in self.viol:
            if (key, text) in seen:
                continue
            seen.add((key, text))
            if key in kn:
                hit.append((key, kn[key] or text))
            else:
                bad.append((key, text))
        for k, t in sorted(set(hit)):
            print("KNOWN-FINDING: property=%s %s :: %s" % (self.prop, k, t))
        ev = {
            "property": self.prop, "tier": tier, "seed": seed, "level": self.level,
            "coverage": dict(self.cov), "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(bad),
        }
        ev["coverage"].update(cov)
        ev["coverage"].setdefault("rule", rule)
        ev["coverage"].setdefault("explanation", rule)
        ev["coverage"]["obligations"] = self.n
        ev["coverage"]["discharged"] = self.ok
        ev["coverage"]["checker_cmd"] = "python3 check.py %s" % self.prop
        ev["coverage"].setdefault("trusted_base", ["rustc nightly front end (type check, trait resolution, MIR construction)", "/verif/driver fact extractor", "/verif/lib analyses"])
        ev["coverage"]["known_findings_suppressed"] = sorted(set(k for k, _ in hit))
        if self.samples:
            ev["coverage"]["samples"] = self.samples
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        evp = os.path.join(VERIF, "evidence", self.prop + ".json")
        if bad:
            rp = os.path.join(VERIF, "evidence", self.prop + "-violations.txt")
            with open(rp, "w") as f:
                for k, t in bad:
                    f.write("%s\n    %s\n" % (k, t))
            for k, t in bad[:40]:
                print("  %s\n      %s" % (k, t))
            if len(bad) > 40:
                print("  ... %d more in %s" % (len(bad) - 40, rp))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        with open(evp, "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d/%d obligations discharged, %d violations, %.1fs" % (self.prop, self.ok, self.n, len(bad), time.time() - self.t0))
        sys.exit(1 if bad else 0)
