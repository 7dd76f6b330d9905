"""Findings, known findings, evidence and exit status."""
import json, os, sys, time, traceback
from .proj import AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report(object):
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.findings = []
        self.rules = {}
        self.notes = {}
        self.floors = []
        self.tier = os.environ.get("VERIF_TIER", "quick")

    def rule(self, rid, text):
        self.rules[rid] = {"rule": text, "instances": 0}

    def count(self, rid, n=1):
        self.rules[rid]["instances"] += n

    def finding(self, rid, construct, msg, where=""):
        f = {"rule": rid, "construct": construct, "message": msg, "where": where}
        for g in self.findings:
            if g["rule"] == rid and g["construct"] == construct:
                return
        self.findings.append(f)

    def floor(self, rid, n):
        """Instance-count floor: fewer instances than confirmed by hand means the analysis lost its anchor."""
        self.floors.append((rid, n))

    def note(self, k, v):
        self.notes[k] = v

    def known(self):
        out = set()
        p = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(p):
            with open(p) as fh:
                for line in fh:
                    line = line.rstrip("\n")
                    if line.startswith("KNOWN-FINDING: property=%s " % self.prop):
                        rest = line.split(" ", 2)[2]
                        key = rest.split(" :: ")[0].strip()
                        out.add(key)
        return out

    def finish(self):
        known = self.known()
        viol, kn = [], []
        for f in self.findings:
            key = "[%s] %s" % (f["rule"], f["construct"])
            (kn if key in known else viol).append((key, f))
        broken = []
        for rid, n in self.floors:
            if self.rules[rid]["instances"] < n:
                broken.append("rule %s matched %d instances, expected at least %d" % (rid, self.rules[rid]["instances"], n))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": "static analysis of /repo's current sources; nothing is executed. Rules: " +
                               "; ".join("%s: %s (%d instances)" % (k, v["rule"], v["instances"]) for k, v in self.rules.items()),
                "rules": self.rules, "analysed": self.notes,
                "findings": [f for _, f in viol], "known_findings": [f for _, f in kn],
            },
            "wall_s": round(time.time() - self.t0, 3),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, sort_keys=True, default=str)
            fh.write("\n")
        for key, f in kn:
            print("KNOWN-FINDING: property=%s %s :: %s (%s)" % (self.prop, key, f["message"], f["where"]))
        if viol:
            rp = os.path.join("evidence", self.prop + ".violation.json")
            with open(os.path.join(VERIF, rp), "w") as fh:
                json.dump([dict(f, key=key) for key, f in viol], fh, indent=1)
            for key, f in viol[:15]:
                print("%s: %s: %s" % (f["where"], key, f["message"]))
            for rid in sorted(set(f["rule"] for key, f in viol)):
                print("rule %s: %s" % (rid, self.rules[rid]["rule"]))
            if len(viol) > 15:
                print("... and %d more (see %s)" % (len(viol) - 15, rp))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        if broken:
            for b in broken:
                print("ANALYSIS-BROKEN property=%s %s" % (self.prop, b))
            return 3
        print("OK property=%s %s" % (self.prop, ", ".join("%s=%d" % (k, v["instances"]) for k, v in self.rules.items())))
        return 0


def main(prop, run):
    rep = Report(prop)
    try:
        run(rep)
        rc = rep.finish()
    except AnalysisBroken as err:
        if rep.findings:
            rep.floors = []
            rc = rep.finish()
            if rc == 0:
                print("ANALYSIS-BROKEN property=%s %s" % (prop, err)); rc = 3
        else:
            print("ANALYSIS-BROKEN property=%s %s" % (prop, err))
            rc = 3
    except Exception:
        traceback.print_exc()
        rc = 4
    sys.stdout.flush()
    sys.exit(rc)
