"""Shared frame of the checks: obligations, known findings, evidence, exit codes."""
import json, os, sys, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "engine"))
KNOWN = os.path.join(VERIF, "known-findings.json")


class Check:
    """Collects the obligations of one property and turns them into an exit status and an evidence file.

    ok(...)         an obligation discharged for every member of the abstract states it covers
    violation(...)  an obligation refuted at a named construct
    undecided(...)  the analysis could not decide (never an alarm; listed in the evidence)
    """

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.oks = []
        self.viol = {}
        self.und = []
        self.cover = {}
        self.assumptions = []
        self.notes = []

    def ok(self, name, **info):
        self.oks.append((name, info))

    def violation(self, key, text, **info):
        self.viol.setdefault(key, (text, info))

    def undecided(self, name, why):
        self.und.append((name, str(why)[:400]))

    def finish(self, level="other", explanation="", trusted=()):
        known = []
        if os.path.exists(KNOWN):
            known = json.load(open(KNOWN))["findings"]
        listed = {k["key"]: k for k in known if k["property"] == self.prop and k.get("status") == "known"}
        new = {}
        for key, (text, info) in sorted(self.viol.items()):
            if key in listed:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, listed[key]["what"]))
            else:
                new[key] = (text, info)
        ev_dir = os.path.join(VERIF, "evidence")
        os.makedirs(ev_dir, exist_ok=True)
        cov = {
            "obligations": len(self.oks) + len(self.viol) + len(self.und),
            "discharged": len(self.oks),
            "refuted": len(self.viol),
            "undecided": len(self.und),
            "explanation": explanation,
            "samples": [n for n, _ in self.oks[:12]],
            "undecided_list": ["%s: %s" % x for x in self.und[:60]],
            "known_findings": sorted(k for k in self.viol if k in listed),
        }
        cov.update(self.cover)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        rc = 0
        for i, (key, (text, info)) in enumerate(new.items()):
            path = os.path.join(ev_dir, "%s-%s.txt" % (self.prop, hashlib.sha1(key.encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                f.write("property %s\nkey %s\n%s\n" % (self.prop, key, text))
                for k, v in info.items():
                    f.write("%s: %s\n" % (k, v))
            print(text[:3000])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            rc = 1
        with open(os.path.join(ev_dir, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s: %d obligations, %d discharged, %d refuted (%d listed), %d undecided, %.1fs" % (
            self.prop, cov["obligations"], len(self.oks), len(self.viol), len(self.viol) - len(new), len(self.und), time.time() - self.t0))
        return rc


def build_broken(chk, e):
    """The tree does not compile or the exporter failed: no verdict possible; say so loudly."""
    print("ERROR: %s" % e, file=sys.stderr)
    return 2
