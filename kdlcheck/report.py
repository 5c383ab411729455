"""Obligation bookkeeping, evidence files, known findings."""
import json, os, time, traceback, importlib, sys
from . import dump

VERIF = dump.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Check:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.obl = 0
        self.ok = 0
        self.viol = []          # (key, message)
        self.notes = []
        self.cover = {}
        self.analysed = set()
        self.samples = []
        self.rule = ""
        self.explanation = ""

    def ob(self, cond, key, msg="", sample=None):
        """one obligation; key names the construct, without line numbers"""
        self.obl += 1
        if cond:
            self.ok += 1
            if sample and len(self.samples) < 12:
                self.samples.append(sample)
        else:
            if not any(k == key for k, _ in self.viol):
                self.viol.append((key, msg))
        return cond

    def fail(self, key, msg=""):
        return self.ob(False, key, msg)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def count(self, k, n=1):
        self.cover[k] = self.cover.get(k, 0) + n

    def used(self, interp):
        self.analysed |= set(interp.inlined)

    def known(self):
        out = []
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                l = l.strip()
                if l.startswith("known: property=%s " % self.pid):
                    rest = l.split(" ", 2)[2]
                    key, _, what = rest.partition(" :: ")
                    out.append((key.strip(), what.strip()))
        return out

    def finish(self):
        known = self.known()
        newv = []
        kf = []
        for k, m in self.viol:
            bare = k.split(":", 1)[1] if k.split(":", 1)[0] in ("none", "default") else k
            w = [x for x in known if x[0] in (k, bare)]
            if w:
                kf.append((k, w[0][1] or m))
            else:
                newv.append((k, m))
        for k, w in kf:
            print("KNOWN-FINDING: property=%s %s :: %s" % (self.pid, k, w))
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
            "coverage": dict({
                "explanation": self.explanation,
                "rule": self.rule,
                "obligations": self.obl,
                "discharged": self.ok,
                "functions_analysed": len(self.analysed),
                "functions": sorted(self.analysed)[:120],
                "samples": self.samples or ["(none)"],
                "notes": self.notes[:60],
                "known_findings": [k for k, _ in kf],
            }, **self.cover),
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(newv),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        if newv:
            rp = os.path.join(VERIF, "build", "replay")
            os.makedirs(rp, exist_ok=True)
            rp = os.path.join(rp, self.pid + ".txt")
            with open(rp, "w") as f:
                for k, m in newv:
                    f.write("%s\n    %s\n" % (k, m))
            ev["coverage"]["violating_constructs"] = [k for k, _ in newv]
        with open(p, "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True, default=str)
        for k, m in newv[:40]:
            print("  %s: %s" % (k, m))
        if newv:
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("OK property=%s obligations=%d discharged=%d known=%d wall=%.1fs" % (self.pid, self.obl, self.ok, len(kf), time.time() - self.t0))
        return 0


def main(argv):
    pid = argv[1]
    tier = "thorough" if "--thorough" in argv else "quick"
    ck = Check(pid, tier)
    try:
        mod = importlib.import_module("kdlcheck.checks." + pid.lower())
        mod.run(ck)
    except dump.BuildError as e:
        ck.fail("build", "the tree could not be type-checked: %s" % e)
    except Exception as e:
        traceback.print_exc()
        ck.fail("analysis", "the analysis could not be completed: %s: %s" % (type(e).__name__, e))
    sys.stdout.flush()
    return ck.finish()
