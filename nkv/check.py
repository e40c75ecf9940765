"""One check = one property: evidence, violations, known findings."""
import json, os, sys, time
from . import core

KNOWN = os.path.join(core.VERIF, "known_findings.json")


def _known():
    try:
        with open(KNOWN) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"known": [], "fixed": []}


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        self.thorough = self.tier == "thorough"
        self.seed = core.SEED
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.viol = []
        self.known_hits = {}
        self.exe = None

    # -- building
    def build(self, interp=False):
        b = core.build(interp)
        self.exe = b["nkh"]
        self.bins = b
        return self.exe

    # -- accounting
    def tlc(self, r):
        """Account for a TLC run; a violated law of the specification itself is a machinery error."""
        self.states += r.states
        self.transitions += r.generated
        if r.violation:
            raise RuntimeError("specification law violated:\n" + r.violation[-3000:])
        return r

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    # -- findings
    def report(self, key, what, replay):
        """A behaviour of the code that the specification does not allow."""
        for k in _known()["known"]:
            if k["property"] == self.pid and k["key"] == key:
                if key not in self.known_hits:
                    self.known_hits[key] = 1
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
                return
        if len(self.viol) >= 20:
            self.viol.append(None)
            return
        d = os.path.join(core.VERIF, "out")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.pid, len(self.viol)))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "key": key, "what": what, "replay": replay}, f, indent=1)
        self.viol.append(path)
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        core.log("  " + what[:1500])

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(core.EVID, exist_ok=True)
        with open(os.path.join(core.EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        core.log("%s %s: %d states, %d transitions, %d traces, %d violations, %.1f s" % (
            self.pid, self.tier, self.states, self.transitions, self.traces, len(self.viol), time.time() - self.t0))
        sys.exit(1 if self.viol else 0)


def case_replay(case, note=""):
    return {"harness_case": case.lines, "note": note}
