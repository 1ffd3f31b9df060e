"""Run of one check: scratch space, counters, verdict, evidence."""
import json, os, random, shutil, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
FINDINGS = os.path.join(ROOT, "KNOWN_FINDINGS.jsonl")


class ToolError(Exception):
    """The check itself failed: no verdict."""


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="votess-%s-" % prop)
        self.states = self.transitions = self.traces = 0
        self.cov = {}            # further measured counts
        self.samples = []
        self.rejected = []       # (what, replay record)
        self.notes = []
        self.exhaustive = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def log(self, msg):
        print("[%6.1fs] %s" % (time.time() - self.t0, msg), flush=True)

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def reject(self, what, record):
        self.rejected.append((what, record))
        self.log("rejected: " + what[:400])

    def finish(self, level="model_checking", assumptions=()):
        known = load_known(self.prop)
        new, old = [], []
        for what, rec in self.rejected:
            k = next((k for k in known if k["match"] in what), None)
            (old if k else new).append((what, rec, k))
        for k in {id(k): k for _, _, k in old}.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   samples=self.samples or ["(none)"], **self.cov)
        if self.exhaustive:
            cov["exhaustive_models"] = self.exhaustive
        if self.notes:
            cov["notes"] = self.notes
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level,
                  coverage=cov, assumptions=list(assumptions),
                  wall_s=round(time.time() - self.t0, 1), violations=len(new))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        rc = 0
        if new:
            d = os.path.join(ROOT, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s.json" % self.prop)
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier,
                               how="./check %s --tier %s with VERIF_SEED=%d" %
                                   (self.prop, self.tier, self.seed),
                               rejected=[dict(what=w, record=r) for w, r, _ in new[:5]]),
                          f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            rc = 1
        else:
            print("OK property=%s states=%d transitions=%d traces=%d" %
                  (self.prop, self.states, self.transitions, self.traces))
        return rc

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def load_known(prop):
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k.get("status") == "known" and k["property"] == prop:
                    out.append(k)
    return out
