"""Common runner of all checks: obligations, evidence, known findings, exit code."""
import json, os, sys, time, shutil, tempfile, traceback, atexit, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
if "--thorough" in sys.argv:
    TIER = "thorough"
elif "--quick" in sys.argv:
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
THOROUGH = TIER == "thorough"
NCPU = os.cpu_count() or 4

_scratch = []
def scratch(prefix="vossv_"):
    d = tempfile.mkdtemp(prefix=prefix)
    _scratch.append((os.getpid(), d))
    return d
def _cleanup():
    for pid, d in _scratch:
        if pid == os.getpid():
            shutil.rmtree(d, ignore_errors=True)
atexit.register(_cleanup)
signal.signal(signal.SIGTERM, lambda *_: sys.exit(0))

def known_findings(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split("property=%s " % prop, 1)[1]
                if rest.startswith("key="):
                    key, _, what = rest[4:].partition(" ")
                    out[key] = what
    return out

class Check:
    """Collects obligations; every obligation ends as discharged, violated or
    inconclusive.  A violation is only recorded after it was reproduced on the
    real code (see the engines)."""
    def __init__(self, prop, title, budget=None):
        self.prop, self.title = prop, title
        self.t0 = time.time()
        self.budget = budget or (2400 if THOROUGH else 700)
        self.known = known_findings(prop)
        self.obl = []            # (name, status, info)
        self.functions, self.bounds, self.assumptions, self.notes = [], [], [], []
        self.trusted = []
        self.engines = {}
        self.witness = 0         # reachability twins that came back violated
        self.traces = 0          # concrete runs of the real code compared with the encoding
        self.solver_s = 0.0
        self.samples = []
        self.replaydir = os.path.join(VERIF, "evidence", "replay", prop)
        shutil.rmtree(self.replaydir, ignore_errors=True)

    def left(self):
        return self.budget - (time.time() - self.t0)

    def add(self, name, status, detail="", solver_s=0.0, replay=None, engine="", sample=None):
        assert status in ("discharged", "violated", "inconclusive", "finding-gone")
        self.obl.append(dict(name=name, status=status, detail=detail, replay=replay, engine=engine))
        self.solver_s += solver_s
        self.engines[engine] = self.engines.get(engine, 0) + 1
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)
        if status != "discharged" or "-v" in sys.argv:
            print("[%s] %s: %s %s" % (self.prop, name, status, detail[:600]))
            sys.stdout.flush()

    def write_replay(self, name, text, ext="txt"):
        os.makedirs(self.replaydir, exist_ok=True)
        safe = "".join(c if c.isalnum() or c in "-_." else "_" for c in name)[:80]
        p = os.path.join(self.replaydir, safe + "." + ext)
        with open(p, "w") as fh:
            fh.write(text)
        return p

    def finish(self):
        viol, known = [], []
        for o in self.obl:
            if o["status"] == "violated":
                (known if o["name"] in self.known else viol).append(o)
        inc = [o for o in self.obl if o["status"] == "inconclusive"]
        dis = [o for o in self.obl if o["status"] == "discharged"]
        for o in known:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, o["name"], self.known[o["name"]]))
        for o in viol:
            if not o["replay"]:
                o["replay"] = self.write_replay(o["name"], o["detail"])
            print("VIOLATION property=%s replay=%s" % (self.prop, o["replay"]))
            print("   obligation %s: %s" % (o["name"], o["detail"][:1500]))
        wall = time.time() - self.t0
        cov = dict(
            explanation=("Bounded symbolic verification of the real code: every obligation is one solver query "
                         "(or one CBMC run) over all values of its symbolic inputs within the bounds listed; "
                         "'discharged' means the solver answered unsat / VERIFICATION SUCCESSFUL."),
            obligations=len(self.obl), discharged=len(dis), inconclusive=len(inc),
            inconclusive_names=[o["name"] for o in inc][:50],
            known_findings=[o["name"] for o in known],
            obligations_by_engine=self.engines,
            functions_encoded=self.functions, bounds=self.bounds,
            reachability_witnesses=self.witness,
            concrete_runs_compared_with_encoding=self.traces,
            solver_seconds=round(self.solver_s, 2),
            trusted_base=self.trusted, notes=self.notes,
            checker_cmd="checks/%s.py --%s" % (self.prop, TIER),
            discharged_names=[o["name"] for o in dis][:400],
            samples=self.samples or [o["name"] for o in self.obl[:5]],
        )
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level="other", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        print("%s: %d obligations, %d discharged, %d inconclusive, %d known, %d violated; solver %.1fs wall %.1fs"
              % (self.prop, len(self.obl), len(dis), len(inc), len(known), len(viol), self.solver_s, wall))
        sys.stdout.flush()
        sys.exit(1 if viol else 0)

def main(prop, title, body):
    """Run body(check); anything unexpected is inconclusive, never an alarm."""
    from buildfl import BuildError
    c = Check(prop, title)
    try:
        body(c)
    except BuildError as e:
        c.add("build", "inconclusive", "current tree does not build for the check: " + str(e)[-1500:])
    except SystemExit:
        raise
    except BaseException:
        c.add("machinery", "inconclusive", traceback.format_exc()[-3000:])
    c.finish()
