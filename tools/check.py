"""Deciding a property: design models, scenarios on the real code, validation of
what they recorded, evidence."""
import collections, json, os, random, re, sys, time, traceback
import vp, families
from gen import Gen

QUICK_SCALE = 15
THOROUGH_SCALE = families.DEEP
THOROUGH_SECONDS = int(os.environ.get("VP_THOROUGH_SECONDS", "540"))

class Violation(Exception):
    def __init__(self, what, replay):
        self.what, self.replay = what, replay

def parts(recorded, most=60_000_000):
    """Recordings are validated in parts if they are long: as they can be if the code misbehaves."""
    size, part = 0, []
    for x in recorded:
        if part and size + len(x) > most:
            yield part
            size, part = 0, []
        size += len(x)
        part.append(x)
    if part: yield part

class Run:
    """One run of a check, and what it covered."""
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.begin = time.time()
        self.work = os.path.join(vp.BUILD, "work", "%s-%s" % (prop, tier))
        os.makedirs(self.work, exist_ok=True)
        self.states = self.transitions = self.traces = self.abandoned = 0
        self.samples, self.assumptions = [], []
        self.models = {}
        self.seen = collections.Counter()
        self.more = {}
        self.rounds = 0

    @property
    def deep(self):
        return self.tier == "thorough"

    def left(self):
        return THOROUGH_SECONDS - (time.time() - self.begin) if self.deep else 0

    def replay_file(self, content):
        d = os.path.join(vp.BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, self.prop + ".json")
        with open(path, "w") as f:
            json.dump(content, f)
        return path

    def add(self, res):
        self.states += res.states
        self.transitions += res.transitions

    def model(self, module, cfg, env=None, extra=(), timeout=800, workers=None):
        """Check a design model. A violation there is an error of the specification."""
        res = vp.tlc(module + ".tla", cfg + ".cfg", self.work, env=env, extra=extra, timeout=timeout, workers=workers)
        if not res.ok:
            raise vp.ToolError("model %s/%s: %s" % (module, cfg, res.output[-3000:]))
        self.models[cfg] = {"distinct_states": res.states, "transitions": res.transitions}
        self.add(res)
        return res

    def generated(self, module, cfg, judge, most, chunkings=([],), simulate=None):
        """Check a design model, and run the behaviours it prints as scenarios on the real code:
        a sample of at most `most`, drawn by the seed. Their recordings must conform."""
        extra = ["-simulate", "num=%d" % simulate, "-depth", "150", "-seed", str(self.seed * 1000 + self.rounds)] if simulate else []
        res = self.model(module, cfg, extra=extra)
        found = sorted(set(re.findall(r'^"SCENARIO (.*)"$', res.output, re.M)))
        if not found:
            raise vp.ToolError("%s/%s prints no scenarios" % (module, cfg))
        pick = random.Random("%s/%s/%s/%d" % (self.seed, self.prop, cfg, self.rounds))
        chosen = found if len(found) <= most else pick.sample(found, most)
        out = []
        for i, x in enumerate(chosen):
            s = json.loads(json.loads('"%s"' % x))
            for j, chunks in enumerate(chunkings):
                cfg2 = dict(s["cfg"])
                if chunks: cfg2["chunks"] = chunks
                out.append({"id": "%s.%d.%d" % (cfg, i, j), "cfg": cfg2, "ops": s["ops"]})
        self.models[cfg].update(behaviours=len(found), run_on_the_code=len(out))
        # Some at a time, to bound the memory for recordings.
        for i in range(0, len(out), 20000):
            self.sessions(out[i:i + 20000], judge, name="g-" + cfg)

    def sessions(self, scenarios, judge, variant="default", name="s", binary=None):
        """Run scenarios on the real code, and have TLC validate the recordings."""
        recorded = vp.run_harness(binary or vp.harness(variant), scenarios, self.work, name)
        for line in recorded:
            for k in re.findall(r'"c":\{"op":"(\w+)"', line): self.seen["op " + k] += 1
            for k in re.findall(r'"r":\{"k":"(err","e":"\w+|\w+)', line): self.seen["result " + k.replace('","e":"', " ")] += 1
            for k in re.findall(r'\{"e":"(\w+)"', line): self.seen["event " + k] += 1
        for part in parts(recorded):
            self.validate(part, scenarios, judge, variant, name)
        return recorded

    def validate(self, recorded, scenarios, judge, variant, name):
        res = vp.validate(recorded, judge, self.work, name)
        self.add(res)
        self.traces += len(recorded) - (1 if res.mismatch else 0)
        self.abandoned += res.abandoned
        if not self.samples:
            self.samples = [json.loads(x) for x in sorted((r for r in recorded if len(r) < 2500), key=len)[-2:]] or [recorded[0][:2000]]
        if res.mismatch:
            scenario = next(s for s in scenarios if s["id"] == res.session)
            session = next(json.loads(x) for x in recorded if json.loads(x)["id"] == res.session)
            raise Violation(res.mismatch, self.replay_file(
                {"property": self.prop, "judge": sorted(judge), "variant": variant, "mismatch": res.mismatch, "scenario": scenario, "session": session}))

    def evidence(self, violations):
        cov = {
            "states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
            "samples": self.samples or ["none"], "sessions_cut_short": self.abandoned, "rounds": self.rounds,
            "seen": dict(sorted(self.seen.items())), "design_models": self.models,
        }
        cov.update(self.more)
        out = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
               "assumptions": self.assumptions or ASSUMPTIONS, "wall_s": round(time.time() - self.begin, 2), "violations": violations}
        d = os.environ.get("VP_EVIDENCE", os.path.join(vp.VERIF, "evidence"))
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(out, f, indent=1)

ASSUMPTIONS = [
    "the serial port behaves as the SerialPort trait documents: a read returns at least one and at most as many bytes as it was given room for, or fails",
    "baud rates are at least 1 and timeouts do not overflow the time type of the port",
    "the harness of /verif records calls, port accesses and results truthfully",
    "TLC and the TLA+ community modules evaluate the specification correctly",
]

def family(run):
    """Rounds of generated scenarios of the property's own family."""
    make, judge = families.FAMILIES[run.prop]
    while True:
        g = Gen("%s.%d" % (run.seed, run.rounds), run.prop)
        make(g, THOROUGH_SCALE if run.deep else QUICK_SCALE, run.rounds == 0)
        run.sessions(g.out, judge)
        run.rounds += 1
        if run.left() < 30:
            break

def designs(run):
    """Closed design models of the property, with the behaviours they generate."""
    judge = families.FAMILIES[run.prop][1]
    for module, cfg, when, how in DESIGNS.get(run.prop, []):
        if when == "deep" and not run.deep: continue
        if how is None: run.model(module, cfg)
        else:
            how = dict(how)
            most = how.pop("most", 3000)
            run.generated(module, cfg, judge, most * 12 if run.deep else most, **how)

BYTEWISE = ([], [1], [3, 1])
STUFF = [("MCStuff", "MCStuff", "always", dict(most=2500))]
RX    = [("MCRx", "MCRx", "always", dict(chunkings=BYTEWISE))]
RX3   = [("MCRx", "MCRx3", "always", dict(most=1500, chunkings=BYTEWISE))]
def closed(*profiles):
    return ([("Closed", "Closed-" + p, "always", {}) for p in profiles] + [("Closed", "Deep-" + p, "deep", {}) for p in profiles])
DESIGNS = {
    "C01": STUFF + closed("one"),
    # All bodies up to length 6 are run on the real code, thoroughly 7; see StuffPipe.
    "C02": [("StuffPipe", "StuffPipe", "always", None), ("MCStuff", "MCStuff", "always", dict(most=11000)),
            ("MCStuff", "MCStuff9", "always", None), ("MCStuff", "MCStuff7", "deep", dict(most=11000))],
    "C03": RX3,
    "C04": RX3,
    "C05": STUFF + closed("dev"),
    "C06": RX + closed("one", "dev"),
    "C07": closed("one", "multi", "scan", "dev"),
    "C08": closed("one"),
    "C09": closed("one"),
    "C10": closed("one", "multi"),
    "C12": closed("one"),
    "C13": closed("multi"),
    "C14": closed("multi", "scan"),
    "C15": closed("scan"),
    "C17": RX + closed("dev"),
    "C20": closed("one", "multi"),
}

import special
SPECIAL = special.CHECKS

def known_findings():
    out = []
    path = os.path.join(vp.VERIF, "KNOWN_FINDINGS.txt")
    for line in open(path):
        m = re.match(r"known: property=(\S+) key=/(.*)/ (.*)", line.strip())
        if m: out.append(m.groups())
    return out

def main(args):
    if args[0] == "--replay":
        return replay(args[1])
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    run = Run(prop, tier, seed)
    violation = None
    try:
        for step in SPECIAL.get(prop, []):
            step(run)
        if prop in families.FAMILIES:
            designs(run)
            family(run)
    except Violation as v:
        violation = v
    except vp.ToolError as e:
        print("ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    for p, key, what in known_findings():
        if p == prop and (violation is None or re.search(key, violation.what)):
            print("KNOWN-FINDING: property=%s %s" % (p, what))
            if violation: violation = None
    run.evidence(1 if violation else 0)
    if violation:
        print("mismatch:", violation.what)
        print("VIOLATION property=%s replay=%s" % (prop, violation.replay))
        return 1
    print("%s: held; %d states, %d traces of the implementation, %.1f s" % (prop, run.states, run.traces, time.time() - run.begin))
    return 0

def replay(path):
    r = json.load(open(path))
    if "scenario" not in r:
        print(json.dumps(r, indent=1))
        return 0
    run = Run(r["property"], "replay", 0)
    try:
        run.sessions([r["scenario"]], r["judge"], r["variant"])
    except Violation as v:
        for e in json.load(open(v.replay))["session"]["ev"]:
            print(json.dumps(e))
        print("mismatch:", v.what)
        return 1
    print("conforms")
    return 0
