"""C25: the same scenarios in every configuration of the library."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
import vp, families
from gen import Gen

FEATURES = ["default", "log", "std", "alloc", "bare", "barelog", "release"]
# The build "log" with less than everything logged.
QUIET = "quiet"
# These are only compiled.
COMPILED = {"alloclog": "alloc,log", "stdlog": "std,log", "rs4xx": "default,rs4xx", "rs4xxbare": "rs4xx", "rs4xxall": "default,rs4xx,log"}
LEVELS = ["off", "debug", "info"]
BUFFERS = ["vec", "static", "box", "array", "new"]
WITH_ALLOC = {"default", "log", QUIET, "std", "alloc", "release"}
SOURCES = ["C01", "C02", "C03", "C05", "C06", "C07", "C09", "C10", "C11", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21"]

def id_of(line): return json.loads(re.match(r'\{"id":("[^"]*")', line).group(1))

def scenarios(run):
    """A pool of scenarios of all families, about half with buffers of the default size."""
    out = []
    for prop in SOURCES:
        g = Gen("%s.%d" % (run.seed, run.rounds), "C25/" + prop)
        # Some chosen ones and some random ones; those beyond the first meet fewer configurations.
        pool = []
        if run.rounds == 0:
            families.FAMILIES[prop][0](g, 1, True)
            first, g.out = g.out, []
            pool = g.r.sample(first, min(len(first), 40))
        families.FAMILIES[prop][0](g, 1, False)
        pool += g.r.sample(g.out, min(len(g.out), 120))
        g.r.shuffle(pool)
        pool = [s for s in pool if len(json.dumps(s)) < 40000]
        for k, s in enumerate(pool):
            if k >= (140 if run.deep else 40): s["cfg"]["few"] = 1
            if g.chance(0.5):
                s["cfg"].update(rcap=128, wcap=128)
                s["cfg"].pop("fill", None)
            s["cfg"].pop("buf", None)
            out.append(s)
    g = Gen("%s.%d" % (run.seed, run.rounds), "C25/wide")
    families.wide(g, [g.r.randrange(20, 500) for _ in range(20)])
    if run.rounds == 0: families.fits(g)
    # Long messages, many of them, and much in one wait.
    h = Gen("%s.%d" % (run.seed, run.rounds), "C25/long")
    for make in (lambda: families.dense(h, ["send", "dev_send", "receive", "dev_receive"]), lambda: families.lengthy(h, [["next"] * 5, ["next"], []]), lambda: families.damaged(h),
                 lambda: families.patient(h), lambda: families.crowd(h, lambda m: [m + 1, 2], 0.95)):
        h.out, kept = [], h.out
        make()
        h.out = kept + h.r.sample([s for s in h.out if len(json.dumps(s)) < 60000], 20)
    for s in h.out:
        s["cfg"]["few"] = 1
        s["cfg"].pop("buf", None)
    return out + g.out + h.out

def check_same(run):
    vp.cargo("harness", "t-default", vp.VARIANTS["default"])
    import check
    def build(variant):
        try:
            return vp.harness(variant)
        except vp.ToolError as e:
            # The library itself, which does compile with its default features.
            if "could not compile `dynamixel2`" not in str(e): raise
            what = "does not compile as %s (%s)" % (variant, " ".join(vp.VARIANTS.get(variant, ["--release"])))
            raise check.Violation(what, run.replay_file({"property": run.prop, "what": what, "output": str(e)}))
    def compile(name):
        try:
            vp.cargo("harness", "t-log", ["--no-default-features", "--features", COMPILED[name]], verb="check", suffix="-" + name,
                     edit=lambda m: m.replace("log = [", 'rs4xx = ["dynamixel2/rs4xx"]\nlog = [', 1))
        except vp.ToolError as e:
            if "could not compile `dynamixel2`" not in str(e): raise
            what = "does not compile with the features %s" % COMPILED[name]
            raise check.Violation(what, run.replay_file({"property": run.prop, "what": what, "output": str(e)}))
    with ThreadPoolExecutor(8) as pool:
        compiled = pool.map(compile, COMPILED)
        binary = dict(zip(FEATURES, pool.map(build, FEATURES)))
    list(compiled)
    run.more["also_compiled_with"] = sorted(COMPILED.values())
    binary[QUIET] = binary["log"]
    combos = [(f, b) for b in BUFFERS for f in FEATURES + [QUIET] if (b != "new" or f in WITH_ALLOC) and (f, b) != ("default", "vec")]
    while True:
        pool = scenarios(run)
        reference = {id_of(line): line for line in vp.run_harness(binary["default"], pool, run.work, "ref")}
        runs = {s["id"]: [("default/vec", reference[s["id"]])] for s in pool if s["id"] in reference}
        # In a quick run every scenario meets every feature set, with buffers by turns.
        def one(k):
            f, b = combos[k]
            always = (f, b) in (("bare", "static"), ("log", "vec"), (QUIET, "vec"), ("release", "vec"))
            mine = [dict(s, cfg=dict(s["cfg"], buf=b, level=LEVELS[j % 3] if f == QUIET else "trace")) for j, s in enumerate(pool)
                    if (always or not s["cfg"].get("few")) and (run.deep or always or j % len(BUFFERS) == BUFFERS.index(b) or (f in ("default", "alloc") and s["cfg"].get("rcap") == 128))
                    and (b not in ("array", "new") or (s["cfg"].get("rcap", 128) == 128 and s["cfg"].get("wcap", 128) == 128))]
            return f + "/" + b, mine, vp.run_harness(binary[f], mine, run.work, "v%d" % k) if mine else []
        with ThreadPoolExecutor(8) as ex:
            for name, mine, recorded in ex.map(one, range(len(combos))):
                for line in recorded:
                    if id_of(line) in runs: runs[id_of(line)].append((name, line))
                run.seen["sessions with " + name] += len(recorded)
        path = os.path.join(run.work, "same.ndjson")
        with open(path, "w") as f:
            for k, rs in runs.items():
                f.write('{"id":%s,"runs":[%s]}\n' % (json.dumps(k), ",".join('{"v":"%s","ev":%s}' % (v, line[line.index('"ev":') + 5:-1]) for v, line in rs)))
        res = vp.tlc("Same.tla", "Same.cfg", run.work, env={"TRACE": path})
        run.add(res)
        for m in re.findall(r'"c":\{"op":"(\w+)"', "".join(reference.values())): run.seen["op " + m] += 1
        bad = vp.tuple_after(res.output, "MISMATCH")
        if bad:
            sid = json.loads(json.loads(re.match(r'<<"MISMATCH", ("(?:[^"\\]|\\.)*")', bad[0]).group(1)))
            scenario = next(s for s in pool if s["id"] == sid)
            raise check.Violation(bad[0], run.replay_file({"property": run.prop, "mismatch": bad[0], "same": scenario,
                                  "sessions": [{"configuration": v, "events": json.loads(l)["ev"]} for v, l in runs[sid]]}))
        steps = sum(max(l.count('{"e":"') for _, l in rs) + 1 for rs in runs.values())
        if not res.ok or res.states != steps:
            raise vp.ToolError("Same: %d states for %d steps\n%s" % (res.states, steps, res.output[-2000:]))
        run.traces += sum(len(rs) for rs in runs.values())
        if not run.samples:
            k = min(runs, key=lambda k: len(runs[k][0][1]))
            run.samples = [{"configurations": [v for v, _ in runs[k]], "events of each": json.loads(runs[k][0][1])["ev"]}]
        run.rounds += 1
        if run.left() < 60: break
    run.assumptions = check.ASSUMPTIONS + ["the configurations that were built (%s; buffers %s) stand for all" % (", ".join(FEATURES + [QUIET]), ", ".join(BUFFERS))]
