"""Building the harness, running scenarios on it, and having TLC validate the
recorded sessions against the specification."""
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
SPEC = os.path.join(VERIF, "spec")
WORKERS = os.environ.get("VP_WORKERS", "8")

class ToolError(Exception):
    pass

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)

# ---------------------------------------------------------------- building

VARIANTS = {
    "default": ["--features", "default"],
    "log": ["--features", "default,log"],
    "std": ["--no-default-features", "--features", "std"],
    "alloc": ["--no-default-features", "--features", "alloc"],
    "bare": ["--no-default-features"],
    "barelog": ["--no-default-features", "--features", "log"],
}

def env_offline(**more):
    env = dict(os.environ)
    env["CARGO_NET_OFFLINE"] = "true"
    env.pop("RUSTFLAGS", None)
    env.update(more)
    return env

def cargo(crate, target, args, release=False, edit=lambda manifest: manifest, suffix="", verb="build"):
    """Build a crate of /verif against the tree under test; returns the directory of the output."""
    src = os.path.join(VERIF, crate)
    dst = os.path.join(BUILD, "src-" + crate + suffix)
    os.makedirs(dst, exist_ok=True)
    manifest = edit(open(os.path.join(src, "Cargo.toml")).read())
    manifest = manifest.replace('path = "/repo"', 'path = "%s"' % REPO)
    manifest = manifest.replace('path = "src/', 'path = "%s/src/' % src)
    manifest = manifest.replace('path = "shim"', 'path = "%s/shim"' % src)
    def put(name, text):
        p = os.path.join(dst, name)
        if not os.path.exists(p) or open(p).read() != text:
            open(p, "w").write(text)
    put("Cargo.toml", manifest)
    lock = os.path.join(src, "Cargo.lock")
    if os.path.exists(lock) and not os.path.exists(os.path.join(dst, "Cargo.lock")):
        shutil.copy(lock, dst)
    r = sh(["cargo", verb, "--offline", "--quiet", "--manifest-path", os.path.join(dst, "Cargo.toml")] + args
           + (["--release"] if release else []),
           env=env_offline(CARGO_TARGET_DIR=os.path.join(BUILD, target)), timeout=800)
    if r.returncode != 0:
        raise ToolError("cargo build failed:\n" + r.stdout[-4000:])
    return os.path.join(BUILD, target, "release" if release else "debug")

def harness(variant="default"):
    if variant == "release":
        return os.path.join(cargo("harness", "t-release", VARIANTS["default"], release=True), "harness")
    return os.path.join(cargo("harness", "t-" + variant, VARIANTS[variant]), "harness")

# ---------------------------------------------------------------- running

def run_harness(binary, scenarios, work, name):
    """Run scenarios; returns the recorded sessions as JSON text lines, in order.
    A scenario that kills the harness gets a result that says so."""
    os.makedirs(work, exist_ok=True)
    lines = [json.dumps(s, separators=(",", ":")) for s in scenarios]
    done, start, crashes = [], 0, 0
    while start < len(lines):
        fin, fout = os.path.join(work, name + ".in"), os.path.join(work, name + ".out")
        with open(fin, "w") as f:
            f.write("\n".join(lines[start:]) + "\n")
        p = subprocess.run([binary, fin, fout], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=600)
        got = [l for l in open(fout).read().split("\n") if l]
        if p.returncode == 0:
            if len(got) != len(lines) - start:
                raise ToolError("harness lost sessions")
            done += got
            break
        if p.returncode == 3 and not p.stderr.startswith("panicked at " + os.path.join(REPO, "src")):
            raise ToolError("harness failed: " + p.stderr[-2000:] + lines[start + len(got)][:2000])
        # The library took the process down. Repeat that scenario with its events written at once.
        k = len(got)
        stream = os.path.join(work, name + ".stream")
        p = subprocess.run([binary, fin, fout + "1", str(k), stream], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
        events = [l for l in open(stream).read().split("\n") if l]
        kind = "hang" if p.returncode == 97 else "crash"
        if p.returncode == 0:
            raise ToolError("harness died and survived the same scenario")
        t = json.loads(events[-1])["t"]
        events.append('{"e":"ret","t":%s,"r":{"k":"%s"}}' % (json.dumps(t), kind))
        s = scenarios[start + k]
        done += got + ['{"id":%s,"rcap":%d,"wcap":%d,"devices":%d,"ev":[%s]}' % (
            json.dumps(s["id"]), s["cfg"].get("rcap", 128), s["cfg"].get("wcap", 128), len(s["cfg"].get("devices", [])), ",".join(events))]
        start += k + 1
        crashes += 1
        if crashes >= 3:
            break
    # Three sessions that hang say as much as hundreds, and each is long.
    hung = [i for i, x in enumerate(done) if '"k":"hang"' in x]
    for i in reversed(hung[3:]): del done[i]
    return done

# ---------------------------------------------------------------- TLC

class Checked:
    def __init__(self):
        self.states = self.transitions = 0
        self.mismatch = None        # description of the violation, if any
        self.session = None         # id of the offending session
        self.abandoned = 0
        self.output = ""
        self.prints = []

def tlc(module, cfg, work, env=None, timeout=800, extra=(), workers=None):
    meta = os.path.join(work, "tlc-%s-%d" % (os.path.basename(cfg), os.getpid()))
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-XX:+UseParallelGC", "-Xmx10g", "-Xss256m", "-cp",
           "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
           "-workers", str(workers or WORKERS), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    try:
        r = sh(cmd, env=e, cwd=SPEC, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    res = Checked()
    res.output = out
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue", out)
    if m:
        res.transitions, res.states = int(m[-1][0]), int(m[-1][1])
    res.ok = r.returncode == 0
    res.code = r.returncode
    return res

def tuple_after(out, tag):
    """The values printed by the specification with <<"tag", ...>>."""
    found, i = [], 0
    while True:
        m = re.compile(r'<<\s*"%s"' % tag).search(out, i)
        if not m:
            return found
        i = m.start()
        # Find the matching >>, minding strings.
        depth, j, instr = 0, i, False
        while j < len(out):
            if out[j] == '"':
                instr = not instr
            elif not instr and out.startswith("<<", j):
                depth += 1
                j += 1
            elif not instr and out.startswith(">>", j):
                depth -= 1
                j += 1
                if depth == 0:
                    break
            j += 1
        found.append(re.sub(r"<<\s+", "<<", re.sub(r"\s+", " ", out[i:j + 1])))
        i = j

def validate(sessions, judge, work, name, timeout=800):
    """Have TLC check recorded sessions. sessions: JSON lines."""
    path = os.path.join(work, name + ".ndjson")
    with open(path, "w") as f:
        f.write(json.dumps({"judge": sorted(judge)}) + "\n")
        f.write("\n".join(sessions) + "\n")
    res = tlc("DxlTrace.tla", "DxlTrace.cfg", work, env={"TRACE": path}, timeout=timeout)
    bad = tuple_after(res.output, "MISMATCH")
    res.abandoned = len(tuple_after(res.output, "ABANDONED"))
    if bad:
        res.mismatch = bad[0]
        res.session = json.loads(json.loads(re.match(r'<<"MISMATCH", ("(?:[^"\\]|\\.)*")', bad[0]).group(1)))
        if "Invariant Conforms is violated" not in res.output:
            raise ToolError("TLC: " + res.output[-3000:])
    else:
        if not res.ok:
            raise ToolError("TLC failed on %s:\n%s" % (path, res.output[-3000:]))
        # Every event of every session must have been a step.
        expected = 0
        if res.abandoned == 0:
            expected = sum(s.count('{"e":"') + 1 for s in sessions)
            if expected != res.states:
                raise ToolError("TLC saw %d states, expected %d" % (res.states, expected))
    return res
