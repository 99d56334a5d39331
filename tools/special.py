"""Checks with machinery of their own, besides generated scenarios."""
import json, os, re, subprocess
import vp

def check():
    import check as c
    return c

# ---------------------------------------------------------------- C22

def build_once(run):
    """Preferably with the atomics of the macro and of the library itself instrumented."""
    lib = os.path.join(vp.BUILD, "src-shimlib")
    os.makedirs(lib, exist_ok=True)
    edition = re.search(r'edition *= *"(\d+)"', open(os.path.join(vp.REPO, "Cargo.toml")).read()).group(1)
    text = """[package]
name = "dynamixel2"
version = "0.0.0"
edition = "%s"
[lib]
path = "%s/src/lib.rs"
[features]
alloc = []
std = ["alloc"]
log = []
serial2 = []
[dependencies]
core = { package = "coreshim", path = "%s/once/shim" }
""" % (edition, vp.REPO, vp.VERIF)
    if not os.path.exists(lib + "/Cargo.toml") or open(lib + "/Cargo.toml").read() != text:
        open(lib + "/Cargo.toml", "w").write(text)
    errors = []
    for how, args, edit in [
        ("in the macro and the library", ["--features", "shim"], lambda m: m.replace('path = "/repo"', 'path = "%s"' % lib)),
        ("in the macro", ["--features", "shim"], lambda m: m),
        ("nowhere", [], lambda m: m),
    ]:
        try:
            binary = os.path.join(vp.cargo("once", "t-once", args, edit=edit, suffix="-%d" % len(errors)), "once")
            run.more["instrumented"] = how
            return binary
        except vp.ToolError as e:
            errors.append(str(e))
    raise vp.ToolError("\n".join(errors))

def proof(run, module):
    """Have tlapm check the proofs of a module."""
    import shutil
    place = os.path.join(run.work, "proof")
    shutil.rmtree(place, ignore_errors=True)
    shutil.copytree(vp.SPEC, place, ignore=lambda d, names: [x for x in names if not x.endswith(".tla")])
    p = subprocess.run(["tlapm", "--cleanfp", "--stretch", "5", "--threads", "4", module + ".tla"], cwd=place,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    m = re.search(r"All (\d+) obligations proved", p.stdout)
    if p.returncode != 0 or not m: raise vp.ToolError("tlapm %s: %s" % (module, p.stdout[-2000:]))
    run.more["proof_obligations_of_" + module] = int(m[1])
    shutil.rmtree(place)

def once(run):
    run.model("StaticBuffer", "StaticBuffer")
    if run.deep: proof(run, "StaticBufferProof")
    binary = build_once(run)
    log = os.path.join(run.work, "once.ndjson")
    while True:
        seed = run.seed * 1000 + run.rounds
        if os.path.exists(log): os.remove(log)
        try:
            p = subprocess.run([binary, log, str(seed), "1" if run.deep else "0"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
            died = "exit status %d: %s" % (p.returncode, p.stdout[-500:]) if p.returncode != 0 else None
        except subprocess.TimeoutExpired:
            died = "evaluations that do not end"
        if died:
            raise check().Violation("evaluating static_buffer!(): " + died, run.replay_file({"property": run.prop, "command": [binary, log, seed], "what": died}))
        lines = open(log).read().split("\n")[:-1]
        head = json.loads(lines[0])
        res = vp.tlc("StaticBufferTrace.tla", "StaticBufferTrace.cfg", run.work, env={"TRACE": log})
        run.add(res)
        bad = vp.tuple_after(res.output, "MISMATCH")
        if bad:
            n = int(re.match(r'<<"MISMATCH", (\d+)', bad[0]).group(1))
            site = json.loads(lines[n])["site"]
            raise check().Violation(bad[0], run.replay_file({"property": run.prop, "mismatch": bad[0], "seed": seed,
                                    "events": [json.loads(x) for x in lines[1:n + 1] if json.loads(x)["site"] == site]}))
        if not res.ok or res.states != len(lines):
            raise vp.ToolError("StaticBufferTrace: %d states for %d lines\n%s" % (res.states, len(lines), res.output[-2000:]))
        run.traces += len({json.loads(x)["site"] for x in lines[1:]})
        run.seen["schedules of 2 and 3 threads"] += head["schedules"]
        run.more["instructions_after_which_an_evaluation_is_interrupted"] = head["steps"]
        run.more["schedules_enumerated_completely_for"] = "%d of 2 numbers of threads (2 and 3)" % head["complete"]
        for x in lines[1:]: run.seen["event " + json.loads(x)["e"]] += 1
        if not run.samples: run.samples = [json.loads(x) for x in lines[1:9]]
        run.rounds += 1
        if run.left() < 30 or run.rounds >= 200: break
    run.assumptions = ["the operations of the macro on atomics are where threads interleave (sequential consistency)",
                       "the stand-in for ::core::sync::atomic forwards every operation to the real one"]

import cli, ports, same, bus, logs
CHECKS = {"C22": [once], "C23": [cli.check_cli], "C24": [ports.check_port], "C25": [same.check_same], "C26": [bus.check_bus], "C28": [logs.check_logs]}

PENDING = {}
TECHNIQUE = {
    "C28": "TLA+ specification of the library extended with what it logs; TLC validation of sessions recorded with a logger",
    "C26": "TLA+ specification of a bus with a client and devices end to end; TLC validation of recorded sessions of the real client and devices on a virtual bus with faults",
    "C25": "TLA+ product machine over configurations (TLC): recorded sessions of the real code in all configurations advance in step",
    "C23": "TLA+ specification of the protocol and of the tool; TLC validation of recorded runs of the real tool on a pseudo terminal",
    "C24": "TLA+ specification of a serial port with time; TLC validation of recorded calls of the real SerialPort implementation on a pseudo terminal",
    "C22": "TLA+ model of a hand-out-once buffer (TLC), and TLC validation of recorded evaluations of the real macro under enumerated schedules against it",
}
NOTES = {
    "C28": "Scenarios of all other families run with the log feature and a logger; TLC tells from the TLA+ specification which packets an operation consumes, and decides that these and the messages sent are logged at trace level when it returns.",
    "C26": "Real clients and devices joined by a virtual bus with random scheduling, fragmentation, losses and corruptions; TLC decides that requests are executed in order and results are the answers given.",
    "C25": "Scenarios of all other families run with 6 feature sets and 5 kinds of buffers; TLC requires every recorded step (bytes, deadlines, results) to be the same in all of them.",
    "C23": "Runs of the real tool with generated arguments and replies on a pseudo terminal; TLC decides from the TLA+ specification of the protocol what must be sent, whether the reply is acceptable, and which decimal digits must be printed.",
    "C24": "Scenarios of arrivals, reads, discards, writes and baud rate changes on a pseudo terminal in real time; TLC decides for every call whether its outcome and timing are allowed.",
    "C22": "Every schedule of two and of three threads at the granularity of the macro's atomic operations, random schedules of up to eight threads and freely running threads; two threads with one interrupted after every machine instruction, in turn; weak memory orderings are not explored. Thorough: the model's promises are also proved (tlapm) for any number of threads.",
}
NOTES["C27"] = ("Converting, failing and displaying of errors over all pairs of IDs and instructions, all error bytes and many counts; TLC decides from the TLA+ specification "
        "what must be kept and which numbers, and the text of the cause, must be said. The wording is not prescribed.")
NOTE = ("Every recorded step of the real code (calls, port accesses with bytes and deadlines, results) is checked by TLC to be a step of the TLA+ specification. "
        "Holds for the generated and enumerated scenarios of the run; assumes the harness records truthfully and the port keeps the SerialPort contract.")
DESIGN_NOTE = " Scenarios are also generated from the closed design models %s, whose invariants TLC checks exhaustively within their bounds."
