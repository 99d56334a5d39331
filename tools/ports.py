"""C24: the SerialPort implementation for serial2 on a pseudo terminal."""
import json, os, random, re, subprocess
import vp
from wire import status, packet

def scenario(r, k):
    baud = lambda: r.choice([9600, 57600, 115200, 1000000, 2000000, 3000000, 4000000, 4500000, 12345, 250000, r.randrange(50, 5000000)])
    mb = lambda b: [b // 1000000, b % 1000000]
    data = lambda n: [r.choice([0, 3, 4, 10, 13, 17, 19, 26, 127, 255, 253, r.randrange(256), r.randrange(256)]) for _ in range(n)]
    steps, queue = [], 0
    for _ in range(r.randrange(4, 10)):
        c = r.randrange(100)
        if c < 22:
            n = r.choice([1, 2, 5, 14, 40, 300, 1, 1500])
            if queue + n > 3500: continue
            steps.append({"op": "arrive", "b": data(n)}); queue += n
        elif c < 62:
            n = r.choice([1, 2, 3, 10, 64, 128, 1000, 4096])
            dl = r.choice([-50000, -3000, -1000000, -1, 5000, 15000, 30000, 60000, 120000, 1500, 0, 1000000 if queue else 90000, 7700])
            step = {"op": "read", "n": n, "dl": dl}
            if queue == 0 and r.random() < 0.6:
                at, later = 0, []
                for _ in range(r.randrange(1, 4)):
                    at += r.choice([0, 2000, 10000, 25000, 50000])
                    b = data(r.choice([1, 3, 14, 60]))
                    later.append({"us": at, "b": b}); queue += len(b)
                step["later"] = later
            steps.append(step)
            if dl > 3000: queue = max(0, queue - n)
        elif c < 72: steps.append({"op": "discard"}); queue = 0
        elif c < 82:
            w = {"op": "write", "b": data(r.choice([1, 10, 14, 127, 128, 1000, 6000]))}
            if len(w["b"]) < 2000 and r.random() < 0.3: w["discard"] = 1; queue = 0
            steps.append(w)
        elif c < 88: steps.append({"op": "set_baud", "baud": mb(baud())})
        elif c < 92: steps.append({"op": "baud"})
        elif c < 96: steps.append({"op": "deadline", "t": r.choice([[0, 0], [0, 1], [0, 34000000], [5, 999999999], [86400, 5], [0, r.randrange(10**9)]])})
        else: steps.append({"op": "classify", "how": r.choice(["kind", "text"])})
    # Whatever is left must still be there, and nothing else.
    steps += [{"op": "read", "n": 4096, "dl": 200000 if queue else 20000}, {"op": "read", "n": 4096, "dl": 20000}]
    return {"id": k, "how": r.choice(["client", "client_buf", "client_new", "device", "device_buf", "device_new", "changed", "device_changed"]), "baud": mb(baud()), "steps": steps}

FIXED = [
    [{"op": "classify", "how": "kind"}, {"op": "classify", "how": "text"}, {"op": "read", "n": 10, "dl": 30000}],
    [{"op": "read", "n": 10, "dl": -500000}, {"op": "read", "n": 10, "dl": 0}, {"op": "arrive", "b": [1, 2, 3]}, {"op": "read", "n": 10, "dl": -2000000}, {"op": "read", "n": 2, "dl": 100000}, {"op": "read", "n": 2, "dl": 100000}],
    [{"op": "arrive", "b": [5] * 40}, {"op": "discard"}, {"op": "arrive", "b": [6, 7]}, {"op": "read", "n": 40, "dl": 300000}, {"op": "read", "n": 40, "dl": 12000}],
    [{"op": "read", "n": 100, "dl": 150000, "later": [{"us": 40000, "b": [9, 8, 7]}, {"us": 100000, "b": [6]}]}, {"op": "read", "n": 100, "dl": 150000}],
    [{"op": "read", "n": 100, "dl": 40000, "later": [{"us": 80000, "b": [9, 8, 7]}]}, {"op": "read", "n": 1, "dl": 100000}, {"op": "read", "n": 5, "dl": 100000}],
    [{"op": "read", "n": 100, "dl": 800000, "later": [{"us": 700000, "b": [1]}]}],
    [{"op": "read", "n": 100, "dl": 3600000, "later": [{"us": 3200000, "b": [1]}]}],
    [{"op": "read", "n": 100, "dl": 3300000}],
    [{"op": "read", "n": 1, "dl": 1300000}],
    [{"op": "write", "b": [17, 19] * 400}, {"op": "write", "b": list(range(256)) * 30}, {"op": "arrive", "b": list(range(256))}, {"op": "read", "n": 256, "dl": 300000}],
    [{"op": "write", "b": [(i * i // 7) % 256 for i in range(90000)]}],
    [{"op": "set_baud", "baud": [0, b]} for b in (50, 9600, 57600, 115200, 230400, 123456)] + [{"op": "set_baud", "baud": [b, 0]} for b in (1, 2, 3, 4)] + [{"op": "baud"}],
]

HOWS = ["client", "client_buf", "client_given", "client_new", "changed", "device", "device_buf", "device_given", "device_new", "device_changed"]

def messages():
    """How large a message goes through what has been opened in every way?"""
    out = []
    for how in HOWS:
        for n in (11, 30, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200):
            params = [(7 * i + n) % 250 for i in range(n - (11 if how[0] == "c" else 10))]
            b = status(1, 0, params) if how[0] in "c" else packet(1, 3, params)
            out.append({"how": how, "baud": [0, 57600], "steps": [], "messages": [{"op": "send", "n": n}] + [{"op": "receive", "b": b, "params": params}] + [{"op": "send", "n": 20}]})
        # Nobody at the other end any more.
        for before in ([], [{"op": "receive", "b": status(1, 0, [5]) if how[0] == "c" else packet(1, 3, [5]), "params": [5]}]):
            out.append({"how": how, "baud": [0, 57600], "steps": [], "messages": before + [{"op": "wait", "t": 30000}, {"op": "hang_up"}, {"op": "wait", "t": 40000}, {"op": "lost", "n": 20}, {"op": "wait", "t": 0}, {"op": "wait", "t": 90000}, {"op": "lost", "n": 11}]})
    return out

def execute(run, binary, scenarios, threads):
    fin, fout = os.path.join(run.work, "port.in"), os.path.join(run.work, "port.out")
    with open(fin, "w") as f: f.write("".join(json.dumps(s) + "\n" for s in scenarios))
    try:
        p = subprocess.run([binary, fin, fout, str(threads)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=200)
    except subprocess.TimeoutExpired:
        return None, []
    if p.returncode != 0: raise vp.ToolError("port: " + p.stderr[-1000:])
    res = vp.tlc("PortTrace.tla", "PortTrace.cfg", run.work, env={"TRACE": fout})
    if not res.ok: raise vp.ToolError("PortTrace: " + res.output[-2000:])
    run.add(res)
    sessions = [json.loads(l) for l in open(fout)]
    bad = {int(m[0]): (int(m[1]), m[2]) for m in (re.match(r'<<"MISMATCH", (\d+), (\d+), "([^"]*)"', x).groups() for x in vp.tuple_after(res.output, "MISMATCH"))}
    if not bad and res.states != sum(len(s["ev"]) + 1 for s in sessions):
        raise vp.ToolError("PortTrace: lost events")
    return sessions, bad

def check_port(run):
    import check
    binary = os.path.join(vp.cargo("port", "t-port", []), "port")
    while True:
        r = random.Random("%s.%s" % (run.seed, run.rounds))
        scenarios = [scenario(r, k) for k in range(1000 if run.deep else 400)]
        for k, steps in enumerate(FIXED):
            scenarios.append({"id": len(scenarios), "how": HOWS[k % len(HOWS)], "baud": [0, 57600], "steps": steps})
        for s in messages() if run.rounds == 0 else []:
            scenarios.append(dict(s, id=len(scenarios)))
        sessions, bad = execute(run, binary, scenarios, 40)
        if sessions is None:
            scenarios_left = scenarios
            raise check.Violation("a call on the port does not return", run.replay_file({"property": run.prop, "scenarios": scenarios}))
        for s in sessions:
            for e in s["ev"]:
                run.seen["event " + e["e"] + (" " + e["k"] if "k" in e else "")] += 1
        run.traces += len(sessions) - len(bad)
        if not run.samples: run.samples = sessions[-4:-2]
        # The machine may have been busy: believe only what happens every time.
        confirmed = 0
        for k in list(bad)[:8]:
            alone = None
            for attempt in range(3):
                again, worse = execute(run, binary, [scenarios[k]], 1)
                if again is not None and not worse:
                    run.more["transient"] = run.more.get("transient", 0) + 1
                    break
                alone = worse
            else:
                what = "event %d: %s" % alone[k] if alone else "does not return"
                raise check.Violation(what, run.replay_file({"property": run.prop, "scenario_on_port": scenarios[k], "recorded": again, "mismatch": what}))
        run.rounds += 1
        if run.left() < 60: break
    run.assumptions = ["a pseudo terminal stands in for a serial line", "a mismatch counts if it happens in four runs of the same scenario out of four (timing on a busy machine)",
                       "a wait may end 1 ms early (granularity of the operating system) and 250 ms late"]
