"""C26: a client and devices of the library on one bus."""
import json, os, random, re
import vp, families
from gen import *

def scenario(g, faulty, length=None):
    ids = g.r.sample([0, 1, 2, 3, 7, 85, 127, 128, 252, 253] + [g.r.randrange(254)], g.pick([1, 2, 2, 3, 3, 4]))
    ids = list(dict.fromkeys(ids))
    def who():
        return g.pick(ids) if g.chance(0.93) else g.r.randrange(254)
    def some():
        few = g.r.sample(ids, g.r.randrange(len(ids) + 1)) if g.chance(0.5) else g.r.sample(ids, len(ids))
        if g.chance(0.08):
            few.insert(g.r.randrange(len(few) + 1), g.pick([i for i in range(254) if i not in ids]))
        return few
    def lazily(c):
        if g.chance(0.5): c["lazy"] = True
        return c
    def large():
        n = g.pick([32, 63, 64, 65, 100, 117, 118, 127, 128, 129, 200, 255, 256, 257, 300, 500])
        d = g.data(n) if n < 300 else families.plain(g, n)
        k = g.r.randrange(6)
        if k == 0: return {"op": "read", "id": who(), "addr": g.addr(), "count": n, "ty": "bytes"}
        if k == 1: return lazily({"op": g.pick(["write", "reg_write"]), "id": 254, "addr": g.addr(), "ty": "bytes", "data": d, "bcast": False})
        if k == 2: return {"op": g.pick(["write", "reg_write"]), "id": who(), "addr": g.addr(), "ty": "bytes", "data": d, "bcast": False}
        if k == 3: return {"op": "sync_read", "ty": "bytes", "addr": g.addr(), "ids": ids, "count": n, "plan": ["next"] * g.r.randrange(len(ids) + 2)}
        if k == 4: return {"op": "bulk_read", "ty": "bytes", "items": [{"id": i, "addr": g.addr(), "count": g.pick([n, n, 2])} for i in ids], "plan": ["next"] * g.r.randrange(len(ids) + 2)}
        return {"op": "raw_xfer", "id": who(), "ins": g.pick([9, 0x20, 0xFE]), "data": d, "expect": g.size(12)}
    def op():
        if g.chance(0.08): return large()
        k = g.r.randrange(20)
        if k < 4: return g.ack_op(who(), False)
        if k < 8: return g.read_op(who())
        if k < 9: return {"op": "ping", "id": who()}
        if k < 11: return lazily(g.ack_op(bcast=True))
        if k < 13:
            few = some()
            c = g.sync_read_op(n=len(few))
            c["ids"] = few
            return c
        if k < 15:
            few = some()
            c = g.bulk_read_op(n=len(few))
            for x, i in zip(c["items"], few): x["id"] = i
            return c
        if k == 15:
            c = g.sync_write_op()
            for x in c["items"]: x["id"] = who()
            return lazily(c)
        if k == 16: return lazily(g.bulk_write_op())
        if k == 17: return g.scan_op(["next"] * g.r.randrange(len(ids) + 2))
        if k == 18:
            c = g.xfer_op()
            c["id"] = who()
            c["ins"] = g.pick([9, 0x20, 0xFE, 0xFF, 0xFD, 0])
            return c
        return lazily({"op": "raw_write", "id": 254, "ins": g.pick([9, 0x20, 255, 253, 3, 2, 6]), "data": g.data(g.size(12))})
    ops = [op() for _ in range(length or g.pick([4, 8, 12]))]
    faults = []
    if faulty:
        for _ in range(length // 10 if length else g.pick([1, 1, 2, 4, 8])):
            f = {"at": g.r.randrange(2 * len(ops)), "to": g.pick([-1, 0, g.r.randrange(len(ids) + 1)]),
                 "kind": g.pick(["lose", "flip", "flip", "flip", "cut", "head", "pre", "post"]), "x": g.r.randrange(2400)}
            if f["kind"] == "flip" and g.chance(0.5): f["x"] = g.r.randrange(80)
            if f["kind"] in ("pre", "post"): f["b"] = g.pick([g.noise, g.noise, g.noise, lambda: g.data(g.r.randrange(1, 30)), lambda: [255, 255, 253, 0, 1, 60, 0]])()
            faults.append(f)
    return ops, dict(devices=ids, faults=faults, seed=g.r.randrange(1, 2 ** 31), rude=g.pick([0, 0, 0, 100, 300]),
                     chunks=g.chunks(), rcap=700, wcap=700, baud=g.pick([57600, 1_000_000]))

def check_bus(run):
    import check
    binary = vp.harness()
    models(run, binary)
    while True:
        g = Gen("%s.%d" % (run.seed, run.rounds), "C26")
        for k in range(1500 if run.deep else 500):
            ops, cfg = scenario(g, k % 2 == 1)
            g.add(ops, role="bus", **cfg)
        # Long ones, for what adds up or comes around.
        for k in range(4 if run.deep else 2):
            ops, cfg = scenario(g, k % 2 == 1, 330)
            g.add(ops, role="bus", **cfg)
        judge(run, g.out, vp.run_harness(binary, g.out, run.work, "bus"))
        run.rounds += 1
        if run.left() < 30: break

def models(run, binary):
    """The closed model; its behaviours, as scenarios, on the real client and devices."""
    for cfg in ["MCBus"] + (["MCBus3"] if run.deep else []):
        res = run.model("MCBus", cfg)
        found = sorted(set(re.findall(r'^"SCENARIO (.*)"$', res.output, re.M)))
        if not found: raise vp.ToolError("MCBus prints no scenarios")
        pick = random.Random("%s/%s" % (run.seed, cfg))
        out = []
        for i, x in enumerate(found if len(found) <= 12000 else pick.sample(found, 12000)):
            s = json.loads(json.loads('"%s"' % x))
            s["cfg"]["seed"] = pick.randrange(1, 2 ** 31)
            s["cfg"]["chunks"] = pick.choice([[], [], [1], [8, 1], [3]])
            out.append({"id": "%s.%d" % (cfg, i), "cfg": s["cfg"], "ops": s["ops"]})
        run.models[cfg].update(behaviours=len(found), run_on_the_code=len(out))
        for i in range(0, len(out), 3000):
            judge(run, out[i:i + 3000], vp.run_harness(binary, out[i:i + 3000], run.work, "bus"))

def judge(run, scenarios, recorded):
    import check
    path = os.path.join(run.work, "bus.ndjson")
    with open(path, "w") as f:
        f.write("\n".join(recorded) + "\n")
    res = vp.tlc("BusTrace.tla", "BusTrace.cfg", run.work, env={"TRACE": path})
    run.add(res)
    bad = vp.tuple_after(res.output, "MISMATCH")
    if bad:
        sid = json.loads(json.loads(re.match(r'<<"MISMATCH", ("(?:[^"\\]|\\.)*")', bad[0]).group(1)))
        raise check.Violation(bad[0], run.replay_file({"property": run.prop, "mismatch": bad[0], "bus": next(s for s in scenarios if s["id"] == sid),
                              "session": next(json.loads(x) for x in recorded if json.loads(x)["id"] == sid)}))
    steps = sum(x.count('"e":"') - x.count('"k":"err"') + 1 for x in recorded)
    if not res.ok or res.states != steps:
        raise vp.ToolError("BusTrace: %d states for %d steps\n%s" % (res.states, steps, res.output[-2000:]))
    run.traces += len(recorded)
    text = "".join(recorded)
    for k in re.findall(r'"c":\{"op":"(\w+)"', text): run.seen["op " + k] += 1
    for k in re.findall(r'"r":\{"k":"(err","e":"\w+|\w+)', text): run.seen["result " + k.replace('","e":"', " ")] += 1
    if not run.samples: run.samples = [json.loads(min(recorded, key=len))]
    run.assumptions = check.ASSUMPTIONS + ["no reply arrives later than the wait for it (the harness lets the bus come to rest between requests)",
                                           "no alteration of a message is missed by its checksum"]
