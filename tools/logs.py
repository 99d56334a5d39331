"""C28: what is logged."""
import json, re
import vp, same

def check_logs(run):
    import check
    binary = vp.harness("log")
    while True:
        pool = [dict(s, cfg=dict(s["cfg"], records=1, level="trace")) for s in same.scenarios(run) if s["cfg"].get("role") in (None, "client", "device")]
        recorded = vp.run_harness(binary, pool, run.work, "logs")
        for part in check.parts(recorded):
            path = run.work + "/logs.ndjson"
            with open(path, "w") as f:
                f.write('{"judge":[]}\n' + "\n".join(part) + "\n")
            res = vp.tlc("LogTrace.tla", "LogTrace.cfg", run.work, env={"TRACE": path})
            run.add(res)
            abandoned = len(vp.tuple_after(res.output, "ABANDONED"))
            bad = vp.tuple_after(res.output, "MISMATCH")
            if bad:
                sid = json.loads(json.loads(re.match(r'<<"MISMATCH", ("(?:[^"\\]|\\.)*")', bad[0]).group(1)))
                raise check.Violation(bad[0], run.replay_file({"property": run.prop, "mismatch": bad[0], "logs": next(s for s in pool if s["id"] == sid),
                                      "session": next(json.loads(x) for x in part if same.id_of(x) == sid)}))
            steps = sum(s.count('{"e":"') + 1 for s in part)
            if not res.ok or (res.states != steps and not abandoned):
                raise vp.ToolError("LogTrace: %d states for %d steps\n%s" % (res.states, steps, res.output[-2000:]))
            run.traces += len(part)
            run.abandoned += abandoned
        for line in recorded:
            for k in re.findall(r'"c":\{"op":"(\w+)"', line): run.seen["op " + k] += 1
            for k in re.findall(r'"lv":"(\w+)"', line): run.seen["logged at level " + k] += 1
        if not run.samples:
            run.samples = [json.loads(x) for x in sorted((r for r in recorded if '"log"' in r and '"rd"' in r), key=len)[:2]]
        run.rounds += 1
        if run.left() < 60: break
    run.assumptions = check.ASSUMPTIONS + ["a logged message is listed as hexadecimal or decimal bytes in the text of one record"]
