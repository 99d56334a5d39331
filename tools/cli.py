"""C23: the command line tool on a pseudo terminal."""
import concurrent.futures, fcntl, hashlib, json, os, random, re, select, struct, subprocess, termios, time, tty
import vp
from wire import status, crc

TCGETS2 = 0x802C542A

def build():
    r = vp.sh(["cargo", "build", "--offline", "--locked", "--quiet", "--manifest-path", os.path.join(vp.REPO, "dynamixel2-cli", "Cargo.toml")],
              env=vp.env_offline(CARGO_TARGET_DIR=os.path.join(vp.BUILD, "t-cli")), timeout=800)
    if r.returncode != 0: raise vp.ToolError("cannot build the command line tool:\n" + r.stdout[-3000:])
    return os.path.join(vp.BUILD, "t-cli", "debug", "dynamixel2")

def speed(fd):
    b = bytearray(44)
    fcntl.ioctl(fd, TCGETS2, b)
    i, o = struct.unpack("II", bytes(b[36:44]))
    return o if i == o else 0

def numbers(text):
    """The decimal numbers in the text, except for durations."""
    text = re.sub(r"0x[0-9A-Fa-f]+( [0-9A-Fa-f]{4})*", " ", re.sub(r"[0-9.]+(ns|µs|ms|s)\b", " ", text))
    return [[int(c) for c in t] for t in re.findall(r"[0-9]+", text)]

def whole(b):
    return len(b) >= 7 and len(b) >= 7 + b[5] + 256 * b[6]

def execute(binary, s, k):
    """Run the tool once, and record."""
    master, slave = os.openpty()
    tty.setraw(slave)
    try:
        port = os.ttyname(slave)
        argv = [binary] + [re.sub(r"^(|--serial-port=|-s)PORT$", lambda m: m.group(1) + port, a) for a in s["argv"]]
        p = subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        tx, at, replied, end = [], 0, False, time.time() + 20
        while True:
            alive = p.poll() is None
            r, _, _ = select.select([master], [], [], 0.005 if alive else 0.03)
            if r:
                tx += os.read(master, 4096)
                at = speed(master)
                if not replied and whole(tx):
                    replied = True
                    for chunk in s["reply"]:
                        os.write(master, bytes(chunk))
                        if len(s["reply"]) > 1: time.sleep(0.004)
                continue
            if not alive: break
            if time.time() > end:
                p.kill()
                p.wait()
                break
        out = p.stdout.read().decode(errors="replace")
        code = p.returncode if time.time() <= end else -1
        out = re.sub(r"\x1b\[[0-9;]*m", "", out)
        tokens = numbers(out)[:400]
        # Numbers printed in hexadecimal next to others.
        lines = []
        for line in out.split("\n"):
            h = [re.sub("[^0-9A-Fa-f]", "", x[2:]) for x in re.findall(r"0x[0-9A-Fa-f]+(?: [0-9A-Fa-f]{4})*", line)]
            if h: lines.append({"t": numbers(line), "h": [list(int(x, 16).to_bytes(len(x) // 2 + 1, "little").rstrip(b"\0")) for x in h]})
        b = s["baud"]
        # Does the output say that there is an alert?
        alert = re.search(r"(?i)alert(?!\w*\W{0,4}(false|no\b|none|0))", out) is not None
        return {"id": k, "valid": s["valid"], "c": s["c"], "width": s["width"], "baud": [b // 1000000, b % 1000000],
                "speed": [at // 1000000, at % 1000000], "tx": tx, "reply": sum(s["reply"], []) if whole(tx) else [],
                "code": code, "tokens": tokens, "alert": alert, "lines": lines, "argv": s["argv"], "out": out[-300:]}
    finally:
        os.close(master)
        os.close(slave)

SHELLS = ["bash", "zsh", "fish", "elvish", "powershell"]
COMMANDS = ["ping", "reboot", "read8", "read16", "read32", "read", "write8", "write16", "write32", "write", "shell-completion"]

def completion(binary, shell, k, dir):
    """Have the tool write a completion script in each of the ways there are, and record."""
    def text(b): return "%d bytes, sha256 %s" % (len(b), hashlib.sha256(b).hexdigest())
    def go(*more):
        p = subprocess.run([binary, "shell-completion", "--shell", shell, *more], stdin=subprocess.DEVNULL, capture_output=True, timeout=20, cwd=dir)
        return p.returncode, p.stdout
    file = os.path.join(dir, "completion-%d" % k)
    try:
        code, plain = go()
        code2, dash = go("-o", "-")
        with open(file, "wb") as f: f.write(b"#" * (len(plain) + 1000))      # an old file, that is longer
        code3, rest = go("--output", file)
        with open(file, "rb") as f: written = f.read()
        code4, _ = go("-o", os.path.join(dir, "no such directory", "file"))
        code5, _ = go("-o", "/dev/full")
        with open("/dev/full", "wb") as full:
            code6 = subprocess.run([binary, "shell-completion", "--shell", shell], stdin=subprocess.DEVNULL, stdout=full, stderr=subprocess.DEVNULL, timeout=20, cwd=dir).returncode
    finally:
        if os.path.exists(file): os.remove(file)
    lines = plain.decode(errors="replace")
    return {"id": k, "valid": True, "c": {"op": "completion"}, "codes": [code, code2, code3, code4, code5, code6], "plain": text(plain), "dash": text(dash), "file": text(written),
            "rest": list(rest[:100]), "named": [c for c in COMMANDS if re.search(r"(?<![\w-])%s(?![\w-])" % c, lines)], "commands": COMMANDS, "code": max(code, code2, code3, code4, code5, code6, key=lambda x: (x == 101 or x < 0)),
            "argv": ["shell-completion", "--shell", shell], "out": ""}

class Make:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def data(self, n):
        r = self.r
        return [r.choice([255, 255, 253, 0, r.randrange(256), r.randrange(256), r.randrange(256)]) for _ in range(n)]

    def reply(self, id, n):
        r = self.r
        k = r.randrange(20)
        d = self.data(n)
        al = r.choice([0, 0, 128])
        if k < 11: out = [status(id, al, d)]
        elif k == 11: out = [status(id, al + r.randrange(1, 128), d)]
        elif k == 12: out = [status((id + r.randrange(1, 253)) % 253, 0, d)]
        elif k == 13: out = [status(id, 0, d + [r.randrange(256)])]
        elif k == 14: out = [status(id, 0, d[:-1])] if d else [status(id, 0, [1])]
        elif k == 15:
            b = status(id, 0, d); b[-1] ^= 1 << r.randrange(8); out = [b]
        elif k == 16: out = [self.noise() + status(id, al, d)]
        elif k == 17: out = [status(id, al, d)[:-1]]
        elif k == 18: out = []
        else:
            b = status(id, al, d); i = r.randrange(1, len(b)); out = [b[:i], b[i:]]
        return out

    def noise(self):
        return [self.r.choice([0, 1, 255, 255, 253]) for _ in range(self.r.randrange(1, 5))] + [7]

    def one(self, cmd=None):
        r = self.r
        cmd = cmd or r.choice(["ping", "reboot", "read8", "read16", "read32", "read", "write8", "write16", "write32", "write"])
        k = r.randrange(20)
        bcast = k < 5
        id = 254 if bcast else r.choice([0, 1, 2, 5, 17, 100, 252, 253, 255, r.randrange(254)])
        motor = r.choice(["broadcast", "254", "BROADCAST", "Broadcast", "bRoadCast", "254"]) if bcast else str(id)
        addr = r.choice([0, 1, 255, 256, 65535, 132, r.randrange(65536), r.randrange(65536)])
        valid, args = True, [motor]
        width, c, n = 0, None, 0
        if cmd == "ping":
            c = {"op": "scan"} if bcast else {"op": "ping", "id": id}
            n = 3
        elif cmd == "reboot": c = {"op": "reboot", "id": id, "bcast": False}
        elif cmd.startswith("read"):
            args.append(str(addr))
            if cmd == "read":
                n = r.choice([0, 1, 2, 3, 4, 8, 20, 60, 100, 106, 107, 116, 117, 118, 200, 255, 256, 257, 1000, 32768, 65535])
                args.append(str(n))
            else:
                n = width = int(cmd[4:]) // 8
            c = {"op": "read", "id": id, "addr": addr, "count": n}
        else:
            args.append(str(addr))
            if cmd == "write":
                d = self.data(r.choice([1, 2, 3, 4, 10, 30, 100, 112, 116, 117, 130]))
                args += [str(x) for x in d]
            else:
                d = self.data(int(cmd[5:]) // 8)
                args.append(str(sum(x << (8 * i) for i, x in enumerate(d))))
            c = {"op": "write", "id": id, "addr": addr, "data": d, "bcast": False}
        # Now and then an argument that is none.
        if r.random() < 0.12:
            valid = False
            i = r.randrange(len(args))
            if i == 0: args[0] = r.choice(["256", "-1", "x", "300", "1.5", "all", "65536", "broadcasts", "4294967296", "broad cast"])
            elif i == 1: args[1] = r.choice(["65536", "-1", "x", "1.5", "70000", "4294967296"])
            elif cmd in ("write8", "write") : args[i] = r.choice(["256", "-1", "x", "1000", "65536", "0.5"])
            elif cmd in ("write16", "read") : args[i] = r.choice(["65536", "-1", "x", "100000", "4294967296", "0.5"])
            else: args[i] = r.choice(["4294967296", "-1", "x", "99999999999", "18446744073709551616", "0.5"])
            if r.random() < 0.2 and cmd != "write": args.pop()      # one too few
        refuse = not valid or (bcast and c["op"] == "read")
        awaits = not refuse and not bcast
        if awaits and n <= 10: baud = r.choice([100, 110, 150, 200, 300, 300, 600, 57600 if r.random() < 0.3 else 300])
        elif awaits and n > 200: baud = r.choice([1000000, 4000000])
        elif awaits and n > 10: baud = r.choice([600, 1200, 2400])
        elif c["op"] == "scan": baud = r.choice([115200, 1000000, 2000000, 230400, 57600])
        else: baud = r.choice([100, 9600, 57600, 115200, 1000000, 2000000, 4000000, 123456, 3000000])
        if c["op"] == "scan": reply = [self.reply(r.randrange(253), 3)[0:1] for _ in range(r.choice([0, 1, 1, 2, 3, 4, 8]))]; reply = [x for y in reply for x in y]
        elif awaits: reply = self.reply(id, n) if n < 500 else []
        else: reply = self.reply(id, n) if r.random() < 0.3 else []
        opts = r.choice([["--serial-port", "PORT"], ["-s", "PORT"], ["--serial-port=PORT"], ["-sPORT"]])
        more = r.choice([["--baud-rate", str(baud)], ["-b", str(baud)], ["-b%d" % baud]]) if baud != 57600 or r.random() < 0.3 else []
        if not valid and r.random() < 0.1 and baud != 57600: more = ["-b", r.choice(["4294967296", "x", "-5"])]
        more += r.choice([[], [], [], ["-v"], ["-vv"], ["--verbose"]])
        if r.random() < 0.02: valid, opts = False, ["-s", r.choice(["/no/such/port", "/dev/null", "/"])]     # no serial port
        argv = opts + more + [cmd] + args if r.random() < 0.5 else [cmd] + args + opts + more
        return {"argv": argv, "valid": valid, "c": c, "width": width, "baud": baud, "reply": reply}

def judge(run, records, name):
    path = os.path.join(run.work, name)
    with open(path, "w") as f: f.write("".join(json.dumps(x) + "\n" for x in records))
    res = vp.tlc("CliTrace.tla", "CliTrace.cfg", run.work, env={"TRACE": path}, workers=1)
    if not res.ok: raise vp.ToolError("CliTrace: " + res.output[-2000:])
    if res.states != len(records) + 1: raise vp.ToolError("CliTrace: %d states for %d runs" % (res.states, len(records)))
    run.add(res)
    return {int(a): b for a, b in (re.match(r'<<"MISMATCH", (\d+), "([^"]*)"', x).groups() for x in vp.tuple_after(res.output, "MISMATCH"))}

def check_cli(run):
    import check
    binary = build()
    while True:
        make = Make("%s.%s" % (run.seed, run.rounds))
        todo = []
        for cmd in ["ping", "reboot", "read8", "read16", "read32", "read", "write8", "write16", "write32", "write"]:
            todo += [make.one(cmd) for _ in range(150 if run.deep else 110)]
        scans = 0
        while scans < 80:                                # more scans, with motors that answer as they should not among them
            x = make.one("ping")
            if x["c"]["op"] == "scan" and x["valid"]:
                todo.append(x)
                scans += 1
        with concurrent.futures.ThreadPoolExecutor(16) as pool:
            records = list(pool.map(lambda x: execute(binary, x[1], x[0]), enumerate(todo)))
        records += [completion(binary, x, len(todo) + i, run.work) for i, x in enumerate(SHELLS)]
        bad = judge(run, records, "cli.ndjson")
        for x in records: run.seen["%s, exit status %d" % (x["c"]["op"] if x["valid"] else "invalid arguments", x["code"])] += 1
        run.traces += len(records) - len(bad)
        if not run.samples: run.samples = records[40:42]
        for k in list(bad)[:8]:
            for attempt in range(3):
                again = execute(binary, todo[k], k) if k < len(todo) else completion(binary, SHELLS[k - len(todo)], k, run.work)
                if k not in judge(run, [again], "cli1.ndjson"):
                    run.more["transient"] = run.more.get("transient", 0) + 1
                    break
            else:
                raise check.Violation("%s: %s" % (" ".join(again["argv"]), bad[k]), run.replay_file({"property": run.prop, "run": again, "what": bad[k]}))
        run.rounds += 1
        if run.left() < 60: break
    run.assumptions = ["a pseudo terminal stands in for a serial line", "a mismatch counts if it happens in four runs of the same command out of four (timing on a busy machine)",
                       "arguments are tried in canonical decimal notation and in forms that are plainly invalid"]
