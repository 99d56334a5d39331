"""What each property is put to the test with: for every property the kinds of
mismatch that violate it, and a generator of scenarios that look for them.
`first` is true in the first round: systematic scenarios are made only then."""
from gen import *
from wire import *

SENDERS = ["ping", "scan", "read", "write", "reg_write", "action", "reboot", "clear_rev", "clear_err", "factory_reset",
           "sync_read", "sync_write", "bulk_read", "bulk_write", "raw_write", "raw_xfer", "dev_status"]
ACKS = ["write", "reg_write", "action", "reboot", "clear_rev", "clear_err", "factory_reset"]
ONE_WAY = ["raw_write", "dev_status", "sync_write", "bulk_write"]
UNICAST = ACKS + ["ping", "read", "raw_xfer"]
MULTI = ["sync_read", "bulk_read", "scan"]
ITER = ["next", "rem", "hint", "drop"]
WAITS = ["raw_read", "raw_read_t", "dev_read"]

FATAL = ["ret.panic", "ret.hang", "ret.crash"]
RET = ["ret.data", "ret.accepted", "ret.refused", "ret.error"] + FATAL
TX = ["tx.bytes", "tx.form", "tx.extra", "tx.missing", "tx.refused"]
RD = ["rd.extra", "rd.missing"]
DISC = ["disc.extra", "disc.missing"]
SETB = ["setb.extra", "setb.value", "setb.missing", "query"]
ALL = RET + TX + RD + DISC + SETB + ["rd.deadline", "rd.empty"]

def on(tags, ops):
    return [t + ":" + o for t in tags for o in ops]

S = 1_000_000_000
T1 = [1, 0]

def read_t(ms=20):
    return {"op": "raw_read_t", "timeout": [ms // 1000, ms % 1000 * MS]}

def dev_read(via, ms=20):
    return {"op": "dev_read", "via": via, "timeout": [ms // 1000, ms % 1000 * MS]}

def push(b, dt=0):
    return {"op": "$push", "b": b, "dt": dt}

def wait(dt):
    return {"op": "$wait", "dt": dt}

def raw(id, ins, data):
    return {"op": "raw_write", "id": id, "ins": ins, "data": data}

def strings(alphabet, n):
    out = [[]]
    for _ in range(n):
        out = [s + [a] for s in out for a in alphabet]
    return out

def batches(xs, n):
    for i in range(0, len(xs), n):
        yield xs[i:i + n]

VIAS = ["raw", "owned", "borrowed", "both"]

# ------------------------------------------------------------------ sending

def dev_status_op(g, most=30):
    c = {"op": "dev_status", "id": g.r.randrange(256), "err": g.pick([0, 0, 1, 127, 128, 255, g.r.randrange(256)]),
         "data": g.data(g.size(most))}
    k = g.r.randrange(5)
    if k == 0: c.update(via="ok", err=0, data=[])
    elif k == 1: c.update(via="error", data=[])
    else: c["via"] = "status"
    return c

def encfail(g, c):
    if g.chance(0.1) and c.get("via", "status") == "status":
        c["encfail"] = [g.r.randrange(1000), g.r.randrange(1000)]
    return c

# Scale from which on a run is a thorough one.
DEEP = 40

LARGE = [65533, 65532, 65531, 65530, 65534, 65535, 65536, 70000]

def checksums(g, role, most=None):
    """Packets with all sorts of checksums, one at a time and back to back."""
    for target in CRCS + [g.r.randrange(65536) for _ in range(most or 6)]:
        if role == "client":
            a = packet_with_crc(g.motor(), 0x55, [0] + g.data(g.r.randrange(4)), target)
        else:
            a = packet_with_crc(g.motor(), g.pick([3, 4, 99]), [1, 2] + g.data(g.r.randrange(4)), target)
        if a: yield a

def all_checksums(g, role):
    """For every checksum there is, a packet that has it (all but those that would need stuffing)."""
    todo = list(range(65536))
    for _ in range(9):
        again = []
        for target in todo:
            ins, par = (0x55, [0]) if role == "client" else (g.pick([3, 4, 99]), [1, 2])
            p = packet_with_crc(g.motor(), ins, par + g.data(g.r.randrange(3)), target)
            if p: yield p
            else: again.append(target)
        todo = again

def fussy(g, sessions):
    """Values of a type of the user's own that fail to be encoded or decoded."""
    for _ in range(sessions):
        ops, replies = g.fussy_talk(6)
        g.add(ops, replies=replies, wcap=g.pick([40, 60, 300]) , rcap=g.pick([64, 128]), buf=g.pick(["vec", "static"]))

def dense(g, ways):
    """More stuffing than a byte counts."""
    for k in (63, 64, 85, 127, 128, 254, 255, 256, 257, 300, 520):
        s = ([255, 255, 253] + g.pick([[], [], [253], [g.r.randrange(256)]])) * k
        if "send" in ways: g.add([raw(1, 3, s), raw(2, 255, s)], wcap=4000)
        if "dev_send" in ways: g.add([{"op": "dev_status", "id": i, "err": e, "data": s, "via": "status"} for i, e in ((1, 0), (2, 255))], role="device", wcap=4000)
        if "receive" in ways: g.add([push(status(1, 0, s)), read_t(), push(status(2, 255, s)), read_t()], rcap=4000)
        if "dev_receive" in ways: g.add([push(packet(1, 3, [1, 2] + s)), dev_read("both"), push(packet(1, 255, s)), dev_read("raw")], role="device", rcap=4000)

def dense_fit(g, sending):
    """Buffers that just hold, or just not, a message with much stuffing."""
    for k in (1, 2, 63, 64, 127, 128, 255, 256, 257, 300):
        d = [255, 255, 253] * k
        p, q = status(1, 0, d), packet(1, 3, d)
        for off in (-k, -2, -1, 0, 1):
            if sending:
                g.add([raw(1, 3, d), raw(2, 1, [])], wcap=len(q) + off)
                g.add([{"op": "dev_status", "id": 1, "err": 0, "data": d, "via": "status"}, {"op": "dev_status", "id": 1, "err": 0, "data": [], "via": "ok"}], role="device", wcap=len(p) + off)
            else:
                g.add([push(p + status(2, 0, [])), read_t(), read_t(), read_t()], rcap=len(p) + off)
                g.add([push(q + packet(2, 1, [])), dev_read("raw"), dev_read("raw"), dev_read("raw")], role="device", rcap=len(q) + off)

def fam_c01(g, n, first):
    fussy(g, 5 * n)
    def params(p): return unstuffed(p[8:-2])
    for _ in range(60 * n):
        g.add([encfail(g, g.raw_op(g.pick([20, 60, 300]))) if g.chance(0.8) else g.client_op() for _ in range(12)],
              wcap=g.pick([400, 700, 1000]), fill=g.pick([0, 255, 253]))
        g.add([encfail(g, dev_status_op(g, g.pick([20, 60, 300]))) for _ in range(12)], role="device",
              wcap=g.pick([400, 700, 1000]), fill=g.pick([0, 255, 253]))
        # Messages that are refused or fail leave nothing behind in the next one.
        trouble = dict(f_tx=[[g.r.randrange(12), 5]] if g.chance(0.3) else [], f_disc=[[g.r.randrange(12), 5]] if g.chance(0.3) else [])
        size = g.pick([12, 16, 20, 24, 30])
        g.add([encfail(g, raw(g.motor(), g.pick(INS), g.data(g.r.randrange(size)))) for _ in range(12)], wcap=size + g.pick([0, 4, 8]), fill=g.pick([0, 255, 253]), **trouble)
        g.add([encfail(g, dev_status_op(g, size)) for _ in range(12)], role="device", wcap=size + g.pick([0, 4, 8]), fill=g.pick([0, 255, 253]), **trouble)
    if first:
        dense(g, ["send", "dev_send"])
        # Every ID, instruction and error byte.
        for k in range(0, 256, 16):
            g.add([raw(i, 255 - i, [i, 255 - i]) for i in range(k, k + 16)])
            g.add([{"op": "dev_status", "id": i, "err": (i * 7 + 3) % 256, "data": [i], "via": "status"} for i in range(k, k + 16)], role="device")
            g.add([{"op": "dev_status", "id": (i * 3) % 256, "err": i, "data": [], "via": "error"} for i in range(k, k + 16)], role="device")
        # Checksums of all kinds, and messages through one buffer that add up to more than 65536 bytes.
        g.add([raw(p[4], p[7], params(p)) for p in checksums(g, "device", 20)])
        g.add([{"op": "dev_status", "id": p[4], "err": p[8], "data": params(p)[1:], "via": "status"} for p in checksums(g, "client", 20)], role="device")
        if n >= DEEP:
            for b in batches(list(all_checksums(g, "device")), 256):
                g.add([raw(p[4], p[7], params(p)) for p in b])
            for b in batches(list(all_checksums(g, "client")), 256):
                g.add([{"op": "dev_status", "id": p[4], "err": p[8], "data": params(p)[1:], "via": "status"} for p in b], role="device")
        g.add([raw(k % 256, 3, [k % 256, k // 256] + g.data(60)) for k in range(1200)])
        g.add([{"op": "dev_status", "id": k % 256, "err": 0, "data": [k % 256, k // 256] + g.data(60), "via": "status"} for k in range(1200)], role="device")
        # Lengths around the places where the length field carries.
        for k in [250, 251, 252, 253, 254, 255, 256, 257, 508, 509, 510, 511, 512, 700]:
            g.add([raw(g.motor(), g.pick(INS), g.data(k)), raw(1, 3, [85] * k), raw(2, 1, [])], wcap=2000)
            g.add([{"op": "dev_status", "id": 9, "err": 0, "data": g.data(k), "via": "status"}, {"op": "dev_status", "id": 9, "err": 0, "data": [], "via": "ok"}],
                  role="device", wcap=2000)
    for m in (LARGE[:4] if first else [g.pick(LARGE)]):
        g.add([raw(1, 3, [g.r.randrange(250)] * m), raw(2, 1, [])], wcap=80000)
    m = g.pick([65531, 65530])
    g.add([{"op": "dev_status", "id": 1, "err": 0, "data": [g.r.randrange(250)] * m, "via": "status"},
           {"op": "dev_status", "id": 2, "err": 0, "data": [1], "via": "status"}], role="device", wcap=80000)
    # Only the stuffing makes it too long.
    m = g.pick([65530, 65531, 65532, 65529, 65528, 65527])
    g.add([raw(1, 3, [7] * (m - 9) + [255, 255, 253] * 2 + [7] * 3), raw(2, 1, [])], wcap=80000)

def fam_c02(g, n, first):
    strs = []
    if first:
        for k in range(0, 7 if n < 5 else 8):
            strs += strings([255, 253, 0], k) if k < 7 else strings([255, 253], k)
    for _ in range(250 * n):
        strs.append(g.data(g.size(40)))
    for _ in range(3 * n):
        strs.append(g.data(g.r.randrange(100, 600)))
    if first:
        dense(g, ["send", "receive", "dev_send", "dev_receive"])
    for b in batches(strs, 25):
        ins = g.pick([255, 253, 3, 131, 255])
        if g.chance(0.5):
            g.add([raw(g.motor(), g.pick([255, ins]), s) for s in b], wcap=2000)
        else:
            err = g.pick([255, 253, 0])
            g.add([{"op": "dev_status", "id": 253, "err": err, "data": s, "via": "status"} for s in b], role="device", wcap=2000)
    for b in batches(strs, 25):
        if g.chance(0.5):
            err = g.pick([255, 253, 0])
            ops = []
            for s in b:
                ops += [push(status(g.pick([1, 253, 255]), err, s)), read_t()]
            g.add(ops, rcap=1500, chunks=g.chunks() if len(b[0]) < 50 else [])
        else:
            ops, via = [], g.pick(VIAS)
            for s in b:
                ops += [push(packet(g.pick([1, 253, 255]), g.pick([255, 253, 131, 3]), g.pick([[], [], [1, 2]]) + s)), dev_read("raw" if g.chance(0.7) else via)]
            g.add(ops, role="device", rcap=1500, chunks=g.chunks() if len(b[0]) < 50 else [])

def fam_c10(g, n, first):
    fussy(g, 8 * n)
    makers = [lambda: g.ack_op(), lambda: g.ack_op(), lambda: g.ack_op(bcast=True), g.read_op, lambda: {"op": "ping", "id": g.motor()},
              lambda: g.sync_read_op(steps=0), lambda: g.bulk_read_op(steps=0), g.sync_write_op, g.sync_write_op, g.bulk_write_op,
              lambda: {"op": "scan", "plan": ["forget"]}]
    def make():
        c = g.pick(makers)()
        if c["op"] in MULTI: c["plan"] = ["forget"]
        return c
    for _ in range(110 * n):
        ops, replies = g.conversation(10, 0.9, 0, make)
        g.add(ops, replies=replies, wcap=800, rcap=300, fill=g.pick([0, 255]))
    if first:
        # Every method with every type.
        for ty in TYPES:
            k = TYPES[ty]
            for rep in range(3):
                d = [g.data(k) for _ in range(6)]
                ops = [{"op": "write", "id": 1 + rep, "addr": g.addr(), "ty": ty, "data": d[0], "bcast": False},
                       {"op": "reg_write", "id": 254, "addr": g.addr(), "ty": ty, "data": d[1], "bcast": False},
                       {"op": "write", "id": 254, "addr": g.addr(), "ty": ty, "data": d[5], "bcast": False},
                       {"op": "reg_write", "id": 7, "addr": g.addr(), "ty": ty, "data": d[2], "bcast": False}]
                if k <= 16:
                    ops.append({"op": "sync_write", "addr": g.addr(), "count": k, "ty": ty, "items": [{"id": g.motor(), "data": x} for x in d[3:3 + rep]]})
                    c = {"op": "sync_read", "addr": g.addr(), "count": k, "ty": ty, "ids": g.ids(rep + 1), "plan": ["forget"]}
                    ops.append(c)
                if k <= 16:
                    ops.append({"op": "read", "id": 5, "addr": g.addr(), "ty": ty, "count": k})
                g.add(ops, wcap=600, replies=[g.answer(c, 1, 0) for c in ops])
        # Many motors and much data.
        for k in [30, 100, 252, 253]:
            ids = g.ids(k)
            g.add([{"op": "sync_read", "addr": g.addr(), "count": 300 + k, "ty": "bytes", "ids": ids, "plan": ["forget"]},
                   {"op": "bulk_read", "ty": "bytes", "items": [{"id": i, "addr": g.addr(), "count": g.r.randrange(65536)} for i in ids], "plan": ["forget"]},
                   {"op": "sync_write", "addr": g.addr(), "count": 5, "ty": "bytes_ref", "items": [{"id": i, "data": g.data(5)} for i in ids]},
                   {"op": "bulk_write", "items": [{"id": i, "addr": g.addr(), "data": g.data(g.size(6))} for i in ids]}], wcap=6000)
            g.add([{"op": "write", "id": 254, "addr": g.addr(), "ty": "bytes", "data": g.data(k * 3), "bcast": False},
                   {"op": "reg_write", "id": 254, "addr": g.addr(), "ty": "bytes", "data": g.data(k * 3), "bcast": False},
                   {"op": "bulk_write", "items": [{"id": i, "addr": g.addr(), "data": g.data(k + 30 * i)} for i in range(4)]},
                   {"op": "sync_write", "addr": g.addr(), "count": k + 50, "ty": "bytes", "items": [{"id": i, "data": g.data(k + 50)} for i in range(3)]}], wcap=6000)
        # More motors than there are, and much data for each.
        for k in (127, 128, 129, 254, 255, 256, 257, 300, 600):
            ids = [g.r.randrange(253) for _ in range(k)]
            size = g.pick([0, 1, 4])
            g.add([{"op": "sync_write", "addr": g.addr(), "count": size, "ty": "bytes", "items": [{"id": i, "data": g.data(size)} for i in ids]},
                   {"op": "sync_write", "addr": g.addr(), "count": 2, "ty": "u16", "items": [{"id": i, "data": g.data(2)} for i in ids]},
                   {"op": "sync_read", "addr": g.addr(), "count": 1, "ty": "u8", "ids": ids, "plan": ["forget"]}], wcap=6000)
        for k in BIG[g.r.randrange(2)::2] + HUGE[g.r.randrange(3)::3]:
            g.add([{"op": "bulk_write", "items": [{"id": i, "addr": g.addr(), "data": plain(g, x)} for i, x in enumerate([3, k, 2, g.pick([1, 255, 256]), 1])]},
                   {"op": "sync_write", "addr": g.addr(), "count": k // 3, "ty": "bytes", "items": [{"id": i, "data": plain(g, k // 3)} for i in (4, 5, 6)]},
                   {"op": "write", "id": 254, "addr": g.addr(), "ty": "bytes", "data": plain(g, k), "bcast": False},
                   {"op": "reg_write", "id": 254, "addr": g.addr(), "ty": "bytes", "data": plain(g, k), "bcast": False}], wcap=66000)
        for count in [0, 1, 255, 256, 257, 65535]:
            g.add([{"op": "read", "id": 254 - count % 200, "addr": g.addr(), "ty": "bytes", "count": count}], wcap=100, rcap=300)

def fam_c16(g, n, first):
    fussy(g, 10 * n)
    if first: dense_fit(g, True)
    def sweep(c, role="client"):
        """Offer the message to buffers around its own size."""
        if c["op"] == "dev_status": plain, body = 11 + len(c["data"]), [0x55, c["err"]] + c["data"]
        elif c["op"] == "raw_write": plain, body = 10 + len(c["data"]), [c["ins"]] + c["data"]
        else: plain, body = None, None
        follow = {"op": "dev_status", "id": 3, "err": 1, "data": [], "via": "error"} if role == "device" else raw(1, 1, [])
        if plain:
            size = 9 + len(stuff(body))
            caps = {plain - 1, plain, plain + 1, size - 3, size - 2, size - 1, size, size + 1, size + 2, 10}
        else:
            caps = {10 + g.r.randrange(60) for _ in range(6)}
        for cap in sorted(x for x in caps if x >= (11 if role == "device" else 10)):
            g.add([c, follow, c, follow], role=role, wcap=cap, fill=g.pick([0, 255, 253]), buf=g.pick(["vec", "static"]))
        if plain and c.get("via", "status") == "status":
            g.add([follow, dict(c, encfail=[g.r.randrange(1000), g.r.randrange(1000)]), c, follow], role=role, wcap=size + g.pick([-1, 0, 1]), fill=g.pick([0, 255, 253]))
    for _ in range(60 * n):
        sweep(g.raw_op(g.pick([12, 40, 40, 200])))
        sweep(dev_status_op(g, g.pick([12, 40])), "device")
    for _ in range(25 * n):
        c = g.pick([lambda: g.ack_op(bcast=True), g.sync_write_op, g.bulk_write_op, lambda: g.sync_read_op(steps=0), lambda: g.bulk_read_op(steps=0)])()
        if c["op"] in MULTI: c["plan"] = ["forget"]
        sweep(c)
    if first:
        for s in [[255, 255, 253], [255, 255, 253] * 2, [253], [255, 253], [255, 255, 253] * 7, [255, 255, 255, 253], []]:
            sweep(raw(1, 255, s))
            sweep(raw(1, 3, [1, 2] + s))
            sweep(raw(1, 3, s + [1, 2]))
            sweep({"op": "dev_status", "id": 1, "err": 255, "data": s, "via": "status"}, "device")

def fam_c21(g, n, first):
    def dup(items):
        items = [dict(x) for x in items]
        i, j = g.r.sample(range(len(items)), 2)
        items[i]["id"] = items[j]["id"]
        return items
    def forbidden():
        k = g.r.randrange(4)
        if k == 0:
            c = g.bulk_read_op(n=g.pick([2, 2, 3, 4, 7, 20]))
            c["items"] = dup(c["items"])
            c["plan"] = ["next"]
        elif k == 1:
            c = g.bulk_write_op(n=g.pick([2, 2, 3, 4, 7, 20]))
            c["items"] = dup(c["items"])
        else:
            m = g.pick([1, 2, 3, 5])
            c = {"op": "sync_write", "addr": g.addr(), "count": g.size(8), "ty": g.pick(["bytes", "bytes_ref"]), "items": []}
            c["items"] = [{"id": g.motor(), "data": g.data(c["count"])} for _ in range(m)]
            for i in range(m):
                if g.chance(0.4) or i == m - 1 and k == 3:
                    c["items"][i]["data"] = g.data(g.pick([c["count"] + 1, max(0, c["count"] - 1), c["count"] * 2, 0, g.size(20)]))
            if k == 3 and m >= 2 and c["count"] > 0:       # wrong lengths whose sum is right
                c["items"][0]["data"] = g.data(c["count"] + 1)
                c["items"][1]["data"] = g.data(c["count"] - 1)
        return c
    def allowed():
        return g.pick([lambda: g.bulk_read_op(steps=0), g.bulk_write_op, g.sync_write_op, lambda: g.sync_read_op(steps=0)])()
    for _ in range(150 * n):
        ops, replies = [], []
        for _ in range(5):
            c = forbidden() if g.chance(0.6) else allowed()
            if c["op"] in MULTI: c["plan"] = ["forget"]
            ops.append(c)
            c = g.pick([lambda: raw(g.motor(), g.pick(INS), g.data(g.size(9))), lambda: {"op": "ping", "id": g.motor()}])()
            ops.append(c)
        # Replies belong to the requests that are sent, so they are given in the order of those.
        sent = [c for c in ops if not bad(c)]
        g.add(ops, replies=[g.answer(c, 1, 0) for c in sent], wcap=g.pick([700, 300, 3000]), rcap=64)
    big = g.pick([65536, 65537, 70000])
    g.add([{"op": "bulk_write", "items": [{"id": 1, "addr": 2, "data": [1]}, {"id": 2, "addr": 2, "data": [3] * big}]},
           raw(1, 1, [])], wcap=g.pick([128, 200000]))
    if first:
        g.add([{"op": "bulk_write", "items": [{"id": 2, "addr": 2, "data": [3] * 65535}]}, raw(1, 1, [])], wcap=128)
        g.add([{"op": "bulk_write", "items": [{"id": 2, "addr": 2, "data": [3] * 65536}]}, raw(1, 1, [])], wcap=70000)
        for m in (2, 3, 4):        # every pair of positions
            for i in range(m):
                for j in range(i):
                    ids = g.ids(m)
                    ids[i] = ids[j]
                    g.add([{"op": "bulk_read", "ty": "bytes", "items": [{"id": x, "addr": g.addr(), "count": 2} for x in ids], "plan": []}, raw(1, 1, []),
                           {"op": "bulk_write", "items": [{"id": x, "addr": g.addr(), "data": [1, 2]} for x in ids]}, raw(1, 1, [])])
        for m in (33, 65, 129, 254, 256):       # also among many
            for i, j in [(0, m - 1), (m - 2, m - 1), (m // 2, m - 1)] + [g.r.sample(range(m), 2) for _ in range(3)]:
                ids = g.r.sample(range(256), m)
                ids[i] = ids[j]
                g.add([{"op": "bulk_read", "ty": "bytes", "items": [{"id": x, "addr": g.addr(), "count": 2} for x in ids], "plan": []}, raw(1, 1, []),
                       {"op": "bulk_write", "items": [{"id": x, "addr": g.addr(), "data": [1]} for x in ids]}, raw(1, 1, [])], wcap=1700)
                data = [[1, 2] for _ in range(m)]
                data[j] = [1, 2, 3]
                data[i] = g.pick([[1], [1, 2]])
                g.add([{"op": "sync_write", "addr": 7, "count": 2, "ty": "bytes", "items": [{"id": g.motor(), "data": d} for d in data]}, raw(1, 1, [])], wcap=900)
            ids = g.r.sample(range(256), m)
            g.add([{"op": "bulk_read", "ty": "bytes", "items": [{"id": x, "addr": g.addr(), "count": 2} for x in ids], "plan": ["forget"]}, raw(1, 1, []),
                   {"op": "bulk_write", "items": [{"id": x, "addr": g.addr(), "data": [1]} for x in ids]}, raw(1, 1, [])], wcap=2500)
        for x in (0, 1, 127, 128, 253, 254, 255):
            g.add([{"op": "bulk_read", "ty": "bytes", "items": [{"id": x, "addr": 1, "count": 1}, {"id": x, "addr": 2, "count": 1}], "plan": []}, raw(1, 1, []),
                   {"op": "bulk_write", "items": [{"id": x, "addr": 1, "data": []}, {"id": x, "addr": 2, "data": [1]}]}, raw(1, 1, [])])

def bad(c):
    """Is nothing sent for this operation? (Only used to line up replies with requests.)"""
    if c["op"] in ("bulk_read", "bulk_write"):
        ids = [x["id"] for x in c["items"]]
        return len(set(ids)) < len(ids)
    if c["op"] == "sync_write":
        return any(len(x["data"]) != c["count"] for x in c["items"])
    return False

# ------------------------------------------------------------------ receiving

def receive(g, b, role, rcap=128, via=None, reads=None, ms=20, **cfg):
    """Let the bytes arrive and read until nothing comes any more."""
    reads = 3 + b.count(85) // 4 if reads is None else reads
    one = (lambda: read_t(ms)) if role == "client" else (lambda: dev_read(via or g.pick(VIAS), ms))
    return [push(b)] + [one() for _ in range(reads)]

def some_packet(g, role, most=20):
    if role == "client" or g.chance(0.15):
        return status(g.motor(), g.pick([0, 0, 128, 1, 255, g.r.randrange(256)]), g.data(g.size(most)))
    return g.instruction(most)

def damaged(g):
    """Damaged packets of every size, with and without a packet inside, and a packet behind."""
    for k in SIZES + (600, 700, 2000, 5000):
        for role in ("client", "device"):
            make = (lambda id, d: status(id, 0, d)) if role == "client" else (lambda id, d: packet(id, 3, [0] + d))
            inner = make(9, [1, 2, 3])
            for at in ([None] if k < 20 else [None, 0, k // 2, k - len(inner)]):
                ops = []
                d = plain(g, k)
                p = make(5, d)
                if at is not None: p = p[:9 + at] + inner + p[9 + at + len(inner):]        # a whole packet within one: not to be found
                for how in g.r.sample(range(6), 3):
                    f = list(p)
                    if how == 0: f[-1] ^= 1 << g.r.randrange(8)
                    elif how == 1: f[-2] ^= 1 << g.r.randrange(8)
                    elif how == 2: f[-2:] = [0, 0]
                    elif how == 3: f[g.r.randrange(8, len(f) - 2)] ^= 32
                    elif how == 4: f[4] ^= 1
                    else: f[-2:] = f[:-3:-1]
                    ops += receive(g, f + make(7, [4]) + f, role, reads=4)
                g.add(ops, role=role, rcap=2 * k + 100, chunks=g.pick([[], [], [64], [255], [100, 1]]))

def fam_c03(g, n, first):
    if first:
        dense(g, ["receive", "dev_receive"])
        for role in ("client", "device"):
            bases = [status(1, 0, [1, 2]), status(253, 128, [255, 255, 253, 9])] if role == "client" else [packet(1, 3, [1, 2, 3]), packet(254, 131, [255, 255, 253, 0])]
            for base in bases:
                ops = []
                flips = [(i, 1 << k) for i in range(len(base)) for k in range(8)]
                flips += [(i, x) for i in range(len(base) - 2, len(base)) for x in (255, 0x0F, 0x81, 0x55)]
                for b in batches(flips, 8):
                    ops = []
                    for i, x in b:
                        f = list(base)
                        f[i] ^= x
                        ops += receive(g, f, role, reads=2)
                        ops += receive(g, base, role, reads=1)
                        # whatever is left over is not to disturb the next one
                        ops += [raw(1, 1, [])] if role == "client" else [{"op": "dev_status", "id": 1, "err": 0, "data": [], "via": "ok"}]
                    g.add(ops, role=role, rcap=64)
            # Swapped, duplicated, dropped and inserted bytes.
            base = bases[1]
            for i in range(len(base)):
                ops = []
                for f in (base[:i] + base[i + 1:], base[:i] + [base[i]] + base[i:], base[:i] + [0] + base[i:], base[:i] + base[i:i + 2][::-1] + base[i + 2:]):
                    ops += receive(g, f + base, role, reads=3) + ([raw(1, 1, [])] if role == "client" else [{"op": "dev_status", "id": 1, "err": 0, "data": [], "via": "ok"}])
                g.add(ops, role=role, rcap=64)
        # Checksums that are wrong in a plausible way.
        for role in ("client", "device"):
            for p in ([status(1, 0, [1, 2]), status(254, 128, [255, 255, 253, 9]), status(0, 0, [])] if role == "client" else [packet(1, 3, [1, 2, 3]), packet(254, 131, [255, 255, 253, 0])]) \
                    + [some_packet(g, role, 30) for _ in range(3)]:
                for b in batches(list(wrong_checksums(p)), 6):
                    g.add(sum([receive(g, x + (p if g.chance(0.3) else []), role, reads=3) for x in b], []), role=role, rcap=200)
        damaged(g)
        for k in range(0, 140):                                                                # bytes too many or too few, up to a size that counts
            for role in ("client", "device"):
                p = status(1, 0, plain(g, k)) if role == "client" else packet(1, 3, [0] + plain(g, k))
                f = p[:-1] + [p[-1] ^ 1 << g.r.randrange(8)]
                g.add(receive(g, f + p + p[:-2] + [p[-2] ^ 1 << g.r.randrange(8), p[-1]] + p, role, reads=5), role=role, rcap=k + 40)
        # Status packets without an error byte.
        for id in (0, 1, 253, 254, 255):
            g.add(receive(g, packet(id, 85, []) + status(id, 0, []), "client", reads=3), role="client")
            g.add(receive(g, packet(id, 85, []) + packet(id, 1, []), "device", reads=3), role="device")
            g.add([{"op": "ping", "id": id % 254}, {"op": "ping", "id": id % 254}], replies=[[[0, packet(id % 254, 85, [])]], [[0, status(id % 254, 0, [1, 2, 3])]]])
        if n >= DEEP:
            # Every checksum, right and (on a packet with a damaged body) wrong.
            for role in ("client", "device"):
                for b in batches(list(all_checksums(g, role)), 128):
                    g.add(receive(g, sum([p[:9] + [p[9] ^ 1 << g.r.randrange(8)] + p[10:] + p for p in b], []), role, reads=2 * len(b) + 1), role=role)
    for role in ("client", "device"):
        ps = list(checksums(g, role, 10))
        for b in batches(ps, 6):
            g.add(receive(g, sum(b, []), role, reads=7), role=role, chunks=g.chunks())
            # with the first byte of the checksum missing or changed
            g.add(receive(g, sum([p[:-2] + p[-1:] for p in b], []), role, reads=7), role=role)
            g.add(receive(g, sum([p[:-2] + [p[-2] ^ g.pick([1, 255, p[-2]])] + p[-1:] + p for p in b], []), role, reads=13), role=role)
    for _ in range(110 * n):
        role = g.pick(["client", "device"])
        b = []
        for _ in range(g.r.randrange(1, 6)):
            p = some_packet(g, role, g.pick([6, 20, 60]))
            k = g.r.randrange(8)
            if k == 0: p[g.r.randrange(len(p))] ^= 1 << g.r.randrange(8)
            elif k == 1: p[-1] ^= g.r.randrange(1, 256)
            elif k == 2: p[-2] ^= g.r.randrange(1, 256)
            elif k == 3: p = packet(g.motor(), 85, [])
            elif k == 4: p = g.wild_packet()
            b += p
        g.add(receive(g, b, role, reads=7), role=role, rcap=200, chunks=g.chunks(), fill=g.pick([0, 255]))
    for _ in range(30 * n):
        # Replies to requests that are damaged on the way.
        ops, replies = g.conversation(8, 0.9, 0, g.unicast_op)
        for sched in replies:
            for part in sched:
                if g.chance(0.4): part[1][g.r.randrange(len(part[1]))] ^= 1 << g.r.randrange(8)
        g.add(ops, replies=replies, rcap=100, wcap=200)

def fam_c04(g, n, first):
    def stream(role, k, most=6, noise=0):
        out = []
        for _ in range(k):
            if g.chance(noise): out += g.noise()
            out += some_packet(g, role, most)
        return out
    if first:
        for role, noise in (("client", 0), ("device", 0), ("client", 1), ("device", 1)):
            base = stream(role, 2, 4, noise)
            L = len(base)
            for i in range(1, L):
                ops = [push(base[:i]), push(base[i:], 2 * MS)] + [read_t(9) if role == "client" else dev_read("raw", 9) for _ in range(3)]
                g.add(ops, role=role, rcap=g.pick([64, 40, L]))
                # a timeout in between
                ops = [push(base[:i]), push(base[i:], 5 * MS)] + [read_t(3) if role == "client" else dev_read("raw", 3) for _ in range(4)]
                g.add(ops, role=role, rcap=64)
            for i in range(1, L, 2):
                for j in range(i + 1, L, 3):
                    ops = [push(base[:i]), push(base[i:j], 2 * MS), push(base[j:], 4 * MS)] + [read_t(9) if role == "client" else dev_read("raw", 9) for _ in range(3)]
                    g.add(ops, role=role, rcap=64)
        for role in ("client", "device"):
            # One long stream: more packets than a byte counts, more bytes than two do.
            g.add(sum([[push(sum([some_packet(g, role, 8) for _ in range(4)], []))] + [read_t(1) if role == "client" else dev_read("raw", 1) for _ in range(g.pick([3, 4, 5]))] for _ in range(200)], []),
                  role=role, rcap=g.pick([100, 128, 300]), chunks=[31, 1, 12])
            g.add(sum([[push(p)] + [read_t(1) if role == "client" else dev_read("raw", 1)] for p in [some_packet(g, role, 50) + some_packet(g, role, 4)[:g.r.randrange(9)] for _ in range(1200)]], []),
                  role=role, rcap=500)
        # More bytes at once than two bytes can count.
        for role in ("client", "device"):
            part = [status(7, 0, plain(g, 3500)) if role == "client" else packet(7, 3, plain(g, 3500)) for _ in range(6)]
            g.add([push(sum((part[i % 6] for i in range(20)), []))] + [read_t(9) if role == "client" else dev_read("raw", 9) for _ in range(21)], role=role, rcap=g.pick([72000, 80000]))
        # A packet that fills the buffer, and a timeout before its end.
        for cap in (16, 40, 64, 100):
            for cut in (1, 2, 3, 7):
                for role in ("client", "device"):
                    p = status(3, 0, [9] * (cap - 11)) if role == "client" else packet(3, 1, [9] * (cap - 10))
                    q = status(1, 0, []) if role == "client" else packet(1, 1, [])
                    g.add([push(p[:-cut])] + [read_t(1) if role == "client" else dev_read("raw", 1)] * g.pick([1, 2]) + [push(p[-cut:] + q)] + [read_t(1) if role == "client" else dev_read("raw", 1)] * 3,
                          role=role, rcap=cap, f_rd=g.pick([[], [[1, 5]], [[1, 0]]]))
        # Timeouts in the middle of messages of every size, and the rest of the message later.
        for k in SIZES:
            for role in ("client", "device"):
                one = lambda: read_t(2) if role == "client" else dev_read(g.pick(VIAS), 2)
                p = status(7, 0, plain(g, k)) if role == "client" else packet(7, 3, plain(g, k))
                q = some_packet(g, role, 20)
                L = len(p)
                for cuts in ([L - 1], [L // 2], [3, L - 3], sorted(g.r.sample(range(1, L + len(q)), 3)), sorted(g.r.sample(range(1, L + len(q)), 6))):
                    ops, b, at = [], p + q, 0
                    for c in cuts + [len(b)]:
                        ops += [push(b[at:c])] + [one() for _ in range(g.pick([1, 1, 2]))]
                        at = c
                    g.add(ops + [one()], role=role, rcap=g.pick([L + len(q) + 1, 2 * k + 150]), chunks=g.pick([[], [], [50], [1], [128, 1]]), f_rd=g.pick([[], [], [[1, 0]], [[2, 5]]]))
        # Much garbage, and a header that comes in two pieces.
        for size in (15, 31, 47, 60, 63, 100, 127, 130, 255, 300):
            for cut in (1, 2, 3, 4, 5):
                role = g.pick(["client", "device"])
                p = some_packet(g, role, 8)
                junk = g.pick([[0] * size, [255] * (size - 1) + [1], [g.r.randrange(255) for _ in range(size)]])
                g.add([push(junk + p[:cut]), push(p[cut:], 2 * MS)] + [read_t(9) if role == "client" else dev_read("raw", 9) for _ in range(2)], role=role, rcap=g.pick([64, 128, 500]), chunks=g.pick([[], [size + cut], [1]]))
        for c in range(1, 24):
            for role in ("client", "device"):
                g.add(receive(g, stream(role, 4), role, reads=5), role=role, chunks=[c], rcap=100)
    for _ in range(90 * n):
        role = g.pick(["client", "device"])
        k = g.r.randrange(1, 6)
        ops = []
        dt = 0
        for t, part in g.spread(stream(role, k, g.pick([4, 10, 30]), g.pick([0, 0, 0.5])), 0, g.pick([1, 2, 3, 5, 12])):
            ops.append(push(part, t))
            dt = t
        for _ in range(k + 3):
            ms = g.pick([1, 1, 3, 10, 50])
            ops.append(read_t(ms) if role == "client" else dev_read(g.pick(VIAS), ms))
            if g.chance(0.1): ops.append(wait(g.r.randrange(4 * MS)))
        g.add(ops, role=role, rcap=g.pick([50, 64, 128, 500]), chunks=g.chunks(), f_rd=[[g.r.randrange(12), g.pick([0, 0, 5])] for _ in range(g.pick([0, 0, 1, 3]))])
    for _ in range(30 * n):
        ops, replies = g.conversation(5, 1, 0)
        g.add(ops, replies=replies, rcap=200, wcap=300, chunks=g.pick([[1], [2], [3, 1], [7], [0, 1], []]))

GARBAGE = [[255], [255, 255], [255, 255, 253], [255, 255, 253, 253], [255, 253], [0], [85], [255, 255, 254], [255, 255, 255], [253, 0], [254, 255],
           [255, 255, 253, 1], [255, 255, 253, 255], [255, 0], [255, 255, 0], [253, 255], [1, 2, 3, 4, 5, 6, 7, 8, 9, 10]]
def wide(g, sizes):
    """Long runs of garbage, and large packets, as no short random scenario has them."""
    for size in sizes:
        for role in ("client", "device"):
            p = status(1, 0, [1, 2]) if role == "client" else packet(1, 3, [1, 2, 3])
            junk = g.pick([lambda: [0] * size, lambda: [255] * size, lambda: [g.r.randrange(255) for _ in range(size)], lambda: ([255, 255, 253, 1] * size)[:size], lambda: ([255, 255, 253, 253] * size)[:size]])()
            big = status(2, 0, g.data(size)) if role == "client" else packet(2, 3, [0, 0] + g.data(size))
            g.add(receive(g, g.pick([[], p]) + junk + p + g.pick([[], p, big]) + p, role, reads=6, via="raw"), role=role,
                  rcap=g.pick([64, 128, size + 20, size + 40, 2 * size + 40]), chunks=g.pick([[], [], [], [size], [64], [127, 1]]))
            # much behind the garbage, all of it in the buffer at once
            more = []
            while len(more) < 2 * size + 200: more += some_packet(g, role, g.pick([9, 60])) + g.pick([[], [], junk[:9], [255], [255, 255, 253, 0]])
            g.add(receive(g, g.pick([[], p]) + junk + more + big + p, role, reads=12 + size // 3, via="raw", ms=1), role=role, rcap=5 * size + 500, chunks=g.pick([[], [], [2 * size], [700]]))

def fits(g):
    """Packets around the size of the buffers, in both directions."""
    for cap in (14, 15, 16, 20, 40, 64, 128):
        for size in range(max(11, cap - 6), cap + 2):
            for body in ([7] * 200, [255, 255, 253] + [9] * 200, [1] * (size - 14) + [255, 255, 253]):
                n = size - 11
                data = body[:n]
                p = status(2, 0, data)
                q = packet(2, 3, data + [1])
                for role, b in (("client", p + status(1, 0, [])), ("device", q + packet(1, 1, []))):
                    g.add(receive(g, b, role, reads=3, via="raw"), role=role, rcap=cap, wcap=20, chunks=g.pick([[], [7], [1]]))
                g.add([raw(1, 3, data), raw(1, 1, [])], wcap=cap, rcap=20)
                g.add([{"op": "dev_status", "id": 1, "err": 0, "data": data, "via": "status"}], role="device", wcap=cap, rcap=20)

def fam_c05(g, n, first):
    wide(g, [40, 41, 47, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 258, 300, 500, 512, 513, 600, 1000] if first else [g.r.randrange(20, 700) for _ in range(2 * n)])
    def unusable():
        return [255, 255, 253, 0, g.r.randrange(256)] + le16(g.pick([0, 1, 2, 65535, 60000, 500, 300, 256, 122]))
    def some_garbage():
        k = g.r.randrange(6)
        if k < 3: return g.pick(GARBAGE)
        if k == 3: return [g.pick([255, 255, 253, 0, 7]) for _ in range(g.r.randrange(1, 9))]
        if k == 4: return [g.r.randrange(256) for _ in range(g.r.randrange(1, 40))]
        return unusable()
    if first:
        for a in GARBAGE:
            for b in [[]] + GARBAGE[:8] + [GARBAGE[11], GARBAGE[12]]:
                for role in ("client", "device"):
                    p, q = (status(1, 0, [1, 2]), status(2, 0, [])) if role == "client" else (packet(1, 3, [1, 2, 3]), packet(254, 5, []))
                    g.add(receive(g, a + b + p + b + a + q + a, role, reads=3, via="raw"), role=role, rcap=g.pick([40, 64, 128]), chunks=g.pick([[], [], [1], [3], [10, 2]]))
        for s in strings([255, 253, 0], 4) + strings([255, 253], 5):
            g.add(receive(g, s + status(5, 0, [9]), "client", reads=2), rcap=40, chunks=g.pick([[], [1], [4]]))
        for role in ("client", "device"):
            p, q = (status(1, 0, [1, 2]), status(255, 4, [])) if role == "client" else (packet(1, 3, [1, 2, 3]), packet(255, 5, []))
            for k in (4, 5, 6):                                    # a header cut off, by a packet or by another one
                for a in ([], p, [9]):
                    for b in ([], q[:4], p[:5], q[:6], [255], [255, 255, 253]):
                        g.add(receive(g, a + q[:k] + b + p + q, role, reads=6, via="raw"), role=role, rcap=g.pick([16, 40, 128]), chunks=g.pick([[], [1], [5], [8, 3]]))
        for length in [0, 1, 2, 54, 55, 56, 57, 58, 100, 255, 256, 1000, 32768, 65527, 65528, 65534, 65535]:
            h = [255, 255, 253, 0, 1] + le16(length)
            for role in ("client", "device"):
                p = status(1, 0, [1, 2]) if role == "client" else packet(1, 3, [1, 2, 3])
                for mid in ([], [7], [255, 255], [255, 255, 253]):
                    g.add(receive(g, h + mid + p + h + p, role, reads=5, via="raw"), role=role, rcap=64, chunks=g.pick([[], [], [1], [8], [5]]))
    for _ in range(130 * n):
        role = g.pick(["client", "device"])
        b = []
        for _ in range(g.r.randrange(1, 6)):
            for _ in range(g.r.randrange(4)): b += some_garbage()
            b += some_packet(g, role, 8)
        if g.chance(0.3): b += some_garbage()
        g.add(receive(g, b, role, reads=9), role=role, rcap=g.pick([40, 64, 128]), chunks=g.chunks(), fill=g.pick([0, 255]))
    for _ in range(30 * n):
        ops, replies = g.conversation(5, 1, 1)
        g.add(ops, replies=replies, rcap=128, wcap=300, chunks=g.chunks())

def fam_c06(g, n, first):
    def junk(most=60):
        k = g.r.randrange(6)
        if k == 0: return [g.r.randrange(256) for _ in range(g.r.randrange(most))]
        if k == 1: return g.wild_packet()
        if k == 2: return g.instruction(10)
        if k == 3: return [255, 255, 253, 0, g.r.randrange(256)] + le16(g.pick([0, 1, 2, 3, 4, 5, 8, 20, 57, 58, 59, 65535])) + [g.r.randrange(256) for _ in range(g.r.randrange(6))]
        if k == 4: return g.reply_bad(g.motor(), g.data(g.size(8)))
        return status(g.motor(), g.r.randrange(256), g.data(g.size(10)))
    def faults(k, span):
        return [[g.r.randrange(span), g.pick([0, 0, 5, 6])] for _ in range(g.pick(k))]
    for _ in range(130 * n):
        ops, replies = g.conversation(6, 0.5, 0.4)
        for s in replies:
            for _ in range(g.r.randrange(3)): s.append([g.r.randrange(5 * MS), junk()])
        rcap = g.pick([0, 1, 5, 9, 10, 11, 12, 14, 17, 30, 64, 128])
        g.add(ops, replies=replies, rcap=rcap, wcap=g.pick([10, 11, 20, 64, 300]), chunks=g.chunks(),
              f_rd=faults([0, 0, 1, 4], 20), f_tx=faults([0, 0, 1], 6), f_disc=faults([0, 0, 1], 6),
              **({"dead": [g.r.randrange(8), g.pick([0, 5])]} if g.chance(0.3) else {}))
        # a device among arbitrary traffic
        ops = []
        for _ in range(8):
            k = g.r.randrange(5)
            if k < 2: ops.append(push(junk(), g.r.randrange(3 * MS)))
            elif k == 4: ops.append(dev_status_op(g, 20))
            ops.append(dev_read(g.pick(VIAS), g.pick([0, 1, 10])))
        g.add(ops, role="device", rcap=g.pick([0, 3, 9, 10, 11, 14, 20, 64]), wcap=g.pick([10, 11, 20, 64, 300]), chunks=g.chunks(),
              f_rd=faults([0, 0, 1, 4], 20), f_tx=faults([0, 1], 6), f_disc=faults([0, 0, 1], 6),
              **({"dead": [g.r.randrange(8), g.pick([0, 5])]} if g.chance(0.3) else {}))
    if first:
        damaged(g)
        wide(g, SIZES[2:])
        # Much of everything, in one large buffer.
        for _ in range(60):
            role = g.pick(["client", "device"])
            b = []
            for _ in range(g.r.randrange(2, 12)): b += g.pick([junk, lambda: junk(900), lambda: some_packet(g, role, 20), lambda: status(g.motor(), 0, plain(g, g.r.randrange(1200))), lambda: packet(g.motor(), g.pick(INS), plain(g, g.r.randrange(1200))), lambda: [g.pick([0, 255])] * g.r.randrange(700)])()
            g.add(receive(g, b, role, reads=14, ms=1), role=role, rcap=g.pick([600, 1500, 4000, 20000]), chunks=g.pick([[], [], [300], [1000, 7]]), f_rd=faults([0, 0, 1, 4], 20))
    if first:
        for length in range(0, 12):
            for ins in (85, 1, 2, 3, 6, 16, 130, 146, 9):
                p = packet(1, ins, [0, 7, 7, 7, 7, 7, 7, 7, 7][:max(0, length - 3)], length=length)
                g.add([push(p), read_t(), read_t(), read_t()], rcap=30)
                g.add([push(p), dev_read("both"), push(p), dev_read("borrowed"), dev_read("owned")], role="device", rcap=30)
                g.add([{"op": "ping", "id": 1}, {"op": "read", "id": 1, "addr": 1, "count": 4, "ty": "u32"}, {"op": "read", "id": 1, "addr": 1, "count": 4, "ty": "slice"}],
                      replies=[[[0, p]]] * 3, rcap=30)
                g.add([{"op": "sync_read", "addr": 1, "count": 2, "ty": "u16", "ids": [1, 2], "plan": ["next"]},
                       {"op": "sync_read", "addr": 1, "count": 2, "ty": "borrow", "ids": [1, 2], "plan": ["next"]},
                       {"op": "bulk_read", "ty": "borrow", "items": [{"id": 1, "addr": 1, "count": 4}], "plan": ["next", "next"]},
                       {"op": "scan", "plan": ["next", "next"]}], replies=[[[0, p + p]]] * 4, rcap=30)
        # Operations dropped while the port fails for good.
        for code in (0, 5):
            for c in ({"op": "scan", "plan": []}, {"op": "scan", "plan": ["next"]}, {"op": "sync_read", "addr": 1, "count": 2, "ty": "u16", "ids": list(range(100)), "plan": []},
                      {"op": "bulk_read", "ty": "bytes", "items": [{"id": i, "addr": 1, "count": 4} for i in range(50)], "plan": ["next"]}):
                for at in (0, 1, 3):
                    g.add([c, c], dead=[at, code], wcap=400)
        for b in ([255] * 300, [255, 255, 253, 0] * 100, [0] * 500, [255, 255, 253] * 100, packet(1, 85, []) * 60, status(1, 0, []) * 300):
            for c in ({"op": "scan", "plan": ["next"]}, {"op": "ping", "id": 1}, {"op": "sync_read", "addr": 1, "count": 2, "ty": "u16", "ids": [1, 2, 3], "plan": ["next"]}):
                g.add([c, c], replies=[[[0, b]], [[0, b]]], chunks=g.pick([[], [1], [7]]), rcap=g.pick([12, 64]))

def fam_c07(g, n, first):
    if first: patient(g)
    for _ in range(130 * n):
        ops, replies = g.conversation(5, 0.7, 0.4)
        if g.chance(0.3): ops.append({"op": "raw_read", "expect": g.size(60)})
        if g.chance(0.3): ops.append(read_t(g.r.randrange(200)))
        g.add(ops, replies=replies, baud=g.baud(), chunks=g.chunks(), rcap=g.pick([64, 128]), wcap=300, **g.costs())
        ops = []
        for _ in range(6):
            b = []
            for _ in range(g.r.randrange(4)): b += g.pick([g.noise, lambda: status(g.motor(), 0, g.data(3)), lambda: status(g.motor(), 0, []), g.wild_packet])()
            for t, part in g.spread(b, 0, g.pick([1, 3, 6])): ops.append(push(part, t))
            if g.chance(0.6): ops.append(push(g.instruction(8), g.r.randrange(6 * MS)))
            ops.append({"op": "dev_read", "via": g.pick(VIAS), "timeout": [g.pick([0, 0, 0, 1, 3]), g.pick([0, 1, 999_999_999, g.r.randrange(10 * MS), 5 * MS])]})
        g.add(ops, role="device", baud=g.baud(), chunks=g.chunks(), **g.costs())
    if first:
        bauds = [1, 2, 3, 9, 10, 11, 110, 140, 9600, 57600, 1_000_000, 4_500_000, 999_999_999, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]
        for baud in bauds:
            g.add([{"op": "ping", "id": 1}, {"op": "read", "id": 1, "addr": 1, "count": 4, "ty": "u32"}, {"op": "read", "id": 1, "addr": 1, "count": 65535, "ty": "bytes"},
                   {"op": "read", "id": 1, "addr": 1, "count": 0, "ty": "bytes"}, {"op": "read", "id": 1, "addr": 1, "count": 245, "ty": "bytes"}, {"op": "read", "id": 1, "addr": 1, "count": 256, "ty": "bytes"},
                   {"op": "action", "id": 1, "bcast": False}, {"op": "reboot", "id": 1, "bcast": False}, {"op": "clear_err", "id": 1, "bcast": False}, {"op": "clear_rev", "id": 1, "bcast": False},
                   {"op": "factory_reset", "id": 1, "kind": 1, "bcast": False}, {"op": "write", "id": 1, "addr": 3, "ty": "u32", "data": [1, 2, 3, 4], "bcast": False},
                   {"op": "reg_write", "id": 1, "addr": 3, "ty": "u32", "data": [1, 2, 3, 4], "bcast": False},
                   {"op": "write", "id": 1, "addr": 3, "ty": "bytes", "data": [1, 2, 3, 4], "bcast": False}, {"op": "reg_write", "id": 1, "addr": 3, "ty": "bytes", "data": [1] * 20, "bcast": False},
                   {"op": "raw_xfer", "id": 1, "ins": 9, "data": [], "expect": 7}, {"op": "raw_xfer", "id": 1, "ins": 9, "data": [], "expect": 65535},
                   {"op": "raw_read", "expect": 0}, {"op": "raw_read", "expect": 65535}, read_t(0), read_t(1),
                   {"op": "scan", "plan": ["next", "next"]},
                   {"op": "sync_read", "addr": 1, "count": 300, "ty": "bytes", "ids": [1, 2], "plan": ["next"]},
                   {"op": "bulk_read", "ty": "bytes", "items": [{"id": 1, "addr": 1, "count": 4}, {"id": 2, "addr": 1, "count": 400}, {"id": 3, "addr": 1, "count": 65535}], "plan": ["next", "next"]}],
                  baud=baud, wcap=300, cost_byte=g.pick([0, 1000]), cost_disc=g.pick([0, 12345]))

def fam_c17(g, n, first):
    if first: dense_fit(g, False)
    def msg(role, size):
        """A packet that takes up exactly that many bytes on the line (11 at least)."""
        if role == "client":
            p = status(g.motor(), 0, [])
            while len(p) < size:
                d = g.data(size - 11) if g.chance(0.5) else [g.r.randrange(200) for _ in range(size - 11)]
                for k in range(len(d) + 1):
                    if len(status(1, 0, d[:len(d) - k])) == size: return status(g.motor(), 0, d[:len(d) - k])
            return p
        if size == 10: return packet(g.motor(), g.pick([1, 5, 8]), [])
        d = g.data(size - 10)
        for k in range(len(d) + 1):
            p = packet(g.motor(), 99, d[:len(d) - k])
            if len(p) == size: return p
        return packet(g.motor(), 99, [7] * (size - 10))
    sizes = list(range(10, 34)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 300]
    for _ in range(n):
        for rcap in sizes if n < 5 else list(range(10, 70)) + sizes:
            for role in ("client", "device"):
                ops = []
                for d in (-1, 0, 1, 0, g.pick([-2, 2, 3])):
                    if g.chance(0.4): ops.append(push(g.pick([g.noise(), [255], [255, 255, 253, 0], msg(role, rcap) if rcap >= 11 else [1], [0] * rcap, [255, 255, 253, 0, 1] + le16(rcap - 7 + g.pick([0, 1, 500]))])))
                    ops.append(push(msg(role, max(11 if role == "client" else 10, rcap + d))))
                    ops += [read_t(4) if role == "client" else dev_read("raw", 4) for _ in range(3)]
                ops += [read_t(4) if role == "client" else dev_read("raw", 4) for _ in range(3)]
                g.add(ops, role=role, rcap=rcap, chunks=g.pick([[], [], [1], [rcap], [3]]), buf=g.pick(["vec", "static"]), fill=g.pick([0, 255]))
    for _ in range(10 * n):
        # Back to back, larger than the buffer together.
        rcap = g.r.randrange(12, 80)
        role = g.pick(["client", "device"])
        b = []
        for _ in range(8): b += msg(role, g.r.randrange(11, rcap + 2)) + (g.noise() if g.chance(0.2) else [])
        g.add([push(b)] + [read_t(4) if role == "client" else dev_read("raw", 4) for _ in range(12)], role=role, rcap=rcap, chunks=g.chunks())
    if first:
        for rcap in range(0, 12):
            g.add([push(status(1, 0, []) * 2), read_t(4), read_t(4), {"op": "ping", "id": 1}, {"op": "action", "id": 1, "bcast": False}], rcap=rcap, buf=g.pick(["vec", "static"]),
                  replies=[[], [[0, status(1, 0, [1, 2, 3])]], [[0, status(1, 0, [])]]])
            g.add([push(packet(1, 1, []) * 2), dev_read("raw"), dev_read("both"), {"op": "dev_status", "id": 1, "err": 0, "data": [], "via": "ok"}, dev_read("raw")], role="device", rcap=rcap)
        # The largest packets there are.
        for size in (65535, 65536, 65542):
            x = g.r.randrange(200)
            g.add([push(status(1, 0, [x] * (size - 11)) + status(2, 0, [4])), read_t(), read_t(), read_t()], rcap=g.pick([size, size + 30, 70000]))
        g.add([push(packet(1, 9, [7] * (65542 - 10)) + packet(1, 1, [])), dev_read("raw"), dev_read("raw"), dev_read("raw")], role="device", rcap=g.pick([65541, 65542]))
        for size in (1000, 4000):
            for d in (0, -1):
                g.add([push(status(1, 0, [3] * (size - 11))), read_t(), push(status(1, 0, [4])), read_t(), read_t()], rcap=size + d)

# ------------------------------------------------------------------ requests and replies

def fam_c08(g, n, first):
    if first:
        # Much that is old: at the port, in the buffer, and in part in each.
        for k in SIZES:
            for c in ({"op": "ping"}, {"op": "read", "addr": 1, "count": k, "ty": "bytes"}, {"op": "write", "addr": 1, "ty": "bytes", "data": plain(g, k), "bcast": False}, {"op": "raw_xfer", "ins": 3, "data": plain(g, k), "expect": 2}):
                c["id"] = g.r.randrange(254)
                (id, par), = g.expected(c)
                old = g.pick([status(id, 0, par), status(id, 0, plain(g, k)), status(id, 0, par) + status(9, 0, plain(g, k)), [7] * k])
                cut = g.r.randrange(1, len(old)) if len(old) > 1 else 0
                how = g.pick([[push(old)], [push(status(1, 0, []) + old), read_t(2)], [push(old[:cut]), read_t(1), push(old[cut:])], [push(status(1, 0, []) + old[:cut]), read_t(2), push(old[cut:])]])
                for reply in ([], [[0, status(id, 0, par)]], [[0, old[cut:]]]):
                    g.add(how + [dict(c)], replies=[reply], rcap=3 * k + 300, wcap=2 * k + 100, f_disc=g.pick([[], [], [[0, 5]]]), chunks=g.pick([[], [], [100]]))
            a, b = packet(3, 3, plain(g, k)), packet(4, 3, plain(g, k))
            cut = g.r.randrange(len(b))
            for x, y in ((a + b, []), (a, b), (a + b[:cut], b[cut:]), (b[:cut], b[cut:])):
                g.add([push(x), dev_read("raw", 2), push(y), {"op": "dev_status", "id": 3, "err": 0, "data": plain(g, k), "via": "status"}, dev_read("raw", 2), push(a), dev_read("raw", 2)], role="device", rcap=2 * k + 100, wcap=2 * k + 60)
    for _ in range(150 * n):
        ops, replies = [], []
        for _ in range(5):
            c = g.unicast_op() if g.chance(0.7) else g.client_op()
            good = g.expected(c)
            # What a reply would look like, before the request is made.
            stale = []
            for id, params in good[:2]: stale += status(id, 0, params)
            if g.chance(0.3): stale = stale[:g.r.randrange(len(stale) + 1)]
            if g.chance(0.2): stale = g.noise() + stale
            if g.chance(0.2): stale = stale + stale
            how = g.r.randrange(4)
            if how == 0 and stale:              # waiting at the port
                ops.append(push(stale))
            elif how == 1 and stale:            # in the library's buffer: part of it is read with another packet
                ops += [push(status(1, 0, []) + stale), read_t(2)]
            elif how == 2 and stale:
                ops += [push(stale[:g.r.randrange(1, len(stale) + 1)]), read_t(1)]
            else:
                ops += [push(status(7, 0, [1]) + stale), read_t(2), push(stale)]
            ops.append(c)
            replies.append(g.answer(c, 0.9, 0.05) if g.chance(0.6) else [])
        g.add(ops, replies=replies, wcap=300, chunks=g.pick([[], [], [], [4], [1, 0]]),
              f_disc=[[g.r.randrange(8), g.pick([5, 0])]] if g.chance(0.25) else [], cost_disc=g.pick([0, 1000]), cost_byte=g.pick([0, 1000]))
    for _ in range(40 * n):
        # A device drops what it has when it answers.
        ops = []
        for _ in range(5):
            a, b = g.instruction(6), g.instruction(6)
            ops += [push(a + (b if g.chance(0.6) else b[:g.r.randrange(len(b))])), dev_read(g.pick(VIAS), 2), dev_status_op(g, 6), dev_read("raw", 2)]
        g.add(ops, role="device", f_disc=[[g.r.randrange(6), 5]] if g.chance(0.25) else [])

    # A reply that straddles the discard: its end alone is no reply, with whatever was there before.
    def straddle(k, how, c, before):
        (_, par), = g.expected(c)
        r = status(c["id"], 0, par)
        k = min(k, len(r) - 1)
        ops = [push(before + r[:k])]
        if how: ops += [read_t(2)] * (2 if before and how == 2 else 1)
        return ops + [dict(c)], [[0, r[k:] + (r if g.chance(0.2) else [])]]
    cases = [(k, how, before) for k in range(1, 16) for how in range(3) for before in ([], status(9, 0, [1, 2, 3]), [7, 8], [255])]
    for b in batches(cases if first else g.r.sample(cases, 40), 6):
        ops, replies = [], []
        for k, how, before in b:
            o, r = straddle(k, how, g.pick([{"op": "ping", "id": 1}, {"op": "read", "id": 2, "addr": 5, "ty": "u32", "count": 4}, {"op": "write", "id": 3, "addr": 5, "ty": "u8", "data": [4], "bcast": False}]), before)
            ops += o
            replies.append(r)
        g.add(ops, replies=replies, rcap=64)
        ops = []
        for k, how, before in b:
            q = packet(g.motor(), 3, [1, 2, 3, 4])
            ops += [push((packet(9, 1, []) if len(before) > 2 else before) + q[:k])] + [dev_read("raw", 2)] * how
            ops += [dev_status_op(g, 6), push(q[min(k, len(q) - 1):]), dev_read("raw", 2)]
        g.add(ops, role="device", rcap=64)

def fam_c09(g, n, first):
    fussy(g, 15 * n)
    big_reads(g, [g.pick(BIG) for _ in range(4)] if first else [g.pick(BIG)])
    for _ in range(170 * n):
        ops, replies = g.conversation(8, 0.45, 0.05, g.unicast_op)
        g.add(ops, replies=replies, wcap=300, chunks=g.chunks(), baud=g.pick([57600, 1_000_000]), rcap=g.pick([64, 128]))
    if first:
        ops, replies = g.conversation(700, 0.9, 0.05, g.unicast_op)         # a long session
        g.add(ops, replies=replies, wcap=300, rcap=128)
        def ops_for(id):
            return [{"op": "ping", "id": id}, {"op": "read", "id": id, "addr": 1, "count": 4, "ty": "u32"}, {"op": "read", "id": id, "addr": 1, "count": 3, "ty": "bytes"},
                    {"op": "read", "id": id, "addr": 1, "count": 3, "ty": "slice"}, {"op": "read", "id": id, "addr": 1, "count": 0, "ty": "bytes"}, {"op": "read", "id": id, "addr": 1, "count": 3, "ty": "u8x3"},
                    {"op": "write", "id": id, "addr": 3, "ty": "u16", "data": [1, 2], "bcast": False}, {"op": "write", "id": id, "addr": 3, "ty": "bytes", "data": [1, 2], "bcast": False},
                    {"op": "reg_write", "id": id, "addr": 3, "ty": "u16", "data": [1, 2], "bcast": False}, {"op": "reg_write", "id": id, "addr": 3, "ty": "bytes", "data": [1, 2], "bcast": False},
                    {"op": "action", "id": id, "bcast": False}, {"op": "reboot", "id": id, "bcast": False}, {"op": "clear_rev", "id": id, "bcast": False}, {"op": "clear_err", "id": id, "bcast": False},
                    {"op": "factory_reset", "id": id, "kind": 255, "bcast": False}, {"op": "raw_xfer", "id": id, "ins": 7, "data": [], "expect": 2}]
        for id in (0, 1, 253):
            for c in ops_for(id):
                (_, params), = g.expected(c)
                variants = [status(id, 0, params), status(id, 128, params), status(id, 1, params), status(id, 127, params), status(id, 129, params), status(id, 255, params),
                            status(id, 64, params), status(254, 0, params), status((id + 1) % 256, 0, params), status((id + 128) % 256, 0, params), status(id, 0, params + [0]), status(id, 0, params + [1, 2]),
                            status(id, 0, params[:-1]), status(id, 0, []), status(id, 128, params + [3]), status(255, 3, params + [1]), packet(id, 1, [0] + params), packet(id, 84, [0] + params), packet(id, 0xD5, [0] + params),
                            packet(id, c.get("ins", 2), []), status(id, 0, [255, 255, 253, 0][:max(1, len(params))])]
                for b in batches(variants, 7):
                    g.add([dict(c) for _ in b], replies=[[[0, v + (status(id, 0, params) if g.chance(0.3) else [])]] for v in b], rcap=64)
            # every error byte
            for k in range(0, 256, 16):
                g.add([{"op": "ping", "id": id} for _ in range(16)], replies=[[[0, status(id, e, [1, 2, 3])]] for e in range(k, k + 16)])
        # Every way to be wrong, at every size.
        for k in SIZES:
            for c in ({"op": "read", "addr": g.addr(), "count": k, "ty": "bytes"}, {"op": "raw_xfer", "ins": 7, "data": [], "expect": k}, {"op": "read", "addr": 1, "count": k, "ty": "slice"}):
                if c.get("ty") == "slice" and k > 8: continue
                c["id"] = g.r.randrange(254)
                vs = deviants(g, c["id"], plain(g, k))
                for b in batches(vs, 10):
                    g.add([dict(c) for _ in b], replies=[[[0, v + g.pick([[], [], status(c["id"], 0, plain(g, k))])]] for v in b], rcap=g.pick([2 * k + 300, 3 * k + 600]), chunks=g.pick([[], [], [100], [255, 1]]))
        # Acknowledgements of large writes, and ones that are themselves large.
        for k in SIZES:
            for op in ("write", "reg_write"):
                id = g.r.randrange(254)
                vs = deviants(g, id, []) + deviants(g, id, plain(g, k))[:12]
                for b in batches(vs, 16):
                    g.add([{"op": op, "id": id, "addr": g.addr(), "ty": "bytes", "data": plain(g, k), "bcast": False} for _ in b], replies=[[[0, v]] for v in b], rcap=k + 300, wcap=k + 60)
        for id in range(254):
            if id % 12 == 0:
                g.add([{"op": "ping", "id": i} for i in range(id, min(254, id + 12))], replies=[[[0, status(i if g.chance(0.7) else i ^ (1 << g.r.randrange(8)), 0, [i, 2, 3])]] for i in range(id, min(254, id + 12))])

def fam_c11(g, n, first):
    if first:
        patient(g)
        dense(g, ["dev_receive"])
        g.add(sum([[push(g.instruction(10) if g.chance(0.8) else status(g.motor(), 0, g.data(5)) + g.instruction(4)), dev_read(g.pick(VIAS), 1)] for _ in range(800)], []), role="device")
    def stream(b, reads, **cfg):
        g.add([push(b)] + [dev_read(g.pick(VIAS), 5) for _ in range(reads)], role="device", rcap=cfg.pop("rcap", 200), **cfg)
    if first:
        for ins in INS + [0, 7, 9, 84, 86, 131, 145, 147, 255, 253]:
            for k in range(0, 9):
                for via in VIAS:
                    p = [g.r.randrange(256) for _ in range(k)]
                    g.add([push(packet(g.pick([1, 253, 254]), ins, p)), dev_read(via, 5)], role="device")
        for ins in range(256):
            if ins % 8 == 0:
                ops = []
                for i in range(ins, ins + 8):
                    ops += [push(packet(3, i, g.data(g.pick([0, 1, 4, 5])))), dev_read(g.pick(VIAS), 2)]
                g.add(ops, role="device")
        for k in range(0, 256, 8):
            ops = []
            for x in range(k, k + 8):
                ops += [push(packet(x, 6, [x]) + packet(255 - x, 16, [x, 1, 2])), dev_read(g.pick(VIAS), 2), dev_read(g.pick(VIAS), 2)]
            g.add(ops, role="device")
        # Every instruction with many parameters, also right behind the long replies of others.
        for k in range(0, 256, 8):
            ops = []
            for x in list(range(k, k + 8)):
                m = g.pick([15, 16, 17, 31, 33, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513])
                skip = g.pick([[], [], status(g.motor(), g.r.randrange(256), g.data(m))])
                ops += [push(skip + packet(g.pick([3, 254]), x, g.data(m))), dev_read(g.pick(VIAS), 2)]
            g.add(ops, role="device", rcap=g.pick([1200, 700]))
        # Big ones.
        for ins in (130, 131, 146, 147, 3, 4, 99):
            for k in (254, 255, 256, 300, 900):
                g.add([push(packet(254, ins, g.data(k))), dev_read(g.pick(VIAS), 5), push(packet(254, ins, [k % 256] * k)), dev_read(g.pick(VIAS), 5)], role="device", rcap=1300)
        for ins in (130, 131, 146, 147, 3, 4, 99):
            k = g.pick(BIG)
            g.add([push(packet(254, ins, plain(g, k))), dev_read(g.pick(["owned", "both"]), 5), push(packet(254, ins, plain(g, k - 3))), dev_read(g.pick(VIAS), 5)], role="device", rcap=k + 50)
        for ins in g.r.sample((130, 131, 146, 147, 3, 4, 99), 2):
            k = g.pick(HUGE)
            g.add([push(packet(254, ins, plain(g, k))), dev_read(g.pick(["owned", "both"]), 5)], role="device", rcap=k + 50)
    for _ in range(150 * n):
        b, dt, ops = [], 0, []
        for _ in range(g.r.randrange(1, 7)):
            k = g.r.randrange(10)
            if k < 4: p = status(g.motor(), g.r.randrange(256), g.data(g.size(8)))
            else: p = g.instruction(12)
            for t, part in g.spread(p, dt, g.pick([1, 1, 2, 4])):
                ops.append(push(part, t))
                dt = t
            dt += g.r.randrange(3 * MS)
        for _ in range(8): ops.append({"op": "dev_read", "via": g.pick(VIAS), "timeout": [0, g.pick([MS, 4 * MS, 20 * MS])]})
        g.add(ops, role="device", rcap=g.pick([100, 128]), chunks=g.chunks(), cost_read=g.pick([0, 1000]))

def fam_c12(g, n, first):
    fussy(g, 5 * n)
    if first:
        # Large values, to everyone and to one.
        for k in SIZES:
            d = plain(g, k)
            for op in ("write", "reg_write"):
                ops, replies = [], []
                for id in (254, 3, 254, 253, 254, 0, 254):
                    ops.append({"op": op, "id": id, "addr": g.addr(), "ty": "bytes", "data": d, "bcast": False})
                    replies.append(g.pick([[], [[0, status(254, 0, [])]], [[0, status(1, 0, [])]]]) if id == 254 else [[0, status(id, g.pick([0, 0, 3]), [])]])
                g.add(ops, replies=replies, wcap=2 * k + 60)
            m = min(k, 250)
            ops = [{"op": "sync_write", "addr": 1, "count": 2, "ty": "u16", "items": [{"id": i, "data": [i, 7]} for i in range(m)]}, {"op": "bulk_write", "items": [{"id": i, "addr": i, "data": [i]} for i in range(m)]},
                   {"op": "sync_write", "addr": 1, "count": k, "ty": "bytes", "items": [{"id": i, "data": d} for i in (1, 2)]}, {"op": "bulk_write", "items": [{"id": i, "addr": i, "data": d} for i in (1, 2)]}]
            g.add(ops, replies=[g.pick([[], [[0, status(i, 0, [])]]]) for i in (254, 0, 1, 254)], wcap=5 * k + 1800)
    for _ in range(130 * n):
        ops, replies = [], []
        for _ in range(8):
            k = g.r.randrange(10)
            if k < 6: c = g.ack_op(bcast=True)
            elif k == 6: c = g.sync_write_op()
            elif k == 7: c = g.bulk_write_op()
            else: c = g.ack_op(id=g.pick([252, 253, 255, 0, 1, 126, g.motor()]), bcast=False)
            ops.append(c)
            if c.get("id", 254) == 254: replies.append(g.pick([[], [], [[0, status(254, 0, [])]], [[0, status(1, 0, [])]], [[0, status(254, 129, [])]]]))
            else: replies.append(g.answer(c, 0.8, 0))
        g.add(ops, replies=replies, wcap=400)

BIG = [1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385]
HUGE = [32767, 32768, 32769, 40000, 50000, 65000]

def plain(g, k):
    """Many bytes, of which few need stuffing."""
    x = g.r.randrange(250)
    d = [(x + i) % 251 for i in range(k)]
    for _ in range(g.r.randrange(4)):
        if k > 3:
            i = g.r.randrange(k - 2)
            d[i:i + 3] = [255, 255, 253]
    return d

def big_reads(g, sizes):
    """Replies much larger than usual."""
    for k in sizes:
        for op, ty in (("read", "bytes"), ("sync_read", "bytes"), ("bulk_read", "bytes"), ("sync_read", "borrow")):
            if ty == "borrow": k = 1025
            c = {"op": op, "ty": ty, "addr": 1, "count": k}
            ids = [5, 200]
            if op == "read": c["id"] = 5
            elif op == "sync_read": c.update(ids=ids, plan=["next", "rem", "next"])
            else: c = {"op": op, "ty": ty, "items": [{"id": i, "addr": 1, "count": k} for i in ids], "plan": ["next", "rem", "next"]}
            wrong = g.pick([0, 0, 1, -1, -256])
            parts = [status(5, 0, plain(g, k + wrong))] + ([status(200, 128, plain(g, k))] if op != "read" else [])
            g.add([c, {"op": "ping", "id": 1}], replies=[[[i * 10, x] for i, x in enumerate(parts)], [[0, status(1, 0, [1, 2, 3])]]],
                  rcap=len(parts[-1]) + g.pick([2, 300]), wcap=64, chunks=g.pick([[], [], [4096], [1000, 1]]))

def crowd(g, takens, good=1):
    """Reads of many motors: more than fit in any small number the library might count with."""
    for m in (33, 65, 129, 253, 255, 256, 300):
        ids = g.r.sample(range(256), 256) + [g.r.randrange(253) for _ in range(m - 256)] if m > 256 else g.r.sample(range(256), m)
        for taken in takens(m):
            for op, ty in (("sync_read", "u8"), ("sync_read", "bytes"), ("sync_read", "borrow"), ("bulk_read", "bytes"), ("bulk_read", "borrow")):
                if op == "bulk_read" and m > 256: continue
                c = {"op": op, "ty": ty, "plan": ["rem", "hint"] + sum([[g.pick(["next", "read_next"])] + ([g.pick(["rem", "hint"])] if g.chance(0.1) else []) for _ in range(taken)], []) + ["rem"]}
                if op == "sync_read": c.update(addr=1, ids=ids, count=1)
                else: c["items"] = [{"id": i, "addr": k, "count": 1} for k, i in enumerate(ids)]
                sched = [[k * 10, status(i, 0, [k % 251]) if g.chance(good) else g.reply_bad(i, [1])] for k, i in enumerate(ids)]
                g.add([c, {"op": "ping", "id": 1}], replies=[sched, [[0, status(1, 0, [1, 2, 3])]]], rcap=g.pick([64, 128]), wcap=1600)

SIZES = (0, 1, 2, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 513, 1000)

def deviants(g, id, d):
    """Replies with these parameters that are not as they should be (and some that are)."""
    good = status(id, 0, d)
    i = g.r.randrange(len(good))
    return [good, status(id, 128, d), status(id, g.r.randrange(1, 128), d), status(id, g.r.randrange(129, 256), d), status((id + 1) % 256, 0, d), status(id ^ 128, 128, d), status(254, 0, d),
            status(id, 0, d + [g.r.randrange(250)]), status(id, 0, d + g.data(g.pick([2, 7, 256]))), status(id, 0, d[:-1]), status(id, 128, d[:len(d) // 2]), status(id, 0, d[:max(0, len(d) - 256)]),
            packet(id, g.pick([2, 1, 3, 0x54]), [0] + d), packet(id, g.pick([130, 0xD5]), [128] + d), good[:-1] + [good[-1] ^ 1], good[:-2] + [good[-2] ^ 128, good[-1]], good[:i] + [good[i] ^ 4] + good[i + 1:],
            good[:-9], []]

def patient(g):
    """A device that waits through the replies of many others, and a client through many pieces, in one wait each."""
    for m in (9, 10, 15, 16, 17, 20, 31, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300):
        for gap in (0, 100_000, 1_000_000):
            total = m * gap
            for ms in (0, 20, total // MS, total // MS + 1, total // MS - 1):
                if ms < 0 or ms == 0 and gap: continue
                ops = [push(status(g.motor(), g.r.randrange(256), g.data(g.pick([0, 2]))), i * gap) for i in range(m)]
                ops += [push(g.instruction(5), total)] + [dev_read(g.pick(VIAS), ms), dev_read("raw", g.pick([0, 1, 20]))]
                g.add(ops, role="device", rcap=g.pick([40, 128, 1000]), chunks=g.pick([[], [], [7], [13, 1]]), cost_read=g.pick([0, 0, 1000]))
                p = status(3, 0, plain(g, max(0, m - 11)))
                g.add([push([x], i * gap) for i, x in enumerate(p)] + [read_t(ms), read_t(1)], rcap=400, cost_read=g.pick([0, 0, 1000]))
                j = g.pick([[0], [255], [255, 255], [255, 255, 253], [1, 2, 3, 4, 5]])
                g.add([push(j, i * gap) for i in range(m)] + [push(status(1, 0, [5]), total)] + [read_t(ms), read_t(1), read_t(1)], rcap=g.pick([20, 128]), chunks=g.pick([[], [1]]))

def lengthy(g, plans):
    for k in SIZES:
        for op in ("sync_read", "bulk_read"):
            for good in (1, 0, 0.5):                            # long replies, and bad ones among them
                ids = g.ids(4)
                counts = [k] * 4 if op == "sync_read" else g.r.sample([k, k, 2, 0], 4)
                c = {"op": op, "ty": "bytes", "plan": g.pick(plans)}
                if op == "sync_read": c.update(addr=1, ids=ids, count=k)
                else: c["items"] = [{"id": i, "addr": 1, "count": x} for i, x in zip(ids, counts)]
                sched = [[j * 2 * MS, status(i, 0, g.data(x)) if g.chance(good) else g.reply_bad(i, g.data(x))] for j, (i, x) in enumerate(zip(ids, counts)) if g.chance(0.8)]
                g.add([c, {"op": "ping", "id": 1}], replies=[sched, [[0, status(1, 0, [1, 2, 3])]]], rcap=g.pick([128, 2 * k + 20]), wcap=200)

def fam_c13(g, n, first):
    fussy(g, 15 * n)
    def make():
        return g.pick([g.sync_read_op, g.bulk_read_op])()
    for _ in range(170 * n):
        ops, replies = g.conversation(3, g.pick([1, 0.8, 0.5]), g.pick([0, 0, 0.2]), make)
        g.add(ops, replies=replies, wcap=300, rcap=g.pick([64, 128]), chunks=g.chunks(), f_rd=[[g.r.randrange(8), g.pick([0, 5])]] if g.chance(0.15) else [])
    big_reads(g, BIG[g.r.randrange(3)::3] + [g.pick(HUGE)] if first else [g.pick(BIG)])
    if first:
        lengthy(g, [["next"] * 5, ["read_next"] * 4, ["next", "next"]])
        ops, replies = g.conversation(300, 0.9, 0.02, make)         # a long session
        g.add(ops, replies=replies, wcap=300, rcap=128)
        # One bad reply of every kind in every position.
        for m in (1, 2, 3):
            for pos in range(m):
                for kind in range(13):
                    for op in ("sync_read", "bulk_read"):
                        ids = g.ids(m)
                        ty = g.pick(["bytes", "borrow"])
                        counts = [4] * m if op == "sync_read" or ty == "borrow" else [g.pick([0, 1, 3, 5]) for _ in ids]
                        c = {"op": op, "ty": ty, "plan": g.plan(m, m + 1)}
                        if op == "sync_read":
                            c.update(addr=g.addr(), ids=ids, count=4)
                            if ty == "bytes": c["ty"] = g.pick(["u32", "bytes", "u8x2x2x2", "u16x2"])
                            if c["ty"] == "u8x2x2x2": c["count"], counts = 8, [8] * m
                        else: c["items"] = [{"id": i, "addr": g.addr(), "count": k} for i, k in zip(ids, counts)]
                        sched = []
                        for j, (i, k) in enumerate(zip(ids, counts)):
                            d = g.data(k)
                            if j == pos:
                                b = [status((i + 1) % 253, 0, d), status(i, 3, d), status(i, 131, d), status(i, 128, d), status(i, 0, d + [1]), status(i, 0, d[:-1]), packet(i, 2, [0] + d), packet(i, 85, []),
                                     [], status(i, 0, d)[:-1] + [0, 0][:1], [255, 255, 253, 0, i, 0, 0], [255, 255, 253, 0, i, 255, 255], status(ids[(j + 1) % m], 0, d)][kind]
                            else: b = status(i, g.pick([0, 128]), d)
                            if b: sched.append([j * MS, b])
                        g.add([c, {"op": "ping", "id": 1}], replies=[sched, [[0, status(1, 0, [1, 2, 3])]]], wcap=200)
        for m in (20, 60):
            ids = g.ids(m)
            g.add([{"op": "sync_read", "ty": "u16", "addr": 1, "count": 2, "ids": ids, "plan": ["next", "rem"] * (m + 1)}], replies=[[[k * 100, status(i, 0, [k, 1])] for k, i in enumerate(ids)]], wcap=200)
            g.add([{"op": "bulk_read", "ty": "bytes", "items": [{"id": i, "addr": k, "count": k % 5} for k, i in enumerate(ids)], "plan": ["next", "hint"] * (m + 1)}],
                  replies=[[[k * 100, status(i, 0, [7] * (k % 5))] for k, i in enumerate(ids)]], wcap=900)
        crowd(g, lambda m: [m + 1], g.pick([1, 0.95]))
        # A reply that is wrong, in every way, far down the line.
        for m in (17, 33, 40, 66, 130, 253):
            ids = g.r.sample(range(254), m)
            for pos in {15, 16, 17, 31, 32, 33, 39, 63, 64, 65, 100, 127, 128, 129, m - 1, m // 2}:
                if pos >= m: continue
                d = [pos, 7]
                for v in deviants(g, ids[pos], d) if m == 40 or pos == m - 1 else g.r.sample(deviants(g, ids[pos], d), 2):
                    c = g.pick([{"op": "sync_read", "addr": 1, "ids": ids, "count": 2, "ty": g.pick(["u16", "bytes", "borrow"])}, {"op": "bulk_read", "ty": g.pick(["bytes", "borrow"]), "items": [{"id": i, "addr": j, "count": 2} for j, i in enumerate(ids)]}])
                    g.add([dict(c, plan=["nth:%d" % (pos - 2)] + ["next"] * (m - pos + 2))], replies=[[[j * 10, v if j == pos else status(i, g.pick([0, 128]), [j, 7])] for j, i in enumerate(ids) if j != pos or v]], wcap=1600, rcap=128)
        for k in SIZES:
            for op in ("sync_read", "bulk_read"):
                ids = g.ids(3)
                vs = deviants(g, ids[1], plain(g, k))
                c = {"op": op, "ty": "bytes", "plan": ["next"] * 4}
                if op == "sync_read": c.update(addr=1, ids=ids, count=k)
                else: c["items"] = [{"id": i, "addr": 1, "count": k} for i in ids]
                for b in batches(vs, 10):
                    g.add([dict(c) for _ in b], replies=[[[0, status(ids[0], 0, plain(g, k))]] + ([[10, v]] if v else []) + [[20, status(ids[2], 128, plain(g, k))]] for v in b], rcap=3 * k + 400)
        # Items that are skipped are still received, each with its own wait.
        for m in (1, 3, 5):
            ids = list(range(1, m + 1))
            for k in range(1, m + 2):
                for plan in (["nth:%d" % k, "rem", "next"], ["next", "nth:%d" % k, "rem"], ["nth:%d" % k, "rem"] * 3, ["last:%d" % (m - 1), "rem", "next"], ["next", "last:%d" % (m - 2), "rem"] if m > 1 else ["rem"]):
                    for bad in (None, 0, 1, m - 1):
                        sched = [[2 * i * MS, g.reply_bad(d, [d, 2]) if i == bad else status(d, 0, [d, 2])] for i, d in enumerate(ids)]
                        for c in ({"op": "sync_read", "ty": "u16", "addr": 1, "count": 2, "ids": ids}, {"op": "sync_read", "ty": "bytes", "addr": 1, "count": 2, "ids": ids},
                                  {"op": "bulk_read", "ty": "bytes", "items": [{"id": d, "addr": 1, "count": 2} for d in ids]}, {"op": "sync_read", "ty": "borrow", "addr": 1, "count": 2, "ids": ids}):
                            g.add([dict(c, plan=plan)], replies=[sched], wcap=100)
        # large counts
        g.add([{"op": "sync_read", "ty": "bytes", "addr": 1, "count": 300, "ids": [1, 2], "plan": ["next", "next"]},
               {"op": "bulk_read", "ty": "bytes", "items": [{"id": 1, "addr": 0, "count": 300}, {"id": 2, "addr": 0, "count": 44}], "plan": ["next", "next"]}],
              replies=[[[0, status(1, 0, [1] * 300)], [MS, status(2, 0, [2] * 44)]], [[0, status(1, 0, [1] * 44)], [MS, status(2, 0, [2] * 300)]]], rcap=500)

def fam_c14(g, n, first):
    fussy(g, 8 * n)
    def make():
        m = g.pick([1, 2, 3, 4])
        c = g.pick([lambda: g.sync_read_op(n=m, steps=g.r.randrange(m + 1)), lambda: g.bulk_read_op(n=m, steps=g.r.randrange(m + 1)),
                    lambda: g.scan_op([g.pick(["next", "read_next"]) for _ in range(g.r.randrange(4))])])()
        if g.chance(0.1): c["plan"].append("forget")
        return c
    for _ in range(130 * n):
        ops, replies = [], []
        for _ in range(3):
            c = make()
            ops.append(c)
            replies.append(g.answer(c, g.pick([1, 1, 0.7]), g.pick([0, 0.2])))
            c = g.unicast_op()
            ops.append(c)
            replies.append(g.answer(c, 1, 0))
        g.add(ops, replies=replies, wcap=300, baud=g.pick([9600, 57600, 1_000_000, g.baud()]), chunks=g.chunks(),
              f_rd=[[g.r.randrange(14), g.pick([0, 5])] for _ in range(g.pick([0, 0, 0, 1, 2]))], **({"dead": [g.r.randrange(8), g.pick([0, 5])]} if g.chance(0.15) else {}), **g.costs())
    if first:
        ops, replies = g.conversation(300, 0.9, 0.02, make)         # a long session
        g.add(ops, replies=replies, wcap=300)
        for m in (0, 1, 2, 3, 5):
            for taken in range(m + 1):
                for op in ("sync_read", "bulk_read"):
                    for good in (1, 0, 0.5):
                        ids = g.ids(m)
                        counts = [4] * m if op == "sync_read" else [g.pick([0, 1, 5, 100]) for _ in ids]
                        c = {"op": op, "ty": "bytes", "plan": ["next"] * taken}
                        if op == "sync_read": c.update(addr=1, ids=ids, count=4)
                        else: c["items"] = [{"id": i, "addr": 1, "count": k} for i, k in zip(ids, counts)]
                        sched = [[j * 2 * MS, status(i, 0, g.data(k)) if g.chance(good) else g.reply_bad(i, g.data(k))] for j, (i, k) in enumerate(zip(ids, counts))]
                        g.add([c, {"op": "ping", "id": 1}], replies=[sched, [[0, status(1, 0, [1, 2, 3])]]], rcap=200, wcap=200)
        lengthy(g, [[], ["next"]])
        crowd(g, lambda m: [g.pick([0, 1]), g.pick([20, m - 1])], g.pick([1, 1, 0.95]))
        for count in (0, 1, 3, 10, 252, 253, 254, 260):
            for taken in (0, 1, 2):
                # more replies than there can be motors: the drain gives up after 253
                g.add([{"op": "scan", "plan": ["next"] * taken}, {"op": "ping", "id": 1}],
                      replies=[[[k * 1000, status(k % 253, 0, [1, 2, 3])] for k in range(count)], [[0, status(1, 0, [1, 2, 3])]]], rcap=100)
        for code in (0, 5):
            for at in (0, 1, 2, 5):
                g.add([{"op": "scan", "plan": ["next"]}, {"op": "ping", "id": 1}], dead=[at, code])
                g.add([{"op": "sync_read", "ty": "bytes", "addr": 1, "count": 2, "ids": [1, 2, 3, 4], "plan": ["next"]}, {"op": "ping", "id": 1}], dead=[at, code])
                g.add([{"op": "scan", "plan": ["next"]}, {"op": "ping", "id": 1}], f_rd=[[at, code]], replies=[[[MS * k, status(k, 0, [1, 2, 3])] for k in range(4)], [[0, status(1, 0, [1, 2, 3])]]])

def fam_c15(g, n, first):
    if first:
        # Items that are skipped are still received, each with its own wait.
        for k in range(1, 6):
            for plan in (["nth:%d" % k, "next"], ["next", "nth:%d" % k], ["nth:%d" % k] * 3):
                g.add([{"op": "scan", "plan": plan}], replies=[[[i * MS, status(i, 0, [i, 2, 3]) if i % 3 else g.reply_bad(i, [1, 2, 3])] for i in range(7)]])
                g.add([{"op": "scan", "plan": plan}], replies=[[[i * MS, status(i, 0, [i, 2, 3])] for i in range(3)]], f_rd=[[1, 5]])
        # Every error byte with every number of parameters, and every way to be wrong.
        for k in (0, 1, 2, 3, 4, 5, 6, 7, 10, 16, 30, 64, 100):
            es = [0, 1, 2, 3, 4, 64, 127, 128, 129, 130, 131, 192, 255, g.r.randrange(256)]
            g.add([{"op": "scan", "plan": ["next"] * (len(es) + 1)}], replies=[[[j * 1000, status(g.motor(), e, g.data(k))] for j, e in enumerate(es)]])
            vs = [v for v in deviants(g, g.motor(), g.data(k)) if v]
            g.add([{"op": "scan", "plan": ["next"] * (len(vs) + 1)}], replies=[[[j * 1000, v] for j, v in enumerate(vs)]], rcap=g.pick([400, 500]))
        # ... and far down the line.
        for pos in (16, 32, 64, 100, 127, 128, 200, 252):
            vs = [v for v in deviants(g, pos, [1, 2, 3]) if v]
            g.add([{"op": "scan", "plan": ["nth:%d" % (pos - 1)] + ["next"] * (len(vs) + 1)}], replies=[[[j * 1000, status(j, 0, [j, 2, 3])] for j in range(pos)] + [[300_000 + j * 1000, v] for j, v in enumerate(vs)]])
        # Many scans, one after the other.
        g.add([{"op": "scan", "plan": ["next"] * 4} for _ in range(280)], replies=[[[0, status(k % 253, 0, [1, 2, 3])], [MS, g.reply(7, [k % 256, 2, 3], 0.8, 0)]] for k in range(280)])
    for _ in range(170 * n):
        b, dt = [], 0
        for _ in range(g.r.randrange(8)):
            id = g.motor()
            b += [[t, p] for t, p in g.spread(g.reply(id, g.data(3), g.pick([1, 0.7]), g.pick([0, 0.2])), dt, g.pick([1, 1, 2]))]
            if b: dt = b[-1][0] + g.r.randrange(3 * MS)
            if g.chance(0.1): dt += g.pick([35 * MS, 36 * MS, 70 * MS, 653 * MS])
        plan = []
        for _ in range(g.pick([1, 3, 6, 9])):
            plan.append(g.pick(["next", "read_next"]))
            if g.chance(0.1): plan.append("hint")
        ops = [{"op": "scan", "plan": plan}]
        if g.chance(0.3): ops.append({"op": "scan", "plan": ["next"]})
        g.add(ops, replies=[b], chunks=g.chunks(), baud=g.pick([57600, 1_000_000, 4_000_000, 9600]), rcap=g.pick([20, 64, 128]), f_rd=[[g.r.randrange(10), g.pick([0, 5, 5])] for _ in range(g.pick([0, 0, 0, 1, 2]))])
    if first:
        for k in (253, 254, 300):
            g.add([{"op": "scan", "plan": ["next"] * (k + 2)}], replies=[[[i * 1000, status(i % 256, 0, [i % 256, i // 256, 7])] for i in range(k)]])
        for id in range(0, 256, 8):
            g.add([{"op": "scan", "plan": ["next"] * 9}], replies=[[[i * 1000, status(i, g.pick([0, 128]), [i, 255 - i, i // 2])] for i in range(id, id + 8)]])
        for e in range(0, 256, 8):
            g.add([{"op": "scan", "plan": ["next"] * 9}], replies=[[[i * 1000, status(7, i, [1, 2, 3])] for i in range(e, e + 8)]])
        for kind in range(14):
            good = status(9, 0, [1, 2, 3])
            b = [packet(1, 1, []), packet(1, 85, []), status(1, 0, []), status(1, 0, [1, 2]), status(1, 0, [1, 2, 3, 4]), status(1, 5, [1, 2, 3]), status(1, 133, [1, 2, 3]), status(254, 0, [1, 2, 3]),
                 [255, 255, 253, 0, 1, 0, 0], [255, 255, 253, 0, 1, 255, 255], good[:-1] + [good[-1] ^ 1], [1, 2, 3], packet(1, 3, [0, 1, 2, 3]), status(255, 0, [255, 255, 253])][kind]
            for plan in (["next"] * 5, ["read_next"] * 5):
                g.add([{"op": "scan", "plan": plan}], replies=[[[0, b], [MS, good], [2 * MS, b + good]]])
        # The last moment of the wait, and just after it.
        for d in (-1, 0, 1):
            g.add([{"op": "scan", "plan": ["next"] * 4}], baud=1_000_000, replies=[[[0, status(1, 0, [1, 2, 3])], [253 * 140_000 + 34 * MS + d, status(2, 0, [1, 2, 3])]]])

# ------------------------------------------------------------------ the rest

def fam_c18(g, n, first):
    fussy(g, 15 * n)
    big_reads(g, [g.pick(BIG) for _ in range(4)] if first else [g.pick(BIG)])
    if first:
        for ty in TYPES:
            k = TYPES[ty]
            ops = [{"op": "size", "ty": ty}]
            for room in sorted({0, 1, k - 1, k, k + 1, k + 5, 2 * k, k // 2} - {-1}):
                for fill in (0, 255, 0xA5): ops.append({"op": "enc", "ty": ty, "data": g.data(k), "room": room, "fill": fill})
            for m in list(range(0, 20)) + [k - 1, k, k + 1, 2 * k]:
                if m >= 0: ops.append({"op": "dec", "ty": ty, "data": g.data(m)})
            for x in (0, 255, 128, 127, 1):
                ops += [{"op": "enc", "ty": ty, "data": [x] * k, "room": k, "fill": 7}, {"op": "dec", "ty": ty, "data": [x] * k}]
            for j in range(k):
                d = [0] * k
                d[j] = g.pick([1, 128, 255])
                ops += [{"op": "enc", "ty": ty, "data": d, "room": k, "fill": 255}, {"op": "dec", "ty": ty, "data": d}]
            g.add(ops, role="codec")
        for ty, k in (("0", 0), ("1", 1), ("2", 2), ("3", 3), ("5", 5), ("2x2", 4), ("3x2", 6)):
            ops = []
            for m in range(0, 9):
                ops.append({"op": "track", "ty": ty, "data": list(range(1, m + 1))})
                for j in range(m):
                    for x in (254, 255):
                        d = list(range(1, m + 1))
                        d[j] = x
                        ops.append({"op": "track", "ty": ty, "data": d})
                    d = list(range(1, m + 1))
                    d[j] = 255
                    d[-1] = 254
                    ops.append({"op": "track", "ty": ty, "data": d})
            g.add(ops, role="codec")
        for k in range(0, 256, 32):
            g.add([{"op": "crc", "init": 0, "data": [x]} for x in range(k, k + 32)] + [{"op": "crc", "init": x * 257 % 65536, "data": [x, 255 - x]} for x in range(k, k + 32)], role="codec")
    for _ in range(60 * n):
        ops = []
        for _ in range(30):
            ty = g.pick(list(TYPES))
            k = TYPES[ty]
            j = g.r.randrange(5)
            if j < 2: ops.append({"op": "enc", "ty": ty, "data": [g.r.randrange(256) for _ in range(k)], "room": max(0, k + g.pick([-2, -1, 0, 0, 0, 1, 3])), "fill": g.r.randrange(256)})
            elif j < 4: ops.append({"op": "dec", "ty": ty, "data": [g.r.randrange(256) for _ in range(max(0, k + g.pick([-1, 0, 0, 0, 0, 1])))]})
            else: ops.append({"op": "track", "ty": g.pick(["0", "1", "2", "3", "5", "2x2", "3x2"]), "data": [g.pick([1, 2, 3, 4, 5, 6, 7, 8, 254, 255]) if g.chance(0.2) else g.r.randrange(254) for _ in range(g.r.randrange(8))]})
        g.add(ops, role="codec")

def fam_c19(g, n, first):
    def pair(b): return [b // 1_000_000, b % 1_000_000]
    def timed():
        return g.pick([lambda: {"op": "ping", "id": g.motor()}, g.read_op, lambda: {"op": "raw_read", "expect": g.size(30)}, lambda: g.ack_op(bcast=False), lambda: {"op": "scan", "plan": ["next"]},
                       lambda: g.sync_read_op(n=2, steps=1), lambda: g.bulk_read_op(n=2, steps=1)])()
    for _ in range(150 * n):
        ops, replies = [], []
        for _ in range(7):
            k = g.r.randrange(3)
            if k == 0: ops.append({"op": "set_baud", "baud": pair(g.baud())})
            elif k == 1: ops.append({"op": "baud"})
            else:
                c = timed()
                ops.append(c)
                if c["op"] != "raw_read": replies.append(g.answer(c, 1, 0) if g.chance(0.3) else [])
        g.add(ops + [{"op": "baud"}], replies=replies, wcap=200, baud=g.baud(), f_setb=[[g.r.randrange(4), g.pick([0, 5])] for _ in range(g.pick([0, 1, 1, 2]))])
        ops = []
        for _ in range(7):
            k = g.r.randrange(3)
            if k == 0: ops.append({"op": "set_baud", "baud": pair(g.baud())})
            elif k == 1: ops.append({"op": "baud"})
            else: ops.append(g.pick([dev_read("raw", 3), dev_status_op(g, 5)]))
        g.add(ops + [{"op": "baud"}], role="device", wcap=200, baud=g.baud(), f_setb=[[g.r.randrange(4), g.pick([0, 5])] for _ in range(g.pick([0, 1, 1, 2]))])
    if first:
        for role in ("client", "device"):
            for code in (0, 5, 77):
                g.add([{"op": "baud"}], role=role, f_getb=[[0, code]])
            for a in (1, 9600, 2 ** 32 - 1):
                for b in (1, 57600, 4_000_000, 2 ** 31, 2 ** 32 - 1, a):
                    t = [{"op": "ping", "id": 1}] if role == "client" else [dev_read("raw", 1)]
                    for fail in ([], [[0, 5]], [[1, 5]]):
                        g.add([{"op": "baud"}] + t + [{"op": "set_baud", "baud": pair(b)}, {"op": "baud"}] + t + [{"op": "set_baud", "baud": pair(a)}, {"op": "baud"}] + t, role=role, baud=a, f_setb=fail)

def fam_c20(g, n, first):
    fussy(g, 5 * n)
    codes = [5, 6, 99, 0]
    if first:
        ops, replies = g.conversation(500, 1, 0)         # a long session with failures now and then
        g.add(ops, replies=replies, wcap=300, **{k: [[i, g.pick(codes)] for i in range(400) if g.chance(0.06)] for k in ("f_disc", "f_tx", "f_rd")})
    def good(k=4):
        ops, replies = [], []
        for _ in range(k):
            c = g.pick([g.unicast_op, g.unicast_op, lambda: g.ack_op(bcast=True), g.sync_write_op, g.bulk_write_op, lambda: g.sync_read_op(n=2), lambda: g.bulk_read_op(n=2), g.raw_op])()
            ops.append(c)
            replies.append(g.answer(c, 1, 0))
        return ops, replies
    for _ in range(60 * n):
        for kind in ("f_disc", "f_tx", "f_rd"):
            ops, replies = good()
            g.add(ops, replies=replies, wcap=300, chunks=g.pick([[], [], [3], [1]]), **{kind: [[g.r.randrange(7), g.pick(codes)] for _ in range(g.pick([1, 1, 2]))]})
    for _ in range(60 * n):
        # Input received before a failed read stays.
        role = g.pick(["client", "device"])
        b = []
        for _ in range(3): b += some_packet(g, role, 6)
        ops = []
        for t, part in g.spread(b, 0, g.pick([2, 4, 8])): ops.append(push(part, t))
        ops += [read_t(30) if role == "client" else dev_read(g.pick(VIAS), 30) for _ in range(8)]
        g.add(ops, role=role, chunks=g.pick([[], [2], [5], [1]]), f_rd=[[g.r.randrange(10), g.pick(codes)] for _ in range(g.pick([1, 2, 3]))])
        ops = []
        for _ in range(4):
            ops += [push(g.instruction(6)), dev_read("raw", 5), dev_status_op(g, 6)]
        g.add(ops, role="device", **{g.pick(["f_disc", "f_tx"]): [[g.r.randrange(4), g.pick(codes)]]})
    if first:
        # A read that fails when much has arrived already.
        for k in SIZES[3:] + (300, 1000):
            for role in ("client", "device"):
                for code in (5, 0, 99):
                    p = (status(7, 0, plain(g, k)) if role == "client" else packet(7, 3, plain(g, k))) + (some_packet(g, role, 9) if g.chance(0.5) else [])
                    cut = g.pick([len(p) - 1, len(p) // 2, len(p) - 30, g.r.randrange(1, len(p))])
                    if g.chance(0.5): at, ch = g.r.randrange(1, 4), [max(1, cut // 3)]
                    else: at, ch = 1, []
                    g.add([push(p[:cut])] + [read_t(5) if role == "client" else dev_read(g.pick(VIAS), 5) for _ in range(2)] + [push(p[cut:])] + [read_t(5) if role == "client" else dev_read(g.pick(VIAS), 5) for _ in range(3)],
                          role=role, rcap=g.pick([3 * k + 200, 2 * k + 150]), f_rd=[[at, code]], chunks=ch)
                    g.add([push(p)] + [read_t(5) if role == "client" else dev_read(g.pick(VIAS), 5) for _ in range(4)], role=role, rcap=3 * k + 200, f_rd=[[g.r.randrange(1, 4), code]], chunks=[g.pick([20, 64, 100, 128])])
            # Large messages that fail to be sent, and the next one.
            d = plain(g, k)
            for kind in ("f_disc", "f_tx"):
                g.add([raw(1, 3, d), raw(2, 3, d), {"op": "write", "id": 1, "addr": 1, "ty": "bytes", "data": d, "bcast": False}, {"op": "read", "id": 1, "addr": 1, "ty": "bytes", "count": k}], wcap=2 * k + 60, rcap=2 * k + 60,
                      replies=[[], [], [[0, status(1, 0, [])]], [[0, status(1, 0, d)]]], **{kind: [[g.r.randrange(4), g.pick(codes)]]})
                g.add([{"op": "dev_status", "id": i, "err": 0, "data": d, "via": "status"} for i in (1, 2, 3)], role="device", wcap=2 * k + 60, **{kind: [[g.r.randrange(3), g.pick(codes)]]})
        each = [{"op": "ping", "id": 1}, {"op": "read", "id": 1, "addr": 1, "count": 4, "ty": "u32"}, {"op": "read", "id": 1, "addr": 1, "count": 3, "ty": "bytes"}, {"op": "write", "id": 1, "addr": 3, "ty": "u16", "data": [1, 2], "bcast": False},
                {"op": "write", "id": 254, "addr": 3, "ty": "bytes", "data": [1, 2], "bcast": False}, {"op": "reg_write", "id": 1, "addr": 3, "ty": "u16", "data": [1, 2], "bcast": False},
                {"op": "action", "id": 1, "bcast": False}, {"op": "action", "id": 254, "bcast": True}, {"op": "reboot", "id": 1, "bcast": False}, {"op": "reboot", "id": 254, "bcast": True}, {"op": "clear_rev", "id": 1, "bcast": False},
                {"op": "clear_rev", "id": 254, "bcast": True}, {"op": "clear_err", "id": 1, "bcast": False}, {"op": "clear_err", "id": 254, "bcast": True}, {"op": "factory_reset", "id": 1, "kind": 2, "bcast": False},
                {"op": "factory_reset", "id": 254, "kind": 1, "bcast": True}, {"op": "sync_write", "addr": 1, "count": 2, "ty": "u16", "items": [{"id": 1, "data": [1, 2]}]}, {"op": "bulk_write", "items": [{"id": 1, "addr": 1, "data": [1]}]},
                {"op": "sync_read", "addr": 1, "count": 2, "ty": "u16", "ids": [1, 2], "plan": ["next", "next", "next"]}, {"op": "bulk_read", "ty": "bytes", "items": [{"id": 1, "addr": 1, "count": 2}, {"id": 2, "addr": 1, "count": 3}], "plan": ["next", "next"]},
                raw(1, 7, [1, 2]), {"op": "raw_xfer", "id": 1, "ins": 7, "data": [], "expect": 2}, {"op": "scan", "plan": ["next", "next", "next"]}]
        for c in each:
            for code in codes:
                for kind, most in (("f_disc", 1), ("f_tx", 1), ("f_rd", 3)):
                    for at in range(most):
                        g.add([c, {"op": "ping", "id": 9}, c], replies=[g.answer(c, 1, 0), [[0, status(9, 0, [1, 2, 3])]], g.answer(c, 1, 0)] if kind != "f_tx" else [[[0, status(9, 0, [1, 2, 3])]], g.answer(c, 1, 0)], wcap=200, **{kind: [[at, code]]})

def fam_c27(g, n, first):
    ops = []
    def conv(e, a, b=0, x=""):
        tos = {"BufferTooSmall": ["self", "write", "read", "write.transfer", "read.transfer"], "MotorError": ["self", "read", "transfer", "read.transfer"]}.get(
            e, ["self", "message", "read", "transfer", "message.read", "message.transfer", "read.transfer"])
        for to in tos: ops.append({"op": "conv", "e": e, "a": a, "b": b, "x": x, "to": to})
    big = lambda: g.pick([0, 1, 2, 9, 10, 15, 16, 255, 256, 65535, 65536, 70000, 2 ** 31 - 1, g.r.randrange(300), g.r.randrange(2 ** 31)])
    byte = lambda: g.pick([0, 1, 9, 10, 127, 128, 253, 254, 255, g.r.randrange(256)])
    for _ in range(12 * n):
        conv("InvalidChecksum", g.r.randrange(65536), g.r.randrange(65536))
        conv("InvalidPacketId", byte(), g.pick([-1, byte(), byte()]))
        conv("InvalidInstruction", byte(), byte())
        for x in ("exact", "max", "min"): conv("InvalidParameterCount", big(), big(), x)
        conv("MotorError", byte())
        conv("BufferTooSmall", big(), big())
        ops.append({"op": "fail", "code": g.pick([0, 5, g.r.randrange(100000)])})
        for what in ("exact", "max", "min", "buffer"):
            a = big()
            ops.append({"op": "chk", "what": what, "a": a, "b": g.pick([a, max(0, a - 1), min(2 ** 31 - 1, a + 1), big()])})
        want = g.pick([[255, 255, 253, 0], [byte() for _ in range(4)]])
        have = list(want)
        if g.chance(0.8): have[g.r.randrange(4)] = byte()
        if g.chance(0.2): have.append(byte())
        for to in ("self", "message", "read", "transfer"): ops.append({"op": "prefix", "actual": have, "expected": want, "to": to})
    if first:
        for a in range(256):
            for what in ("id", "idb", "ins"): ops.append({"op": "row", "what": what, "a": a})
        ops.append({"op": "row", "what": "motor", "a": 0})
        for a in range(12):
            for b in range(12):
                for what in ("exact", "max", "min", "buffer"): ops.append({"op": "chk", "what": what, "a": a, "b": b})
        for a in range(256): conv("MotorError", a)
    for i in range(0, len(ops), 40): g.add(ops[i:i + 40], role="errors")

FAMILIES = {
    # property: (family, judged mismatches)
    "C01": (fam_c01, ["tx.form", "tx.extra", "tx.missing"] + on(["tx.bytes", "tx.refused"], ["raw_write", "raw_xfer", "dev_status"])
            + on(["ret.accepted", "ret.refused", "ret.panic", "ret.hang", "ret.crash"], ["raw_write", "dev_status"])),
    "C02": (fam_c02, ["tx.bytes", "tx.form", "tx.refused", "rd.missing", "rd.extra"] + RET),
    "C03": (fam_c03, RET + RD),
    "C04": (fam_c04, RET + RD),
    "C05": (fam_c05, RET + RD),
    "C06": (fam_c06, FATAL + ["rd.empty"]),
    "C07": (fam_c07, ["rd.deadline"] + RD + RET),
    "C08": (fam_c08, DISC + ["tx.extra", "rd.missing"] + on(["ret.accepted", "ret.data", "ret.refused"], UNICAST + ["next"])),
    "C09": (fam_c09, RET + RD),
    "C10": (fam_c10, TX + on(["ret.accepted", "ret.refused"] + FATAL, ONE_WAY + MULTI) + on(FATAL, ACKS + ["ping", "read"])),
    "C11": (fam_c11, RET + RD + ["rd.deadline"]),
    "C12": (fam_c12, RD + RET),
    "C13": (fam_c13, on(RET + RD, ["next", "rem", "hint", "sync_read", "bulk_read"])),
    "C14": (fam_c14, on(FATAL + RD + ["rd.deadline", "rd.empty"], ["drop"]) + on(RET + RD, UNICAST)),
    "C15": (fam_c15, on(RET + RD, ["next", "scan", "hint"]) + on(["rd.deadline"], ["next"]) + on(TX, ["scan"])),
    "C16": (fam_c16, TX + on(RET, ONE_WAY + ACKS + MULTI)),
    "C17": (fam_c17, RET + RD + ["rd.empty"]),
    "C18": (fam_c18, RET),
    "C19": (fam_c19, SETB + ["rd.deadline"] + on(RET, ["new", "baud", "set_baud"])),
    "C20": (fam_c20, DISC + TX + RD + RET),
    "C27": (fam_c27, RET),
    "C21": (fam_c21, ["tx.extra", "tx.missing"] + on(RET, ["bulk_read", "bulk_write", "sync_write"]) + on(RET + RD, ["ping", "raw_write"])),
}
