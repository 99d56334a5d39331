"""Scenario generators: one family of random or systematic scenarios per concern.
Everything is derived from the seed."""
import random
from wire import *

TYPES = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "i128": 16,
         "u8x0": 0, "u8x1": 1, "u8x3": 3, "u8x7": 7, "u16x2": 4, "i16x3": 6, "u32x2": 8, "i32x4": 16,
         "u64x2": 16, "u16x2x3": 12, "u8x2x2x2": 8, "i8x5": 5, "u8x100": 100}
# A type that can neither encode nor decode values with 238 in front (of one of the two).
FUSSY = {"fussy": 4, "fussyx2": 8}
INS = [1, 2, 3, 4, 5, 6, 8, 0x10, 0x82, 0x83, 0x92, 0x93]
MS = 1_000_000

class Gen:
    def __init__(self, seed, name):
        self.r = random.Random("%s/%s" % (seed, name))
        self.name = name
        self.n = 0
        self.out = []

    def add(self, ops, role="client", **cfg):
        cfg["role"] = role
        self.out.append({"id": "%s/%d" % (self.name, self.n), "cfg": cfg, "ops": ops})
        self.n += 1

    # ---- values

    def chance(self, p):
        return self.r.random() < p

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def data(self, n):
        """n bytes, often full of stuffing patterns."""
        k = self.r.randrange(6)
        if k == 0:
            return [self.r.randrange(256) for _ in range(n)]
        if k == 1:
            return [self.pick([255, 253, 0]) for _ in range(n)]
        if k == 2:
            return [self.pick([255, 255, 253, 253, 0, 254, 1]) for _ in range(n)]
        if k == 3:
            out = []
            while len(out) < n:
                out += self.pick([[255, 255, 253], [255, 255, 253, 0], [255, 255, 253, 253], [255, 255, 255, 253],
                                  [255], [253], [0], [85], [self.r.randrange(256)]])
            return out[:n]
        if k == 4:
            return ([255, 255, 253] * (n // 3 + 1))[:n]
        return [self.r.randrange(256) if self.chance(0.5) else self.pick([255, 253]) for _ in range(n)]

    def size(self, most=40):
        k = self.r.randrange(10)
        if k < 2: return self.r.randrange(3)
        if k < 7: return self.r.randrange(min(most, 12) + 1)
        return self.r.randrange(most + 1)

    def motor(self):
        return self.pick([0, 1, 2, 3, 5, 85, 127, 128, 252, 253, 253, 1, 255]) if self.chance(0.5) else self.r.randrange(254)

    def addr(self):
        return self.pick([0, 1, 116, 255, 256, 0xFFFF, 0xFDFF, 0xFFFD, self.r.randrange(65536), self.r.randrange(65536)])

    def baud(self):
        k = self.r.randrange(10)
        if k < 5: return self.pick([9600, 57600, 115200, 1_000_000, 2_000_000, 3_000_000, 4_000_000, 4_500_000])
        if k < 7: return self.r.randrange(1, 10000)
        if k < 8: return self.pick([1, 2, 3, 7, 10, 300, 1200])
        if k < 9: return self.r.randrange(1, 2 ** 32)
        return self.pick([2 ** 32 - 1, 2 ** 31, 2 ** 31 - 1, 999_999, 1_000_001, 300_000_000])

    # ---- replies

    def reply_bad(self, id, params, others=(), noise=True):
        """Some flawed reply: list of bytes."""
        k = self.r.randrange(14)
        good = status(id, 0, params)
        if k == 0: return status((id + self.r.randrange(1, 255)) % 256, 0, params)
        if k == 1: return status(id, self.r.randrange(1, 128), params)
        if k == 2: return status(id, 128 + self.r.randrange(1, 128), params)
        if k == 3: return status(id, 0, params + self.data(self.r.randrange(1, 4)))
        if k == 4: return status(id, 0, params[:-1]) if params else status(id, 0, [7])
        if k == 5:
            b = list(good)
            b[self.r.randrange(len(b))] ^= 1 << self.r.randrange(8)
            return b
        if k == 6: return packet(id, self.pick(INS), [0] + params)
        if k == 7: return packet(id, 0x55, [])
        if k == 8: return good[:self.r.randrange(len(good))]
        if k == 9: return []
        if k == 10: return packet(id, self.r.randrange(256), [0] + params, length=self.pick([0, 1, 2, 3, 4, 500, 65535]))
        if k == 11: return status(254, 0, params)
        if k == 12: return good[:-2] + [good[-1], good[-2]]
        i = self.r.randrange(len(good) + 1)
        return good[:i] + [self.r.randrange(256)] + good[i:]

    def noise(self):
        k = self.r.randrange(8)
        if k == 0: return [self.r.randrange(256) for _ in range(self.r.randrange(1, 9))]
        if k == 1: return [255] * self.r.randrange(1, 6)
        if k == 2: return [255, 255, 253, 0][:self.r.randrange(1, 5)]
        if k == 3: return [255, 255, 253, 253, 0]
        if k == 4: return [255, 255, 255, 253]
        if k == 5: return self.data(self.r.randrange(1, 12))
        if k == 6: return [255, 255, 253, 1]
        return [0]

    def reply(self, id, params, good=0.6, noise=0.2):
        """Some reply as bytes; good with the given probability."""
        b = status(id, self.pick([0, 0, 0, 128]), params) if self.chance(good) else self.reply_bad(id, params)
        if self.chance(noise): b = self.noise() + b
        if self.chance(noise / 2): b = b + self.noise()
        return b

    def spread(self, b, dt=None, pieces=None):
        """Arrival schedule of some bytes: [[dt, bytes], ...] in one or more pieces."""
        if not b: return []
        dt = self.r.randrange(0, 3 * MS) if dt is None else dt
        pieces = self.pick([1, 1, 1, 2, 3, len(b)]) if pieces is None else pieces
        cuts = sorted(self.r.randrange(len(b) + 1) for _ in range(pieces - 1)) if pieces < len(b) else list(range(1, len(b)))
        out, last = [], 0
        for c in cuts + [len(b)]:
            if c > last:
                out.append([dt, b[last:c]])
                last = c
            dt += self.r.randrange(0, MS)
        return out

    def chunks(self):
        return self.pick([[], [], [1], [0, 1], [2, 3], [5], [7, 1, 1], [10], [11], [self.r.randrange(1, 30), self.r.randrange(1, 9)]])

    def costs(self):
        return dict(cost_disc=self.pick([0, 0, 1, 1000, MS]), cost_byte=self.pick([0, 0, 7, 1000, 86805]), cost_read=self.pick([0, 0, 1, 500]))

    # ---- operations of the client

    def typed(self, ops_bytes=True, max_bytes=24):
        """A type name and some value of it as bytes."""
        if ops_bytes and self.chance(0.4):
            return "bytes", self.data(self.size(max_bytes))
        ty = self.pick([t for t in TYPES if t != "u8x100"])
        return ty, self.data(TYPES[ty])

    def ack_op(self, id=None, bcast=None):
        """An operation answered by an empty status packet, or broadcast."""
        op = self.pick(["write", "reg_write", "action", "reboot", "clear_rev", "clear_err", "factory_reset"])
        bc = self.chance(0.3) if bcast is None else bcast
        c = {"op": op, "id": 254 if bc else (self.motor() if id is None else id), "bcast": False}
        if op in ("write", "reg_write"):
            c["addr"] = self.addr()
            c["ty"], c["data"] = self.typed()
        elif bc and self.chance(0.5):
            c["bcast"] = True
        if op == "factory_reset":
            c["kind"] = self.pick([255, 1, 2])
        return c

    def read_op(self, id=None):
        c = {"op": "read", "id": self.motor() if id is None else id, "addr": self.addr()}
        if self.chance(0.5):
            c["ty"] = self.pick(["bytes", "slice"])
            c["count"] = self.size(40)
        else:
            c["ty"] = self.pick([t for t in TYPES if t != "u8x100"])
            c["count"] = TYPES[c["ty"]]
        return c

    def ids(self, n):
        """n different motors; now and then one with an ID no motor has."""
        return self.r.sample(range(254 if self.chance(0.85) else 256), n)

    def any_ids(self, n):
        """n motors for a sync read, which may name one more than once."""
        out = self.ids(n)
        if self.chance(0.3):
            for _ in range(self.r.randrange(1, 3)):
                if n >= 2: out[self.r.randrange(n)] = out[self.r.randrange(n)]
        return out

    def sync_read_op(self, n=None, steps=None):
        n = self.pick([0, 1, 2, 2, 3, 3, 4, 6]) if n is None else n
        c = {"op": "sync_read", "addr": self.addr(), "ids": self.any_ids(n)}
        k = self.r.randrange(3)
        if k == 0:
            c["ty"], c["count"] = "bytes", self.size(20)
        elif k == 1:
            c["ty"], c["count"] = "borrow", self.pick([0, 1, 2, 3, 4, 6, 8])
        else:
            c["ty"] = self.pick([t for t in TYPES if TYPES[t] <= 16])
            c["count"] = TYPES[c["ty"]]
        c["plan"] = self.plan(n, steps)
        return c

    def bulk_read_op(self, n=None, steps=None):
        n = self.pick([0, 1, 2, 2, 3, 3, 4, 6]) if n is None else n
        borrow = self.chance(0.3)
        size = self.pick([0, 1, 2, 3, 4, 6, 8])
        c = {"op": "bulk_read", "ty": "borrow" if borrow else "bytes",
             "items": [{"id": i, "addr": self.addr(), "count": size if borrow else self.size(20)} for i in self.ids(n)]}
        c["plan"] = self.plan(n, steps)
        return c

    def plan(self, n, steps=None):
        steps = self.pick([n, n, n, n + 1, self.r.randrange(n + 1)]) if steps is None else steps
        plan = []
        for _ in range(steps):
            if self.chance(0.3): plan.append(self.pick(["rem", "hint"]))
            plan.append(self.pick(["next", "read_next", "next", "read_next", "nth:1"]))
        if self.chance(0.5): plan.append(self.pick(["rem", "hint"]))
        return plan

    def sync_write_op(self, n=None):
        n = self.pick([0, 1, 2, 3, 5]) if n is None else n
        if self.chance(0.5):
            ty, count = self.pick(["bytes", "bytes_ref"]), self.size(10)
        else:
            ty = self.pick([t for t in TYPES if TYPES[t] <= 16])
            count = TYPES[ty]
        return {"op": "sync_write", "addr": self.addr(), "count": count, "ty": ty,
                "items": [{"id": self.motor(), "data": self.data(count)} for _ in range(n)]}

    def bulk_write_op(self, n=None):
        n = self.pick([0, 1, 2, 3, 5]) if n is None else n
        return {"op": "bulk_write", "items": [{"id": i, "addr": self.addr(), "data": self.data(self.size(10))} for i in self.ids(n)]}

    def fussy(self):
        """A type some of whose values can not be encoded, and a value."""
        ty = self.pick(list(FUSSY))
        d = self.data(FUSSY[ty])
        if self.chance(0.5): d[self.pick(range(0, len(d), 4))] = 238
        return ty, d

    def fussy_op(self):
        """An operation with such values, and the replies to it: (op, [(id, params)])."""
        ty, d = self.fussy()
        k, n = self.r.randrange(5), FUSSY[ty]
        if k < 2:
            c = {"op": self.pick(["write", "reg_write"]), "id": self.pick([self.motor(), 254]), "addr": self.addr(), "ty": ty, "data": d, "bcast": False}
            return c, self.expected(c)
        if k == 2:
            return {"op": "read", "id": self.motor(), "addr": self.addr(), "ty": ty, "count": n}, None
        values = [d] + [self.data(n) for _ in range(self.r.randrange(3))]
        self.r.shuffle(values)
        ids = self.ids(len(values))
        if k == 3:
            return {"op": "sync_write", "addr": self.addr(), "count": n, "ty": ty, "items": [{"id": i, "data": v} for i, v in zip(ids, values)]}, []
        return {"op": "sync_read", "addr": self.addr(), "count": n, "ty": ty, "ids": ids, "plan": self.plan(len(ids))}, None

    def fussy_talk(self, n):
        """Operations with such values, some after ones that fail, and the traffic they meet."""
        ops, replies = [], []
        for _ in range(n):
            c, want = self.fussy_op() if self.chance(0.7) else (self.unicast_op(), None)
            ops.append(c)
            if c.get("ty") not in FUSSY:
                replies.append(self.answer(c, 1, 0))
                continue
            # A request that can not be encoded is not sent, and has no replies.
            bad = lambda v: any(v[i] == 238 for i in range(0, len(v), 4))
            if c["op"] in ("write", "reg_write") and bad(c["data"]) or c["op"] == "sync_write" and any(bad(x["data"]) for x in c["items"]): continue
            def value():
                d = self.data(c["count"])
                if self.chance(0.4): d[self.pick(range(0, len(d), 4))] = 238
                return d
            if want is None:
                want = [(i, value()) for i in (c["ids"] if c["op"] == "sync_read" else [c["id"]])]
            replies.append([[MS * k, status(i, self.pick([0, 128, 0, 3]) if self.chance(0.3) else 0, d)] for k, (i, d) in enumerate(want)])
        return ops, replies

    def raw_op(self, most=40):
        return {"op": "raw_write", "id": self.r.randrange(256), "ins": self.pick(INS + [255, 253, 0, 85, self.r.randrange(256)]),
                "data": self.data(self.size(most))}

    def xfer_op(self):
        return {"op": "raw_xfer", "id": self.motor(), "ins": self.pick(INS + [self.r.randrange(256)]),
                "data": self.data(self.size(12)), "expect": self.size(12)}

    def unicast_op(self):
        return self.pick([lambda: self.ack_op(bcast=False), self.read_op, self.xfer_op,
                          lambda: {"op": "ping", "id": self.motor()}])()

    def client_op(self):
        return self.pick([self.unicast_op, self.unicast_op, self.ack_op, self.sync_read_op, self.bulk_read_op, self.sync_write_op,
                          self.bulk_write_op, self.raw_op, self.scan_op])()

    def scan_op(self, plan=None):
        if plan is None:
            plan = [self.pick(["next", "read_next"]) for _ in range(self.r.randrange(6))]
            if self.chance(0.2): plan.append("hint")
        return {"op": "scan", "plan": plan}

    def expected(self, c):
        """The replies a healthy bus gives: list of (id, params)."""
        op = c["op"]
        if op in ("write", "reg_write", "action", "reboot", "clear_rev", "clear_err", "factory_reset"):
            return [] if c["id"] == 254 else [(c["id"], [])]
        if op == "ping": return [(c["id"], self.data(3))]
        if op == "read": return [(c["id"], self.data(c["count"]))]
        if op == "raw_xfer": return [(c["id"], self.data(c["expect"]))]
        if op == "sync_read": return [(i, self.data(c["count"])) for i in c["ids"]]
        if op == "bulk_read": return [(x["id"], self.data(x["count"])) for x in c["items"]]
        if op == "scan": return [(i, self.data(3)) for i in sorted(self.ids(self.r.randrange(5)))]
        return []

    def answer(self, c, good=0.7, noise=0.15):
        """What arrives after the request of operation c: schedule."""
        out, dt = [], self.r.randrange(0, 2 * MS)
        replies = self.expected(c)
        if replies and self.chance(0.1): replies = replies[1:] if self.chance(0.5) else replies[::-1]
        for id, params in replies:
            b = self.reply(id, params, good, noise)
            part = self.spread(b, dt)
            out += part
            if part: dt = part[-1][0] + self.r.randrange(0, 2 * MS)
        return out

    def conversation(self, n, good=0.7, noise=0.15, make=None):
        """n operations and the traffic they meet: (ops, replies)."""
        ops, replies = [], []
        for _ in range(n):
            c = (make or self.client_op)()
            ops.append(c)
            replies.append(self.answer(c, good, noise))
        return ops, replies

    # ---- instructions, as a device sees them

    def instruction(self, most=20):
        """Some instruction packet, usually one a client would send."""
        id = self.pick([254, self.motor(), self.motor()])
        k = self.r.randrange(14)
        a = le16(self.addr())
        if k == 0: return packet(id, 1, [])
        if k == 1: return packet(id, 2, a + le16(self.addr()))
        if k == 2: return packet(id, 3, a + self.data(self.size(most)))
        if k == 3: return packet(id, 4, a + self.data(self.size(most)))
        if k == 4: return packet(id, self.pick([5, 8]), [])
        if k == 5: return packet(id, 6, [self.pick([255, 1, 2, self.r.randrange(256)])])
        if k == 6: return packet(id, 16, self.pick([[1, 68, 88, 76, 34], [2, 69, 82, 67, 76], [self.r.randrange(256)]]))
        if k == 7: return packet(254, 0x82, a + le16(self.size(most)) + self.ids(self.r.randrange(5)))
        if k == 8: return packet(254, 0x83, a + le16(2) + self.data(3 * self.r.randrange(4)))
        if k == 9: return packet(254, 0x92, self.data(5 * self.r.randrange(4)))
        if k == 10: return packet(254, 0x93, self.data(self.size(most)))
        if k == 11: return packet(id, self.r.randrange(256), self.data(self.size(most)))
        if k == 12: return packet(id, self.pick(INS), self.data(self.size(most)))
        return packet(self.r.randrange(256), self.pick(INS), self.data(self.r.randrange(7)))

    def wild_packet(self):
        """An odd packet: wrong length, missing stuffing, cut off."""
        k = self.r.randrange(5)
        body = self.data(self.size(12))
        if k == 0: return packet(self.r.randrange(256), self.pick(INS + [85]), body, stuffed=False)
        if k == 1: return packet(self.r.randrange(256), self.pick(INS + [85]), body, length=self.r.randrange(20))
        if k == 2: return packet(self.r.randrange(256), self.pick(INS + [85]), body)[:self.r.randrange(1, 14)]
        if k == 3: return packet(self.r.randrange(256), 85, [])
        return packet(self.r.randrange(256), 85, body, length=len(body) + self.r.randrange(4))
