"""Composing bytes for scenarios.  Nothing here judges anything: the
specification does.  (A mistake here only makes replies that are not accepted.)"""

def _table():
    t = []
    for b in range(256):
        c = b << 8
        for _ in range(8):
            c = ((c << 1) ^ 0x8005) & 0xFFFF if c & 0x8000 else (c << 1) & 0xFFFF
        t.append(c)
    return t
_T = _table()

def crc(data):
    c = 0
    for b in data:
        c = ((c << 8) & 0xFFFF) ^ _T[(c >> 8) ^ b]
    return c

def le16(n):
    return [n & 255, (n >> 8) & 255]

def stuff(body):
    out, a, b = [], -1, -1
    for x in body:
        out.append(x)
        if (a, b, x) == (255, 255, 253):
            out.append(253)
            a, b = -1, -1
        else:
            a, b = b, x
    return out

def seal(msg):
    return msg + le16(crc(msg))

def packet(id, ins, params, stuffed=True, length=None):
    body = [ins] + list(params)
    if stuffed:
        body = stuff(body)
    n = len(body) + 2 if length is None else length
    return seal([255, 255, 253, 0, id] + le16(n) + body)

def status(id, err=0, params=()):
    return packet(id, 0x55, [err] + list(params))

def packet_with_crc(id, ins, params, target):
    """A packet that has the given checksum: with two more parameters. None if they would be stuffed."""
    n = len(stuff([ins] + list(params))) + 4
    start = [255, 255, 253, 0, id] + le16(n) + stuff([ins] + list(params))
    c = crc(start)
    # Going back from the checksum, two steps, over the first byte x and the second byte y.
    for x in range(256):
        d = ((c << 8) & 0xFFFF) ^ _T[(c >> 8) ^ x]
        # target = (d << 8) ^ T[(d >> 8) ^ y]
        want = target ^ ((d << 8) & 0xFFFF)
        if want in _INV:
            y = _INV[want] ^ (d >> 8)
            out = packet(id, ins, list(params) + [x, y])
            return out if len(out) == n + 7 else None
    return None
_INV = {v: k for k, v in enumerate(_T)}

# Checksums that may be taken for something else.
CRCS = [0, 1, 0xFFFF, 0xFFFE, 0xFF00, 0x00FF, 0xFDFF, 0xFFFD, 0xFD00, 0x00FD, 0x0100, 0x8000, 0x7FFF, 0x8001, 0x8005, 0x0A0D, 0x5555, 0x0055, 0x5500, 0xFFFB]

def unstuffed(b):
    out, k = [], 0
    while k < len(b):
        out.append(b[k])
        if b[k - 2:k + 1] == [255, 255, 253] and k >= 2 and k + 1 < len(b) and b[k + 1] == 253: k += 1
        k += 1
    return out

def _crc(data, poly=0x8005, init=0, reflected=False):
    c = init
    for b in data:
        if reflected: b = int("{:08b}".format(b)[::-1], 2)
        c ^= b << 8
        for _ in range(8):
            c = ((c << 1) ^ poly) & 0xFFFF if c & 0x8000 else (c << 1) & 0xFFFF
    return int("{:016b}".format(c)[::-1], 2) if reflected else c

def wrong_checksums(p):
    """The packet with checksums that a careless receiver may take for the right one."""
    m, c = p[:-2], crc(p[:-2])
    body = unstuffed(p[7:-2])
    for x in [0, 0xFFFF, c ^ 0xFFFF, (c >> 8) | (c & 255) << 8, (c + 1) & 0xFFFF, (c - 1) & 0xFFFF, c ^ 0x8000, c ^ 0x0101, c & 0xFF00, c & 0x00FF, c | 0xFF00, c | 0x00FF,
              (-c) & 0xFFFF, (c << 1) & 0xFFFF | c >> 15, sum(m) & 0xFFFF, ~sum(m[4:]) & 255, _crc(m, init=0xFFFF), _crc(m, poly=0x1021), _crc(m, poly=0x1021, init=0xFFFF),
              _crc(m, reflected=True), _crc(m, init=0xFFFF, reflected=True), crc(m[1:]), crc(m[4:]), crc(m[7:]), crc(m[:-1]), crc(m[:7] + body), crc(m + [p[-2]]), crc(p), len(m),
              crc([0] + m), crc(m + [0]), crc(m[:4] + [0] + m[5:]), crc(m[:7]), crc(m[:3] + [253] + m[4:]), crc(m[::-1])]:
        yield m + le16(x)
