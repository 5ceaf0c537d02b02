"""Independent description of the DST layout.

512-byte header, then three-byte records.  Every displacement is a sum of balanced
ternary digits; each digit has its own pair of bits."""

# weight -> (byte, bit) of the positive and the negative digit
XPOS = {81: (2, 2), 27: (1, 2), 9: (0, 2), 3: (1, 0), 1: (0, 0)}
XNEG = {81: (2, 3), 27: (1, 3), 9: (0, 3), 3: (1, 1), 1: (0, 1)}
YPOS = {81: (2, 5), 27: (1, 5), 9: (0, 5), 3: (1, 7), 1: (0, 7)}
YNEG = {81: (2, 4), 27: (1, 4), 9: (0, 4), 3: (1, 6), 1: (0, 6)}


def table(pos, neg):
    t = []
    for w in pos:
        t.append((pos[w], w))
        t.append((neg[w], -w))
    return t


TX, TY = table(XPOS, XNEG), table(YPOS, YNEG)


def delta(rec):
    dx = sum(w for (b, k), w in TX if rec[b] >> k & 1)
    dy = sum(w for (b, k), w in TY if rec[b] >> k & 1)
    return dx, -dy


def kind(b2):
    if b2 & 0xF3 == 0xF3:
        return "END"
    if b2 & 0xC3 == 0xC3:
        return "CHANGE"
    if b2 & 0x43 == 0x43:
        return "SEQUIN_MODE"
    if b2 & 0x83 == 0x83:
        return "JUMP"
    return "STITCH"


def header(data):
    h = {}
    head = data[:512]
    end = head.find(b"\x1a")
    if end >= 0:
        head = head[:end]
    for line in head.split(b"\r"):
        if len(line) >= 3 and line[2:3] == b":":
            h.setdefault(line[:2].decode("ascii"), []).append(line[3:].decode("utf8", "replace"))
    return h


def records(data):
    """[(kind, dx, dy)] up to and including END; raises if the stream is not whole records."""
    body = data[512:]
    if len(body) % 3:
        raise ValueError("stitch data is not a whole number of records")
    out = []
    for i in range(0, len(body), 3):
        r = body[i:i + 3]
        k = kind(r[2])
        out.append((k,) + delta(r))
        if k == "END":
            if i + 3 != len(body):
                raise ValueError("data after the END record")
            return out
    raise ValueError("no END record")


def to_record(dx, dy, k):
    """Balanced ternary encoding, computed by search over digits rather than by subtraction."""
    rec = [0, 0, {"STITCH": 0x03, "JUMP": 0x83, "CHANGE": 0xC3, "END": 0xF3, "SEQUIN_MODE": 0x43}[k]]
    for v, pos, neg in ((dx, XPOS, XNEG), (-dy, YPOS, YNEG)):
        for w in (1, 3, 9, 27, 81):
            d = (v + 1) % 3 - 1
            v = (v - d) // 3
            if d:
                b, bit = (pos if d > 0 else neg)[w]
                rec[b] |= 1 << bit
        if v:
            raise ValueError("out of range")
    return bytes(rec)
