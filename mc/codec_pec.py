"""Independent reading of PEC blocks and PES containers, from their layout."""
import struct


def s7(b):
    return b - 128 if b > 63 else b


def s12(v):
    v &= 0xFFF
    return v - 4096 if v > 2047 else v


def pec(data, at=0):
    """Parses the block that starts with LA:.  Returns a dict."""
    if data[at:at + 3] != b"LA:" or data[at + 19] != 13:
        raise ValueError("label %r" % data[at:at + 20])
    out = {"label": data[at + 3:at + 19]}
    i = at + 20
    if data[i + 12:i + 14] != b"\xff\x00":
        raise ValueError("label end %r" % data[i:i + 14])
    stride, height = data[i + 14], data[i + 15]
    i += 16 + 12
    n = data[i]
    n = 0 if n == 0xFF else n + 1
    out["colors"] = list(data[i + 1:i + 1 + n])
    b = i + 1 + 463
    if data[b:b + 2] != b"\0\0" or data[b + 5:b + 8] != b"\x31\xff\xf0":
        raise ValueError("stitch block header %r at %d" % (data[b:b + 8], b))
    length = int.from_bytes(data[b + 2:b + 5], "little")
    out["size"] = struct.unpack("<HH", data[b + 8:b + 12])
    i = b + 16
    x = y = 0
    recs = []
    toggle = 2
    while True:
        if i >= len(data):
            raise ValueError("no end record")
        v = data[i]
        if v == 0xFF:
            i += 1
            break
        if v == 0xFE:
            if data[i + 1] != 0xB0 or data[i + 2] != toggle:
                raise ValueError("change %r" % data[i:i + 3])
            toggle = 3 - toggle
            recs.append(("C", x, y))
            i += 3
            continue
        flags = 0
        d = []
        for _ in range(2):
            v = data[i]
            if v & 0x80:
                flags |= v & 0x30
                if v & 0x40:
                    raise ValueError("flags %02x" % v)
                d.append(s12(v << 8 | data[i + 1]))
                i += 2
            else:
                d.append(s7(v))
                i += 1
        x += d[0]
        y += d[1]
        recs.append(({0: "P", 0x10: "J", 0x20: "TJ"}[flags], x, y))
    if i != b + length:
        raise ValueError("stitch block of %d bytes ends after %d" % (length, i - b))
    out["recs"] = recs
    g = []
    size = stride * height
    for k in range(n + 1):
        q = data[i:i + size]
        if len(q) != size:
            raise ValueError("graphic %d of %d is missing" % (k, n + 1))
        g.append(bytes(q))
        i += size
    out["graphics"] = g
    out["stride"] = stride
    out["end"] = i
    if n == 0 and data[i:i + size] == data[i - size:i]:
        out["end"] = i + size  # a design without threads may still have an icon for its only block
    return out


class Bytes(object):
    def __init__(self, data, at):
        self.d = data
        self.i = at

    def take(self, n):
        if self.i + n > len(self.d):
            raise ValueError("file ends at %d" % len(self.d))
        r = self.d[self.i:self.i + n]
        self.i += n
        return r

    def u8(self):
        return self.take(1)[0]

    def u16(self):
        return int.from_bytes(self.take(2), "little")

    def i16(self):
        return int.from_bytes(self.take(2), "little", signed=True)

    def u32(self):
        return int.from_bytes(self.take(4), "little")

    def f32(self):
        return struct.unpack("<f", self.take(4))[0]

    def s8(self):
        n = self.u8()
        return self.take(n).decode("utf8") if n else None


def pes(data):
    out = {"magic": data[:8]}
    r = Bytes(data, 8)
    at = r.u32()
    out["pec_at"] = at
    if out["magic"] == b"#PES0060":
        r.take(4)
        out["meta"] = [r.s8() for _ in range(5)]
        r.take(36)
        r.s8()
        r.take(24)
        if (r.u16(), r.u16(), r.u16()) != (0, 0, 0):
            raise ValueError("fill patterns")
        n = r.u16()
        chart = []
        for _ in range(n):
            cat = r.s8()
            rgb = int.from_bytes(r.take(3), "big")
            r.take(5)
            chart.append((rgb, r.s8(), cat, r.s8(), r.s8()))  # description, catalogue number, brand, chart
            chart[-1] = (rgb, chart[-1][1], cat, chart[-1][3], chart[-1][4])
        out["chart"] = chart
        blocks = r.u16()
    elif out["magic"] == b"#PES0001":
        if at == 22:
            blocks = 0
            if any(r.take(10)):
                raise ValueError("truncated header")
        else:
            r.take(4)
            blocks = r.u16()
    else:
        raise ValueError("magic %r" % data[:8])
    if blocks:
        if (r.u16(), r.u16()) != (0xFFFF, 0):
            raise ValueError("block list")
        out.update(blocks_of(r))
        if out["magic"] == b"#PES0060":
            if (r.u32(), r.u32()) != (0, 0):
                raise ValueError("order list")
            for k in range(len(out["log"])):
                if (r.u32(), r.u32()) != (k, 0):
                    raise ValueError("order list entry %d" % k)
        if r.i != at:
            raise ValueError("PEC block at %d, the PES section ends at %d" % (at, r.i))
    elif at < r.i:
        raise ValueError("PEC block at %d inside the header" % at)
    out["pec"] = pec(data, at)
    i = out["pec"]["end"]
    if out["magic"] == b"#PES0060":
        out["tail"] = data[i:]
    elif i != len(data):
        raise ValueError("data after the graphics")
    return out


def blocks_of(r):
    if r.take(r.u16()) != b"CEmbOne":
        raise ValueError("CEmbOne")
    r.take(16)
    m = [r.f32() for _ in range(6)]
    if m[:4] != [1, 0, 0, 1]:
        raise ValueError("matrix %r" % m)
    if r.u16() != 1:
        raise ValueError("block header")
    r.take(4)
    out = {"width": r.i16(), "height": r.i16(), "place": tuple(m[4:])}
    r.take(8)
    n = r.u16()
    if (r.u16(), r.u16()) != (0xFFFF, 0):
        raise ValueError("second block")
    if r.take(r.u16()) != b"CSewSeg":
        raise ValueError("CSewSeg")
    segs = []
    for k in range(n):
        if k and r.u16() != 0x8003:
            raise ValueError("section end")
        flag, color, count = r.u16(), r.u16(), r.u16()
        segs.append((flag, color, [(r.i16(), r.i16()) for _ in range(count)]))
    log = [(r.u16(), r.u16()) for _ in range(r.u16())]
    if (r.u16(), r.u16()) != (0, 0):
        raise ValueError("end of blocks")
    want = []
    for k, s in enumerate(segs):
        if not k or segs[k - 1][1] != s[1]:
            want.append((k, s[1]))
    if log != want:
        raise ValueError("colour log %r, sections say %r" % (log, want))
    out["segments"] = segs
    out["log"] = log
    return out
