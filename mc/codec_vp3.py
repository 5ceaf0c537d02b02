"""Independent parser of VP3 files (nested blocks with their lengths), written from the layout."""


class Cursor:
    def __init__(self, data):
        self.d = data
        self.p = 0

    def take(self, n):
        if self.p + n > len(self.d):
            raise ValueError("ends at %d, wants %d more" % (len(self.d), n))
        b = self.d[self.p:self.p + n]
        self.p += n
        return b

    def u(self, n):
        return int.from_bytes(self.take(n), "big")

    def s(self, n):
        return int.from_bytes(self.take(n), "big", signed=True)

    def want(self, b):
        at = self.p
        g = self.take(len(b))
        if g != b:
            raise ValueError("%r at %d, wants %r" % (g, at, b))

    def text(self):
        return self.take(self.u(2))


def parse(data):
    c = Cursor(data)
    c.want(b"%vsm%\x00")
    out = {"producer": c.text().decode("utf-16-be")}
    c.want(b"\x00\x02\x00")
    end = c.u(4) + c.p
    if end != len(data):
        raise ValueError("file length field leads to %d of %d" % (end, len(data)))
    out["notes"] = c.text()
    out["bounds"] = [c.s(4) for _ in range(4)]
    out["count"] = c.u(4)
    c.want(b"\0")
    out["blocks8"] = c.u(1)
    c.want(b"\x0c\x00\x01")
    c.want(b"\x00\x03\x00")
    end = c.u(4) + c.p
    if end != len(data):
        raise ValueError("design length field leads to %d of %d" % (end, len(data)))
    out["center"] = cx, cy = c.s(4), c.s(4)
    c.want(b"\0\0\0")
    out["half"] = [c.s(4) for _ in range(4)]
    out["size"] = c.s(4), c.s(4)
    c.text()
    c.want(b"\x64\x64\x00\x00\x10\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10\x00xxPP\x01\x00")
    c.text()
    out["blocks"] = []
    for _ in range(c.u(2)):
        c.want(b"\x00\x05\x00")
        end = c.u(4) + c.p
        b = {}
        sx, sy = c.s(4), c.s(4)
        b["start"] = x, y = (cx + sx) / 100.0, -(cy + sy) / 100.0
        c.want(b"\x01\x00")
        color = c.u(3)
        c.want(b"\0\0\0\x05\x28")
        b["thread"] = (color,) + tuple(c.text().decode("utf8") for _ in range(3))
        b["shift"] = c.s(4) / 100.0, -c.s(4) / 100.0
        c.want(b"\x00\x01\x00")
        send = c.u(4) + c.p
        c.want(b"\x0a\xf6\x00")
        recs = []
        while c.p < send:
            a = c.s(1)
            if a != -128:
                x += a
                y += c.s(1)
                recs.append(("P", x, y))
                continue
            k = c.u(1)
            if k == 1:
                x += c.s(2)
                y += c.s(2)
                c.want(b"\x80\x02")
                recs.append(("P", x, y))
            elif k == 3:
                recs.append(("T", x, y))
            else:
                raise ValueError("control %d" % k)
        if c.p != send:
            raise ValueError("stitches length field leads to %d, they end at %d" % (send, c.p))
        c.want(b"\0")
        if c.p != end:
            raise ValueError("block length field leads to %d, it ends at %d" % (end, c.p))
        b["recs"] = recs
        out["blocks"].append(b)
    if c.p != len(data):
        raise ValueError("data after the blocks")
    return out


def build(blocks, center=(0, 0), colors=1):
    """blocks: [(start, body bytes)] in 1/100 units relative to the center."""
    def s(v, n=4):
        return (v & (256 ** n - 1)).to_bytes(n, "big")

    body = b""
    for (sx, sy), raw in blocks:
        t = bytes([colors, 0]) + b"\x01\x02\x03\0\0\0" * (colors - 1) + b"\x11\x22\x33\0\0\0\x05\x28" + b"\0\x01c\0\x01d\0\x01b"
        st = b"\x0a\xf6\x00" + raw
        b = s(sx) + s(sy) + t + s(0) + s(0) + b"\x00\x01\x00" + s(len(st)) + st + b"\0"
        body += b"\x00\x05\x00" + s(len(b)) + b
    prod = b"\0\x38" + "Produced by     Software Ltd".encode("utf-16-be")
    design = s(center[0]) + s(center[1]) + b"\0\0\0" + s(0) * 4 + s(0) * 2 + b"\0\0" + b"\x64\x64\x00\x00\x10\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x10\x00xxPP\x01\x00" + prod + len(blocks).to_bytes(2, "big") + body
    top = b"\0\0" + s(0) * 4 + s(0) + b"\0" + bytes([len(blocks) & 255]) + b"\x0c\x00\x01" + b"\x00\x03\x00" + s(len(design)) + design
    return b"%vsm%\x00" + prod + b"\x00\x02\x00" + s(len(top)) + top
