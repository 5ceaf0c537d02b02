"""Independent descriptions of the formats that are only read: record layouts, command codes, headers.

Actions of a record: ("s", dx, dy) stitch, ("m", dx, dy) jump, ("t",) trim, ("c", dx, dy) colour change,
("n", k) needle, ("stop",), ("fast",), ("slow",); END ends the design, None is a record with no action.
y grows downwards in a design and upwards in most files."""
import struct

END = "END"


def s8(b):
    return b - 256 if b > 127 else b


def s16(v):
    return v - 65536 if v > 32767 else v


def s24(v):
    return v - (1 << 24) if v >> 23 else v


def sm8(b):
    """sign and magnitude"""
    return -(b - 128) if b > 128 else b


def junk(n):
    return bytes((k * 37 + 11) & 0x7F for k in range(n))


# ---- fixed records whose meaning depends on one record alone: layout -> (command byte, dx, dy) -------------------------------

def r_10o(r):
    c = r[0]
    dx = -r[2] if c & 0x20 else r[2]
    dy = r[1] if c & 0x40 else -r[1]
    if c & 0x1F == 0:
        return [("s", dx, dy)]
    if c & 0x1F == 0x10:
        return [("m", dx, dy)]
    return {0x8A: [], 0x85: [("c", 0, 0)], 0x82: [("stop",)], 0x81: [("t",)]}.get(c, END)


def r_100(r):
    dx, dy = sm8(r[2]), -sm8(r[3])
    if r[0] == 0x61:
        return [("s", dx, dy)]
    if r[0] % 2:
        return [("m", dx, dy)]
    return [("c", 0, 0)]


def r_dsb(r):
    c = r[0]
    dx = -r[2] if c & 0x20 else r[2]
    dy = r[1] if c & 0x40 else -r[1]
    if c & 0x1F == 0:
        return [("s", dx, dy)]
    if c & 0x1F == 1:
        return [("m", dx, dy)]
    if 0xE9 <= c <= 0xF7:
        return [("n", c - 0xE8)]
    return {0xE7: [("t",)], 0xE8: [("stop",)]}.get(c, END)


def r_dsz(r):
    c = r[2]
    dx = -r[1] if c & 0x40 else r[1]
    dy = r[0] if c & 0x20 else -r[0]
    if c & 0x1F == 0:
        return [("s", dx, dy)]
    if c & 0x1F == 1:
        return [("m", dx, dy)]
    if 0x83 <= c <= 0x9A:
        return [("n", (c - 0x83) // 2)]
    return {0x82: [("stop",)], 0x9B: [("t",)]}.get(c, END)


def r_inb(r):
    c = r[2]
    dx = -r[0] if c & 0x40 else r[0]
    dy = r[1] if c & 0x20 else -r[1]
    k = {0: "s", 1: "c", 2: "m"}.get(c & 0x0F)
    return [(k, dx, dy)] if k else END


def r_new(r):
    c = r[2]
    dx = -r[0] if c & 0x40 else r[0]
    dy = r[1] if c & 0x20 else -r[1]
    c &= 0x1F
    if c == 0:
        return [("s", dx, dy)]
    if c == 0x11:
        return END
    if c & 2:
        return [("c", 0, 0)]
    if c & 1:
        return [("m", dx, dy)]
    return []


def r_stc(r):
    c = r[2]
    dx, dy = s8(r[0]), -s8(r[1])
    if c == 25:
        return END
    return {1: [("s", dx, dy)], 0: [("m", dx, dy)]}.get(c, [("n", c - 2)])


def r_zxy(r):
    c = r[0]
    dx = -r[1] if c & 8 else r[1]
    dy = r[2] if c & 4 else -r[2]
    c &= 0xF3
    if c == 0:
        return [("s", dx, dy)]
    if c & 2:
        return [("m", dx, dy)]
    if c & 0x20:
        return END if r[1] == 0xFF else [("n", r[2])]
    return []


def r_barudan(r):
    c = r[0]
    dx = -r[2] if c & 0x20 else r[2]
    dy = r[1] if c & 0x40 else -r[1]
    c &= 0x1F
    go = [("m", dx, dy)] if dx or dy else []
    sew = [("s", dx, dy)] if dx or dy else []
    if c == 0:
        return [("s", dx, dy)]
    if c == 1:
        return [("m", dx, dy)]
    if c in (2, 3):
        return [("fast",)] + (sew if c == 2 else go)
    if c in (4, 5):
        return [("slow",)] + (sew if c == 4 else go)
    if c in (6, 7):
        return [("t",)] + go
    if c == 8:
        return [("stop",)] + go
    if 9 <= c <= 0x17:
        return [("n", c - 8)] + go
    return END


def r_sunstar(r):
    dx = -(r[0] & 0x7F) if r[0] & 0x80 else r[0]
    dy = (r[1] & 0x7F) if r[1] & 0x80 else -r[1]
    c = r[2]
    go = [("m", dx, dy)] if dx or dy else []
    return {7: [("s", dx, dy)], 0x84: [("s", dx, dy)], 4: [("m", dx, dy)], 0x80: [("t",)] + go, 0x87: [("c", 0, 0)] + go}.get(c, END)


FIXED = {  # name: (extension, record size, record function, index of the command byte, indexes of the two others, prefix)
    "10o": ("10o", 3, r_10o, 0, (1, 2), b""),
    "100": ("100", 4, r_100, 0, (2, 3), b""),
    "dsb": ("dsb", 3, r_dsb, 0, (1, 2), None),
    "dsz": ("dsz", 3, r_dsz, 2, (0, 1), None),
    "fxy": ("fxy", 3, r_dsz, 2, (0, 1), junk(0x100)),
    "gt": ("gt", 3, r_dsz, 2, (0, 1), junk(0x200)),
    "inb": ("inb", 3, r_inb, 2, (0, 1), junk(0x2000)),
    "new": ("new", 3, r_new, 2, (0, 1), b"\x12\x34"),
    "stc": ("stc", 3, r_stc, 2, (0, 1), b"DESIGN: stitch STITCHES: 1234          \x1a"),
    "zxy": ("zxy", 3, r_zxy, 0, (1, 2), b"\x00" + struct.pack(">H", 77) + junk(77)),
    "barudan": ("dat", 3, r_barudan, 0, (1, 2), b""),
    "sunstar": ("dat", 3, r_sunstar, 2, (0, 1), b"\x00" * 0x100),
}


def dst_like_header(name="design"):
    h = ("LA:%-16s\rST:%7d\rCO:%3d\r+X:%5d\r-X:%5d\r+Y:%5d\r-Y:%5d\rAX:+%5d\rAY:+%5d\rMX:+%5d\rMY:+%5d\rPD:%6s\r\x1a" % (name, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, "******")).encode()
    return h + b" " * (512 - len(h))


def head(name):
    p = FIXED[name][5]
    return dst_like_header() if p is None else p


# ---- formats with records of several lengths, or with state --------------------------------------------------------------------

def le16(v):
    return struct.pack("<h", v)


def bro(kind, a=0, b=0):
    if kind == "s":
        return struct.pack("bb", a, b), [("s", a, -b)]
    if kind in ("m", "m2"):
        return b"\x80\x00" + (b"\x7e" if kind == "m" else b"\x03") + le16(a) + le16(b), [("m", a, -b)]
    if kind == "n":
        return b"\x80\x05" + bytes([0xE0 + a]) + le16(b) + le16(-b), [("n", a), ("m", b, b)]
    if kind == "nop":
        return b"\x80\x01\x00", []
    return b"\x80\x00" + bytes([a or 0x02]), END


def emd(kind, a=0, b=0):
    if kind == "s":
        return struct.pack("bb", a, b), [("s", a, -b)]
    if kind == "m":
        return b"\x80\x80" + struct.pack("bb", a, b), [("m", a, -b)]
    return b"\x80" + {"c": b"\x2a", "nop": b"\x7d", "t": b"\xad", "t2": b"\x90", "e": b"\xfd", "u": b"\x33"}[kind], {"c": [("c", 0, 0)], "nop": [], "t": [("t",)], "t2": [("t",)]}.get(kind, END)


def jpx(kind, a=0, b=0):
    d = struct.pack("bb", a, b)
    if kind == "s":
        return d, [("s", a, -b)]
    if kind == "m":
        return b"\x80\x02" + d, [("m", a, -b)]
    if kind == "c":
        return b"\x80\x01" + d, [("c", 0, 0)] + ([("m", a, -b)] if a or b else [])
    return b"\x80" + (b"\x10" if kind == "e" else b"\x77") + d, END


def sew(kind, a=0, b=0):
    d = struct.pack("bb", a, b)
    if kind == "s":
        return d, [("s", a, -b)]
    if kind == "s2":
        return b"\x80\x10" + d, [("s", a, -b)]
    if kind in ("m", "m2"):
        return b"\x80" + (b"\x04" if kind == "m" else b"\x02") + d, [("m", a, -b)]
    if kind == "c":
        return b"\x80\x01" + d, [("c", 0, 0)]
    return b"\x80\x40" + d, END


def zhs_pack(v):
    """a displacement as the byte whose bits are interleaved: none of -63, 63 can be stated"""
    if v >= 64:
        v -= 1
    elif v <= -64:
        v += 1
    return v & 0xFF


def zhs(kind, a=0, b=0):
    x, y = zhs_pack(a), zhs_pack(b)
    p = q = 0
    for k in range(8):
        xb, yb = (x >> k & 1) << k, (y >> k & 1) << k
        if k % 2 == 0:
            p, q = p | xb, q | yb
        else:
            p, q = p | yb, q | xb
    code = {"s": 2, "m": 1, "c": 4, "e": 0x80, "nop": 0x10, "more": 0x41}[kind]
    return bytes((code, p, q)), {"s": [("s", a, -b)], "m": [("m", a, -b)], "c": [("forget",), ("c", 0, 0)], "e": END, "nop": [], "more": [("more", a, -b)]}[kind]


def spx(kind, a=0, b=0):
    """two unknown bytes, -y, x, y correction, two unknown bytes"""
    c = (a * 3 + b) % 5 - 2
    return b"\x01\x02" + struct.pack(">hhb", b, a, c) + b"\x03\x04", [("s", a, -b - c)]


# ---- headers ------------------------------------------------------------------------------------------------------------------------

def jpx_file(body, colors):
    at = 4 + 0x1C + 4 + 0x18 + 4 * len(colors) + 5
    return struct.pack("<i", at) + junk(0x1C) + struct.pack("<i", len(colors)) + junk(0x18) + b"".join(struct.pack("<i", c) for c in colors) + junk(5) + body


def sew_file(body, colors):
    h = struct.pack("<H", len(colors)) + b"".join(struct.pack("<H", c) for c in colors)
    return h + junk(0x1D78 - len(h)) + body


def emd_file(body, colors):
    return junk(0x30) + body


def bro_file(body, colors):
    return junk(0x100) + body


def zhs_file(body, colors, texts=None):
    """colors: 24-bit values; texts: chart, description, number of each"""
    t = "".join("&$" + "&#".join(x) for x in (texts or []))
    head = bytes([len(colors)]) + b"".join(struct.pack(">I", c)[1:] for c in colors)
    d = t.encode("utf8")
    head += struct.pack("<H", len(d)) + d
    at = 0x0F + 8 + 3
    return junk(0x0F) + struct.pack("<ii", at + len(head), at) + junk(3) + head + body


def spx_file(body, colors):
    return junk(0x11E) + body


def shv_file(body, colors, counts, name="shv design", w=9, h=7):
    out = junk(0x56) + bytes([len(name)]) + name.encode() + bytes([w, h]) + junk(4 + (h + 1) // 2 * w) + bytes([len(colors)]) + junk(18)
    for c, n in zip(colors, counts):
        out += struct.pack(">I", n) + bytes([c]) + junk(9)
    return (out[:-2] if colors else out[:-2]) + body


def pc_file(records, colors, hoop=0):
    """PCD, PCQ, PCS: positions in units of 5/3"""
    out = b"2" + bytes([hoop]) + struct.pack("<H", len(colors)) + b"".join(struct.pack(">I", c)[1:] + b"\x07" for c in colors) + struct.pack("<H", len(records))
    for x, y, c in records:
        out += b"\x01" + struct.pack("<i", x)[:3] + b"\x02" + struct.pack("<i", y)[:3] + bytes([c])
    return out


def pcm_file(records, colors):
    out = junk(2) + struct.pack(">H", len(colors)) + b"".join(struct.pack(">H", c) for c in colors) + struct.pack(">H", len(records))
    for x, y, c in records:
        out += struct.pack(">i", x)[1:] + b"\x01" + struct.pack(">i", y)[1:] + b"\x02" + bytes([c])
    return out


PCM_COLORS = [0x000000, 0x000080, 0x0000FF, 0x008080, 0x00FFFF, 0x800080, 0xFF00FF, 0x800000, 0xFF0000, 0x008000, 0x00FF00, 0x808000, 0xFFFF00, 0x808080, 0xC0C0C0, 0xFFFFFF]


def max_file(points, count=None):
    out = junk(0xD5) + struct.pack("<i", len(points) if count is None else count)
    for x, y in points:
        out += struct.pack("<i", x)[:3] + b"\x05" + struct.pack("<i", y)[:3] + b"\x06"
    return out


def pec_body(actions):
    out = b""
    for a in actions:
        if a[0] == "c":
            out += b"\xfe\xb0\x01"
            continue
        dx, dy = a[1], a[2]
        if a[0] == "s" and -64 <= dx <= 63 and -64 <= dy <= 63:
            out += bytes((dx & 0x7F, dy & 0x7F))
        else:
            flag = {"s": 0x8000, "m": 0x9000, "tm": 0xA000}[a[0]]
            out += struct.pack(">HH", flag | dx & 0xFFF, flag | dy & 0xFFF)
    return out + b"\xff\x00"


def phb_file(body, colors):
    out = bytearray(junk(0x300))
    out[0x71:0x73] = struct.pack("<H", len(colors))
    out[0x73:0x73 + len(colors)] = bytes(colors)
    at = 0x52
    out[0x54:0x58] = struct.pack("<i", 0xA0)
    at += 0xA0
    out[at:at + 4] = struct.pack("<i", 0x40)
    at += 0x42
    out[at:at + 4] = struct.pack("<i", 0x60)
    at += 0x60
    out[at + 14] = len(colors)
    start = at + 15 + len(colors) + 0x15
    return bytes(out[:start]) + body


def phc_file(body, colors, icons=None, w=1, h=2, add=0x20):
    """icons: one more than there are colours, h rows of w bytes"""
    out = bytearray(junk(0x4A))
    icons = b"".join(icons) if icons else bytes((w * h) * (len(colors) + 1))
    out += bytes([h, 0, w]) + struct.pack("<H", len(colors)) + bytes(colors) + icons
    at = len(out) + 5
    out[0x2B] = add
    out[0x30:0x32] = struct.pack("<H", at - add)
    out += junk(5)
    out += struct.pack("<H", 6) + junk(6)
    out += struct.pack("<i", 9) + junk(9 + 10)
    out += bytes([len(colors)]) + junk(len(colors) + 0x1D)
    return bytes(out) + body


# ---- from actions to events -----------------------------------------------------------------------------------------------------------

def play(records, ratio=1):
    """events of a design from the actions of its records"""
    x = y = 0
    mx = my = 0
    ev = []
    for acts in records:
        if acts == END:
            break
        for a in acts:
            if a[0] == "more":
                mx, my = mx + a[1], my + a[2]
                continue
            if a[0] == "forget":
                mx = my = 0
                continue
            if a[0] in "smc":
                x, y = x + (a[1] + mx) * ratio, y + (a[2] + my) * ratio
                if a[0] != "c":
                    mx = my = 0
                ev.append({"s": ("P", x, y), "m": ("J", x, y), "c": ("C",)}[a[0]])
            elif a[0] == "t":
                ev.append(("T",))
            elif a[0] == "n":
                ev.append(("N", a[1]))
            else:
                ev.append({"stop": ("S",), "fast": ("FAST",), "slow": ("SLOW",)}[a[0]])
    return ev + [("E",)]
