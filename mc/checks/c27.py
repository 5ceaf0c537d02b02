"""Formats that are only read: every record, every header class and every short program, against independent descriptions."""
import itertools
import struct

from .. import codec_pec
from .. import refenc as R
from .. import refread as F
from .. import rt
from .c36 import table

PROPERTY = "C27"
LEVEL = "model_checking"
RULE = "case = one file of one read-only format, built from an independent description of its layout and read by the real reader; distinct_nontrivial = distinct event sequences"
ASSUMPTIONS = ["files follow the layout of their format; for formats without a public specification, the layout is the one documented by the code and by libembroidery"]
BIG = (0, 1, 2, 63, 64, 126, 127)


def events(p):
    out = []
    for s in p.stitches:
        c, thread, needle, order = R.decode(s[2])
        if c == R.STITCH:
            out.append(("P", s[0], s[1]))
        elif c == R.JUMP:
            out.append(("J", s[0], s[1]))
        elif c == R.NEEDLE_SET:
            out.append(("N", needle))
        else:
            out.append({R.TRIM: ("T",), R.COLOR_CHANGE: ("C",), R.STOP: ("S",), R.FAST: ("FAST",), R.SLOW: ("SLOW",), R.END: ("E",)}.get(c, ("?", s[2])))
    return out


def differ(got, want):
    if len(got) == len(want):
        for k, (a, b) in enumerate(zip(got, want)):
            if a[0] != b[0] or len(a) != len(b) or any(u is None or abs(u - v) > 1e-6 for u, v in zip(a[1:], b[1:])):
                return "event %d is %r, want %r (of %d)" % (k, a, b, len(want))
        return None
    for k, (a, b) in enumerate(zip(got, want)):
        if a != b:
            return "event %d is %r, want %r; %d events, want %d" % (k, a, b, len(got), len(want))
    return "%d events, want %d; first extra/missing %r" % (len(got), len(want), (got[len(want):] or want[len(got):])[0])


def colors_of(p):
    return [t.color & 0xFFFFFF for t in p.threadlist]


def palette(name, idx, modulo=True):
    pal = table()["palettes"][name]
    return [int(pal[i % len(pal)][0], 16) if pal[i % len(pal)] else None for i in idx]


def judge(ext, data, want, colors=None, name=None, icons=None):
    p = rt.load(ext, bytes(data))
    if icons is not None:
        w, parts = icons
        for k, part in enumerate(parts):
            g = p.extras.get("pec_graphic_%d" % k)
            if g is None and k < len(parts) - 1:
                return "icon %d is missing" % k
            if g is not None and (bytes(g[0]).hex(), g[1]) != (part, w):
                return "icon %d read as %r of %r bytes a row" % (k, bytes(g[0]).hex(), g[1])
    m = differ(events(p), want)
    if m:
        return m
    if colors is not None:
        c = colors_of(p)
        if len(c) != len(colors) or any(b is not None and a != b for a, b in zip(c, colors)):
            return "threads %r, want %r" % (c, colors)
    if name is not None and p.extras.get("name") != name:
        return "name %r, want %r" % (p.extras.get("name"), name)
    return None


def case(rec, ext, data, want, colors=None, name=None, n=1):
    rec.transitions += n
    rec.outcome(tuple(want) if len(want) < 50 else len(want))
    rec.state((ext, bytes(data)))
    rec.case(lambda: judge(ext, data, want, colors, name),
             lambda: {"kind": "file", "ext": ext, "data": bytes(data).hex(), "want": [list(w) for w in want], "colors": colors, "name": name})
    if len(data) < 200:
        rec.sample({"format": ext, "file": bytes(data).hex(), "events": repr(want)[:200]})


# ---- fixed records -------------------------------------------------------------------------------------------------------------------

def make(fmt, ctrl, a, b):
    ext, size, fn, ci, (ai, bi), _ = F.FIXED[fmt]
    r = bytearray(size)
    r[ci], r[ai], r[bi] = ctrl, a, b
    return bytes(r)


def usable(fmt, a, b):
    """zero has one sign in sign-and-magnitude formats; needles and counts are single bytes"""
    return (fmt != "100" or (a != 0x80 and b != 0x80)) and (fmt != "zxy" or b != 255)


def fixed_ctrl(fmt, ctrl, rec):
    ext, size, fn, ci, (ai, bi), _ = F.FIXED[fmt]
    if fmt == "barudan" and not ctrl & 0x80:
        return
    pairs = [(a, b) for a in range(256) for b in (0, 1, 2, 127, 128, 129, 255)] + [(a, b) for b in range(256) for a in (0, 1, 2, 127, 128, 129, 255)]
    pairs = [p for p in pairs if usable(fmt, *p)]
    start = make(fmt, {"10o": 0x80, "100": 0x61, "dsb": 0x80, "barudan": 0x80, "stc": 1, "sunstar": 7}.get(fmt, 0), 3, 4)
    chain, acts = bytearray(start), [fn(start)]
    for a, b in pairs:
        r = make(fmt, ctrl, a, b)
        ac = fn(r)
        if ac == F.END:
            if not {a, b} <= {0, 1, 128, 255}:
                continue
            body = start + r + start
            case(rec, ext, F.head(fmt) + body, F.play([fn(start), ac]), n=3)
        else:
            chain += r
            acts.append(ac)
    if len(chain) > size:
        case(rec, ext, F.head(fmt) + bytes(chain) + start, F.play(acts + [fn(start)]), n=len(acts))


ALPHA = {
    "10o": [(0x80, 5, 9), (0xE0, 200, 7), (0x90, 30, 255), (0xD0, 0, 12), (0x8A, 0, 0), (0x85, 0, 0), (0x82, 0, 0), (0x81, 0, 0), (0x87, 0, 0), (0x8B, 1, 1)],
    "100": [(0x61, 5, 9), (0x61, 0x85, 0xFF), (0x21, 100, 3), (0x01, 0x90, 0x81), (0x60, 0, 0), (0x00, 4, 4)],
    "dsb": [(0x80, 5, 9), (0xE0, 200, 7), (0x81, 30, 255), (0xC1, 0, 12), (0xE7, 0, 0), (0xE8, 0, 0), (0xE9, 0, 0), (0xF7, 0, 0), (0xF8, 0, 0), (0x85, 1, 1)],
    "dsz": [(0x80, 5, 9), (0xE0, 200, 7), (0x81, 30, 255), (0xC1, 0, 12), (0x9B, 0, 0), (0x82, 0, 0), (0x83, 0, 0), (0x9A, 0, 0), (0x85, 0, 0), (0x9F, 1, 1)],
    "inb": [(0x00, 5, 9), (0x60, 200, 7), (0x02, 30, 255), (0x42, 0, 12), (0x01, 0, 0), (0x21, 6, 7), (0x04, 0, 0), (0x08, 1, 1)],
    "new": [(0x00, 5, 9), (0x60, 200, 7), (0x01, 30, 255), (0x41, 0, 12), (0x02, 0, 0), (0x22, 1, 1), (0x11, 0, 0), (0x04, 3, 3)],
    "stc": [(1, 5, 9), (1, 200, 255), (0, 30, 128), (0, 0, 12), (2, 0, 0), (3, 0, 0), (17, 0, 0), (25, 0, 0)],
    "zxy": [(0x00, 5, 9), (0x0C, 200, 7), (0x02, 30, 255), (0x0A, 0, 12), (0x20, 0, 3), (0x20, 1, 9), (0x20, 255, 0), (0x40, 1, 1)],
    "barudan": [(0x80, 5, 9), (0xE0, 200, 7), (0x81, 30, 255), (0xA2, 0, 12), (0x82, 0, 0), (0x84, 7, 8), (0xC5, 9, 9), (0x86, 0, 0), (0x87, 3, 0), (0x88, 0, 4), (0x89, 0, 0), (0xF7, 6, 6), (0x98, 0, 0), (0x83, 0, 0)],
    "sunstar": [(7, 5, 9), (7, 0x85, 0xFF), (4, 30, 0x90), (4, 0, 12), (0x80, 0, 0), (0x80, 3, 0x84), (0x87, 0, 0), (0x87, 0, 5), (0x84, 1, 1), (0, 0, 0), (0x55, 1, 1)],
}
ALPHA["fxy"] = ALPHA["gt"] = ALPHA["dsz"]

# ---- records of several lengths ------------------------------------------------------------------------------------------------------

VARS = {
    "bro": (F.bro, F.bro_file, [("s", 5, 9), ("s", -127, 127), ("m", 300, -400), ("m2", -1, 0), ("m", 0, 77), ("n", 1, 20), ("n", 15, 0), ("nop",), ("e", 2), ("e", 0xE0), ("e", 0x44)]),
    "emd": (F.emd, F.emd_file, [("s", 5, 9), ("s", -127, 127), ("m", 100, -128), ("m", -128, 0), ("c",), ("t",), ("t2",), ("nop",), ("e",), ("u",)]),
    "jpx": (F.jpx, F.jpx_file, [("s", 5, 9), ("s", -127, 127), ("m", 100, -128), ("m", -128, 0), ("c", 0, 0), ("c", 7, 0), ("c", 0, -7), ("c", 5, 6), ("e",), ("u",)]),
    "sew": (F.sew, F.sew_file, [("s", 5, 9), ("s", -127, 127), ("m", 100, -128), ("m2", -128, 0), ("s2", 1, 2), ("c", 0, 0), ("e",)]),
    "zhs": (F.zhs, F.zhs_file, [("s", 5, 9), ("s", -129, 128), ("m", 100, -100), ("m", 64, -64), ("more", 120, 7), ("c", 0, 0), ("nop", 3, 3), ("e", 0, 0)]),
    "spx": (F.spx, F.spx_file, [("s", 5, 9), ("s", -300, 400), ("s", 0, 0), ("s", 32000, -32000)]),
}


def var_case(rec, fmt, recs, colors=(1, 2), wantcolors=None):
    enc, wrap, _ = VARS[fmt]
    body, acts = b"", []
    for r in recs:
        b, a = enc(*r)
        body += b
        acts.append(a)
    case(rec, fmt, wrap(body, list(colors)), F.play(acts), wantcolors, n=len(recs))


# ---- SHV ---------------------------------------------------------------------------------------------------------------------------------

SHV = [("s", 5, 9), ("s", -127, 127), ("j", 300, -400, 0), ("j", -300, 40, 1), ("j", 1, 0, 2), ("j", 0, 0, 1), ("nop",)]


def shv_build(blocks, colors):
    body, ev, counts = b"", [], []
    x = y = 0
    for k, b in enumerate(blocks):
        if k:
            ev.append(("C",))
        n = 0
        for r in b:
            if r[0] == "s":
                x, y = x + r[1], y + r[2]
                body += struct.pack("bb", r[1], r[2])
                ev.append(("P", x, y))
                n += 1
            elif r[0] == "nop":
                body += b"\x80\x03"
                n += 1
            else:
                x, y = x + r[1], y + r[2]
                body += b"\x80\x01" + struct.pack(">hh", r[1], r[2])
                ev.append(("J", x, y))
                n += 3
                for q in range(r[3]):
                    x, y = x + 10 + q, y - 3
                    body += struct.pack("bb", 10 + q, -3)
                    ev.append(("J", x, y))
                    n += 1
                body += b"\x80\x02"
                n += 1
        counts.append(n)
    return body, ev + [("E",)], counts


def shv_case(rec, blocks, colors, **kw):
    body, ev, counts = shv_build(blocks, colors)
    case(rec, "shv", F.shv_file(body, colors, counts, **kw), ev, palette("Shv", colors), kw.get("name", "shv design"), n=sum(map(len, blocks)))


# ---- KSM ---------------------------------------------------------------------------------------------------------------------------------

KSM = [(0x00, 5, 9), (0x00, -200, 255), (0x00, 0, 0), (0x07, 0, 0), (0x13, 3, 0), (0x1D, 0, 0), (0x17, 0, 0), (0x19, 4, 4), (0x0B, 0, 0), (0x12, 6, 6), (0x05, 0, 0), (0x1B, 0, 0), (0x08, 0, 0), (0x02, 1, 1)]


def ksm_build(recs):
    """Once cut, or after a needle change, moves are jumps until sewing starts again; nothing is cut before the first stitch."""
    body, ev = b"", []
    x = y = 0
    cut = sewn = False
    for c, dx, dy in recs:
        body += bytes((abs(dy), abs(dx), c | 0x80 | (0x40 if dx < 0 else 0) | (0x20 if dy > 0 else 0)))
        x, y = x + dx, y + dy
        if dx or dy:
            ev.append(("J" if cut else "P", x, y))
            sewn = sewn or not cut
        if c in (0x07, 0x13, 0x1D):
            if sewn:
                ev.append(("T",))
            cut = True
        elif c in (0x17, 0x18, 0x19, 0x1B):
            cut = False
        elif 0x0B <= c <= 0x12:
            ev.append(("N", c - 0x0A))
            cut = True
        elif c == 5:
            ev.append(("S",))
        elif c:
            break
    return F.junk(0x200) + body, ev + [("E",)]


# ---- MIT ---------------------------------------------------------------------------------------------------------------------------------

MIT = [(7, 3, 4), (7, -31, 31), (12, 5, -6), (4, 1, 2), (5, -2, 1), (8, 0, 0), (8, 3, 3), (1, 4, 4), (0, 0, 0)]


def mit_build(recs):
    body, ev = b"", []
    x = y = 0
    prev = None
    for c, dx, dy in recs:
        body += bytes((abs(dx) | (0x80 if dx < 0 else 0) | (c >> 2) << 5, abs(dy) | (0x80 if dy > 0 else 0) | (c & 3) << 5))
        if c == 8:
            if prev == 7:
                ev.append(("C",))
        elif c == 0:
            break
        else:
            x, y = x + 2 * dx, y + 2 * dy
            ev.append(("J" if c == 12 else "P", x, y))
        prev = c
    return body, ev + [("E",)]


def mit_case(rec, recs):
    body, ev = mit_build(recs)

    def go():
        got = events(rt.load("mit", body))
        while got[-2:] == [("E",), ("E",)]:
            got.pop()
        return differ(got, ev)
    rec.transitions += len(recs)
    rec.outcome(tuple(ev))
    rec.state(body)
    rec.case(go, lambda: {"kind": "mit", "recs": recs})


# ---- PCD PCQ PCS PCM MAX ----------------------------------------------------------------------------------------------------------------

PC = [(0, 0, 0), (30, -60, 0), (-8388608, 8388607, 0), (7, 7, 1), (3, 600, 4), (-1, 1, 4), (9, 9, 3), (5, 5, 2)]


def pc_want(recs):
    ev = []
    for x, y, c in recs:
        if c == 0:
            ev.append(("P", x * 5 / 3.0, -y * 5 / 3.0))
        elif c & 1:
            ev.append(("C",))
        elif c & 4:
            ev.append(("J", x * 5 / 3.0, -y * 5 / 3.0))
        else:
            break
    return ev + [("E",)]


def pc_case(rec, ext, recs, colors=(0x102030, 0xFF8001)):
    if ext == "pcm":
        colors = [c % 16 for c in colors]
        case(rec, ext, F.pcm_file(recs, colors), pc_want(recs), [F.PCM_COLORS[c] for c in colors], n=len(recs))
    else:
        case(rec, ext, F.pc_file(recs, colors), pc_want(recs), list(colors), n=len(recs))


MAXP = [(0, 0), (100, -200), (-8388608, 8388607), (1, 1)]


def max_case(rec, pts, extra=b"", count=None):
    n = len(pts) if count is None else count
    case(rec, "max", F.max_file(pts, count) + extra, [("P", x * 1.235, y * 1.235) for x, y in pts[:n]] + [("E",)], n=len(pts))


# ---- PHB PHC ------------------------------------------------------------------------------------------------------------------------------

PECA = [("s", 3, -4), ("s", -64, 63), ("s", 1000, -2048), ("m", 70, 3), ("tm", -100, 5), ("c",), ("c",)]


def pec_play(acts):
    x = y = 0
    ev = []
    for a in acts:
        if a[0] == "c":
            ev.append(("C",))
            continue
        x, y = x + a[1], y + a[2]
        if a[0] == "tm":
            ev.append(("T",))
        ev.append(("P" if a[0] == "s" else "J", x, y))
    return ev + [("E",)]


def phx_case(rec, ext, acts, colors, icons=None):
    """A change between equal colours stands for a stop; colours here are different unless stated."""
    body = F.pec_body(acts)
    wrap = F.phb_file if ext == "phb" else F.phc_file
    want = pec_play(acts)
    cols = list(colors)
    k = 0
    out = []
    dropped = set()
    for e in want:
        if e == ("C",):
            k += 1
            if k < len(cols) and cols[k] == cols[k - 1]:
                dropped.add(k)
                e = ("S",)
        out.append(e)
    keep = [c for i, c in enumerate(cols) if i not in dropped]
    case(rec, ext, wrap(body, cols), out, palette("Pec", keep), n=len(acts))


# ---- relations to formats checked elsewhere ---------------------------------------------------------------------------------------------

def same_as(ext, prefix, base, baseprefix, body):
    a = rt.load(ext, prefix + body)
    b = rt.load(base, baseprefix + body)
    if a.stitches != b.stitches:
        return "%s reads %r, %s reads %r" % (ext, a.stitches[:12], base, b.stitches[:12])
    return None


def rel_case(rec, ext, body):
    def go():
        if ext == "stx":
            return same_as("stx", F.junk(0x0C) + struct.pack("<iii", 99, 98, 40) + F.junk(16), "exp", b"", body)
        return same_as(ext, F.junk(0x100) if ext == "exy" else b"", "dst", b" " * 512, body)
    rec.transitions += len(body) // 3
    rec.state((ext, body))
    rec.case(go, lambda: {"kind": "rel", "ext": ext, "body": body.hex()})


def far(rec):
    """stitches that start far into the file"""
    body = b"\x05\x09\x80\x04\x10\x10\x80\x80\x07\x00\x03\x03"
    for at in (40, 41, 127, 128, 255, 256, 300, 65535, 65536, 65540, 70000, 1 << 17):
        def go(at=at):
            return same_as("stx", F.junk(0x0C) + struct.pack("<iii", 99, 98, at) + F.junk(at - 24), "exp", b"", body)
        rec.transitions += 1
        rec.state(("far", at))
        rec.case(go, {"kind": "far", "at": at})


def shards(tier):
    th = tier == "thorough"
    out = [("ctrl", f, lo) for f in F.FIXED for lo in range(0, 256, 32)]
    out += [("prog", f, n, k) for f in F.FIXED for n in range(1, (5 if th else 4)) for k in range(len(ALPHA[f]))]
    out += [("var", f, n, k) for f in VARS for n in range(1, (6 if th else 5)) for k in range(len(VARS[f][2]))]
    out += [("vdisp", f) for f in VARS]
    out += [("zbits", lo) for lo in range(0, 256, 64)]
    out += [("shv", n, th) for n in range(1, 4)] + [("shvhead",)]
    out += [("ksm", n, k) for n in range(1, (5 if th else 4)) for k in range(len(KSM))] + [("ksmdisp",)]
    out += [("mit", n, k) for n in range(1, (6 if th else 5)) for k in range(len(MIT))] + [("mitdisp",)]
    out += [("pc", e, n) for e in ("pcd", "pcq", "pcs", "pcm") for n in range(1, (5 if th else 4))] + [("pcdisp", e) for e in ("pcd", "pcq", "pcs", "pcm")] + [("max", th)]
    out += [("phx", e, n) for e in ("phb", "phc") for n in range(1, (5 if th else 4))] + [("phxhead", e) for e in ("phb", "phc")]
    out += [("threads", f) for f in ("jpx", "sew", "zhs", "shv")]
    out += [("rel", e, n) for e in ("exy", "tap", "stx") for n in range(1, (5 if th else 4))] + [("reldisp", e) for e in ("exy", "tap", "stx")]
    out += [("heads",)]
    out += [("rep", f) for f in list(F.FIXED) + list(VARS) + ["ksm", "mit", "shv", "pcd", "pcq", "pcs", "pcm", "phb", "phc", "exy", "tap", "stx"]]
    return out


def repeated(alpha):
    """Every record 1100 and every pair of records 300 times over."""
    for a in alpha:
        yield (a,) * 1100
    for w in itertools.product(alpha, repeat=2):
        yield w * 300


def rep(rec, f):
    if f in F.FIXED:
        ext, size, fn, _, _, _ = F.FIXED[f]
        for w in repeated(ALPHA[f]):
            rs = [make(f, *r) for r in w]
            case(rec, ext, F.head(f) + b"".join(rs), F.play([fn(r) for r in rs]), None, "design" if f in ("dsb", "dsz") else None, n=len(rs))
    elif f in VARS:
        for w in repeated(VARS[f][2]):
            var_case(rec, f, w)
    elif f == "ksm":
        for w in repeated(KSM):
            data, ev = ksm_build(w)
            case(rec, "ksm", data, ev, n=len(w))
    elif f == "mit":
        for w in repeated(MIT):
            mit_case(rec, w)
    elif f == "shv":
        for w in itertools.product(SHV, repeat=2):
            shv_case(rec, [w * 300], [7])
            shv_case(rec, [w * 60] * 20, list(range(20)))
    elif f[:2] == "pc":
        for w in repeated(PC):
            pc_case(rec, f, w)
    elif f[:2] == "ph":
        for w in repeated(PECA):
            if ("c",) not in w:
                phx_case(rec, f, w, [3])
    else:
        for w in repeated(EXPB if f == "stx" else DSTB):
            rel_case(rec, f, b"".join(w))


DSTB = [b"\x01\x00\x03", b"\x44\x9a\x2b", b"\x00\x81\x83", b"\x05\x00\x83", b"\x00\x00\xc3", b"\x00\x00\x43", b"\x00\x00\xf3", b"\x02\x00\x07"]
EXPB = [b"\x05\x09", b"\x81\x7f", b"\x80\x04\x05\x09", b"\x80\x80\x07\x00", b"\x80\x01\x00\x00", b"\x80\x01\x03\x00", b"\x80\x02\x01\x01", b"\x80\x10\x00\x00"]


def run(shard, rec):
    k = shard[0]
    rec.traces += 1
    if k == "rep":
        rep(rec, shard[1])
    elif k == "ctrl":
        for c in range(shard[2], shard[2] + 32):
            fixed_ctrl(shard[1], c, rec)
    elif k == "prog":
        f = shard[1]
        ext, size, fn, _, _, _ = F.FIXED[f]
        for rest in itertools.product(ALPHA[f], repeat=shard[2] - 1):
            rs = [make(f, *r) for r in (ALPHA[f][shard[3]],) + rest]
            acts = [fn(r) for r in rs]
            case(rec, ext, F.head(f) + b"".join(rs), F.play(acts), None, "design" if f in ("dsb", "dsz") else None, n=len(rs))
    elif k == "var":
        for rest in itertools.product(VARS[shard[1]][2], repeat=shard[2] - 1):
            var_case(rec, shard[1], (VARS[shard[1]][2][shard[3]],) + rest)
    elif k == "vdisp":
        f = shard[1]
        lo, hi = {"zhs": (-129, 128), "spx": (-700, 700)}.get(f, (-127, 127))
        for d in range(lo, hi + 1):
            if f == "zhs" and abs(d) == 63:
                continue
            for kind in {r[0] for r in VARS[f][2] if len(r) == 3 and r[0] not in "en"}:
                if f == "bro" and kind in ("m", "m2"):
                    for v in (d, d * 257, d * 256 + 255):
                        var_case(rec, f, [("s", 1, 1), (kind, v, 7), (kind, 7, v), ("s", 2, 3)])
                for o in (0, -5, 100):
                    var_case(rec, f, [("s", 1, 1), (kind, d, o), ("s", 2, 3)])
                    var_case(rec, f, [("s", 1, 1), (kind, o, d), ("s", 2, 3)])
        if f == "bro":
            for n in range(1, 16):
                var_case(rec, f, [("s", 1, 1), ("n", n, 5), ("s", 2, 2)])
    elif k == "zbits":
        for a in range(shard[1], shard[1] + 64):
            body, want = b"", []
            x = y = 0
            for b in range(256):
                body += bytes((2, a, b))
                dx = dy = 0
                for bit in range(8):
                    xs, ys = (a, b) if bit % 2 == 0 else (b, a)
                    dx |= xs & 1 << bit
                    dy |= ys & 1 << bit
                dx, dy = [v + (v >= 63) - (v <= -63) for v in (F.s8(dx), F.s8(dy))]
                x, y = x + dx, y - dy
                want.append(("P", x, y))
            case(rec, "zhs", F.zhs_file(body, [1]), want + [("E",)], [1], n=256)
    elif k == "shv":
        n = shard[1]
        if n == 1:
            for m in range(1, 5 if shard[2] else 4):
                for b in itertools.product(SHV, repeat=m):
                    shv_case(rec, [b], [7])
        else:
            small = list(itertools.product(SHV, repeat=1)) + (list(itertools.product(SHV, repeat=2)) if n == 2 or shard[2] else [])
            for bs in itertools.product(small, repeat=n):
                if n == 3 and sum(map(len, bs)) > (5 if shard[2] else 3):
                    continue
                shv_case(rec, bs, list(range(3, 3 + n)))
    elif k == "shvhead":
        for n in range(0, 30):
            shv_case(rec, [[SHV[0], SHV[2]]], [n], name="x" * n)
            for w in (0, 1, 9):
                shv_case(rec, [[SHV[0], SHV[2]]], [n], w=w, h=n)
        for n in range(1, 256):
            shv_case(rec, [[("s", 1, v & 63)] for v in range(n)], [v % 43 for v in range(n)])
        # no colours stated: everything is sewn with the first thread there is
        body, ev, _ = shv_build([[SHV[0], SHV[2], SHV[0]]], [])
        case(rec, "shv", F.shv_file(body, [], []), ev, [], "shv design")
    elif k == "ksm":
        for rest in itertools.product(KSM, repeat=shard[1] - 1):
            data, ev = ksm_build((KSM[shard[2]],) + rest)
            case(rec, "ksm", data, ev, n=shard[1])
    elif k == "ksmdisp":
        for d in range(-255, 256):
            for o in (0, 9, -255):
                for c in (0, 7, 0x17, 0x0C, 5):
                    data, ev = ksm_build([(0, 1, 1), (c, d, o), (c, o, d), (0, 1, 1)])
                    case(rec, "ksm", data, ev, n=4)
        for c in range(32):
            data, ev = ksm_build([(0, 1, 1), (c, 5, 6), (0, 1, 1)])
            case(rec, "ksm", data, ev, n=3)
    elif k == "mit":
        for rest in itertools.product(MIT, repeat=shard[1] - 1):
            mit_case(rec, (MIT[shard[2]],) + rest)
    elif k == "mitdisp":
        for c in range(1, 16):
            for d in range(-31, 32):
                for o in (0, 5, -31):
                    mit_case(rec, [(7, 1, 1), (c, d, o), (c, o, d), (7, 1, 1)])
    elif k == "pc":
        for recs in itertools.product(PC, repeat=shard[2]):
            pc_case(rec, shard[1], recs)
    elif k == "pcdisp":
        for e in range(24):
            for v in (1 << e, -(1 << e), (1 << e) - 1, 1 - (1 << e)):
                if -(1 << 23) <= v < 1 << 23:
                    for c in (0, 4):
                        pc_case(rec, shard[1], [(v, 3, c), (3, v, c), (v, v, 0)])
        for n in range(0, 40):
            pc_case(rec, shard[1], PC[:2], [v * 0x070503 & 0xFFFFFF for v in range(n)])
        for c in range(256):
            pc_case(rec, shard[1], [PC[0], (5, 6, c), PC[1]])
        for n in (255, 256, 257, 1000):
            pc_case(rec, shard[1], [(v, -v, 0) for v in range(n)])
    elif k == "max":
        for n in range(0, 5 if shard[1] else 4):
            for pts in itertools.product(MAXP, repeat=n):
                max_case(rec, pts)
                max_case(rec, pts, b"\x01\x02\x03\x04\x05\x06\x07\x08" * 2)
                if n:
                    max_case(rec, pts, count=n - 1)
                    max_case(rec, pts, b"", count=n + 1)
        for e in range(24):
            for v in (1 << e, -(1 << e), (1 << e) - 1):
                if -(1 << 23) <= v < 1 << 23:
                    max_case(rec, [(v, 5), (5, v)])
        for n in (255, 256, 257, 1000, 65535, 65536, 65540):
            max_case(rec, [(v, -v) for v in range(n)])
    elif k == "phx":
        for acts in itertools.product(PECA, repeat=shard[2]):
            phx_case(rec, shard[1], acts, range(1, 2 + sum(a[0] == "c" for a in acts)))
    elif k == "phxhead":
        for n in range(1, 64):
            acts = [("s", 1, 2)] + [("c",), ("s", 3, 4)] * (n - 1)
            phx_case(rec, shard[1], acts, range(1, n + 1))
        for a in range(1, 65):
            phx_case(rec, shard[1], [("s", 1, 2), ("c",), ("s", 3, 3)], [a, a % 64 + 1])
            phx_case(rec, shard[1], [("s", 1, 2), ("c",), ("s", 3, 3), ("c",), ("m", 9, 9), ("s", 0, 5)], [a, a, a % 64 + 1])
        for d in range(-2048, 2048, 1):
            phx_case(rec, shard[1], [("s", d, 5), ("m", 5, d), ("tm", d, d), ("s", 1, 1)], [5])
        if shard[1] == "phc":
            for n, w, h in itertools.product(range(1, 6), (1, 2, 5, 6), (1, 3, 8, 38)):
                parts = [bytes((7 * k + 3 * j + 1) & 0xFF for j in range(w * h)) for k in range(n + 1)]
                if 0x4A + 5 + n + w * h * (n + 1) + 5 > 1000:
                    continue
                data = F.phc_file(F.pec_body([("s", 1, 2), ("s", 3, 4)]), range(1, n + 1), parts, w, h)
                icons = [w, [v.hex() for v in parts]]
                rec.state(("icons", n, w, h))
                rec.transitions += n
                rec.case(lambda: judge("phc", data, [("P", 1, 2), ("P", 4, 6), ("E",)], palette("Pec", range(1, n + 1)), None, icons),
                         lambda: {"kind": "file", "ext": "phc", "data": data.hex(), "want": [["P", 1, 2], ["P", 4, 6], ["E"]], "colors": palette("Pec", range(1, n + 1)), "name": None, "icons": icons})
            for add in range(0, 0xC0):
                data = F.phc_file(F.pec_body([("s", 1, 2), ("s", 3, 4)]), [1 + v for v in range(40)], add=add)
                case(rec, "phc", data, [("P", 1, 2), ("P", 4, 6), ("E",)], palette("Pec", range(1, 41)), n=2)
        if shard[1] == "phb":
            for n in (64, 100, 127):
                phx_case(rec, "phb", [("s", 1, 2), ("s", 3, 4)], [1 + v % 64 for v in range(n)])
    elif k == "threads":
        f = shard[1]
        far(rec)
        if f == "sew":
            for n in list(range(0, 200)) + [1000, 65535]:
                var_case(rec, "sew", [("s", 1, 2)], [n], palette("Sew", [n]))
                if n < 200:
                    var_case(rec, "sew", [("s", 1, 2)], list(range(n)), palette("Sew", range(n)))
            for c in range(256):
                if c == 0x80:
                    continue
                want = [("P", 1, -2)] + ([("C",)] if c & 1 else [("J", 6, -11)] if c in (2, 4) else [("P", 6, -11)] if c == 16 else [])
                if len(want) == 2:
                    want.append(("P",) + ((4, -6) if c & 1 else (9, -15)))
                case(rec, "sew", F.sew_file(b"\x01\x02\x80" + bytes([c]) + b"\x05\x09\x03\x04", [1]), want + [("E",)], n=3)
        elif f == "jpx":
            for n in list(range(0, 40)) + [255, 256, 257, 300, 600]:
                def go(n=n):
                    p = rt.load("jpx", F.jpx_file(F.jpx("s", 3, 4)[0], list(range(5, 5 + n))))
                    names = [t.description for t in p.threadlist]
                    if names != ["JPX index %d" % v for v in range(5, 5 + n)]:
                        return "thread names %r" % (names,)
                    return differ(events(p), [("P", 3, -4), ("E",)])
                rec.transitions += n
                rec.case(go, {"kind": "jpxnames", "n": n})
        elif f == "zhs":
            texts = [("Isacord", "red", "123"), ("", "blue", "45"), ("Chart", "", ""), ("ĉ", "straße", "1")]
            for n in range(0, 5):
                for ts in itertools.product(texts, repeat=n):
                    def go(ts=ts):
                        cols = [0x102030 * (v + 1) & 0xFFFFFF for v in range(len(ts))]
                        full = [(a, b, c + "\r\n" if c else "") for a, b, c in ts]
                        p = rt.load("zhs", F.zhs_file(F.zhs("s", 3, 4)[0], cols, full))
                        if colors_of(p) != cols:
                            return "colours %r, want %r" % (colors_of(p), cols)
                        got = [(t.chart, t.description, t.catalog_number) for t in p.threadlist]
                        want = [(a or None, b or None, c if len(c) > 1 else None) for a, b, c in ts]
                        if got != want:
                            return "thread texts %r, want %r" % (got, want)
                        return differ(events(p), [("P", 3, -4), ("E",)])
                    rec.transitions += len(ts)
                    rec.case(go, {"kind": "zhstexts", "ts": ts})
            for n in range(0, 256):
                var_case(rec, "zhs", [("s", 1, 2)], [v * 0x010307 & 0xFFFFFF for v in range(n)], [v * 0x010307 & 0xFFFFFF for v in range(n)])
        else:
            for n in range(43):
                shv_case(rec, [[SHV[0]], [SHV[2]]], [n, 42 - n])
    elif k == "rel":
        alpha = EXPB if shard[1] == "stx" else DSTB
        for seq in itertools.product(alpha, repeat=shard[2]):
            rel_case(rec, shard[1], b"".join(seq))
    elif k == "reldisp":
        for a in range(256):
            if shard[1] == "stx":
                rel_case(rec, "stx", b"".join(bytes((a, b)) if a != 0x80 else b"\x80\x04" + bytes((b, a)) for b in range(256)))
            else:
                rel_case(rec, shard[1], b"".join(bytes((a, b, c)) for b in range(0, 256, 5) for c in (3, 0x2F, 0x83)) + b"\0\0\xf3")
    elif k == "heads":
        # a needle changer's header: the name is read, whatever its length
        for f in ("dsb", "dsz"):
            for n in range(1, 17):
                nm = "abcdefghijklmnop"[:n]
                fn = F.FIXED[f][2]
                r = make(f, 0x80, 3, 4)
                case(rec, f, F.dst_like_header(nm) + r, F.play([fn(r)]), None, nm)
        for n in list(range(0, 300)) + [4000]:
            r = make("zxy", 0, 3, 4)
            case(rec, "zxy", b"\0" + struct.pack(">H", n) + F.junk(n) + r, F.play([F.r_zxy(r)]))
        for body in (b"", b"\x80", b"\x80\x01"):
            for f in F.FIXED:
                if f != "sunstar":
                    case(rec, F.FIXED[f][0], F.head(f) + body, [("E",)])


def replay(d):
    if d["kind"] == "file":
        return judge(d["ext"], bytes.fromhex(d["data"]), [tuple(w) for w in d["want"]], d["colors"], d["name"], d.get("icons"))
    if d["kind"] == "rel":
        class Rec:
            transitions = 0
            def state(self, o): pass
            def case(self, fn, rep): self.msg = fn()
        r = Rec()
        rel_case(r, d["ext"], bytes.fromhex(d["body"]))
        return r.msg
    if d["kind"] == "mit":
        class Rec:
            transitions = 0
            def state(self, o): pass
            def outcome(self, o): pass
            def case(self, fn, rep): self.msg = fn()
        r = Rec()
        mit_case(r, [tuple(v) for v in d["recs"]])
        return r.msg
    return None


def bounds(tier):
    th = tier == "thorough"
    return {"formats": sorted(list(F.FIXED) + list(VARS) + ["shv", "ksm", "mit", "pcd", "pcq", "pcs", "pcm", "max", "phb", "phc", "exy", "tap", "stx"]),
            "fixed_records": "all 256 control bytes x (256 values of either displacement byte x 7 of the other)", "program_length": 4 if th else 3, "variable_record_program_length": 5 if th else 4,
            "long_files": "every record 1100 times and every pair of records 300 times over"}
