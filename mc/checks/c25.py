"""PNG images: every small design drawn, decoded by an independent decoder, and compared pixel by pixel with an ideal-line reference."""
import itertools
import struct
import zlib

from .. import refenc as R
from .. import rt

PROPERTY = "C25"
LEVEL = "model_checking"
RULE = "case = one design with one group of drawing settings written as PNG, decoded and compared pixel by pixel with a reference that knows for every pixel which lines must, may and may not cover it; distinct_nontrivial = distinct images"
ASSUMPTIONS = ["a line covers per step along its longer axis the nearest pixel and the pixels of the line width beside it; where two pixels are equally near either may be drawn",
               "an even width may lie one pixel to either side", "very dark threads are drawn dark grey", "fancy shading changes colours, not which pixels are drawn"]


def decode(data):
    """width, height, rows of (r, g, b, a)."""
    if data[:8] != b"\x89PNG\r\n\x1a\n":
        raise ValueError("no PNG signature")
    pos, chunks = 8, []
    while pos < len(data):
        n, tag = struct.unpack(">I4s", data[pos:pos + 8])
        body = data[pos + 8:pos + 8 + n]
        crc = struct.unpack(">I", data[pos + 8 + n:pos + 12 + n])[0]
        if len(body) != n or crc != zlib.crc32(tag + body) & 0xFFFFFFFF:
            raise ValueError("chunk %r is damaged" % tag)
        chunks.append((tag, body))
        pos += 12 + n
    if pos != len(data) or chunks[0][0] != b"IHDR" or chunks[-1] != (b"IEND", b""):
        raise ValueError("chunks %r" % [c[0] for c in chunks])
    w, h, depth, kind, comp, filt, lace = struct.unpack(">IIBBBBB", chunks[0][1])
    if (depth, kind, comp, filt, lace) != (8, 6, 0, 0, 0):
        raise ValueError("not 8-bit RGBA")
    raw = zlib.decompress(b"".join(b for t, b in chunks if t == b"IDAT"))
    if len(raw) != h * (1 + 4 * w):
        raise ValueError("%d bytes of pixels for %d x %d" % (len(raw), w, h))
    rows, prev = [], bytearray(4 * w)
    for y in range(h):
        line = bytearray(raw[y * (1 + 4 * w):(y + 1) * (1 + 4 * w)])
        f, line = line[0], line[1:]
        if f:
            for i in range(len(line)):
                a = line[i - 4] if i >= 4 else 0
                b = prev[i]
                c = prev[i - 4] if i >= 4 else 0
                p = a + b - c
                pa, pb, pc = abs(p - a), abs(p - b), abs(p - c)
                pred = {1: a, 2: b, 3: (a + b) // 2, 4: a if pa <= pb and pa <= pc else b if pb <= pc else c}[f]
                line[i] = (line[i] + pred) & 255
        prev = line
        rows.append([tuple(line[i:i + 4]) for i in range(0, 4 * w, 4)])
    return w, h, rows


def cover(x0, y0, x1, y1, w):
    """(pixels that must be drawn, pixels that may be drawn) by one line."""
    sure, maybe = set(), set()
    dx, dy = x1 - x0, y1 - y0
    lo, hi = (w - 1) // 2, w // 2
    axes = []
    if abs(dx) >= abs(dy):
        axes.append("x")
    if abs(dy) >= abs(dx):
        axes.append("y")
    for ax in axes:
        n, m = (dx, dy) if ax == "x" else (dy, dx)
        steps = abs(n)
        for i in range(steps + 1):
            major = (x0 if ax == "x" else y0) + (i if n > 0 else -i)
            base = y0 if ax == "x" else x0
            num, den = (m * i, steps) if steps else (0, 1)
            # nearest integers to num / den
            k = (2 * num + den) // (2 * den)
            near = [k]
            if (2 * num + den) % (2 * den) == 0:
                near = [k - 1, k]
            for c in near:
                for d in range(-hi, hi + 1):
                    q = (major, base + c + d) if ax == "x" else (base + c + d, major)
                    maybe.add(q)
            for d in range(-hi, hi + 1):
                if all(abs(near[0] + d - c) <= lo for c in near):
                    q = (major, base + near[0] + d) if ax == "x" else (base + near[0] + d, major)
                    if len(axes) == 1 or d == 0:
                        sure.add(q)
    return sure, maybe


_cov = {}


def covered(seg, w):
    x0, y0, x1, y1 = seg
    k = (x1 - x0, y1 - y0, w)
    v = _cov.get(k)
    if v is None:
        if len(_cov) > 4000:
            _cov.clear()
        v = _cov[k] = cover(0, 0, x1 - x0, y1 - y0, w)
    return [{(a + x0, b + y0) for a, b in s} for s in v]


def lines_of(p):
    """Lines of the encoded design, relative to its top left corner, with their colours, and its size."""
    enc = p.get_normalized_pattern({"full_jump": True, "sequin_contingency": R.SQ_STITCH})
    xs, ys = [s[0] for s in enc.stitches], [s[1] for s in enc.stitches]
    x0, y0 = min(xs), min(ys)
    out, last, k = [], None, 0
    for s in enc.stitches:
        c = s[2] & 0xFF
        if c == R.STITCH:
            pt = (int(s[0] - x0), int(s[1] - y0))
            if last is not None:
                out.append((last + pt, enc.threadlist[k].color & 0xFFFFFF))
            last = pt
        else:
            last = None
            if c == R.COLOR_CHANGE:
                k += 1
    return out, int(max(xs) - x0), int(max(ys) - y0)


def rgb_ok(px, color, fancy):
    r, g, b, a = px
    if a < 200:
        return False
    if fancy:
        return True
    want = (color >> 16, color >> 8 & 255, color & 255)
    dark = max(r, g, b) <= 40 and r == g == b
    if color == 0:
        return dark
    return (r, g, b) == want or dark and max(want) < 16


def parse_bg(bg):
    if bg is None:
        return (0, 0, 0, 0)
    v = bg if isinstance(bg, int) else {"#F00": 0xFF0000, "white": 0xFFFFFF}[bg]
    return (v >> 16, v >> 8 & 255, v & 255, 255)


THREADS = (0x12A040, 0x0000FF, 0x000000, 0xFFFFFF, 0xFF8000, 0x800080, 0x123456)


LEVELS = (0, 16, 64, 128, 255)
COLORS = sorted({r << 16 | g << 8 | b for r in LEVELS for g in LEVELS for b in LEVELS} | {v << s for v in range(256) for s in (0, 8, 16)} | {v * 0x10101 for v in range(256)})


def judge(seq, settings, rec=None, colors=None):
    E = rt.lib().EmbThread
    p = rt.pattern(seq, [E(c) for c in colors or THREADS])
    lines, width, height = lines_of(p)
    data = rt.dump("png", p, dict(settings))
    w, h, rows = decode(data)
    if w < width + 1 or h < height + 1 or w > width + 8 or h > height + 8:
        return "image is %d x %d for a design of %d x %d" % (w, h, width, height)
    lw = settings.get("linewidth", 3)
    fancy = settings.get("fancy", False)
    bg = parse_bg(settings.get("background"))
    sure, maybe = {}, {}
    for n, (seg, color) in enumerate(lines):
        s, m = covered(seg, lw)
        for q in m:
            maybe.setdefault(q, []).append(n)
        for q in s:
            sure[q] = n
    # the design's corner is one pixel into the image
    guides = settings.get("guides")
    if lw <= 3:
        out = [q for q in sure if not (0 <= q[0] + 1 < w and 0 <= q[1] + 1 < h)]
        if out:
            return "pixel %r of a line of width %d is not in the image of %d x %d" % (out[0], lw, w, h)
    for y in range(h):
        row = rows[y]
        for x in range(w):
            if guides and (x < 46 or y < 46):
                continue
            q = (x - 1, y - 1)
            cand = maybe.get(q)
            px = row[x]
            if cand is None:
                if px != bg:
                    return "pixel %r is %r, not background %r; lines %r" % (q, px, bg, lines)
                continue
            last = sure.get(q, -1)
            if last < 0 and px == bg:
                continue
            if not any(rgb_ok(px, lines[n][1], fancy) for n in cand if n >= last):
                return "pixel %r is %r, wants a colour of lines %r of %r" % (q, px, [n for n in cand if n >= last], lines)
    if rec is not None:
        rec.outcome(data)
    return None


ST = [(0, 0, R.STITCH), (7, 3, R.STITCH), (3, 9, R.STITCH), (-4, 5.75, R.STITCH)]
ALPHA = ST + [(10, -6, R.JUMP), (0, 0, R.TRIM), (0, 0, R.COLOR_CHANGE), (5, 5, R.SEQUIN_EJECT)]
SETTINGS = [{}, {"linewidth": 1, "background": 0x102030}, {"linewidth": 4, "background": "#F00"}, {"linewidth": 10}, {"fancy": True, "linewidth": 2, "background": "white"}, {"linewidth": 2, "background": 0}]


def bounds(tier):
    d, r = (5, 10) if tier == "quick" else (6, 20)
    return "all programs of <= %d of %d commands x %d groups of settings; all single lines up to %d x %d x 5 widths; %d designs with guides; %d thread colours" % (d, len(ALPHA), len(SETTINGS), r, r, len(list(guided())), len(COLORS))


def guided():
    for w in (3, 12, 29, 31, 61, 140):
        for h in (3, 12, 29, 31, 61, 140):
            for x, y in ((0, 0), (-75, 30), (1234, -999)):
                yield w, h, x, y


def shards(tier):
    d, r = (5, 10) if tier == "quick" else (6, 20)
    out = [("line", dx, r) for dx in range(-r, r + 1)]
    for n in range(d, -1, -1):
        if n >= 2:
            out += [("seq", n, i, j) for i in range(len(ALPHA)) for j in range(len(ALPHA))]
        else:
            out += [("seq", n, i, None) for i in range(len(ALPHA) if n else 1)]
    return out + [("guides",), ("colors",)]


def run(shard, rec):
    def one(seq, s):
        rec.traces += 1
        rec.transitions += len(seq)
        rec.state((seq, repr(s)))
        if rec.traces == 1:
            rec.sample({"stitches": seq, "settings": repr(s)})
        rec.case(lambda: judge(seq, s, rec), {"stitches": seq, "settings": s})

    if shard[0] == "line":
        _, dx, r = shard
        for dy in range(-r, r + 1):
            for w in (1, 2, 3, 6, 9):
                one(((3, 4, R.STITCH), (3 + dx, 4 + dy, R.STITCH)), {"linewidth": w})
    elif shard[0] == "guides":
        for w, h, x, y in guided():
            for s in ({"guides": True}, {"guides": True, "background": "white", "linewidth": 5, "fancy": True}):
                one(((x, y, R.STITCH), (x + w, y, R.STITCH), (x + w, y + h, R.STITCH)), s)
    elif shard[0] == "colors":
        prog = ((0, 0, R.STITCH), (6, 1, R.STITCH), (6, 1, R.COLOR_CHANGE), (3, 5, R.STITCH), (9, 5, R.STITCH))
        for k, c in enumerate(COLORS):
            pair = [c, COLORS[k * 31 % len(COLORS)]]
            rec.traces += 1
            rec.transitions += len(prog)
            rec.state(("color", c))
            rec.case(lambda: judge(prog, {}, rec, pair), {"stitches": prog, "settings": {}, "colors": pair})
    else:
        _, n, i, j = shard
        head = (ALPHA[i],) if n else ()
        if j is not None:
            head += (ALPHA[j],)
        for tail in itertools.product(ALPHA, repeat=max(0, n - len(head))):
            seq = head + tail
            for k, s in enumerate(SETTINGS):
                if n < 4 or k in (0, 2, 3):
                    one(seq, s)


def replay(d):
    return judge(tuple(tuple(s) for s in d["stitches"]), d["settings"], None, d.get("colors"))
