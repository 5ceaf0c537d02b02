"""JEF (Janome): layout, header, exact displacements, colours and stops, trims, round trip."""
import json
import os

from .. import fmt
from .. import refenc as R
from .. import reftrims
from .. import rt

PROPERTY = "C14"
LEVEL = "model_checking"
RULE = "case = one stitch program written by the real JEF writer, decoded by an independent decoder, matched with the reference encoder and read back by the real reader under several settings, or one block of raw records, or one size of design, or one sequence of colours; distinct_nontrivial = distinct command sequences"
ASSUMPTIONS = ["a second stop in the same block is written as a change to the same colour (the format has stops only as changes to colour 0)",
               "trims are written only on request, and read back from the jumps"]


def s8(b):
    return b - 256 if b > 127 else b


def parse(data):
    w = lambda at: int.from_bytes(data[at:at + 4], "little", signed=True)
    off, n = w(0), w(24)
    if off != 0x74 + 8 * n or w(4) != 0x14:
        raise ValueError("stitch offset %d with %d colours" % (off, n))
    if not data[8:22].isdigit() or data[22:24] != b"\0\0":
        raise ValueError("date %r" % data[8:24])
    pal = [w(0x74 + 4 * k) for k in range(n)]
    if any(w(0x74 + 4 * n + 4 * k) != 0x0D for k in range(n)):
        raise ValueError("thread types")
    out = []
    x = y = 0
    i = off
    k = 0
    while True:
        if i + 1 >= len(data):
            raise ValueError("no end record")
        if data[i] != 0x80:
            x += s8(data[i])
            y -= s8(data[i + 1])
            out.append(("P", x, y))
            i += 2
            continue
        c = data[i + 1]
        if c == 0x10:
            if i + 2 != len(data):
                raise ValueError("data after the end record")
            break
        dx, dy = s8(data[i + 2]), -s8(data[i + 3])
        i += 4
        if c == 2:
            x += dx
            y += dy
            out.append(("J", x, y))
        elif c == 1:
            if (dx, dy) != (0, 0):
                raise ValueError("change with displacement")
            k += 1
            if k >= n:
                raise ValueError("%d colours for change %d" % (n, k))
            out.append(("S" if pal[k] == 0 else "C", x, y))
        else:
            raise ValueError("control %02x" % c)
    if n != k + 1:
        raise ValueError("%d colours for %d changes" % (n, k))
    if pal and pal[0] == 0:
        raise ValueError("no first colour")
    return out, pal


def decode(data):
    return parse(data)[0]


def written(ev, ws):
    out = []
    x = y = 0
    toggled = False
    for e in ev:
        if e[0] == "T":
            if ws.get("trims"):
                out += [("J", x, y, 127)] * ws.get("trim_at", 3)
            continue
        if e[0] in ("E", "SLOW", "FAST"):
            continue
        if e[0] in ("P", "J", "Q", "L"):
            x, y = e[1], e[2]
        if e[0] == "C":
            toggled = False
        if e[0] == "S":
            toggled = not toggled
            if not toggled:
                e = ("C", R.COLOR_CHANGE, None, None)
        out.append(e)
    return out


CODE = {"P": R.STITCH, "J": R.JUMP, "C": R.COLOR_CHANGE, "S": R.STOP}


def reading(recs, rs):
    rs = rs or {}
    trims = rs.get("trims", False)
    count = rs.get("trim_at", 3 if trims else None)
    dist = rs.get("trim_distance", 3.0)
    sts = [(r[1], r[2], CODE[r[0]]) for r in recs]
    end = fmt.last(recs)
    sts.append((end[0], end[1], R.END))
    return rt.events(reftrims.interpolate(sts, count, None if dist is None else dist * 10, rs.get("clipping", True)))


def palette():
    from pyembroidery.EmbThreadJef import get_thread_set
    return get_thread_set()


def dist(c, t):
    """red-mean distance"""
    r1, g1, b1 = c >> 16 & 255, c >> 8 & 255, c & 255
    r2, g2, b2 = t >> 16 & 255, t >> 8 & 255, t & 255
    m = int(round((r1 + r2) / 2.0))
    r, g, b = r1 - r2, g1 - g2, b1 - b2
    return (((512 + m) * r * r) >> 8) + 4 * g * g + (((767 - m) * b * b) >> 8)


def check_colors(indices, cols):
    """indices: palette entries of the blocks; cols: colours asked for (None = any)."""
    pal = palette()
    for k, c in enumerate(cols):
        if not 0 < indices[k] < len(pal):
            return "palette index %r" % (indices,)
        if c is None:
            continue
        got = dist(c, pal[indices[k]].color & 0xFFFFFF)
        banned = indices[k - 1] if k and cols[k - 1] != c else None
        best = min(dist(c, t.color & 0xFFFFFF) for i, t in enumerate(pal) if t is not None and i != banned)
        free = min(dist(c, t.color & 0xFFFFFF) for i, t in enumerate(pal) if t is not None)
        if banned is not None and indices[k] == banned:
            return "blocks %d and %d with different threads %06x %06x got the same colour" % (k - 1, k, cols[k - 1], c)
        if got not in (best, free):
            return "block %d: %06x is not the nearest to %06x" % (k, pal[indices[k]].color, c)
    return None


def check_threads(back, blocks, recs, ev, rs):
    n = 1 + sum(1 for r in recs if r[0] == "C")
    if len(back.threadlist) != n or any(t is None for t in back.threadlist):
        return "threads read back %r for %d blocks" % (back.threadlist, n)
    return None


def header(p, data, recs, ev, blocks, ws):
    pal = parse(data)[1]
    src = [t.color for t in fmt.rt_threads(SPEC)]
    cols = [src[b] if b < len(src) else None for b in blocks]
    # entries of the palette that start a block: the first, and each real change
    idx = []
    k = 0
    toggled = False
    started = [pal[0]]
    for e in ev:
        if e[0] == "C":
            k += 1
            toggled = False
            started.append(pal[k])
        elif e[0] == "S":
            k += 1
            toggled = not toggled
            if (pal[k] == 0) != toggled or (not toggled and pal[k] != started[-1]):
                return "stop %d has palette entry %d" % (k, pal[k])
    if len(started) < len(cols):
        return "%d colours for %d blocks" % (len(started), len(cols))
    msg = check_colors(started, cols)
    if msg is not None:
        return msg
    sizes = {"P": 1, "J": 2, "C": 2, "S": 2}
    points = 1 + sum(sizes[r[0]] for r in recs)
    x0, y0, x1, y1 = fmt.extents(recs)
    msg = fmt.fields(data, [("points", 28, 4, True, "little", points)])
    if msg is None:
        msg = sizes_header(data, x1 - x0, y1 - y0, 1)
        if msg is not None and ev[0][0] in ("SLOW", "FAST", "T"):
            # commands at the origin without a record of their own
            x0, y0, x1, y1 = fmt.extents([("T", 0, 0)] + recs)
            msg = sizes_header(data, x1 - x0, y1 - y0, 1)
    if msg is None and ws.get("date") and data[8:22] != ws["date"].encode():
        msg = "date %r" % data[8:22]
    return msg


def hoop(w, h):
    for code, a, b in ((1, 500, 500), (3, 1260, 1100), (2, 1400, 2000), (4, 2000, 2000)):
        if w < a and h < b:
            return code
    return 0


def sizes_header(data, w, h, tol=0):
    v = [int.from_bytes(data[at:at + 4], "little", signed=True) for at in range(32, 116, 4)]
    if not any(v[0] == hoop(w + a, h + b) for a in range(-tol, tol + 1) for b in range(-tol, tol + 1)):
        return "hoop %d for %dx%d" % (v[0], w, h)
    if v[1] != v[3] or v[2] != v[4] or abs(2 * v[1] - w) > 1 + tol or abs(2 * v[2] - h) > 1 + tol:
        return "half sizes %r for %dx%d" % (v[1:5], w, h)
    hw, hh = v[1], v[2]
    for k, (a, b) in enumerate(((550, 550), (250, 250), (700, 1000), (700, 1000))):
        want = [a - hw, b - hh] * 2 if a >= hw and b >= hh else [-1] * 4
        if v[5 + 4 * k:9 + 4 * k] != want:
            return "hoop edges %d %r for %dx%d" % (k, v[5 + 4 * k:9 + 4 * k], w, h)
    return None


SPEC = {
    "ext": "jef",
    "encoder": {"round": True, "full_jump": True, "max_stitch": 127, "max_jump": 127, "sequin_contingency": R.SQ_JUMP, "writes_speeds": True},
    "own": ("trims", "trim_at", "date"), "ignore": (),
    "decode": decode, "written": written, "reading": reading, "threads": check_threads, "extra": header,
    "tocmd": {"P": R.STITCH, "J": R.JUMP, "C": R.COLOR_CHANGE, "S": R.STOP},
    "alphabet": fmt.program_alphabet(127), "long": fmt.long_alphabet(127) + [(20, -10, R.JUMP), (-20, 25, R.JUMP)],
    "settings": [({}, [None, {"trim_distance": None, "clipping": False}]), ({"trims": True}, [{"trims": True}, {"trims": True, "trim_at": 2, "clipping": False, "trim_distance": 0.5}]),
                 ({"trims": True, "trim_at": 5, "explicit_trim": True, "tie_on": True, "tie_off": True, "date": "20010203040506"}, [{"trim_at": 5, "trim_distance": None}]),
                 ({"sequin_contingency": R.SQ_STITCH, "long_stitch_contingency": R.LONG_SEW}, [None])],
    "depth": {"quick": (3, 5), "thorough": (4, 6)}, "few": 2, "nthreads": 5,
}
COLORS = [0xFF0000, 0xFE0102, 0x000000, 0xF00000, 0xFFFFFF, 0x7F7F7F]


def bounds(tier):
    return fmt.bounds(SPEC, tier) + "; all 255x255 displacements as stitch and jump; all raw records; colour changes and stops with all displacements%s; trims of 1 to 40 jumps; designs of all sizes across the hoop limits; all sequences of %d thread colours and stops up to %d" % (
        "" if tier == "thorough" else " of x or y", len(COLORS), 5 if tier == "quick" else 6)


def shards(tier):
    return fmt.shards(SPEC, tier) + [("disp", d, 16) for d in range(-127, 128, 16)] + [("raw",), ("trims",)] + [("changes", b) for b in range(0, 256, 1 if tier == "thorough" else 5)] + [("size", a) for a in range(20)] + [("colors", k, 5 if tier == "quick" else 6) for k in range(len(COLORS))]


def disp(dx):
    return fmt.displacement_table("jef", -127, 127, dx, None, ("P", "J"), decode, None, {"trim_distance": None, "clipping": False})


def raw():
    body = bytearray()
    want = []
    x = y = 0
    for a in range(256):
        for b in range(256):
            if a != 0x80:
                x += s8(a)
                y -= s8(b)
                body += bytes((a, b))
                want.append((x, y, R.STITCH))
            x += s8(a)
            y -= s8(b)
            body += bytes((0x80, 2, a, b))
            want.append((x, y, R.JUMP))
    want.append((x, y, R.END))
    head = bytearray(0x74 + 8)
    head[0] = 0x7C
    head[24] = 1
    head[0x74] = 10
    q = rt.load("jef", bytes(head) + bytes(body) + b"\x80\x10", {"trim_distance": None, "clipping": False})
    if [t.color & 0xFFFFFF for t in q.threadlist] != [0xFF0000]:
        return "threads %r" % (q.threadlist,)
    return rt.diff([tuple(s) for s in q.stitches], want, "commands")


def numbers(n):
    """Every number of the machine's palette, in every of n colours, reads as that thread."""
    pal = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "colors.json")))["palettes"]["Jef"]
    for c in range(1, 79):
        seq = [(c - 1 + k * 7) % 78 + 1 for k in range(n)]
        body = b"\x80\x01\0\0".join(b"\x01\x02" for _ in seq)
        head = bytearray(0x74) + b"".join(v.to_bytes(4, "little") for v in seq) + b"\x0d\0\0\0" * n
        head[0:4] = len(head).to_bytes(4, "little")
        head[24:28] = n.to_bytes(4, "little")
        q = rt.load("jef", bytes(head) + body + b"\x80\x10", {"trim_distance": None, "clipping": False})
        got = [t and t.color & 0xFFFFFF for t in q.threadlist]
        if got != [int(pal[v][0], 16) for v in seq]:
            return "numbers %r read as %r" % (seq, got)
    return None


def changes(b):
    """Colour changes and stops that move: what follows them is where the records say."""
    n = 256
    pal = [10] + [0 if k % 3 == 1 else 5 if k % 2 else 7 for k in range(2 * n)]
    body, want = bytearray(), []
    x = y = 0
    for k in range(2 * n):
        dx, dy = ((k, b) if k < n else (b, k - n))
        body += bytes((1, 2, 0x80, 1, dx, dy))
        x, y = x + 1, y - 2
        want.append((x, y, R.STITCH))
        x, y = x + s8(dx), y - s8(dy)
        want.append((x, y, R.STOP if pal[k + 1] == 0 else R.COLOR_CHANGE))
    body += bytes((3, 4))
    want += [(x + 3, y - 4, R.STITCH), (x + 3, y - 4, R.END)]
    head = bytearray(0x74) + b"".join(v.to_bytes(4, "little") for v in pal) + b"\x0d\0\0\0" * len(pal)
    head[0:4] = len(head).to_bytes(4, "little")
    head[24:28] = len(pal).to_bytes(4, "little")
    q = rt.load("jef", bytes(head) + bytes(body) + b"\x80\x10", {"trim_distance": None, "clipping": False})
    # the position of the command itself may be before or after its displacement, or a jump of its own
    got = [tuple(s) for s in q.stitches if s[2] != R.JUMP]
    if [(s if s[2] == R.STITCH else s[2]) for s in got] != [(s if s[2] == R.STITCH else s[2]) for s in want]:
        return rt.diff(got, want, "commands") or "commands"
    return None


def trims(n, d):
    """A trim is n jump records in place, counted in the header; reading finds it with that count."""
    prog = ((1, 2, R.STITCH), (1 + d, 2, R.STITCH), (1 + d, 2, R.TRIM), (9, 40, R.STITCH), (9, 40, R.TRIM), (9, 40, R.COLOR_CHANGE), (9, 41, R.STITCH))
    for ws, rs in (({"trims": True, "trim_at": n}, {"trims": True, "trim_at": n}), ({"trims": True, "trim_at": n, "explicit_trim": True}, {"trim_at": n + 1, "clipping": False, "trim_distance": None}), ({"trim_at": n}, {"trims": True})):
        msg = fmt.judge(SPEC, prog, ws, [rs])
        if msg:
            return msg
    return None


EDGES = [0, 1, 2, 3, 499, 500, 501, 502, 1099, 1100, 1101, 1102, 1259, 1260, 1399, 1400, 1401, 1999, 2000, 2001]


def size(w, h):
    for x0, y0 in ((0, 0), (-w // 2, -h // 2), (17, -h)):
        data = rt.dump("jef", rt.pattern([(x0, y0, R.STITCH), (x0 + w, y0 + h, R.STITCH)]))
        recs = decode(data)
        e = fmt.extents(recs)
        msg = sizes_header(data, e[2] - e[0], e[3] - e[1])
        if msg is not None:
            return msg
        ps = [r for r in recs if r[0] == "P"]
        if ps != [("P", x0, y0), ("P", x0 + w, y0 + h)]:
            return "penetrations %r" % (ps,)
    return None


def colors(seq):
    """seq: colours of the blocks; None is a stop."""
    E = rt.lib().EmbThread
    prog = []
    threads = []
    x = 0
    for c in seq:
        if c is None:
            prog.append((x, 0, R.STOP))
        else:
            prog.append((x, 0, R.COLOR_BREAK))
            threads.append(c)
        x += 5
        prog.append((x, 0, R.STITCH))
    data = rt.dump("jef", rt.pattern(prog, [E(c) for c in threads]))
    recs, pal = parse(data)
    toggled = False
    idx = []
    for c, k in zip(seq, pal):
        if c is None:
            toggled = not toggled
            if k != (0 if toggled else idx[-1]):
                return "palette %r for %r" % (pal, seq)
        else:
            toggled = False
            idx.append(k)
    msg = check_colors(idx, threads)
    if msg is not None:
        return msg
    back = rt.load("jef", data)
    table = palette()
    got = [t.color & 0xFFFFFF for t in back.threadlist]
    want = [table[k].color & 0xFFFFFF for k in pal if k != 0]
    if got != want:
        return "threads %r read back, file has %r" % (got, want)
    return None


def run(shard, rec):
    if shard[0] in ("prog", "rep"):
        fmt.run(SPEC, shard, rec)
    elif shard[0] == "disp":
        fmt.run_disp(rec, shard, disp, -127, 127)
    elif shard[0] == "raw":

        def one():
            rec.traces += 1
            rec.transitions += 131072
            return raw()

        rec.case(one, {"raw": 1})
        for n in range(1, 6):
            rec.traces += 78
            rec.transitions += 78
            rec.state(("palette", n))
            rec.case(lambda: numbers(n), {"palette": n})
    elif shard[0] == "changes":
        rec.traces += 1
        rec.transitions += 1024
        rec.state(shard)
        rec.case(lambda: changes(shard[1]), {"changes": shard[1]})
    elif shard[0] == "trims":
        for n in range(1, 41):
            for d in (0, 3, -100):
                rec.traces += 1
                rec.transitions += 21
                rec.state(("trims", n, d))
                rec.case(lambda: trims(n, d), {"trims": [n, d]})
    elif shard[0] == "size":
        for h in EDGES:
            w = EDGES[shard[1]]
            rec.traces += 1
            rec.transitions += 2
            rec.state(("size", w, h))
            rec.case(lambda: size(w, h), {"size": [w, h]})
    else:
        import itertools

        for n in range(shard[2]):
            for tail in itertools.product(COLORS + [None], repeat=n):
                seq = [COLORS[shard[1]]] + list(tail)
                rec.traces += 1
                rec.transitions += 2 * len(seq)
                rec.state(("colors", tuple(seq)))
                rec.case(lambda: colors(seq), {"colors": seq})


def replay(d):
    if "disp" in d:
        return disp(d["disp"])
    if "raw" in d:
        return raw()
    if "palette" in d:
        return numbers(d["palette"])
    if "changes" in d:
        return changes(d["changes"])
    if "trims" in d:
        return trims(*d["trims"])
    if "size" in d:
        return size(*d["size"])
    if "colors" in d:
        return colors(d["colors"])
    return fmt.replay(SPEC, d)
