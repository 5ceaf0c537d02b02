"""VP3: nested blocks, positions, threads, header, round trip."""
import itertools

from .. import codec_vp3
from .. import fmt
from .. import refenc as R
from .. import rt

PROPERTY = "C16"
LEVEL = "model_checking"
RULE = "case = one stitch program written by the real VP3 writer, parsed by an independent parser, compared with the encoded program and read back by the real reader, or one block of displacements or raw records, or one placement of blocks, or one set of thread texts; distinct_nontrivial = distinct command sequences"
ASSUMPTIONS = ["VP3 has no jumps, stops, speeds or sequins: they are not written, a travel is one long stitch within +-32767 units", "a cut ends the design"]
ENC = {"max_jump": 3200, "max_stitch": 255, "full_jump": False, "sequin_contingency": R.SQ_JUMP}


def blocks_of(enc):
    tl = [None if t.description == "Random" else t for t in enc.threadlist]
    out = [[]]
    for s in enc.stitches:
        c = s[2] & 0xFF
        if c == R.COLOR_CHANGE:
            out.append([])
        elif c == R.STITCH:
            out[-1].append(("P", s[0], s[1]))
        elif c in (R.TRIM, R.END):
            out[-1].append(("T",))
    return [(b, tl[k] if k < len(tl) else None) for k, b in enumerate(out)]


def tkey(t):
    return (t.color & 0xFFFFFF, t.catalog_number or "", t.hex_color() if t.description is None else t.description, t.brand or "")


def near(a, b, tol):
    return all(abs(p - q) <= tol for p, q in zip(a, b))


def compare(f, enc):
    want = blocks_of(enc)
    if len(f["blocks"]) != len(want) or f["blocks8"] != len(want) & 255:
        return "%d blocks (%d in the header), wants %d" % (len(f["blocks"]), f["blocks8"], len(want))
    whole = all(s[i] == int(s[i]) for s in enc.stitches for i in (0, 1))
    for k, (b, (recs, t)) in enumerate(zip(f["blocks"], want)):
        got = b["recs"]
        if [r[0] for r in got] != [r[0] for r in recs]:
            return "block %d has %r, wants %r" % (k, got, recs)
        for g, w in zip(got, recs):
            if w[0] == "P" and not near(g[1:], w[1:], 1e-9 if all(v == int(v) for v in w[1:]) and whole else 0.52):
                return "block %d has %r, wants %r" % (k, got, recs)
        if t is not None and b["thread"] != tkey(t):
            return "block %d has thread %r, wants %r" % (k, b["thread"], tkey(t))
    xs = [s[0] for s in enc.stitches]
    ys = [s[1] for s in enc.stitches]
    x0, y0, x1, y1 = min(xs), min(ys), max(xs), max(ys)
    if not near(f["bounds"], (x1 * 100, -y0 * 100, x0 * 100, -y1 * 100), 1.001):
        return "bounds %r for %r" % (f["bounds"], (x0, y0, x1, y1))
    if not near(f["center"], ((x0 + x1) * 50, -(y0 + y1) * 50), 1.001):
        return "center %r for %r" % (f["center"], (x0, y0, x1, y1))
    w, h = x1 - x0, y1 - y0
    if not near(f["half"], (-w * 50, w * 50, -h * 50, h * 50), 1.001) or not near(f["size"], (w * 100, h * 100), 1.001):
        return "size %r %r for %r" % (f["half"], f["size"], (x0, y0, x1, y1))
    # blocks continue where the one before ended (shift leads from the start to the end of a block)
    prev = (0, 0)
    split = [[]]
    for s in enc.stitches:
        if s[2] & 0xFF == R.COLOR_CHANGE:
            split.append([])
        split[-1].append((s[0], s[1]))
    for k, b in enumerate(f["blocks"]):
        if k and not near(b["start"], split[k][0], 0.011):
            return "block %d starts at %r, wants %r" % (k, b["start"], split[k][0])
        if not k and b["start"] != (0, 0) and not near(b["start"], (0, 0), 0.011):
            return "design starts at %r" % (b["start"],)
        if split[k] and not near((b["start"][0] + b["shift"][0], b["start"][1] + b["shift"][1]), split[k][-1], 0.03):
            return "block %d shifts by %r from %r, it ends at %r" % (k, b["shift"], b["start"], split[k][-1])
    ends = sum(1 for s in enc.stitches if s[2] & 0xFF == R.END)
    if f["count"] != len(enc.stitches) - ends:
        return "count %d, wants %d" % (f["count"], len(enc.stitches) - ends)
    return None


def readback(back, f):
    want = []
    for k, b in enumerate(f["blocks"]):
        if k:
            want.append(("C",))
        want += [("P", r[1], r[2]) if r[0] == "P" else ("T",) for r in b["recs"]]
    want.append(("E",))
    got = rt.drop(rt.events(back.stitches), ("J",))
    if [g[0] for g in got] != [w[0] for w in want] or any(g[0] == "P" and not near(g[1:], w[1:], 1e-6) for g, w in zip(got, want)):
        return "read-back events %r, want %r" % (got, want)
    ids = [(t.color & 0xFFFFFF, t.catalog_number, t.description, t.brand) for t in back.threadlist]
    return rt.diff(ids, [b["thread"] for b in f["blocks"]], "read-back threads")


def judge(spec, prog, ws, rs):
    p = rt.pattern(prog, [] if ws.get("bare") else fmt.rt_threads(spec))
    opts = {k: v for k, v in ws.items() if k != "bare"}
    enc = p.get_normalized_pattern(dict(ENC, **opts))
    if any(abs(s[i]) > 16000 for s in enc.stitches for i in (0, 1)):
        return None
    data = rt.dump("vp3", p, opts)
    try:
        f = codec_vp3.parse(data)
    except ValueError as e:
        return "file does not follow the layout: %s" % e
    msg = compare(f, enc)
    if msg is None:
        msg = readback(rt.load("vp3", data), f)
    return msg


SPEC = {
    "judge": judge, "nthreads": 3,
    "alphabet": fmt.program_alphabet(255, 3200),
    "long": [(0, 0, R.STITCH), (127, -128, R.STITCH), (129, 7, R.STITCH), (41, -3203, R.JUMP), (0, 0, R.COLOR_CHANGE), (0, 0, R.STOP), (0, 0, R.TRIM), (3, 3, R.SLOW)],
    "settings": [({}, [None]), ({"explicit_trim": True, "tie_on": True, "tie_off": True}, [None]), ({"sequin_contingency": R.SQ_STITCH, "long_stitch_contingency": R.LONG_SEW, "bare": True}, [None]),
                 ({"round": True, "full_jump": True}, [None]), ({"long_stitch_contingency": R.LONG_NONE, "writes_speeds": False}, [None])],
    "depth": {"quick": (3, 5), "thorough": (4, 6)}, "few": 2, "full_settings_to": 2,
}
TEXTS = [None, "", "a", "two words", u"\u00e9", u"\u20ac\u00e9x", "x" * 300, u"\U0001f9f5"]
GRID = {"quick": [-3, 0, 1, 2, 6.5], "thorough": [-4, -3, -1, 0, 1, 2, 5, 6.5, 0.25]}


def bounds(tier):
    return fmt.bounds(SPEC, tier) + "; all displacements |d| <= 140 squared, all 16-bit displacements on each axis; all raw records; all placements of three blocks on a grid of %d coordinates; all sequences of up to 3 of 18 raw blocks around 3 centers; all triples of %d thread texts" % (len(GRID[tier]), len(TEXTS))


def shards(tier):
    out = fmt.shards(SPEC, tier)
    out += [("disp", d, 16) for d in range(-140, 141, 16)] + [("far", i) for i in range(4)] + [("raw", k) for k in range(-128, 128, 32)]
    out += [("blocks", i) for i in range(len(STARTS) * len(BODIES))]
    out += [("text", i) for i in range(len(TEXTS))] + [("grid", i, tier) for i in range(len(GRID[tier]))]
    return out


def onerecs(data):
    f = codec_vp3.parse(data)
    return [r for b in f["blocks"] for r in b["recs"]]


def disp(dx):
    return fmt.displacement_table("vp3", -140, 140, dx, None, ("P",), onerecs, {"max_stitch": 40000})


def far(i):
    prog = [(0, 0, R.STITCH)]
    x = y = 0
    for d in range(-32767, 32768, 1):
        for s in (1, -1):
            x, y = (x + s * d, y) if i % 2 == 0 else (x, y + s * d)
            if i > 1:
                x, y = (x, y + 3 * s) if i % 2 == 0 else (x - 128 * s, y)
            prog.append((x, y, R.STITCH))
    data = rt.dump("vp3", rt.pattern(prog), {"long_stitch_contingency": R.LONG_NONE})
    want = [("P", q[0], q[1]) for q in prog]
    msg = rt.diff([r for r in onerecs(data) if r[0] == "P"], want, "records")
    if msg is None:
        msg = rt.diff([e for e in rt.events(rt.load("vp3", data).stitches) if e[0] == "P"], want, "read-back stitches")
    return msg


def raw(base):
    """All two-byte records, long records of all 16-bit values, cuts and fillers, in blocks starting anywhere."""
    bodies = []
    want = []
    starts = [(0, 0), (0, 500), (-700, 0), (300, -200), (0, 0)]
    center = (150, -250)
    vals = list(range(base, base + 32))
    for k, (sx, sy) in enumerate(starts):
        x, y = (center[0] + sx) / 100.0, -(center[1] + sy) / 100.0
        if k:
            want.append(("C",))
        body = bytearray()

        def short(a, b):
            nonlocal x, y
            body.extend((a & 255, b & 255))
            x += a
            y += b
            want.append(("P", x, y))

        def long(a, b, t=b"\x80\x02"):
            nonlocal x, y
            body.extend(b"\x80\x01" + (a & 0xFFFF).to_bytes(2, "big") + (b & 0xFFFF).to_bytes(2, "big") + t)
            x += a
            y += b
            want.append(("P", x, y))

        for a in vals[k::len(starts)]:
            if a != -128:
                for b in range(-128, 128):
                    short(a, b)
            for b in range(-128, 128):
                v = a * 256 + (b & 255)
                long(v, b * 255)
                long(-v if v > -32768 else 1, v)
            body.extend(b"\x80\x03")
            want.append(("T",))
        bodies.append(((sx, sy), bytes(body)))
    want.append(("E",))
    q = rt.load("vp3", codec_vp3.build(bodies, center))
    if [(t.color & 0xFFFFFF, t.catalog_number, t.description, t.brand) for t in q.threadlist] != [(0x112233, "c", "d", "b")] * len(starts):
        return "threads read back as %r" % ([rt.thread_key(t) for t in q.threadlist],)
    got = rt.drop(rt.events(q.stitches), ("J",))
    if len(got) != len(want):
        return rt.diff(got, want, "read-back events")
    for g, w in zip(got, want):
        if g[0] != w[0] or (g[0] == "P" and not near(g[1:], w[1:], 1e-6)):
            return "read %r, wants %r" % (g, w)
    return None


STARTS = [(0, 0), (0, 500), (-700, 300)]
CENTERS = [(0, 0), (150, -250), (700, -300)]
BODIES = {"empty": [], "stitch": [(3, 4)], "cut": [None], "both": [(3, 4), None, (-5, 6)], "long": [(300, -4), (0, 0), None], "odd": [(1, 1), "pad"]}


def blocks(seq, center, colors):
    """Blocks anywhere, with or without stitches: every stitch is where its block and records put it."""
    raw, want = [], []
    for k, (st, b) in enumerate(seq):
        if k:
            want.append(("C",))
        x, y = (center[0] + st[0]) / 100.0, -(center[1] + st[1]) / 100.0
        body = b""
        for r in BODIES[b]:
            if r is None:
                body += b"\x80\x03"
                want.append(("T",))
            elif r == "pad":
                body += b"\x80\x02"
            else:
                if abs(r[0]) > 127:
                    body += b"\x80\x01" + (r[0] & 0xFFFF).to_bytes(2, "big") + (r[1] & 0xFFFF).to_bytes(2, "big") + b"\x80\x02"
                else:
                    body += bytes((r[0] & 255, r[1] & 255))
                x, y = x + r[0], y + r[1]
                want.append(("P", x, y))
        raw.append((st, body))
    want.append(("E",))
    q = rt.load("vp3", codec_vp3.build(raw, center, colors))
    got = rt.drop(rt.events(q.stitches), ("J",))
    if [g[0] for g in got] != [w[0] for w in want] or any(g[0] == "P" and not near(g[1:], w[1:], 1e-6) for g, w in zip(got, want)):
        return "blocks %r around %r: read as %r, are %r" % (seq, center, got, want)
    ths = [(t.color & 0xFFFFFF, t.catalog_number, t.description, t.brand) for t in q.threadlist]
    return None if ths == [(0x112233, "c", "d", "b")] * len(seq) else "threads of %d colours read as %r" % (colors, ths)


def text(i, j, k):
    E = rt.lib().EmbThread
    a, b, c = TEXTS[i], TEXTS[j], TEXTS[k]
    threads = [E(0xFF0000, a, b), E(0x0000FF, c, a)]
    threads[0].brand = c
    threads[1].brand = b
    prog = [(0, 0, R.STITCH), (5, 5, R.STITCH), (5, 5, R.COLOR_CHANGE), (9, 8, R.STITCH)]
    p = rt.pattern(prog, threads)
    data = rt.dump("vp3", p)
    try:
        f = codec_vp3.parse(data)
    except ValueError as e:
        return "file does not follow the layout: %s" % e
    return compare(f, p.get_normalized_pattern(ENC)) or readback(rt.load("vp3", data), f)


def grid(pts):
    (a, b, c, d) = pts
    prog = [(a, b, R.STITCH), (b, c, R.STITCH), (b, c, R.COLOR_CHANGE), (c, d, R.STITCH), (d, a, R.STITCH), (d, b, R.JUMP), (d, b, R.COLOR_CHANGE), (a, d, R.STITCH)]
    return judge(SPEC, prog, {}, [None])


def run(shard, rec):
    if shard[0] in ("prog", "rep"):
        fmt.run(SPEC, shard, rec)
    elif shard[0] == "disp":
        fmt.run_disp(rec, shard, disp, -140, 140)
    elif shard[0] in ("far", "raw"):

        def one():
            rec.traces += 1
            rec.transitions += 65535 if shard[0] == "far" else 24000
            rec.state(shard)
            return (far if shard[0] == "far" else raw)(shard[1])

        rec.case(one, {shard[0]: shard[1]})
    elif shard[0] == "blocks":
        one = list(itertools.product(STARTS, BODIES))
        for n in range(1, 4):
            for rest in itertools.product(one, repeat=n - 1):
                seq = (one[shard[1]],) + rest
                for center in CENTERS:
                    for colors in (1, 2, 3) if n == 1 else (1,) if n == 3 else (1, 2):
                        rec.traces += 1
                        rec.transitions += n
                        rec.state(("blocks", seq, center, colors))
                        rec.case(lambda: blocks(seq, center, colors), {"blocks": [seq, center, colors]})
        rec.outcome(shard)
    elif shard[0] == "text":
        for j, k in itertools.product(range(len(TEXTS)), repeat=2):
            rec.traces += 1
            rec.transitions += 4
            rec.state(("text", shard[1], j, k))
            rec.case(lambda: text(shard[1], j, k), {"text": [shard[1], j, k]})
    else:
        g = GRID[shard[2]]
        for t in itertools.product(g, repeat=3):
            pts = (g[shard[1]],) + t
            rec.traces += 1
            rec.transitions += 8
            rec.state(("grid", pts))
            rec.case(lambda: grid(pts), {"grid": pts})
            rec.outcome(pts)


def replay(d):
    for k, fn in (("disp", disp), ("far", far), ("raw", raw), ("grid", grid)):
        if k in d:
            return fn(d[k])
    if "blocks" in d:
        return blocks([(tuple(a), b) for a, b in d["blocks"][0]], *d["blocks"][1:])
    if "text" in d:
        return text(*d["text"])
    return judge(SPEC, [tuple(s) for s in d["program"]], d["write"], d["read"])
