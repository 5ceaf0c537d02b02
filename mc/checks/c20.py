"""G-code and PMV: written text or points, header, all small G-code programs, round trip."""
import itertools
import re

from .. import fmt
from .. import refenc as R
from .. import rt

PROPERTY = "C20"
LEVEL = "model_checking"
RULE = "case = one stitch program written by the real G-code or PMV writer, parsed independently and read back by the real reader, or one G-code program of <= depth lines read by the real reader and by a reference interpreter, or one set of texts, or one block of raw PMV points; distinct_nontrivial = distinct command sequences"
ASSUMPTIONS = ["G-code has no jumps, trims, speeds or sequins; stops and thread changes are both a program stop", "PMV holds the first 100 points, stitches and jumps alike, in steps of 2.5 units, its height scaled to 28 steps"]
ENC = {"gcode": {"scale": (-1, -1), "sequin_contingency": R.SQ_STITCH}, "pmv": {"max_stitch": 70, "max_jump": 70}}


def parse_gcode(text):
    """-> comments, records"""
    comments, recs = [], []
    x = y = None
    if text and not text.endswith("\n"):
        raise ValueError("last line does not end")
    for line in text.split("\n")[:-1]:
        m = re.match(r"^\(([^()]*)\)$", line)
        if m:
            if recs or x is not None:
                raise ValueError("comment inside the program")
            comments.append(m.group(1))
            continue
        m = re.match(r"^G00 X(-?\d+\.\d{3}) Y(-?\d+\.\d{3})$", line)
        if m and x is None:
            x, y = float(m.group(1)), float(m.group(2))
            continue
        m = re.match(r"^G00 Z(-?\d+\.\d)$", line)
        if m and x is not None:
            recs.append(("P", x, y, float(m.group(1))))
            x = None
            continue
        if line in ("M00", "M30") and x is None:
            recs.append((line,))
            continue
        raise ValueError("line %r" % line)
    if x is not None:
        raise ValueError("move without stitch at the end")
    return comments, recs


NAMES = {R.STITCH: "STITCH", R.JUMP: "JUMP", R.TRIM: "TRIM", R.STOP: "STOP", R.END: "END", R.COLOR_CHANGE: "COLOR_CHANGE", R.SLOW: "SLOW", R.FAST: "FAST",
         R.SEQUIN_MODE: "SEQUIN_MODE", R.SEQUIN_EJECT: "SEQUIN_EJECT", R.NEEDLE_SET: "NEEDLE_SET"}


def judge_gcode(prog, threads, extras, ws):
    p = rt.pattern(prog, threads, extras)
    enc = p.get_normalized_pattern(dict(ENC["gcode"], **ws))
    data = rt.dump("gcode", p, ws)
    text = data if isinstance(data, str) else data.decode("utf8")
    try:
        comments, recs = parse_gcode(text)
    except ValueError as e:
        return "file does not follow the layout: %s" % e
    want = []
    z = 0.0
    for s in enc.stitches:
        c = s[2] & 0xFF
        if c == R.STITCH:
            want.append(("P", s[0] / 10.0, s[1] / 10.0, z))
            z += ws.get("stitch_z_travel", 10.0)
        elif c in (R.COLOR_CHANGE, R.STOP):
            want.append(("M00",))
        elif c == R.END:
            want.append(("M30",))
    if len(recs) != len(want) or any(g[0] != w[0] or any(abs(a - b) > t for a, b, t in zip(g[1:], w[1:], (0.00051, 0.00051, 0.051))) for g, w in zip(recs, want)):
        return "program %r, wants %r" % (recs, want)
    kv = {}
    for c in comments:
        k, _, v = c.partition(": ")
        kv.setdefault(k, v)
    cmds = [s[2] & 0xFF for s in enc.stitches]
    xs = [s[0] / 10.0 for s in enc.stitches]
    ys = [s[1] / 10.0 for s in enc.stitches]
    head = {"STITCH_COUNT": len(enc.stitches), "THREAD_COUNT": cmds.count(R.COLOR_CHANGE),
            "EXTENTS_LEFT": min(xs), "EXTENTS_TOP": min(ys), "EXTENTS_RIGHT": max(xs), "EXTENTS_BOTTOM": max(ys),
            "EXTENTS_WIDTH": max(xs) - min(xs), "EXTENTS_HEIGHT": max(ys) - min(ys)}
    for c in set(cmds):
        head["COMMAND_" + NAMES[c]] = cmds.count(c)
    for k, v in head.items():
        if k not in kv or abs(float(kv[k]) - v) > 0.00051:
            return "comment %s is %r, the design has %r" % (k, kv.get(k), v)
    clean = re.compile(r"[()\r\n]")
    for k, v in (extras or {}).items():
        if isinstance(v, str) and "%s: %s" % (clean.sub(" ", k), clean.sub(" ", v)) not in [clean.sub(" ", c) for c in comments]:
            return "no comment for %r: %r" % (k, v)
    tc = [c.split(" ")[1] for c in comments if re.match(r"^Thread\d+: ", c)]
    wt = [None if t.description == "Random" else "#%06x" % (t.color & 0xFFFFFF) for t in enc.threadlist]
    if len(tc) != len(wt) or any(b is not None and a.lower() != b for a, b in zip(tc, wt)):
        return "threads %r, wants %r" % (tc, wt)
    back = rt.load("gcode", data)
    got = rt.events(back.stitches)
    exp = [("P", -r[1] * 10, -r[2] * 10) if r[0] == "P" else ("C",) if r[0] == "M00" else ("E",) for r in recs]
    if len(got) != len(exp) or any(g[0] != w[0] or any(abs(a - b) > 1e-6 for a, b in zip(g[1:], w[1:])) for g, w in zip(got, exp)):
        return "read-back events %r, want %r" % (got, exp)
    return rt.diff(["#%06x" % (t.color & 0xFFFFFF) for t in back.threadlist], [t.lower() for t in tc], "read-back threads")


def parse_pmv(data):
    if data[:8] != b"#PMV0001":
        raise ValueError("magic")
    n = int.from_bytes(data[100:102], "little")
    if int.from_bytes(data[102:104], "little") != 2 * n:
        raise ValueError("block length")
    pts = []
    x = 0
    for k in range(n):
        a, b = data[104 + 2 * k], data[105 + 2 * k]
        if a > 63 or b > 31:
            raise ValueError("point %d is %r" % (k, (a, b)))
        x += a - 64 if a > 32 else a
        pts.append((x, b - 32 if b > 16 else b))
    at = 104 + 2 * n
    if data[at:at + 4] != b"\0\0\0\1":
        raise ValueError("no end of points: %r" % data[at:at + 4])
    at += 24
    tables = []
    for _ in range(2):
        m = data[at + 1]
        if data[at] != m - 1:
            raise ValueError("table index")
        at += 2
        tables.append([(int.from_bytes(data[at + 4 * k:at + 4 * k + 2], "little"), int.from_bytes(data[at + 4 * k + 2:at + 4 * k + 4], "little")) for k in range(m)])
        at += 4 * m
    if data[at:] != b"\x12\0" + b"\0" * 16:
        raise ValueError("tail %r" % data[at:])
    return pts, tables


def judge_pmv(prog, ws):
    p = rt.pattern(prog, fmt.rt_threads({}))
    enc = p.get_normalized_pattern(dict(ENC["pmv"], **ws))
    data = rt.dump("pmv", p, ws)
    try:
        pts, tables = parse_pmv(data)
    except ValueError as e:
        return "file does not follow the layout: %s" % e
    src = [(s[0], -s[1]) for s in enc.stitches if s[2] & 0xFF in (R.STITCH, R.JUMP)][:100]
    if len(pts) != len(src):
        return "%d points for %d: %r %r" % (len(pts), len(src), pts, src)
    if src:
        lo, hi = min(q[1] for q in src), max(q[1] for q in src)
        sy = 14.0 / ((hi - lo) / 2.0) if (hi - lo) / 2.0 > 35 else 0.4
        for g, q in zip(pts, src):
            if abs(g[0] - q[0] * 0.4) > 0.5001 or abs(g[1] - (q[1] - (lo + hi) / 2.0) * sy) > 0.5001:
                return "points %r for %r" % (pts, src)
    back = rt.load("pmv", data)
    return rt.diff(rt.events(back.stitches), [("P", x * 2.5, y * -2.5) for x, y in pts] + [("E",)], "read-back points")


def judge(spec, prog, ws, rs):
    if ws["ext"] == "pmv":
        return judge_pmv(prog, {k: v for k, v in ws.items() if k != "ext"})
    return judge_gcode(prog, [] if ws.get("bare") else fmt.rt_threads(spec), {"name": "design"}, {k: v for k, v in ws.items() if k not in ("ext", "bare")})


SPEC = {
    "judge": judge, "nthreads": 3,
    "alphabet": fmt.program_alphabet(70) + [(0.04, 12345.678, R.STITCH)], "long": [(0, 0, R.STITCH), (20, -35, R.STITCH), (71, 7, R.JUMP), (200, -36, R.STITCH), (0, 0, R.COLOR_CHANGE), (0, 0, R.STOP), (0, 0, R.TRIM), (0, 0, R.SLOW)],
    "settings": [({"ext": "gcode"}, [None]), ({"ext": "pmv"}, [None]), ({"ext": "gcode", "stitch_z_travel": 2.5, "tie_on": True, "tie_off": True, "bare": True, "explicit_trim": True}, [None]),
                 ({"ext": "gcode", "max_stitch": 100, "max_jump": 50, "sequin_contingency": R.SQ_JUMP, "writes_speeds": False}, [None]), ({"ext": "pmv", "tie_on": True, "tie_off": True}, [None])],
    "depth": {"quick": (3, 5), "thorough": (4, 6)}, "few": 2, "full_settings_to": 2,
}
LINES = ["G00 X1.5 Y-2", "g0x-1y.5", "G01 X10 Y0 Z3", "G1 Z5", "G00 X7", "G20", "G21", "G70", "G71", "G90", "G91", "M00", "M1", "M2", "M30", "N7 G00 X3 Y3", "/G00 X4 Y-1",
         "(Thread0: #ff0000 red)", "(no Thread here)", "; G00 X9 Y9", "", "G00 X2 Y2 (note) ", "T2", "G90 M00", "G91 M30", "\tG 00 X +6 Y - 6"]


def reference(lines):
    """A plain interpreter of the subset."""
    st, th = [], []
    x = y = 0.0
    scale = 10.0
    rel = False
    for line in lines:
        com = re.findall(r"\(([^)]*)\)|;(.*)$", line)
        code = re.sub(r"\([^)]*\)|;.*$", "", line).replace(" ", "").replace("\t", "").lstrip("/").lower()
        for a, b in com:
            t = a or b
            if t.startswith("Thread"):
                th.append(int(t.split("#")[1][:6], 16))
        w = {k: float(v) for k, v in re.findall(r"([a-z])([-+.\d]+)", code)}
        if "g" in w:
            g = w["g"]
            if g in (0, 1):
                if "x" in w and "y" in w:
                    px, py = -w["x"] * scale, -w["y"] * scale
                    x, y = (x + px, y + py) if rel else (px, py)
                    st.append(("P", x, y))
                    continue
            elif g in (21, 71):
                scale = 10.0
            elif g in (20, 70):
                scale = 254.0
            elif g in (90, 91):
                rel = g == 91
        if "m" in w:
            st.append(("E",) if w["m"] in (30, 2) else ("C",))
    return st, th


def lines_case(seq, eol, last):
    text = eol.join(LINES[i] for i in seq) + (eol if last else "")
    q = rt.load("gcode", text.encode("utf8"))
    st, th = reference([LINES[i] for i in seq])
    got = rt.events(q.stitches)
    if len(got) != len(st) or any(g[0] != w[0] or any(abs(a - b) > 1e-6 for a, b in zip(g[1:], w[1:])) for g, w in zip(got, st)):
        return "%r read as %r, wants %r" % (text, got, st)
    return rt.diff([t.color & 0xFFFFFF for t in q.threadlist], th, "threads")


TEXTS = ["a", "two words", "Thread", "Thread 1: x", "a) b", "(x)", "a\nG00 X1 Y1", "\r\n", u"\u00e9\u20ac", "; c", "M30", "", "(", ")"]


def text(i, j):
    E = rt.lib().EmbThread
    a, b = TEXTS[i], TEXTS[j]
    threads = [E(0xFF0000, a, b), E(0x0000FF, None, None)]
    threads[0].brand = b
    prog = [(0, 0, R.STITCH), (5, 5, R.COLOR_CHANGE), (9, 8, R.STITCH)]
    return judge_gcode(prog, threads, {"name": a, "author": b, "number": 5, "Thread count": a}, {})


def bounds(tier):
    return fmt.bounds(SPEC, tier) + "; all G-code programs of <= %d of %d lines, with all line ends and with or without a last line end; all pairs of %d texts; all raw PMV points" % (3 if tier == "quick" else 4, len(LINES), len(TEXTS))


def shards(tier):
    n = 3 if tier == "quick" else 4
    return fmt.shards(SPEC, tier) + [("lines", i, n) for i in range(len(LINES))] + [("text", i) for i in range(len(TEXTS))] + [("raw",), ("many",)]


def raw_pmv():
    body = bytearray()
    want = []
    x = 0
    for blocks in (1, 2):
        for a in range(64):
            for b in range(32):
                body.extend((a, b))
                x += a - 64 if a > 32 else a
                want.append(("P", x * 2.5, -2.5 * (b - 32 if b > 16 else b)))
    # blocks have at most 127 points (a longer length ends the file); empty blocks are skipped
    out = bytearray(b"#PMV0001" + b"\0" * 92)
    for k in range(0, len(body), 254):
        ch = body[k:k + 254]
        out += (len(ch) // 2).to_bytes(2, "little") + len(ch).to_bytes(2, "little") + ch
        out += b"\0\0\0\0"
    out += b"\0\0\0\1"
    q = rt.load("pmv", bytes(out))
    return rt.diff(rt.events(q.stitches), want + [("E",)], "points")


def many(n):
    """Designs around the limit of 100 points, with other commands in between."""
    prog = []
    for k in range(n):
        prog.append((k * 10, (k * 37) % 60, R.STITCH))
        if k % 7 == 3:
            prog.append((k * 10, (k * 37) % 60, R.TRIM if k % 2 else R.STOP))
    return judge_pmv(prog, {})


def run(shard, rec):
    if shard[0] in ("prog", "rep"):
        return fmt.run(SPEC, shard, rec)
    if shard[0] == "lines":
        for n in range(shard[2]):
            for tail in itertools.product(range(len(LINES)), repeat=n):
                seq = (shard[1],) + tail
                for eol, last in (("\n", True), ("\r\n", False), ("\n", False), ("\r", True)) if n < 2 else (("\n", False),):
                    rec.traces += 1
                    rec.transitions += len(seq)
                    rec.state(("lines", seq, eol, last))
                    rec.case(lambda: lines_case(seq, eol, last), {"lines": [seq, eol, last]})
    elif shard[0] == "text":
        for j in range(len(TEXTS)):
            rec.traces += 1
            rec.transitions += 3
            rec.state((shard, j))
            rec.case(lambda: text(shard[1], j), {"text": [shard[1], j]})
    elif shard[0] == "raw":
        rec.traces += 1
        rec.transitions += 4096
        rec.case(raw_pmv, {"raw": 1})
    else:
        for n in range(85, 106):
            rec.traces += 1
            rec.transitions += n
            rec.state(("many", n))
            rec.case(lambda: many(n), {"many": n})


def replay(d):
    if "lines" in d:
        return lines_case(*d["lines"])
    if "text" in d:
        return text(*d["text"])
    if "raw" in d:
        return raw_pmv()
    if "many" in d:
        return many(d["many"])
    return judge(SPEC, [tuple(s) for s in d["program"]], d["write"], d["read"])
