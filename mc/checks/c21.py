"""CSV and JSON lose nothing."""
import csv
import io
import itertools
import json
import math
import os

from .. import refenc as R
from .. import rt

PROPERTY = "C21"
LEVEL = "model_checking"
RULE = "case = one pattern (command sequence, thread list, metadata) written by the real CSV or JSON writer in one version, parsed independently and read back by the real reader; distinct_nontrivial = distinct command sequences or texts"
ASSUMPTIONS = ["in CSV an empty thread text is the same as none, and metadata are texts"]
FLAGS = [None, 0, 3, 253, 254]
COORDS = [(0, 0), (5, -3), (0.1, -0.30000000000000004), (1e-7, 1e21), (-12345.678, 1 / 3.0)]
KINDS = [("csv", None), ("csv", "delta"), ("csv", "full"), ("json", None), ("csv", "deltas="), ("csv", "displacement=")]
TEXTS = [None, "", "a", "None", 'say "hi"', '"', '""', "a,b", "two\nlines", "cr\rlf\r\n", u"\u00e9\u20ac\U0001f9f5", " lead", "#x", "*", "$", "@", "\\", "'", "\t"]
TFIELDS = ["description", "catalog_number", "details", "brand", "chart", "weight"]


def bounds(tier):
    return "all 257 commands x all %d flag triples; all sequences of <= %d of %d commands; all triples of %d texts in threads and metadata; all in %d file versions, in memory and as files" % (len(FLAGS) ** 3, 4 if tier == "quick" else 5, len(alphabet()), len(TEXTS), len(KINDS))


def alphabet():
    cmds = [R.STITCH, R.JUMP, R.TRIM, R.COLOR_CHANGE, R.STOP, R.END, R.SEQUIN_EJECT, R.COLOR_BREAK, R.M_ROTATE, R.SQ_STITCH]
    out = [(x, y, c) for (x, y), c in zip(COORDS * 2, cmds)]
    return out + [(1, 2, R.encode(R.NEEDLE_SET, 1, 2, 3)), (7, 7, R.STITCH | 0x100)]


def shards(tier):
    out = [("cmd", c, 16) for c in range(-1, 256, 16)]
    out += [("seq", k, 4 if tier == "quick" else 5) for k in range(len(alphabet()))] + [("text", i) for i in range(len(TEXTS))] + [("misc",)] + [("rep", k) for k in range(len(alphabet()))]
    return out


def settings(v):
    return {} if v is None else {v[:-1]: True} if v.endswith("=") else {"version": v}


def roundtrip(p, kind, file=False, enc=False):
    ext, v = kind
    ws = settings(v)
    want = p
    if enc:
        ws["encode"] = True
        want = p.get_normalized_pattern({"sequin_contingency": R.SQ_UTILIZE} if ext == "csv" else {})
    if file:
        name = os.path.join(os.environ.get("MC_SCRATCH", "/tmp"), "c21-%d.%s" % (os.getpid(), ext))
        try:
            rt.lib().write(p, name, ws)
            with open(name, "rb") as f:
                data = f.read()
            back = rt.lib().read(name)
        finally:
            if os.path.exists(name):
                os.remove(name)
    else:
        data = rt.dump(ext, p, ws)
        back = rt.load(ext, data)
    text = data if isinstance(data, str) else data.decode("utf8")
    msg = (check_csv(text, want, v) if ext == "csv" else check_json(text, want)) if not (file and ext == "csv") else None
    if msg is not None:
        return "written file: " + msg
    got = [tuple(s) for s in back.stitches]
    exp = [tuple(s) for s in want.stitches]
    if got != exp:
        return "%s %s: commands %r read back as %r" % (ext, v, exp, got)
    gt = [tkey(t) for t in back.threadlist]
    wt = [tkey(t, ext == "csv") for t in want.threadlist]
    if gt != wt:
        return "%s %s: threads %r read back as %r" % (ext, v, wt, gt)
    wx = {k: v for k, v in want.extras.items() if isinstance(v, str if ext == "csv" else (str, int, float))}
    gx = {k: v for k, v in back.extras.items() if k in wx}
    if gx != wx:
        return "%s %s: metadata %r read back as %r" % (ext, v, wx, gx)
    # what is added next starts where the file ended
    back.add_stitch_relative(R.STITCH, 3, 4)
    last = exp[-1][:2] if exp else (0, 0)
    if tuple(back.stitches[-1]) != (last[0] + 3, last[1] + 4, R.STITCH):
        return "a stitch by (3, 4) after reading is at %r, the design ended at %r" % (back.stitches[-1], last)
    return None


def tkey(t, empty=False):
    return (t.color & 0xFFFFFF,) + tuple(None if empty and getattr(t, f) == "" else getattr(t, f) for f in TFIELDS)


def check_csv(text, p, version):
    rows = [r for r in csv.reader(io.StringIO(text, newline=""), strict=True) if r]
    var = {r[1]: r[2] for r in rows if r[0] == ">"}
    cmds = [s[2] & 0xFF for s in p.stitches]
    if int(var["STITCH_COUNT:"]) != len(cmds) or int(var["THREAD_COUNT:"]) != cmds.count(R.COLOR_CHANGE) or int(var["NEEDLE_COUNT:"]) != cmds.count(R.NEEDLE_SET):
        return "counts %r" % (var,)
    if p.stitches:
        xs = [s[0] for s in p.stitches]
        ys = [s[1] for s in p.stitches]
        for k, w in (("LEFT", min(xs)), ("TOP", min(ys)), ("RIGHT", max(xs)), ("BOTTOM", max(ys)), ("WIDTH", max(xs) - min(xs)), ("HEIGHT", max(ys) - min(ys))):
            if float(var["EXTENTS_%s:" % k]) != w:
                return "extents %s is %r, wants %r" % (k, var["EXTENTS_%s:" % k], w)
    per = sum(int(v) for k, v in var.items() if k.startswith("COMMAND_"))
    if per != len(cmds):
        return "command counts add up to %d of %d" % (per, len(cmds))
    names = rt.lib().get_common_name_dictionary()
    for c in set(cmds):
        if c in names and int(var.get("COMMAND_" + names[c], -1)) != cmds.count(c):
            return "count of %s is %r of %d" % (names[c], var.get("COMMAND_" + names[c]), cmds.count(c))
    st = [r for r in rows if r[0] == "*"]
    if len(st) != len(cmds):
        return "%d command rows for %d" % (len(st), len(cmds))
    px = py = 0
    for i, (r, s) in enumerate(zip(st, p.stitches)):
        n = {None: 5, "delta": 7, "full": 9, "deltas=": 7, "displacement=": 9}[version]
        if len(r) != n or int(r[1]) != i or float(r[3]) != s[0] or float(r[4]) != s[1]:
            return "row %r for %r" % (r, s)
        if n > 5 and (float(r[5]) != s[0] - px or float(r[6]) != s[1] - py):
            return "row %r after %r" % (r, (px, py))
        if n > 7:
            dx, dy = s[0] - px, s[1] - py
            if not close(float(r[7]), math.hypot(dx, dy)):
                return "distance in row %r after %r" % (r, (px, py))
            a = float(r[8]) * 2 * math.pi  # in turns, from the opposite direction
            if (dx or dy) and not (close(-math.cos(a), dx / math.hypot(dx, dy)) and close(-math.sin(a), dy / math.hypot(dx, dy))):
                return "angle in row %r after %r" % (r, (px, py))
        px, py = s[0], s[1]
    return None


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(b))


def check_json(text, p):
    j = json.loads(text)
    if [tuple(s[:2]) for s in j["stitches"]] != [(s[0], s[1]) for s in p.stitches]:
        return "stitches %r" % (j["stitches"],)
    got = [(int(t["color"][1:], 16),) + tuple(t[f] for f in TFIELDS) for t in j["threadlist"]]
    return rt.diff(got, [tkey(t) for t in p.threadlist], "threads")


def command(c, file=False):
    sts = []
    if c == -1 or c == 255:
        sts = [(0, 0, -1), (1, 1, 0), (3, 3, 255)]
    else:
        for k, (t, n, o) in enumerate(itertools.product(FLAGS, repeat=3)):
            x, y = COORDS[k % len(COORDS)]
            sts.append((x, y, R.encode(c, t, n, o)))
    p = rt.pattern(sts)
    for kind in KINDS:
        msg = roundtrip(p, kind, file)
        if msg is not None:
            return msg[:1500]
    return None


def text(i, j, k):
    E = rt.lib().EmbThread
    a, b, c = TEXTS[i], TEXTS[j], TEXTS[k]
    threads = [E(0xFF0000, a, b, c, a, b, c), E(0x0102FE, b, c, a, c, a, b)]
    p = rt.pattern([(0, 0, R.STITCH), (1, 1, R.COLOR_CHANGE)], threads, {k2: v for k2, v in (("name", a), ("author", b), (c, "x")) if v is not None and k2 is not None})
    for kind in KINDS:
        if kind[1] is None:
            for file in (False, True) if k == 0 else (False,):
                msg = roundtrip(p, kind, file)
                if msg is not None:
                    return msg
    return None


def misc(n):
    E = rt.lib().EmbThread
    if n < 256:
        p = rt.pattern([(0, 0, R.STITCH)], [E(n << 16 | (255 - n) << 8 | n), E(0xFF000000 | n)])
        return roundtrip(p, KINDS[0]) or roundtrip(p, KINDS[3])
    if n == 256:
        p = rt.pattern([], [], {"i": 5, "f": 0.1, "s": "5", "b": True, "neg": -3})
        return roundtrip(p, KINDS[0]) or roundtrip(p, KINDS[3])
    if n == 257:  # rows of Embroidermodder
        q = rt.load("csv", '"$","1","255","0","10","desc","cat"\n"*","0","STITCH","1.5","-2"\n"*","1","TRIM"\n')
        t = q.threadlist[0]
        if (t.color, t.description, t.catalog_number) != (0xFF000A, "desc", "cat"):
            return "thread %r" % t
        return None if [tuple(s) for s in q.stitches] == [(1.5, -2, R.STITCH), (1.5, -2, R.TRIM)] or [s[2] for s in q.stitches] == [R.STITCH, R.TRIM] else "stitches %r" % q.stitches
    if n == 258:  # thread rows of any length, with texts as short as numbers
        names = ("hex", "description", "brand", "catalog_number", "details", "weight", "chart")
        for size in range(1, 8):
            for vals in (("#102030", "abc", "d", "7", "x", "40", "c"), ("#123", "1", "2", "3", "4", "5", "6"), ("#102030", "255", "0", "10", "x", "y", "z"), ("#102030", "red", "longer", "7", "", "", "")):
                q = rt.load("csv", '"$","0",%s\n' % ",".join('"%s"' % v for v in vals[:size]))
                t = q.threadlist[0]
                want = [v or None for v in vals[1:size]] + [None] * (7 - size)
                color = {"#123": 0x112233}.get(vals[0], 0x102030)
                if (t.color & 0xFFFFFF, [getattr(t, a) for a in names[1:]]) != (color, want):
                    return "row %r read as %r" % (vals[:size], t)
        return None
    # names stand for the documented commands
    L = rt.lib()
    for name, c in L.get_command_dictionary().items():
        if getattr(L, name) != c or L.get_common_name_dictionary()[c] != name:
            return "name %s" % name
        if c >= 0:
            q = rt.load("csv", '"*","0","%s t1 n2 o3","1","2"\n' % name)
            if [tuple(s) for s in q.stitches] != [(1, 2, R.encode(c, 1, 2, 3))]:
                return "%s read as %r" % (name, q.stitches)
    return None


def seq_case(seq, file=False):
    p = rt.pattern(seq, [rt.lib().EmbThread(k * 0x010305 & 0xFFFFFF) for k in range(max(6, len(seq) + 2 if len(seq) > 6 else 0))])
    for kind in KINDS:
        msg = roundtrip(p, kind, file) or (roundtrip(p, kind, file, True) if kind[1] is None else None)
        if msg is not None:
            return msg
    return None


def rep_case(i, j, t):
    """One command or two, many times over, moving on each time."""
    w = [alphabet()[k] for k in (i, j) if k is not None]
    return seq_case([(s[0] + 3 * k, s[1] - 2 * k) + tuple(s[2:]) for k in range(t) for s in w])


def run(shard, rec):
    def go(key, fn, n=1):
        rec.traces += 1
        rec.transitions += n
        rec.state((shard[0], repr(key)))
        rec.outcome((shard[0], repr(key)))
        rec.case(fn, {shard[0]: key})

    if shard[0] == "cmd":
        for c in range(shard[1], min(shard[1] + shard[2], 256)):
            go(c, lambda: command(c), 500)
    elif shard[0] == "seq":
        al = alphabet()
        for n in range(shard[2]):
            for tail in itertools.product(range(len(al)), repeat=n):
                s = [shard[1]] + list(tail)
                go(s, lambda: seq_case([al[i] for i in s], n < 2), 6 * len(s))
    elif shard[0] == "text":
        for j in range(len(TEXTS)):
            for k in range(len(TEXTS)):
                go([shard[1], j, k], lambda: text(shard[1], j, k))
    elif shard[0] == "rep":
        al = alphabet()
        for t in (257, 1030):
            go([shard[1], None, t], lambda: rep_case(shard[1], None, t), 6 * t)
        for j in range(len(al)):
            go([shard[1], j, 130], lambda: rep_case(shard[1], j, 130), 12 * 130)
    else:
        for n in range(260):
            go(n, lambda: misc(n))


def replay(d):
    if "cmd" in d:
        return command(d["cmd"])
    if "rep" in d:
        return rep_case(*d["rep"])
    if "seq" in d:
        return seq_case([alphabet()[i] for i in d["seq"]], len(d["seq"]) < 3)
    if "text" in d:
        return text(*d["text"])
    return misc(d["misc"])
