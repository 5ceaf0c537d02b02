"""Every penetration keeps the colour of its thread through every format that stores colours."""
import itertools

from .. import refenc as R
from .. import rt

PROPERTY = "C42"
LEVEL = "model_checking"
RULE = ("case = one program of stitches, changes, stops, trims and jumps with one list of colours, written and read back by the real writers and readers of every format; "
        "distinct_nontrivial = distinct (format, colours of the penetrations)")
ASSUMPTIONS = ["the colours are entries of the format's palette where it has one (which entry is nearest to another colour is judged by C37)",
               "DST and G-code have no stops that differ from changes: programs with stops are left out for them"]
OPS = ["s", "c", "stop", "t", "j"]
FORMATS = [("pec", {}, "pec"), ("pes", {}, "pec"), ("pes", {"version": "6"}, "pec"), ("pes", {"version": "6t"}, "pec"), ("pes", {"version": "1t"}, "pec"), ("jef", {}, "jef"), ("vp3", {}, None), ("xxx", {}, None), ("tbf", {}, None),
           ("dst", {"version": "extended"}, None), ("gcode", {}, None), ("csv", {"encode": True}, None), ("json", {"encode": True}, None), ("csv", {}, None), ("json", {}, None)]
PLAIN = (0x102030, 0xFF0000, 0x0000FE)
BACK = 4


def bounds(tier):
    return "all programs of <= %d commands after a first stitch x all lists of 3 colours (repeats included) x %d formats and versions; %d threads or changes at the most" % (depth(tier), len(FORMATS), depth(tier) + 1)


def depth(tier):
    return 5 if tier == "quick" else 6


_PAL = {}


def palette(name):
    if name is None:
        return PLAIN
    if name not in _PAL:
        from pyembroidery import EmbThreadJef, EmbThreadPec

        s = {"pec": EmbThreadPec, "jef": EmbThreadJef}[name].get_thread_set()
        _PAL[name] = tuple(s[k].color & 0xFFFFFF for k in (5, 9, 20))
    return _PAL[name]


def build(prog, colors, same):
    """The pattern, and for every penetration its column and colour number."""
    p = rt.lib().EmbPattern()
    for k, c in enumerate(colors):  # threads of one colour, of different texts or the same
        p.add_thread(rt.lib().EmbThread(c, "t%d" % (c if same else k)))
    want, jumps, k = [], [], 0
    p.stitch_abs(0, 0)
    want.append((0, 0))
    col = 0
    for op in prog:
        if op == "s":
            col += 1
            p.stitch_abs(col * 10, (col % 3) * 7)
            want.append((col, k))
        elif op == "c":
            p.color_change()
            k += 1
        elif op == "stop":
            p.stop()
        elif op == "t":
            p.trim()
        else:
            col += 1
            p.move_abs(col * 10, 0)
            jumps.append(col)
    for _ in range(BACK):
        col += 1
        p.stitch_abs(col * 10, 5)
        want.append((col, k))
    p.end()
    return p, want, jumps


def colored(q):
    """The penetrations read back: place from the first, and colour."""
    out, k, started, x0 = [], 0, False, None
    for s in q.stitches:
        c = s[2] & 0xFF
        if c == R.COLOR_CHANGE or (c == R.NEEDLE_SET and started):
            k += 1
        if c in (R.COLOR_CHANGE, R.NEEDLE_SET):
            started = True
        elif c == R.STITCH:
            started = True
            if x0 is None:
                x0 = s[0]
            at = ((s[0] - x0) / 10.0, q.threadlist[k].color & 0xFFFFFF if k < len(q.threadlist) else "none")
            if not out or out[-1] != at:
                out.append(at)
    return out


def case(prog, pick, f, same, rec=None):
    ext, settings, pal = FORMATS[f]
    colors = [palette(pal)[i] for i in pick]
    p, want, jumps = build(prog, colors, same)
    q = rt.load(ext, rt.dump(ext, p, dict(settings)))
    # formats that settle after a jump have a penetration there
    got = [g for g in colored(q) if not any(abs(g[0] - j) < 0.11 for j in jumps)]
    exp = [(col, colors[k]) for col, k in want]
    if rec is not None:
        rec.outcome((f, tuple(c for _, c in exp)))
    if len(got) != len(exp) or any(abs(g[0] - e[0]) > 0.11 or g[1] != e[1] for g, e in zip(got, exp)):
        return "%s %r: %r with colours %s: penetrations (place, colour) read back as %s, want %s" % (ext, settings, prog, [hex(c) for c in colors], got, exp)
    return None


def shards(tier):
    n = depth(tier)
    return [(f, a, b, n) for f in range(len(FORMATS)) for a in OPS for b in OPS] + [(f, None, None, n) for f in range(len(FORMATS))]


def run(shard, rec):
    f, a, b, n = shard
    heads = [(a, b)] if a is not None else [(), ("s",), ("c",), ("stop",), ("t",), ("j",)]
    for head in heads:
        for m in range(n - 1 if a is not None else 1):
            for tail in itertools.product(OPS, repeat=m):
                prog = head + tail
                if FORMATS[f][0] in ("dst", "gcode") and "stop" in prog:
                    continue
                ch = prog.count("c")
                picks = itertools.product(range(3 if ch < 3 else 2), repeat=ch + 1) if ch < 5 else [tuple(k % 2 for k in range(ch + 1)), (0,) * (ch + 1), tuple(k // 2 % 3 for k in range(ch + 1))]
                for pick, same in [(q, s) for q in picks for s in ((True, False) if len(set(q)) < len(q) else (True,))]:
                    if not same and FORMATS[f][0] == "jef":
                        continue  # a stop is the same entry twice, so different threads never are
                    rec.traces += 1
                    rec.transitions += 2 * len(prog)
                    rec.state((f, prog, pick, same))
                    if rec.traces == 1:
                        rec.sample({"prog": prog, "colors": pick, "format": FORMATS[f]})
                    rec.case(lambda: case(prog, pick, f, same, rec), {"prog": prog, "pick": pick, "format": f, "same": same})


def replay(d):
    return case(tuple(d["prog"]), tuple(d["pick"]), d["format"], d["same"])
