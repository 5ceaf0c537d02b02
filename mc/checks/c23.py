"""Fractions of a unit: rounding to the units of a format never accumulates."""
import itertools
import random

from .. import enc
from .. import refenc as R
from .. import rt
from .. import samples

PROPERTY = "C23"
LEVEL = "model_checking"
RULE = "case = one design in fractions of a unit written by a real writer and read back, every penetration compared; distinct_nontrivial = distinct (format, settings, design)"
ASSUMPTIONS = ["a whole design may be displaced by one constant (centred formats)", "a PEC or PES file has an extra penetration at jumps, so designs with jumps and trims are left out for these two",
               "PMV files are scaled, and are left out"]

S = R.STITCH
# format -> the largest spread of the error (a VP3 block begins at hundredths of a unit, cut off)
FORMATS = {"exp": 1.0, "dst": 1.0, "jef": 1.0, "vp3": 1.03, "xxx": 1.0, "u01": 1.0, "tbf": 1.0, "pec": 1.0, "pes": 1.0, "csv": 0.0, "json": 0.0, "gcode": 0.02, "template": 1.0}
MODES = [{}, {"round": False}, {"encode": False}]
STARTS = [(0, 0.31), (0.5, -0.5)]


def steps(long_):
    out = [(0.4, 0.6, S), (5.4, -5.4, S), (0.5, 0.25, S), (1 / 3.0, -2 / 3.0, S), (-7.3, 60.45, S), (7.3, 0.45, R.JUMP), (0, 0, R.TRIM), (0, 0, R.COLOR_CHANGE), (0, 0, R.STOP)]
    if long_:
        out.append((130.3, 44.6, S))
    return out


def design(start, seq, times):
    x, y = start
    out = [(x, y, S)]
    for _ in range(times):
        for dx, dy, c in seq:
            x += dx
            y += dy
            out.append((x, y, c))
    out.append((x + 0.3, y + 0.7, S))
    out.append((x + 0.3, y + 0.7, R.END))
    return rt.pattern(out, enc.threads(min(3 + times * len(seq), 40)))


def variants(fmt):
    return samples.VARIANTS.get(fmt, [{}])


def template(p, s):
    """Penetrations summed from the whole steps of a template export, from its fractional steps, and its whole positions."""
    import importlib
    import io
    f = io.BytesIO()
    W = importlib.import_module("pyembroidery.GenericWriter")
    rt.lib().EmbPattern.write_embroidery(W, p, f, dict(s, segment="{cmd_str} {idx} {idy} {dx} {dy} {ix} {iy} {_idx} {_idy}\n"))
    x = y = fx = fy = 0
    out = [[], [], [], []]
    for line in f.getvalue().decode("utf8").splitlines():
        w = line.split(" ")
        x, y, fx, fy = x + int(w[1]), y + int(w[2]), fx + float(w[3]), fy + float(w[4])
        if w[0] == "STITCH":
            for o, v in zip(out, ((x, y), (fx, fy), (int(w[5]), int(w[6])), (-x, -y))):
                o.append(v)
            if int(w[7]) != -int(w[1]) or int(w[8]) != -int(w[2]):
                return None
    return out


def case(fmt, vi, mode, start, seq, times):
    s = dict(samples.DATE)
    s.update(variants(fmt)[vi])
    s.update(MODES[mode])
    if fmt in ("pec", "pes") and sum(1 for a in seq if a[2] == R.COLOR_CHANGE) * times > 200:
        return None
    p = design(start, seq, times)
    random.seed(5)
    want = [(a[0], a[1]) for a in p.stitches if a[2] == S]
    if fmt == "template":
        four = template(p, s)
        if four is None or four[0] != four[2]:
            return "template %r: whole steps do not add up to whole positions: %r" % (s, four)
        if len(want) != len(four[1]) or not s.get("round", False) and any(abs(a - b) > 1e-6 for v, w in zip(four[1], want) for a, b in zip(v, w)):
            return "template %r: steps add up to %r, want %r" % (s, four[1], want)
        got = four[0]
    else:
        q = rt.load(fmt, rt.dump(fmt, p, s))
        got = [(a[0], a[1]) for a in q.stitches if a[2] & 0xFF == S]
    if len(want) != len(got):
        return "%s %r: %d penetrations come back as %d" % (fmt, s, len(want), len(got))
    for ax in (0, 1):
        err = [g[ax] - w[ax] for g, w in zip(got, want)]
        if max(err) - min(err) > FORMATS[fmt] + 1e-6:
            k = err.index(max(err))
            j = err.index(min(err))
            return "%s %r: penetration %d at %r comes back as %r, but %d at %r as %r" % (fmt, s, j, want[j], got[j], k, want[k], got[k])
    return None


def shards(tier):
    out = []
    n = len(steps(True))
    for fmt in FORMATS:
        for vi in range(len(variants(fmt))):
            for k in range(n):
                out.append((fmt, vi, k, 3 if tier == "quick" else 4))
    return out


def run(shard, rec):
    fmt, vi, k, depth = shard
    for mode in range(3):
        if mode == 2 and (fmt in ("gcode",) or "encode" in variants(fmt)[vi]):
            continue
        al = steps(mode != 2)
        if k >= len(al):
            continue
        if fmt in ("pec", "pes"):
            al = [a for a in al if a[2] in (S, R.COLOR_CHANGE, R.STOP) and abs(a[0]) < 100]
            if k >= len(al):
                continue
        for d in range(depth):
            for rest in itertools.product(al, repeat=d):
                seq = (al[k],) + rest
                for times in (1, 25):
                    for si, start in enumerate(STARTS):
                        rec.traces += 1
                        rec.transitions += len(seq) * times
                        rec.state((fmt, vi, mode, seq, times, si))
                        rec.outcome((fmt, vi, mode, seq, times, si))
                        rec.case(lambda: case(fmt, vi, mode, start, seq, times), lambda: {"format": fmt, "variant": vi, "mode": mode, "start": si, "seq": [list(a) for a in seq], "times": times})


def replay(data):
    return case(data["format"], data["variant"], data["mode"], STARTS[data["start"]], [tuple(a) for a in data["seq"]], data["times"])


def bounds(tier):
    return "all sequences of <= %d of %d moves and commands, once and 25 times over, from %d places, with 3 ways of encoding, in %d formats and their variants" % (3 if tier == "quick" else 4, len(steps(True)), len(STARTS), len(FORMATS))
