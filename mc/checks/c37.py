"""Palettes: the machine thread tables, nearest colour, and mapping of threadlists to palette entries."""
import importlib
import itertools

from .. import rt
from .c36 import table

PROPERTY = "C37"
LEVEL = "model_checking"
RULE = "case = one colour mapped into one palette, or one threadlist mapped into one small palette by one of the three mappings; distinct_nontrivial = distinct mappings"
ASSUMPTIONS = ["nearest by the documented red-mean distance, up to its integer rounding", "which of several equally near entries is chosen is not claimed"]
PALETTES = ("Pec", "Jef", "Hus", "Sew", "Shv")


def mod():
    return importlib.import_module("pyembroidery.EmbThread")


def palette(name):
    return importlib.import_module("pyembroidery.EmbThread" + name).get_thread_set()


def rgb(v):
    return v >> 16 & 255, v >> 8 & 255, v & 255


def dist(a, b):
    """The published distance without integer rounding, and what rounding can change of it."""
    (r1, g1, b1), (r2, g2, b2) = rgb(a), rgb(b)
    m = (r1 + r2) / 2.0
    dr, dg, db = r1 - r2, g1 - g2, b1 - b2
    d = (512 + m) * dr * dr / 256.0 + 4 * dg * dg + (767 - m) * db * db / 256.0
    return d, 2 + (dr * dr + db * db) / 512.0


def near_ok(color, values, got):
    """got is an entry at minimal distance (values: colours or None)."""
    live = [k for k, v in enumerate(values) if v is not None]
    if not live:
        return got is None
    if got not in live:
        return False
    d, s = dist(color, values[got])
    for k in live:
        d2, s2 = dist(color, values[k])
        if d - s > d2 + s2:
            return False
    return True


def tables(name):
    """Every entry is the documented thread; each caller has its own table."""
    a = palette(name)
    want = table()["palettes"][name]
    if len(a) != len(want):
        return "%d entries, want %d" % (len(a), len(want))
    for rnd in range(2):
        for k, (t, w) in enumerate(zip(a, want)):
            if w is None:
                if t is not None:
                    return "entry %d is %r" % (k, t)
            elif ["%06x" % (t.color & 0xFFFFFF), t.description, t.catalog_number, t.brand, t.chart] != w:
                return "entry %d is %r, want %r" % (k, t, w)
        # what one caller does to its table is not seen by the next
        for t in a:
            if t is not None:
                t.color ^= 0xFFFFFF
                t.description = "x"
        for k in range(len(a)):
            a[k] = None
        a = palette(name)
        if len(a) != len(want):
            return "the table has changed"
    return None


_vals = {}


def values(name):
    if name not in _vals:
        p = palette(name)
        _vals[name] = p, [None if t is None else t.color & 0xFFFFFF for t in p]
    return _vals[name]


def nearest(name, color):
    p, v = values(name)
    got = mod().find_nearest_color_index(color, p)
    t = rt.lib().EmbThread(color)
    if t.find_nearest_color_index(p) != got or mod().find_nearest_color_index(t, p) != got or rt.lib().EmbThread(color | 0xFF000000).find_nearest_color_index(p) != got:
        return "thread and colour map differently"
    if not near_ok(color, v, got):
        return "%06x maps to %r, which is not the nearest of %s" % (color, got, name)
    if color in v and v[got] != color:
        return "%06x is in the palette but maps to %06x" % (color, v[got])
    return None


SMALL = [[0xFF0000, 0x00FF00, 0x0000FF], [None, 0x808080, 0x828282, 0x000000], [0x123456], [None, 0xFFFFFF, None, 0xFFFFFE, 0xFFFFFE]]
COLORS = [(0xFF0000, "a"), (0xFE0000, "b"), (0x818181, "c"), (0x0000FF, "d"), (0xFFFFFF, "e"), (0xFF0000, "z")]


def mapping(pi, ix):
    L, M = rt.lib(), mod()
    vals = SMALL[pi]

    def pal():
        return [None if v is None else L.EmbThread(v, "p%d" % k) for k, v in enumerate(vals)]

    ths = [L.EmbThread(*COLORS[i]) for i in ix]
    cols = [COLORS[i][0] for i in ix]
    live = [k for k, v in enumerate(vals) if v is not None]
    # nearest of each
    p = pal()
    got = M.build_palette(p, ths)
    if len(got) != len(ths) or any(not near_ok(c, vals, g) for c, g in zip(cols, got)):
        return "build_palette gives %r" % (got,)
    if [None if t is None else t.color for t in p] != vals:
        return "build_palette changed the palette"
    # no two different neighbours alike
    p = pal()
    got2 = M.build_nonrepeat_palette(p, ths)
    if len(got2) != len(ths):
        return "nonrepeat gives %r" % (got2,)
    if [None if t is None else t.color for t in p] != vals:
        return "build_nonrepeat_palette changed the palette"
    if len(live) > 1:
        for k, (c, g) in enumerate(zip(cols, got2)):
            if g not in live:
                return "nonrepeat gives %r" % (got2,)
            if k and ths[k] != ths[k - 1] and g == got2[k - 1]:
                return "neighbours %d and %d share entry %d" % (k - 1, k, g)
            without = [v if j != (got2[k - 1] if k else None) else None for j, v in enumerate(vals)]
            if not near_ok(c, vals, g) and not (k and near_ok(c, without, g)):
                return "nonrepeat gives %r, entry %d is neither the nearest nor the next" % (got2, k)
            if k and ths[k] == ths[k - 1] and g != got2[k - 1] and got2[k - 1] == got[k - 1]:
                return "nonrepeat gives %r, equal neighbours %d and %d differ" % (got2, k - 1, k)
    # each colour its own entry
    u = M.build_unique_palette(pal(), ths)
    if len(u) != len(ths) or any(g not in live for g in u):
        return "unique gives %r" % (u,)
    for a, b in itertools.combinations(range(len(u)), 2):
        if cols[a] == cols[b] and u[a] != u[b]:
            return "one colour has two entries: %r" % (u,)
        if cols[a] != cols[b] and u[a] == u[b] and len(set(ths)) <= len(live):
            return "two colours share an entry: %r" % (u,)
    return None


def step(tier):
    return 12 if tier == "quick" else 5


def bounds(tier):
    return "all entries of 5 palettes; every colour of a grid with channel step %d, and every palette colour with each channel changed by -1, 0 or 1, in 5 palettes; all lists of <= %d of %d threads in %d small palettes" % (
        step(tier), 4 if tier == "quick" else 6, len(COLORS), len(SMALL))


def shards(tier):
    g = list(range(0, 256, step(tier))) + [255]
    return ([("tables", n) for n in PALETTES] + [("grid", n, r, tuple(g)) for n in PALETTES for r in g] + [("own", n) for n in PALETTES]
            + [("map", pi, n, i) for pi in range(len(SMALL)) for n in range(1, (4 if tier == "quick" else 6) + 1) for i in range(len(COLORS))] + [("map", pi, 0, 0) for pi in range(len(SMALL))])


def run(shard, rec):
    def one(key, f):
        rec.traces += 1
        rec.transitions += 1
        rec.state(key)
        if rec.traces == 1:
            rec.sample(key)
        rec.case(f, list(key))

    if shard[0] == "tables":
        one(("tables", shard[1]), lambda: tables(shard[1]))
    elif shard[0] == "grid":
        _, name, r, g = shard
        for a, b in itertools.product(g, repeat=2):
            c = r << 16 | a << 8 | b
            one(("near", name, c), lambda: nearest(name, c))
    elif shard[0] == "own":
        for v in values(shard[1])[1]:
            if v is not None:
                for d in itertools.product((-1, 0, 1), repeat=3):
                    ch = [x + y for x, y in zip(rgb(v), d)]
                    if all(0 <= x <= 255 for x in ch):
                        c = ch[0] << 16 | ch[1] << 8 | ch[2]
                        one(("near", shard[1], c), lambda: nearest(shard[1], c))
    else:
        _, pi, n, i = shard
        for tail in itertools.product(range(len(COLORS)), repeat=max(0, n - 1)):
            ix = ((i,) if n else ()) + tail
            one(("map", pi, ix), lambda: mapping(pi, ix))
            rec.outcome((pi, ix))


def replay(d):
    if d[0] == "tables":
        return tables(d[1])
    if d[0] == "near":
        return nearest(d[1], d[2])
    return mapping(d[1], d[2])
