"""Thread colours and texts: every documented way of writing a colour, equality and hashing."""
import itertools
import json
import os

from .. import rt

PROPERTY = "C36"
LEVEL = "model_checking"
RULE = "case = one way of writing a colour or thread (name, hex string, number, tuple, dict) given to the real class, or one pair of threads compared; distinct_nontrivial = distinct colours"
ASSUMPTIONS = ["hex strings of 3, 4, 6 or 8 digits", "texts without quotes where the printed form is read back"]


def table():
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "colors.json")) as f:
        return json.load(f)


VALUES = (0, 1, 9, 15, 16, 127, 128, 170, 254, 255)


def rgb_case(r, g, b):
    L = rt.lib()
    E = L.EmbThread
    v = r << 16 | g << 8 | b
    t = E()
    t.set_color(r, g, b)
    h = "%02x%02x%02x" % (r, g, b)
    ways = [t, E(v), E("#" + h), E("#" + h.upper()), E({"hex": h}), E({"hex": "#" + h}), E({"color": "#" + h}), E({"rgb": v}), E({"color": v}),
            E({"color": (r, g, b)}), E({"rgb": [r, g, b]}), E({"color": [r, g, b]}), E("#" + h + "80"), E({"hex": h + "ff"}), E(E(v)), E(v | 0xFF000000), E(thread=v)]
    u = E("red")
    u.set(v)
    ways.append(u)
    u = E(v ^ 0xFFFFFF)
    u.set_hex_color(h)
    ways.append(u)
    for k, w in enumerate(ways):
        if (w.get_red(), w.get_green(), w.get_blue()) != (r, g, b):
            return "way %d gives %r, wants %06x" % (k, w, v)
        if w.hex_color() != "#" + h or w.color & 0xFFFFFF != v or w.get_opaque_color() != 0xFF000000 | v:
            return "way %d reads %s, opaque %x, wants %s" % (k, w.hex_color(), w.get_opaque_color(), h)
        if not (w == t) or w != t or hash(w) != hash(t) or not (w == v) or w != v or not (w == "#" + h) or w == v ^ 1 or not w != v ^ 1:
            return "way %d %r does not equal its colour" % (k, w)
        if w == E(v ^ 0x100) or not w != E(v ^ 0x100):
            return "%r equals another colour" % (w,)
        if h not in str(w) or eval(repr(w), {"EmbThread": E}) != w:
            return "%r is printed as %s" % (w, repr(w))
    return None


def short_case(n, four):
    E = rt.lib().EmbThread
    d = "%03x" % n
    v = int("".join(c + c for c in d), 16)
    s = d + ("8" if four else "")
    for w in (E("#" + s), E("#" + s.upper()), E({"hex": s}), E({"color": "#" + s})):
        if w.color & 0xFFFFFF != v:
            return "#%s gives %06x, wants %06x" % (s, w.color, v)
    return None


def name_case(name, v):
    E = rt.lib().EmbThread
    for s in (name, name.upper(), name.title(), name[0] + name[1:].upper()):
        for w in (E(s), E({"color": s}), E({"rgb": s}), E(E(s))):
            if w.color & 0xFFFFFF != v:
                return "%s gives %06x, wants %06x" % (s, w.color, v)
        if not (E(v) == s) or E(v) != s or E(v ^ 1) == s:
            return "%06x does not compare with %s" % (v, s)
    return None


FIELDS = ("description", "catalog_number", "details", "brand", "chart", "weight")
KEYS = {"description": ("name", "description", "desc"), "catalog_number": ("id", "catalog"), "details": ("details",), "brand": ("brand", "manufacturer"), "chart": ("chart",), "weight": ("weight",)}


def dict_case(pick):
    """One key (or none) for every text; the rest is not set, or kept where set before."""
    for val in ("v-%s", "", 40):
        msg = dict_values({k: val % k if val == "v-%s" else val for k in pick if k}, pick)
        if msg is not None:
            return msg
    return None


def dict_values(d, pick):
    E = rt.lib().EmbThread
    for order in (list(d), list(reversed(d))):
        t = E({k: d[k] for k in order})
        old = E(0x102030, "o1", "o2", "o3", "o4", "o5", "o6")
        old.set(d)
        for f, k in zip(FIELDS, pick):
            if getattr(t, f) != (d[k] if k else None):
                return "%s is %r for %r" % (f, getattr(t, f), d)
            if getattr(old, f) != (d[k] if k else "o%d" % (FIELDS.index(f) + 1)):
                return "%s is %r after set(%r)" % (f, getattr(old, f), d)
        if t.color != 0 or old.color != 0x102030:
            return "colour changed"
        t2 = E(0, *[getattr(t, f) for f in FIELDS])
        t3 = E(5, **{f: getattr(t, f) for f in FIELDS})
        t4 = E()
        t4.set(t)
        if not (t == t2 == t4) or t == t3 or hash(t) != hash(t2):
            return "equality of %r, %r, %r" % (t, t2, t4)
        if [getattr(t3, f) for f in FIELDS] != [getattr(t, f) for f in FIELDS]:
            return "constructor fields"
        if 40 not in d.values() and eval(repr(t), {"EmbThread": E}) != t:
            return "printed as %r" % (t,)
    return None


def eq_case(a, b):
    """Threads are equal exactly if colour and all texts are, and then have equal hashes."""
    E = rt.lib().EmbThread
    x, y = E(*a), E(*b)
    want = (a[0] & 0xFFFFFF,) + a[1:] == (b[0] & 0xFFFFFF,) + b[1:]
    if eval(repr(x), {"EmbThread": E}) != x:
        return "printed as %r" % (x,)
    if (x == y) is not want or (x != y) is want or (y == x) is not want:
        return "%r == %r is %r" % (x, y, x == y)
    if want and hash(x) != hash(y):
        return "hashes of equal threads"
    if want != (len({x, y}) == 1):
        return "set of equal threads"
    if x == None or not x != None or x == 3.5 or x == [] or not x != object():  # noqa: E711
        return "equal to something that is no thread"
    return None


def variants():
    base = (0x102030, "a", "b", "c", "d", "e", "f")
    out = [base, (0x102031,) + base[1:], (0xFF102030,) + base[1:], (0x202030,) + base[1:]]
    for k in range(1, 7):
        for v in (None, "", "z", "A"):
            out.append(base[:k] + (v,) + base[k + 1:])
    return out + [(0x102030,) + (None,) * 6, (0,) + (None,) * 6]


def bounds(tier):
    return "all 147 names x letter cases; all 3-digit hex strings, with and without alpha; %s; all %d choices of dict keys; all pairs of %d threads" % (
        "all triples of 52 channel values" if tier == "thorough" else "all channel values, all triples of %d of them" % len(VALUES), 4 * 3 * 2 * 3 * 2 * 2, len(variants()))


def shards(tier):
    out = [("names",), ("dict",), ("eq",), ("unknown",)] + [("short", k) for k in range(16)]
    vals = tuple(sorted(set(range(0, 256, 6)) | set(VALUES))) if tier == "thorough" else VALUES
    return out + [("rgb", r, vals) for r in vals] + [("line", c) for c in range(3)]


def run(shard, rec):
    def one(key, f):
        rec.traces += 1
        rec.transitions += 1
        rec.state(key)
        rec.outcome(key)
        if rec.traces == 1:
            rec.sample(key)
        rec.case(f, list(key))

    kind = shard[0]
    if kind == "names":
        for n, h in sorted(table()["css"].items()):
            one(("name", n, int(h, 16)), lambda: name_case(n, int(h, 16)))
    elif kind == "short":
        for n in range(shard[1] * 256, shard[1] * 256 + 256):
            for four in (False, True):
                one(("short", n, four), lambda: short_case(n, four))
    elif kind == "rgb":
        for g, b in itertools.product(shard[2], repeat=2):
            one(("rgb", shard[1], g, b), lambda: rgb_case(shard[1], g, b))
    elif kind == "line":
        for v in range(256):
            for base in ((0, 0, 0), (255, 255, 255), (18, 52, 86)):
                c = base[:shard[1]] + (v,) + base[shard[1] + 1:]
                one(("rgb",) + c, lambda: rgb_case(*c))
    elif kind == "dict":
        for pick in itertools.product(*[(None,) + KEYS[f] for f in FIELDS]):
            one(("dict",) + pick, lambda: dict_case(pick))
    elif kind == "eq":
        for a, b in itertools.product(variants(), repeat=2):
            one(("eq", a, b), lambda: eq_case(a, b))
    else:
        for s in ("nocolour", "redd", "light blue", "x"):
            one(("unknown", s), lambda: None if rt.lib().EmbThread(s).color == 0 else "an unknown name is not black")


def replay(d):
    if d[0] == "name":
        return name_case(d[1], d[2])
    if d[0] == "short":
        return short_case(d[1], d[2])
    if d[0] == "rgb":
        return rgb_case(*d[1:])
    if d[0] == "dict":
        return dict_case(d[1:])
    if d[0] == "eq":
        return eq_case(tuple(d[1]), tuple(d[2]))
    return None if rt.lib().EmbThread(d[1]).color == 0 else "an unknown name is not black"
