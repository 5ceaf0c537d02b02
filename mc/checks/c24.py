"""Settings given when writing take precedence over the format's own, one by one; the format's own are used where none is given."""
import importlib
import io
import itertools
import os
import random
import tempfile

from .. import refenc as R
from .. import rt

PROPERTY = "C24"
LEVEL = "model_checking"
RULE = ("case = one writer, one design and one set of given settings: the file is the one made by encoding the design with the format's own settings overridden by the given ones and writing that as it is; "
        "distinct_nontrivial = distinct files")
ASSUMPTIONS = ["no recorded difference in what the encoder does with explicit settings: that is C01 to C05"]

UTIL, SJUMP, SSTITCH, SREMOVE = 0xF5, 0xF6, 0xF7, 0xF8
INF = float("inf")
# The settings each format is documented to be written with, unless the caller gives others.
OWN = {
    "dst": {"sequin_contingency": UTIL, "full_jump": False, "round": True, "writes_speeds": False, "max_jump": 121, "max_stitch": 121},
    "exp": {"sequin_contingency": SJUMP, "full_jump": True, "round": True, "max_jump": 127, "max_stitch": 127},
    "jef": {"sequin_contingency": SJUMP, "full_jump": True, "round": True, "max_jump": 127, "max_stitch": 127},
    "pec": {"sequin_contingency": SJUMP, "full_jump": True, "round": True, "max_jump": 2047, "max_stitch": 2047},
    "pes": {"sequin_contingency": SJUMP, "full_jump": True, "round": True, "max_jump": 2047, "max_stitch": 2047},
    "pmv": {"max_stitch": 70, "max_jump": 70},
    "png": {"sequin_contingency": SSTITCH, "full_jump": True},
    "svg": {"sequin_contingency": SSTITCH, "full_jump": False, "max_jump": INF, "max_stitch": INF},
    "tbf": {"full_jump": False, "round": True, "writes_speeds": False, "max_jump": 127, "max_stitch": 127, "thread_change_command": R.NEEDLE_SET, "explicit_trim": True},
    "u01": {"thread_change_command": R.NEEDLE_SET, "sequin_contingency": SJUMP, "writes_speeds": True, "full_jump": False, "max_jump": 127, "max_stitch": 127},
    "vp3": {"sequin_contingency": SJUMP, "full_jump": False, "max_jump": 3200, "max_stitch": 255},
    "xxx": {"full_jump": False, "round": True, "writes_speeds": False, "max_jump": 124, "max_stitch": 124},
    "gcode": {"sequin_contingency": SSTITCH, "scale": (-1, -1)},
    "csv": {"writes_speeds": True, "sequin_contingency": UTIL},
    "generic": {"writes_speeds": True, "sequin_contingency": UTIL},
    # not one of the library's: a writer with a value of its own for every setting
    "made": {"max_jump": 60, "max_stitch": 45, "full_jump": True, "round": True, "writes_speeds": False, "sequin_contingency": SSTITCH, "thread_change_command": R.NEEDLE_SET, "explicit_trim": True,
             "translate": (3, 4), "scale": (2, 2.5), "rotate": 90},
    "json": {}, "col": {}, "edr": {}, "inf": {}, "txt": {},
}
RAW = ("csv", "json", "col", "edr", "inf")  # written as they are, unless encode is asked for
GENERIC = {"stitch": "S{x},{y};", "jump": "J{x},{y};", "trim": "T;", "stop": "P;", "color_change": "C;", "needle_set": "N;", "sequin": "Q{x},{y};", "sequin_mode": "M;", "slow": "L;", "fast": "F;", "end": "E;"}
VALUES = {
    "max_stitch": (10, 40.5, 1000), "max_jump": (15, 1000), "full_jump": (True, False), "round": (True, False), "writes_speeds": (True, False),
    "sequin_contingency": (UTIL, SJUMP, SSTITCH, SREMOVE), "thread_change_command": (R.COLOR_CHANGE, R.NEEDLE_SET, R.STOP), "explicit_trim": (True, False),
    "translate": ((5, -7.5), None, (0, 0)), "scale": (1, 2, (1, -1), None), "rotate": (0, 90, None), "tie_on": (True, False, 0xD1), "tie_off": (True, False, 0xD2),
    "needle_count": (1, 2, 10), "long_stitch_contingency": (0xF0, 0xF1, 0xF2), "strip_sequins": (True, False),
}
ONES = [(k, v) for k in VALUES for v in VALUES[k]]
FULL = [
    {"max_stitch": 33, "max_jump": 50, "full_jump": True, "round": False, "writes_speeds": False, "sequin_contingency": SREMOVE, "thread_change_command": R.STOP, "explicit_trim": True, "translate": (1, 2), "scale": 0.5, "rotate": 45},
    {"max_stitch": 500, "max_jump": 600, "full_jump": False, "round": False, "writes_speeds": True, "sequin_contingency": UTIL, "thread_change_command": R.COLOR_CHANGE, "explicit_trim": False, "translate": (0, 0), "scale": 1, "rotate": 0},
    {"max_stitch": INF, "max_jump": INF, "full_jump": True, "round": True, "writes_speeds": True, "sequin_contingency": SSTITCH, "thread_change_command": R.NEEDLE_SET, "explicit_trim": True, "translate": None, "scale": None, "rotate": None},
]


class Made:
    """A writer as write_embroidery takes it."""

    @staticmethod
    def write(pattern, f, settings=None):
        f.write(repr((pattern.stitches, [repr(t) for t in pattern.threadlist], pattern.extras)).encode())


for _own, _const in (("max_jump", "MAX_JUMP_DISTANCE"), ("max_stitch", "MAX_STITCH_DISTANCE"), ("full_jump", "FULL_JUMP"), ("round", "ROUND"), ("writes_speeds", "WRITES_SPEEDS"),
                     ("sequin_contingency", "SEQUIN_CONTINGENCY"), ("thread_change_command", "THREAD_CHANGE_COMMAND"), ("explicit_trim", "EXPLICIT_TRIM"), ("translate", "TRANSLATE"), ("scale", "SCALE"), ("rotate", "ROTATE")):
    setattr(Made, _const, OWN["made"][_own])


def writer(ext):
    if ext == "made":
        return Made
    if ext == "generic":
        return importlib.import_module("pyembroidery.GenericWriter")
    return rt.formats()[ext]["writer"]


def design(kind):
    E = rt.lib().EmbThread
    ths = [E(0x102030 * (k + 1) & 0xFFFFFF, "t%d" % k) for k in range(9)]
    if kind == "long":
        seq = [(0, 0, R.SLOW), (1.25, 0.75, R.STITCH), (150, 20, R.STITCH), (160.25, 20, R.STITCH), (0, 0, R.COLOR_BREAK), (400, 300, R.STITCH), (410, 300, R.SEQUIN_EJECT), (420, 310, R.STITCH), (0, 0, R.FAST),
               (0, 0, R.COLOR_CHANGE), (20, 30, R.STITCH), (24, 33.25, R.STITCH), (0, 0, R.STOP), (30, 30, R.STITCH), (0, 0, R.TRIM), (90, -10, R.STITCH), (92, -10, R.STITCH), (0, 0, R.END)]
    elif kind == "needles":
        seq = [(0, 0, R.encode(R.NEEDLE_SET, None, 3)), (2.75, 3, R.STITCH), (60, 20, R.SEW_TO), (0, 0, R.encode(R.COLOR_BREAK, 4, 2)), (10, 10, R.SEQUIN_MODE), (5, 5, R.SEQUIN_EJECT), (9, 300, R.STITCH), (0, 0, R.SEQUENCE_BREAK),
               (40, 40, R.NEEDLE_AT), (43, 41, R.STITCH), (0, 0, R.FRAME_EJECT), (0, 0, R.COLOR_BREAK), (-5, -60, R.STITCH), (-9, -60, R.STITCH)]
    else:
        seq = [(5, 6, R.STITCH), (9, 9, R.STITCH), (15, 9, R.STITCH)]
    return rt.pattern(seq, ths, {"name": "d"})


def save(ext, p, settings):
    random.seed(4)
    w = writer(ext)
    f = io.StringIO() if getattr(w, "WRITE_FILE_IN_TEXT_MODE", False) else io.BytesIO()
    try:
        rt.lib().EmbPattern.write_embroidery(w, p, f, settings)
    except Exception as e:  # what a format cannot hold: it must be so both ways
        return type(e).__name__
    return f.getvalue()


def same(ext, kind, given):
    given = dict(given)
    rest = {"date": "20200102030405"}
    if ext == "generic":
        rest.update(GENERIC)
    encode = given.pop("encode", None)
    settings = dict(rest, **given)
    if encode is not None:
        settings["encode"] = encode
    before = dict(settings)
    p = design(kind)
    was = ([list(s) for s in p.stitches], list(p.threadlist), dict(p.extras))
    got = save(ext, p, settings)
    if (p.stitches, p.threadlist, p.extras) != was:
        return None, "the pattern written was changed"
    if settings != before or list(settings) != list(before):
        return None, "the settings given were changed to %r" % (settings,)
    q = design(kind)
    if encode if encode is not None else ext not in RAW:
        random.seed(4)
        try:
            q = q.get_normalized_pattern(dict(OWN[ext], **given))
        except Exception as e:
            q = e
    want = type(q).__name__ if isinstance(q, Exception) else save(ext, q, dict(rest, **given, encode=False))
    if got != want:
        return None, "written with %r: %s, but encoded with the same and written: %s" % (given, brief(got, want), brief(want, got))
    return got, None


def brief(a, b):
    k = next((k for k, (u, v) in enumerate(zip(a, b)) if u != v), min(len(a), len(b)))
    return "%d long, ...%r at %d" % (len(a), a[max(0, k - 20):k + 20], k)


def named(ext, kind, given):
    """The same settings through the functions that take a name, as keywords and as a dictionary."""
    given = dict(given, date="20200102030405")
    L = rt.lib()
    p = design(kind)
    want = save(ext, p, dict(given))
    want = want.encode("utf8") if isinstance(want, str) else want
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "x." + ext)
        for how, call in (("write", lambda: p.write(path, **given)), ("static_write", lambda: L.EmbPattern.static_write(p, path, given)), ("pyembroidery.write", lambda: L.write(p, path, given)),
                          ("write_" + ext, lambda: getattr(L, "write_" + ext)(p, path, given))):
            if how == "write_" + ext and not hasattr(L, how):
                continue
            random.seed(4)
            try:
                call()
                with open(path, "rb") as f:
                    data = f.read()
            except Exception as e:
                data = type(e).__name__.encode()
            if os.path.exists(path):
                os.remove(path)
            if data.replace(b"\r\n", b"\n") != want.replace(b"\r\n", b"\n"):
                return "%s with %r: %s, not %s" % (how, given, brief(data, want), brief(want, data))
    return None


def sets(ext, tier):
    yield {}
    for k, v in ONES:
        yield {k: v}
    for s in FULL:
        yield s
        for k in s:
            yield {j: s[j] for j in s if j != k}
    for n in {"short": (2,), "quick": (2, 3), "thorough": (2, 3, 4)}[tier]:
        if ext == "png" and n > (1 if tier == "quick" else 2):
            continue  # slow to draw
        for ks in itertools.combinations(VALUES, n):
            for vs in itertools.product(*[VALUES[k] if n == 2 or n == 3 and tier == "thorough" else VALUES[k][:2] for k in ks]):
                yield dict(zip(ks, vs))


def bounds(tier):
    return ("all sets of up to %d of %d settings with %d values in all, three full sets and those with one left out, encode given or not, for 20 writers, one with a value of its own for every setting, and 3 designs; each value by every function that takes a name"
            % (3 if tier == "quick" else 4, len(VALUES), len(ONES)))


def shards(tier):
    return [("s", e, k, enc) for e in OWN for k in ("long", "needles", "short") for enc in ((True, None, False) if e in RAW else (None, True))] + [("named", e) for e in OWN if e not in ("generic", "made")]


def run(shard, rec):
    if shard[0] == "named":
        for k, v in ONES + [("encode", True), ("encode", False)]:
            rec.traces += 1
            rec.transitions += 4
            rec.state(("named", shard[1], k, repr(v)))
            rec.case(lambda: named(shard[1], "long", {k: v}), {"named": [shard[1], "long", {k: v}]})
        return
    _, ext, kind, enc = shard
    for given in sets(ext, rec.tier if kind != "short" else "short"):
        if 2 <= len(given) <= 4 and (enc is False or kind == "short" or enc is True and ext not in RAW):
            continue  # encode given or not makes no difference to how settings combine
        if enc is not None:
            given = dict(given, encode=enc)

        def go():
            got, msg = same(ext, kind, given)
            if msg is None:
                rec.state(("s", ext, kind, got))
                rec.outcome((ext, kind, got))
            return msg

        rec.traces += 1
        rec.transitions += 2
        rec.case(go, {"same": [ext, kind, given]})


def replay(data):
    if "named" in data:
        e, k, g = data["named"]
        return named(e, k, fix(g))
    e, k, g = data["same"]
    return same(e, k, fix(g))[1]


def fix(g):
    return {k: tuple(v) if isinstance(v, list) else v for k, v in g.items()}
