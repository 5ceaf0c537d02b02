"""Thread, needle and order numbers on a command never change what the command is."""
import itertools
import random

from .. import refenc as R
from .. import rt

PROPERTY = "C41"
LEVEL = "model_checking"
RULE = ("case = one command sequence with one choice of the commands that carry numbers; every writer, encoder setting and pattern operation must give what it gives for the bare commands; "
        "distinct_nontrivial = distinct (sequence, commands with numbers)")
ASSUMPTIONS = ["thread and needle numbers choose the thread or needle of thread changes, so those carry order numbers only",
               "CSV and JSON files state the numbers themselves, and a VP3 file writes stitches of the alternative form (thread number) in its long form: left out; no images of scaled designs"]
THREAD, NEEDLE, ORDER = 1 << 8, 2 << 16, 3 << 24
CHANGES = (R.COLOR_CHANGE, R.NEEDLE_SET, R.COLOR_BREAK)
BASE = [R.STITCH, R.JUMP, R.TRIM, R.STOP, R.COLOR_CHANGE, R.SEQUIN_EJECT, R.NEEDLE_SET, R.END]
MORE = [R.SEQUIN_MODE, R.SLOW, R.FAST, R.COLOR_BREAK, R.SEQUENCE_BREAK, R.STITCH_BREAK, R.SEW_TO, R.NEEDLE_AT, R.FRAME_EJECT, R.TIE_ON, R.TIE_OFF, R.SQ_UTILIZE, R.SQ_JUMP, R.SQ_STITCH, R.SQ_REMOVE,
        0xD1, 0xD2, 0xE1, 0xE2, 0xF0, 0xF1, 0xF2, R.M_TRANSLATE, R.M_SCALE, R.M_ROTATE, R.M_SCALE_O, R.M_RESET, R.O_MAX_STITCH, R.O_MAX_JUMP, R.O_EXPLICIT, 0x20, 0xFE]
POINTS = [(40, -9), (41, -9), (-20, 30), (70, 7), (70, 7), (5, 5)]
KINDS = {"each": (THREAD, NEEDLE, ORDER, THREAD | NEEDLE | ORDER), "all": (THREAD | NEEDLE | ORDER,)}
FRAMES = [([], []), ([(0, 0, R.STITCH), (9, 4, R.STITCH)], [(72, 10, R.STITCH), (12, 12, R.STITCH)])]
SET = {"date": "20200102030405", "linewidth": 1}
ENC = [{}, {"tie_on": True, "tie_off": True, "max_stitch": 60, "max_jump": 50, "full_jump": True, "writes_speeds": False}, {"sequin_contingency": R.SQ_JUMP, "explicit_trim": True, "long_stitch_contingency": 0xF2, "max_stitch": 50},
       {"thread_change_command": R.NEEDLE_SET, "needle_count": 3, "round": True}, {"sequin_contingency": R.SQ_STITCH, "rotate": 90, "scale": 2}]


def bounds(tier):
    return "all sequences of <= %d of %d commands and <= %d of %d, between stitches and alone, numbers on each command and on all of them; %d writers encoded and raw, %d encodings, %d operations" % (
        depth(tier)[1], len(BASE), depth(tier)[0], len(BASE + MORE), len(writers()), len(ENC), len(OPS))


def depth(tier):
    return (2, 3) if tier == "quick" else (3, 4)


def writers():
    return [d["extension"] for d in rt.lib().EmbPattern.supported_formats() if d.get("writer") and d["extension"] not in ("csv", "json")]


def make(st):
    E = rt.lib().EmbThread
    return rt.pattern(st, [E(0x10203 * (k + 5) & 0xFFFFFF, "t%d" % k) for k in range(9)])


def bare(st):
    return [(s[0], s[1], s[2] & 0xFF) for s in st]


def whole(p):
    return bare(p.stitches), [t.color for t in p.threadlist]


def inplace(f):
    def g(p):
        f(p)
        return whole(p)
    return g


def insert_move(p):
    for k in range(len(p.stitches) + 1):
        p.stitch(1, 1, position=k)
    p.trim()


def added(p):
    q = make([(3, 3, R.STITCH), (5, 5, R.STITCH)])
    q.add_pattern(p)
    q += p
    return whole(q)


def blocks(gen):
    return [bare(b) for b in gen]


def pairs(gen):
    return [(bare(b), t.color) for b, t in gen]


OPS = {
    "bounds": lambda p: p.bounds(),
    "counts": lambda p: (p.count_color_changes(), p.count_needle_sets(), p.count_stitches(), [p.count_stitch_commands(c) for c in BASE]),
    "stitch blocks": lambda p: pairs(p.get_as_stitchblock()),
    "colour blocks": lambda p: pairs(p.get_as_colorblocks()),
    "command blocks": lambda p: blocks(p.get_as_command_blocks()),
    "matches": lambda p: [bare(p.get_match_commands(c)) for c in BASE],
    "decoded": lambda p: [v[:4] for v in p.get_as_stitches()],
    "stable": lambda p: whole(p.get_stable_pattern()),
    "merged jumps": lambda p: whole(p.get_pattern_merge_jumps()),
    "trimmed jumps 1": lambda p: whole(p.get_pattern_interpolate_trim(1)),
    "trimmed jumps 2": lambda p: whole(p.get_pattern_interpolate_trim(2)),
    "stop as color": inplace(lambda p: p.interpolate_stop_as_duplicate_color()),
    "color as stop": inplace(lambda p: p.interpolate_duplicate_color_as_stop()),
    "frame eject": inplace(lambda p: p.interpolate_frame_eject()),
    "trims": inplace(lambda p: p.interpolate_trims(2)),
    "trims clip": inplace(lambda p: p.interpolate_trims(None, 3.0, True)),
    "fix count": lambda p: (p.fix_color_count(), len(p.threadlist))[1],
    "center": inplace(lambda p: p.move_center_to_origin()),
    "insert": inplace(insert_move),
    "added": added,
}


def views(p, kinds):
    """What every writer, encoding and operation makes of the pattern."""
    out = {}
    for f in OPS:
        out[f] = attempt(lambda: OPS[f](p.copy()))
    for k, e in enumerate(ENC):
        out["encoding %d" % k] = attempt(lambda: whole(p.copy().get_normalized_pattern(dict(e))))
    for ext in kinds:
        for enc in (True, False):
            out[ext, enc] = attempt(lambda: rt.dump(ext, p.copy(), dict(SET, encode=enc)))
    return out


def attempt(f):
    random.seed(7)  # fillers for missing threads are random
    try:
        return f()
    except (AssertionError, OverflowError, IndexError, KeyError, TypeError, ValueError, ZeroDivisionError, AttributeError) as e:
        return type(e).__name__


def numbered(seq, at, flag):
    return tuple((x, y, c | (flag & ORDER if c in CHANGES else flag)) if k in at else (x, y, c) for k, (x, y, c) in enumerate(seq))


def judge(seq, frame, kinds, rec=None, only=None):
    pre, post = FRAMES[frame]
    kinds = writers() if kinds is None else kinds
    if any(s[2] in (R.M_SCALE, R.M_SCALE_O) for s in seq):
        kinds = [k for k in kinds if k != "png"]  # images of millions of pixels
    whole_of = lambda s: make(list(pre) + list(s) + list(post))
    want = views(whole_of(seq), kinds)
    n = len(seq)
    sets = [((k,), f) for k in range(n) for f in KINDS["each" if n < 3 else "all"]] + ([(tuple(range(n)), THREAD | NEEDLE | ORDER)] if n > 1 else [])
    for at, flag in sets:
        st = numbered(seq, at, flag)
        if st == seq:
            continue
        if rec is not None:
            rec.state((seq, frame, at, flag))
            rec.transitions += len(want)
            rec.outcome((seq, frame, at, flag))
        got = views(whole_of(st), kinds)
        for v in want:
            if v in (("vp3", True), ("vp3", False)) and flag & THREAD:
                continue
            if got[v] != want[v]:
                return "%s of %r with numbers %r differs: %r, bare commands %r" % (v, seq, [hex(s[2]) for s in st], got[v][:900] if hasattr(got[v], "__getitem__") else got[v], want[v][:900] if hasattr(want[v], "__getitem__") else want[v])
    return None


def place(cmds):
    return tuple(POINTS[k] + (c,) for k, c in enumerate(cmds))


def shards(tier):
    d, m = depth(tier)
    return [("more", i, d) for i in range(len(BASE + MORE))] + [("base", i, j, m) for i in range(len(BASE)) for j in range(len(BASE))]


def run(shard, rec):
    def go(cmds):
        seq = place(cmds)
        for frame in range(len(FRAMES)):
            rec.traces += 1
            if rec.traces == 1:
                rec.sample({"seq": seq, "frame": frame})
            rec.case(lambda: judge(seq, frame, None, rec), {"seq": seq, "frame": frame})

    if shard[0] == "more":
        _, i, d = shard
        for n in range(d):
            for tail in itertools.product(BASE + MORE, repeat=n):
                go(((BASE + MORE)[i],) + tail)
    else:
        _, i, j, m = shard
        for n in range(1, m - 1):
            for tail in itertools.product(BASE, repeat=n):
                go((BASE[i], BASE[j]) + tail)


def replay(d):
    return judge(tuple(tuple(s) for s in d["seq"]), d["frame"], None)
