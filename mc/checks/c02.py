"""Length limits are honoured, and moves within the limits are left alone."""
from .. import enc
from .. import refenc as R

PROPERTY = "C02"
LEVEL = "model_checking"
RULE = "case = one command sequence encoded by the real encoder under one pair of limits; every move of the output is measured; distinct_nontrivial = distinct (setting, event-kind sequence)"
ASSUMPTIONS = ["coordinates at, just below, just above and at multiples of the limits", "limits are positive"]


def pts(lim):
    return [(0, 0), (lim, 0), (lim + 1, -lim), (0, 3 * lim), (-2 * lim - 1, lim / 2.0)]


def alpha(lim):
    a = []
    p = pts(lim)
    for q in p:
        a.append(q + (R.STITCH,))
    for q in p[1:]:
        a.append(q + (R.SEW_TO,))
        a.append(q + (R.JUMP,))
    a += [p[3] + (R.NEEDLE_AT,), p[4] + (R.NEEDLE_AT,), p[3] + (R.FRAME_EJECT,), p[4] + (R.SEQUIN_EJECT,), p[2] + (R.SEQUIN_EJECT,),
          (0, 0, R.TRIM), (0, 0, R.COLOR_CHANGE), (0, 0, R.STITCH_BREAK), (0, 0, R.STOP),
          (lim / 2.0, 0, R.O_MAX_STITCH), (lim * 2, 0, R.O_MAX_STITCH), (lim / 2.0, 0, R.O_MAX_JUMP), (lim * 2, 0, R.O_MAX_JUMP),
          (0, 0, R.LONG_SEW), (0, 0, R.LONG_NEEDLE), (0, 0, R.LONG_NONE)]
    return a


def L(a, b, **k):
    d = {"max_stitch": a, "max_jump": b}
    d.update(k)
    return d


CTX = [((), ()), (((0, 0, 0), (3, 3, 0)), ())]
S10 = [
    L(10, 10), L(10, 10, full_jump=True, round=True), L(10, 25, long_stitch_contingency=R.LONG_SEW), L(25, 10, sequin_contingency=R.SQ_UTILIZE),
    L(10, 10, tie_on=True, tie_off=True, full_jump=True), L(10, 10, explicit_trim=True, thread_change_command=R.NEEDLE_SET, sequin_contingency=R.SQ_STITCH),
]
# the limits of the writers
FORMATS = {121: [L(121, 121, round=True, sequin_contingency=R.SQ_UTILIZE)],
           127: [L(127, 127, full_jump=True, round=True), L(127, 127, thread_change_command=R.NEEDLE_SET), L(127, 127, thread_change_command=R.NEEDLE_SET, explicit_trim=True, round=True)],
           124: [L(124, 124, round=True)],
           2047: [L(2047, 2047, full_jump=True, round=True)],
           255: [L(255, 3200)],
           70: [L(70, float("inf"))]}
SPACES = {"ten": {"rep": (0,), "alphabet": alpha(10), "depth": {"quick": 3, "thorough": 4}, "settings": S10, "contexts": CTX, "limits": True}}
DEEP = [(0, 0, 0), (21, 0, 0), (11, -10, R.SEW_TO), (30, 0, R.JUMP), (0, 0, R.TRIM), (0, 0, R.STITCH_BREAK), (-35, 5, R.NEEDLE_AT), (0, 0, R.COLOR_CHANGE)]
NEAR = [(0, 0, 0), (1, 0, 0), (0, -1, 0), (0.4, 0.3, 0), (1, 0, R.SEW_TO), (1, 1, R.JUMP), (0, 0, R.TRIM), (0, 0, R.STITCH_BREAK), (0, 0, R.SEQUENCE_BREAK), (0, 0, R.COLOR_CHANGE), (0, 0, R.STOP), (1, 1, R.SEQUIN_EJECT)]
SPACES["near"] = {"alphabet": NEAR, "depth": {"quick": 4, "thorough": 5}, "settings": [L(10, 10, full_jump=True), L(10, 10, full_jump=True, round=True, sequin_contingency=R.SQ_STITCH), L(1, 1, full_jump=True, long_stitch_contingency=R.LONG_SEW)], "limits": True}
SPACES["deep"] = {"alphabet": DEEP, "depth": {"quick": 5, "thorough": 6}, "settings": S10[:4], "limits": True}
for lim, st in FORMATS.items():
    SPACES["format%d" % lim] = {"alphabet": alpha(lim)[:21], "depth": {"quick": 3, "thorough": 4}, "settings": st, "limits": True}
# a design that is moved, scaled or turned: the limits it sets itself are lengths of the encoding
SCALED = [(0, 0, 0), (21, 0, 0), (-9, 6, R.SEW_TO), (30, 0, R.JUMP), (0, 0, R.TRIM), (5.3, 0, R.O_MAX_STITCH), (13.1, 3, R.O_MAX_STITCH), (5.3, 0, R.O_MAX_JUMP), (13.1, -3, R.O_MAX_JUMP),
          (3, 0.5, R.M_SCALE_O), (7, -40, R.M_TRANSLATE), (90, 0, R.M_ROTATE_O), (0, 0, R.M_RESET)]
SPACES["scaled"] = {"alphabet": SCALED, "depth": {"quick": 4, "thorough": 5}, "limits": True,
                    "settings": [L(10.3, 10.3, scale=4), L(10.3, 10.3, translate=(-8, 30), full_jump=True), L(10.3, 10.3, rotate=90, scale=(2, -0.5)), L(10.3, 10.3, full_jump=True, long_stitch_contingency=R.LONG_SEW)]}


def bounds(tier):
    return enc.bounds_text(SPACES, tier)


def shards(tier):
    return enc.shards_for(SPACES, tier)


def run(shard, rec):
    enc.run_space(SPACES, shard, rec)


def replay(data):
    return enc.replay_compare(data, limits=True, check_thr=False)
