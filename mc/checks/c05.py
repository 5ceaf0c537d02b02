"""Transform commands and the translate/scale/rotate settings."""
import itertools

from .. import enc
from .. import refenc as R
from .. import rt

PROPERTY = "C05"
LEVEL = "model_checking"
RULE = "case = one sequence of sewing and matrix commands encoded under one placement setting, every output position compared with an independent affine reference; distinct_nontrivial = distinct (setting, event-kind sequence)"
ASSUMPTIONS = ["invertible transforms", "positions compared to 1e-6"]

ALPHA = [(0, 0, 0), (10, 3, 0), (-4, 20, R.SEW_TO), (7, 7, R.JUMP), (0, 0, R.TRIM), (0, 0, R.COLOR_CHANGE), (15, -5, R.SEQUIN_EJECT), (12, 12, R.FRAME_EJECT),
         (5, -2, R.M_TRANSLATE), (2, 3, R.M_SCALE_O), (0.5, -1, R.M_SCALE), (90, 0, R.M_ROTATE_O), (30, 0, R.M_ROTATE), (-45, 0, R.M_ROTATE_O), (0, 0, R.M_RESET),
         (2, 2, R.M_SCALE)]
SET = [{}, {"translate": (100, -50)}, {"scale": 2}, {"scale": (1, -1)}, {"rotate": 90}, {"translate": (7, 9), "scale": (2, 0.5), "rotate": 30},
       {"translate": (3, 4), "rotate": -100, "round": True}, {"scale": (3, 3), "rotate": 45, "max_stitch": 11, "max_jump": 11, "full_jump": True},
       {"translate": (1, 2), "scale": 2, "tie_on": True, "tie_off": True}]
FEW = [(0, 0, 0), (10, 3, 0), (5, -2, R.M_TRANSLATE), (2, 3, R.M_SCALE), (90, 0, R.M_ROTATE), (2, -1, R.M_SCALE_O), (60, 0, R.M_ROTATE_O), (0, 0, R.M_RESET)]
CTX = [((), ((6, 1, 0),)), (((0, 0, 0), (8, 2, 0)), ((6, 1, 0), (9, -9, 0)))]
SPACES = {
    "core": {"rep": (0,), "alphabet": ALPHA, "depth": {"quick": 3, "thorough": 4}, "settings": SET, "contexts": CTX},
    "deep": {"alphabet": FEW, "depth": {"quick": 5, "thorough": 6}, "settings": SET[:1] + SET[5:6], "contexts": CTX[1:]},
}


class XY:
    def __init__(self, v):
        self.x, self.y = v


# every way to give the numbers of a setting
WAYS = {"tuple": tuple, "list": list, "object": XY, "longer": lambda v: tuple(v) + (99,)}


def forms(seq, tr, sc, a, b):
    """The settings mean the same as a pair, a list, and an object with x and y; a scale also as one number."""
    def encoded(s):
        return [tuple(v) for v in rt.pattern(seq, enc.threads(3)).get_normalized_pattern(s).stitches]

    want = encoded({"translate": tuple(tr), "scale": tuple(sc), "rotate": 30})
    got = encoded({"translate": WAYS[a](tr), "scale": sc[0] if b == "number" else WAYS[b](sc), "rotate": 30.0})
    if len(want) != len(got) or any(u[2] != v[2] or abs(u[0] - v[0]) > 1e-6 or abs(u[1] - v[1]) > 1e-6 for u, v in zip(got, want)):
        return "translate %r as %s, scale %r as %s: %r, want %r" % (tr, a, sc, b, got, want)
    return None


def bounds(tier):
    return enc.bounds_text(SPACES, tier) + "; every form of the translate and scale settings for all sequences of 2 commands"


def shards(tier):
    return enc.shards_for(SPACES, tier) + [("forms",)]


def run(shard, rec):
    if shard[0] == "forms":
        for seq in itertools.product(ALPHA, repeat=2):
            for tr in ((0, 0), (7.5, -3), (-1, 40)):
                for sc in ((2, 2), (-0.5, -0.5), (2, -3)):
                    for a in WAYS:
                        for b in tuple(WAYS) + (("number",) if sc[0] == sc[1] else ()):
                            rec.traces += 1
                            rec.transitions += 2
                            rec.state(("forms", seq, tr, sc, a, b))
                            rec.case(lambda: forms(seq, tr, sc, a, b), {"forms": [seq, tr, sc, a, b]})
        return
    enc.run_space(SPACES, shard, rec)


def replay(data):
    if "forms" in data:
        seq, tr, sc, a, b = data["forms"]
        return forms([tuple(s) for s in seq], tr, sc, a, b)
    return enc.replay_compare(data, limits=False, check_thr=False)
