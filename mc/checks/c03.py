"""Needle penetrations are preserved by encoding."""
import itertools

from .. import enc
from .. import refenc as R

PROPERTY = "C03"
LEVEL = "model_checking"
RULE = "case = one command sequence encoded by the real encoder under one setting and compared with the reference event sequence; distinct_nontrivial = distinct (setting, event-kind sequence) observed"
ASSUMPTIONS = ["coordinates from small forced-collision sets at, below and beyond the limit (10)", "sequences up to the stated depth"]

P0, P1, P2, P3 = (0, 0), (10, 0), (11, -25), (-3, 4.5)


def S(c, p):
    return (p[0], p[1], c)


CORE = [S(R.STITCH, P0), S(R.STITCH, P1), S(R.STITCH, P2), S(R.STITCH, P3), S(R.SEW_TO, P2), S(R.SEW_TO, P1), S(R.NEEDLE_AT, P2), S(R.NEEDLE_AT, P3),
        S(R.JUMP, P2), S(R.JUMP, P3), S(R.TRIM, P0), S(R.STOP, P0), S(R.COLOR_CHANGE, P0), S(R.COLOR_BREAK, P0), S(R.SEQUENCE_BREAK, P0),
        S(R.STITCH_BREAK, P0), S(R.FRAME_EJECT, P2), S(R.END, P0), S(-1, P1), S(R.STITCH | 0x100, P2), S(R.NEEDLE_SET, P0),
        S(R.SLOW, P0), S(R.LONG_SEW, P0), S(R.LONG_NONE, P0), S(R.LONG_NEEDLE, P0)]
DEEP = [S(R.STITCH, P0), S(R.STITCH, P2), S(R.SEW_TO, P3), S(R.JUMP, P1), S(R.TRIM, P0), S(R.COLOR_BREAK, P0), S(R.STITCH_BREAK, P0)]

LIM = [
    {},
    {"max_stitch": 10, "max_jump": 10, "full_jump": True, "round": True},
    {"max_stitch": 10, "max_jump": 10, "round": False},
    {"max_stitch": 10, "max_jump": 40, "long_stitch_contingency": R.LONG_SEW},
    {"max_stitch": 10, "max_jump": 10, "full_jump": True, "explicit_trim": True, "thread_change_command": R.NEEDLE_SET, "long_stitch_contingency": R.LONG_NONE},
]
CTX = [((), ()), ((S(R.STITCH, P0), S(R.STITCH, (3, 3))), (S(R.STITCH, P1),))]
SPACES = {
    "core": {"rep": (0,), "alphabet": CORE, "depth": {"quick": 3, "thorough": 4}, "settings": LIM, "contexts": CTX},
    "deep": {"alphabet": DEEP, "depth": {"quick": 6, "thorough": 8}, "settings": LIM[1:4]},
}


def bounds(tier):
    return enc.bounds_text(SPACES, tier)


def shards(tier):
    return enc.shards_for(SPACES, tier)


def run(shard, rec):
    enc.run_space(SPACES, shard, rec)


def replay(data):
    return enc.replay_compare(data, limits=False, check_thr=False)
