"""Trims, ties (lock stitches) and explicit trims."""
from .. import enc
from .. import refenc as R

PROPERTY = "C06"
LEVEL = "model_checking"
RULE = "case = one sequence of sewing, trim, break, tie and change commands encoded under one tie/trim setting, compared with the reference event sequence; distinct_nontrivial = distinct (setting, event-kind sequence)"
ASSUMPTIONS = ["lock stitches are four small penetrations on the line from the lock point to the neighbouring source position, ending on the lock point"]

T3, N3 = R.TIE_ON_3, R.TIE_OFF_3
ALPHA = [(0, 0, 0), (20, 0, 0), (25, -9, R.SEW_TO), (3, 30, R.NEEDLE_AT), (7, 7, R.JUMP), (0, 0, R.TRIM), (0, 0, R.COLOR_CHANGE), (0, 0, R.COLOR_BREAK), (0, 0, R.SEQUENCE_BREAK),
         (0, 0, R.STITCH_BREAK), (0, 0, R.TIE_ON), (0, 0, R.TIE_OFF), (9, 9, R.FRAME_EJECT), (0, 0, R.STOP), (0, 0, R.END), (4, 4, R.SEQUIN_EJECT), (20, 10, R.STITCH | 0x200),
         (0, 0, R.TIE_ON_3), (0, 0, R.TIE_OFF_3), (0, 0, R.TIE_ON_NONE), (0, 0, R.TIE_OFF_NONE), (0, 0, R.O_EXPLICIT), (0, 0, R.O_IMPLICIT), (0, 0, R.NEEDLE_SET)]
SET = [{}, {"tie_on": True}, {"tie_off": True}, {"tie_on": True, "tie_off": True, "explicit_trim": True, "max_stitch": 15, "max_jump": 15},
       {"tie_on": T3, "tie_off": N3, "translate": (5, 5), "scale": 2, "thread_change_command": R.NEEDLE_SET}, {"explicit_trim": True, "tie_on": False, "tie_off": False},
       {"tie_on": True, "tie_off": True, "full_jump": True, "round": True, "sequin_contingency": R.SQ_UTILIZE, "explicit_trim": True}]
CTX = [((), ()), (((0, 0, 0), (10, 0, 0)), ((30, 3, 0), (31, 9, 0)))]
FEW = [(0, 0, 0), (20, 5, 0), (0, 0, R.TRIM), (0, 0, R.COLOR_BREAK), (0, 0, R.SEQUENCE_BREAK), (40, 0, R.JUMP), (0, 0, R.STITCH_BREAK), (0, 0, R.COLOR_CHANGE)]
SPACES = {
    "core": {"rep": (0,), "alphabet": ALPHA, "depth": {"quick": 3, "thorough": 4}, "settings": SET, "contexts": CTX},
    "deep": {"alphabet": FEW, "depth": {"quick": 5, "thorough": 6}, "settings": SET[:1] + SET[3:4]},
}


def bounds(tier):
    return enc.bounds_text(SPACES, tier)


def shards(tier):
    return enc.shards_for(SPACES, tier)


def run(shard, rec):
    enc.run_space(SPACES, shard, rec)


def replay(data):
    return enc.replay_compare(data, limits=False, check_thr=False)
