"""Sequin contingencies."""
from .. import enc
from .. import refenc as R

PROPERTY = "C07"
LEVEL = "model_checking"
RULE = "case = one sequence of sewing, sequin and travel commands encoded under one sequin contingency, compared with the reference event sequence; distinct_nontrivial = distinct (setting, event-kind sequence)"
ASSUMPTIONS = ["sequin mode is balanced before every jump and trim the encoder emits"]

ALPHA = [(0, 0, 0), (30, 0, 0), (5, 5, R.SEQUIN_EJECT), (40, -7, R.SEQUIN_EJECT), (0, 0, R.SEQUIN_MODE), (30, 0, R.JUMP), (6, 6, R.JUMP), (0, 0, R.TRIM), (0, 0, R.COLOR_CHANGE),
         (0, 0, R.COLOR_BREAK), (0, 0, R.STITCH_BREAK), (9, 50, R.SEW_TO), (9, 50, R.NEEDLE_AT), (3, 3, R.FRAME_EJECT), (0, 0, R.STOP), (0, 0, R.END),
         (0, 0, R.SQ_UTILIZE), (0, 0, R.SQ_JUMP), (0, 0, R.SQ_STITCH), (0, 0, R.SQ_REMOVE), (5, 5, R.SEQUIN_EJECT | 0x100)]
SET = [{}, {"sequin_contingency": R.SQ_UTILIZE}, {"sequin_contingency": R.SQ_STITCH, "max_stitch": 12, "max_jump": 12}, {"sequin_contingency": R.SQ_REMOVE},
       {"sequin_contingency": R.SQ_UTILIZE, "max_stitch": 12, "max_jump": 12, "explicit_trim": True, "tie_off": True}, {"strip_sequins": False, "full_jump": True, "max_stitch": 12, "max_jump": 12},
       {"strip_sequins": True, "max_stitch": 12}]
FEW = [(0, 0, 0), (30, 0, 0), (5, 5, R.SEQUIN_EJECT), (0, 0, R.SEQUIN_MODE), (30, 0, R.JUMP), (0, 0, R.TRIM), (0, 0, R.SQ_REMOVE), (0, 0, R.SQ_UTILIZE)]
CTX = [((), ()), (((0, 0, 0), (0, 5, R.SEQUIN_EJECT)), ((10, 1, R.SEQUIN_EJECT), (11, 1, 0)))]
SPACES = {
    "core": {"rep": (0,), "alphabet": ALPHA, "depth": {"quick": 3, "thorough": 4}, "settings": SET, "contexts": CTX},
    "deep": {"alphabet": FEW, "depth": {"quick": 5, "thorough": 6}, "settings": [SET[0], SET[1], SET[4]]},
}


def bounds(tier):
    return enc.bounds_text(SPACES, tier)


def shards(tier):
    return enc.shards_for(SPACES, tier)


def run(shard, rec):
    enc.run_space(SPACES, shard, rec)


def replay(data):
    return enc.replay_compare(data, limits=False, check_thr=False)
