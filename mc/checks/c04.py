"""Thread changes, needles and the threadlist of an encoding."""
from .. import enc
from .. import refenc as R

PROPERTY = "C04"
LEVEL = "model_checking"
RULE = "case = one sequence of sewing and thread-change commands encoded in one thread-change mode; thread, needle and block order compared with the reference plan; distinct_nontrivial = distinct (setting, event-kind sequence)"
ASSUMPTIONS = ["thread, needle and order arguments in 0..3 (0 needle = default)", "needle_count in 1..5", "threads beyond the threadlist are wildcards"]


def C(cmd, thread=None, needle=None, order=None):
    return (0, 0, R.encode(cmd, thread, needle, order))


SEW = [(0, 0, R.STITCH), (5, 5, R.STITCH)]
ALPHA = SEW + [C(R.COLOR_CHANGE), C(R.COLOR_BREAK), C(R.NEEDLE_SET), C(R.STOP), C(R.TRIM),
               C(R.COLOR_CHANGE, 2), C(R.COLOR_CHANGE, 0, 3), C(R.NEEDLE_SET, None, 2), C(R.NEEDLE_SET, 1, 4), C(R.COLOR_BREAK, 3), C(R.COLOR_CHANGE, 7, 6),
               C(R.SET_CHANGE_SEQUENCE, 2, None, 0), C(R.SET_CHANGE_SEQUENCE, 1, 3, 1), C(R.SET_CHANGE_SEQUENCE, None, 5, 2), C(R.SET_CHANGE_SEQUENCE, 3), C(R.SET_CHANGE_SEQUENCE, 0, 1),
               (9, 9, R.SEQUIN_EJECT), (9, 9, R.JUMP), (5, 5, R.SEW_TO | 0x0300), (0, 0, R.END), (1, 1, R.FRAME_EJECT)]
MODES = [{}, {"thread_change_command": R.NEEDLE_SET}, {"thread_change_command": R.NEEDLE_SET, "needle_count": 2},
         {"thread_change_command": R.STOP, "needle_count": 1}, {"thread_change_command": R.NEEDLE_SET, "needle_count": 1}, {"explicit_trim": True, "needle_count": 3}, {"needle_count": 1}]
LONG = [SEW[1], C(R.COLOR_CHANGE), C(R.COLOR_BREAK), C(R.NEEDLE_SET, 1, 2), C(R.SET_CHANGE_SEQUENCE, 2, 2, 1), C(R.SET_CHANGE_SEQUENCE, 3), C(R.STOP)]
CTX = [((), ()), ((), (SEW[0],)), ((SEW[0], C(R.COLOR_CHANGE), SEW[1]), (SEW[0],))]
SPACES = {
    "core": {"rep": (0, 1, 2), "alphabet": ALPHA, "depth": {"quick": 3, "thorough": 4}, "settings": MODES, "contexts": CTX, "check_thr": True, "threads": 4},
    "short": {"alphabet": ALPHA, "depth": {"quick": 2, "thorough": 3}, "settings": MODES, "contexts": CTX, "check_thr": True, "threads": 0},
    "long": {"alphabet": LONG, "depth": {"quick": 5, "thorough": 7}, "settings": MODES[:4], "contexts": CTX[1:2], "check_thr": True, "threads": 3},
}


def many(cmds, nthreads, mode):
    seq = [s for k in range(290) for s in (SEW[k & 1], cmds[k % len(cmds)])] + [SEW[0]]
    return enc.compare(seq, nthreads, mode, False, True)[0]


MANY = [C(R.COLOR_CHANGE), C(R.COLOR_BREAK), C(R.NEEDLE_SET), C(R.NEEDLE_SET, None, 2)]


def bounds(tier):
    return enc.bounds_text(SPACES, tier) + "; 291 blocks with 0, 100, 256, 280 and 300 threads"


def shards(tier):
    return enc.shards_for(SPACES, tier) + [("many", k) for k in range(len(MODES))]


def run(shard, rec):
    if shard[0] == "many":
        for i, a in enumerate(MANY):
            for j, b in enumerate(MANY):
                for n in (0, 100, 256, 280, 300):
                    rec.traces += 1
                    rec.transitions += 581
                    rec.state((shard, i, j, n))
                    rec.case(lambda: many([a, b], n, MODES[shard[1]]), {"many": [i, j, n, shard[1]]})
        return
    enc.run_space(SPACES, shard, rec)


def replay(data):
    if "many" in data:
        i, j, n, m = data["many"]
        return many([MANY[i], MANY[j]], n, MODES[m])
    return enc.replay_compare(data, limits=False, check_thr=True)
