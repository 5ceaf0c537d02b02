"""Encoding emits only core commands, and exactly one END, last."""
from .. import enc
from .. import refenc as R
from .. import rt

PROPERTY = "C01"
LEVEL = "model_checking"
RULE = "case = one command sequence encoded by the real encoder under one setting; checked for the vocabulary of the target and against the reference event sequence; distinct_nontrivial = distinct (setting, event-kind sequence)"
ASSUMPTIONS = ["coordinates from a small forced-collision set", "needle_count >= 1"]

EVERY = [0, 1, 2, 3, 4, 5, 6, 7, 9, 0xB, 0xC, 0x10, 0xB0, 0xB1, 0xC0, 0xC1, 0xC2, 0xC3, 0xC4, 0xC5, 0xD1, 0xD2, 0xD3, 0xD4,
         0xD5, 0xD6, 0xD7, 0xD8, 0xE0, 0xE1, 0xE2, 0xE4, 0xE5, 0xE9, 0xF0, 0xF1, 0xF2, 0xF5, 0xF6, 0xF7, 0xF8, -1]
ARGS = {0xC0: (4, -3), 0xC1: (2, 2), 0xC2: (90, 0), 0xC4: (2, -1), 0xC5: (90, 0), 0xD5: (5, 0), 0xD6: (5, 0)}
ALL = [(ARGS.get(c, (3, 20)) + (c,)) for c in EVERY]
for c in (0, 2, 5, 4, 0xE2, 7):
    ALL.append((3, 20, R.encode(c, 1, 2, 3)))
ALL.append((0, 0, 0))

FEW = [(0, 0, 0), (3, 20, 0), (3, 20, 1), (0, 0, 2), (0, 0, 3), (0, 0, 4), (0, 0, 5), (0, 0, 7), (0, 0, 0xE2), (0, 0, 0xE9), (0, 0, 0xB), (0, 0, 6)]

SET = [
    {},
    {"thread_change_command": R.NEEDLE_SET, "max_stitch": 9, "max_jump": 9, "round": True, "sequin_contingency": R.SQ_UTILIZE},
    {"thread_change_command": R.STOP, "writes_speeds": False, "sequin_contingency": R.SQ_STITCH, "tie_on": True, "tie_off": True},
    {"needle_count": 1, "thread_change_command": R.NEEDLE_SET, "writes_speeds": False, "sequin_contingency": R.SQ_REMOVE, "explicit_trim": True},
]


def judge(st, nthreads, setting):
    msg, out, ev = enc.compare(st, nthreads, setting)
    if msg is None:
        g = R.settings_of(setting)
        allowed = {R.STITCH, R.JUMP, R.TRIM, R.STOP, R.END, g["change"]}
        utilize = g["sequin"] == R.SQ_UTILIZE or any((s[2] & 0xFF) == R.SQ_UTILIZE for s in st)
        if utilize:
            allowed |= {R.SEQUIN_MODE, R.SEQUIN_EJECT}
        if g["speeds"]:
            allowed |= {R.SLOW, R.FAST}
        got = [s[2] & 0xFF for s in out.stitches]
        if set(got) - allowed:
            msg = "commands %r are outside the vocabulary %r: %r" % (sorted(set(got) - allowed), sorted(allowed), out.stitches)
        elif got.count(R.END) != 1 or got[-1] != R.END:
            msg = "END is not exactly once at the end: %r" % (out.stitches,)
    return msg, out, ev


CTX = [((), ()), (((0, 0, 0), (6, 6, 0)), ((3, 3, 0),))]
SPACES = {
    "all": {"rep": (0,), "alphabet": ALL, "depth": {"quick": 3, "thorough": 4}, "settings": SET, "contexts": CTX, "judge": judge},
    "few": {"alphabet": FEW, "depth": {"quick": 5, "thorough": 6}, "settings": SET, "contexts": CTX, "judge": judge},
}


EXTRAS = [{}, {"name": "x"}, {"name": "", "author": None, "count": 0, "Flag": False}, {"name": "\u4e2d\n", 5: [1, 2], "thread_1": "#123456", "a b": 1.5, "comments": ["x", ""]}]


def carried(seq, nthreads, extras, settings):
    """The encoding carries the metadata, whatever it is, and encoding a pattern into itself is the same as into a new one."""
    from pyembroidery.EmbEncoder import Transcoder

    p = rt.pattern(seq, enc.threads(nthreads), extras)
    q = p.get_normalized_pattern(dict(settings))
    if q.extras != extras or list(q.extras) != list(extras) or any(type(q.extras[k]) is not type(v) for k, v in extras.items()):
        return "metadata %r became %r" % (extras, q.extras)
    r = Transcoder(dict(settings)).transcode(p, p)
    a, b = ([tuple(s) for s in v.stitches] for v in (r, q))

    def names(v):
        return [None if t.description == "Random" else rt.thread_key(t) for t in v.threadlist]

    if r is not p or a != b or names(r) != names(q) or r.extras != q.extras:
        return "encoded into itself: %r %r %r, into another: %r %r %r" % (a, r.threadlist, r.extras, b, q.threadlist, q.extras)
    return None


def bounds(tier):
    return enc.bounds_text(SPACES, tier) + "; metadata and encoding in place for all sequences of <= 2 of %d commands" % len(ALL)


def shards(tier):
    return enc.shards_for(SPACES, tier) + [("carried", k) for k in range(len(ALL))]


def run(shard, rec):
    if shard[0] == "carried":
        for seq in [(ALL[shard[1]],)] + [(ALL[shard[1]], b) for b in ALL]:
            for n in (0, 2):
                for ex in EXTRAS:
                    for s in SET:
                        rec.traces += 1
                        rec.transitions += len(seq)
                        rec.state(("carried", seq, n, repr(ex), repr(s)))
                        rec.case(lambda: carried(seq, n, ex, s), {"carried": [seq, n, EXTRAS.index(ex), SET.index(s)]})
        return
    enc.run_space(SPACES, shard, rec)


def replay(data):
    if "carried" in data:
        seq, n, e, s = data["carried"]
        return carried([tuple(v) for v in seq], n, EXTRAS[e], SET[s])
    return judge([tuple(s) for s in data["stitches"]], data["threads"], enc.fix_settings(data["settings"]))[0]
