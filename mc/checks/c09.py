"""Writing, encoding and asking questions leave the pattern, its threads and the settings as they were."""
import copy
import io
import itertools
import random

from .. import core
from .. import refenc as R
from .. import rt
from .. import samples

PROPERTY = "C09"
LEVEL = "model_checking"
RULE = "case = one pattern and settings given to one writer, encoder or query of the real library, deeply compared before and after; distinct_nontrivial = distinct (operation, pattern)"
ASSUMPTIONS = ["what a failing operation does to its output is not considered here (see C39), only that its inputs stay as they were"]

S, J, T, C, B, N, X, E = R.STITCH, R.JUMP, R.TRIM, R.COLOR_CHANGE, R.COLOR_BREAK, R.NEEDLE_SET, R.STOP, R.END
WRITERS = samples.WRITERS + ("svg", "png", "txt")


def enc_change(cmd, thread=None, needle=None, order=None):
    return rt.lib().encode_thread_change(cmd, thread, needle, order)


def alphabet(size):
    core_ = [(0, 0, S), (10, -5, S), (300, 20.5, S), (7, 7, J), (400, -3, J), (1, 2, T), (0, 0, C), (0, 0, B), (3, 3, X), (5, 5, E)]
    if size == "core":
        return core_
    P = rt.lib()
    more = [(0, 0, N), (9, 9, P.SEQUIN_MODE), (8, 8, P.SEQUIN_EJECT), (0, 0, P.SLOW), (0, 0, P.FAST), (6, 6, P.STITCH_BREAK), (6, 6, P.SEQUENCE_BREAK), (6, 6, P.FRAME_EJECT), (5, 1, P.SEW_TO), (200, 200, P.NEEDLE_AT), (4, 4, P.MATRIX_TRANSLATE),
            (2, 2, P.MATRIX_SCALE), (90, 0, P.MATRIX_ROTATE), (0, 0, P.MATRIX_RESET), (0, 0, P.TIE_ON), (0, 0, P.TIE_OFF), (0, 0, P.OPTION_EXPLICIT_TRIM), (0, 0, P.CONTINGENCY_LONG_STITCH_SEW_TO), (0, 0, P.CONTINGENCY_SEQUIN_UTILIZE),
            (30, 0, P.OPTION_MAX_STITCH_LENGTH), (0, 0, P.SET_CHANGE_SEQUENCE), (0, 0, enc_change(P.SET_CHANGE_SEQUENCE, 1)), (0, 0, enc_change(C, 2)), (0, 0, enc_change(N, None, 3)), (0, 0, enc_change(B, 1)), (1, 1, -1), (3, 1, 77)]
    return core_ + more


SETTINGS = [
    {}, {"encode": True}, {"encode": False},
    {"translate": [3, 4], "scale": [2, 0.5], "rotate": 30}, {"thread_change_command": N, "needle_count": 3, "explicit_trim": True}, {"thread_change_command": X, "tie_on": R.TIE_ON, "tie_off": R.TIE_OFF},
    {"max_stitch": 40, "max_jump": 50, "long_stitch_contingency": 0xF7, "round": True}, {"encode": False, "round": True}, {"strip_speeds": True, "writes_speeds": False, "sequin_contingency": 0xE8},
]
SPECIAL = {"pes": [{"version": "1"}, {"version": "6"}, {"version": "1t"}, {"version": "6t"}, {"version": "6", "encode": False}, {"version": "1", "encode": False}],
           "dst": [{"extended header": True}, {"extended header": True, "encode": False}], "csv": [{"version": "delta"}, {"version": "full"}, {"version": "full", "encode": True}], "json": [{"encode": True}],
           "png": [{"background": [1, 2, 3, 255], "linewidth": 5, "fancy": True, "guides": True}, {"encode": False, "fancy": True}],
           "svg": [{"encode": False}], "gcode": [{"increment": 5, "flip_x": True}, {"encode": False, "alternate_z": True, "stitch_z_travel": 3}],
           "txt": [{"mimic": True}, {"encode": False}], "vp3": [{"encode": False}]}


def make(seq, nthreads):
    E_ = rt.lib().EmbThread
    p = rt.pattern(seq, [E_((0x102030 + 0x0F1F3F * i) & 0xFFFFFF, "t%d" % i, str(i), "d", "Brand", "chart", "40") for i in range(nthreads)])
    p.extras.update({"name": "n", "author": "a", "list": [1, [2, 3]], "graphics": bytearray(b"xyz"), "numbers": (1, 2)})
    p._previousX, p._previousY = 3, 4
    return p


def snap(p):
    return ([tuple(s) for s in p.stitches], [type(s) for s in p.stitches], [id(s) for s in p.stitches], [id(t) for t in p.threadlist], [tuple(sorted(vars(t).items(), key=repr)) for t in p.threadlist], copy.deepcopy(p.extras), p._previousX, p._previousY, id(p.stitches), id(p.threadlist), id(p.extras), sorted(vars(p)))


NAMES = ("stitches", "types of stitches", "stitch objects", "thread objects", "threads", "extras", "_previousX", "_previousY", "list of stitches", "list of threads", "extras", "attributes")


def compare(a, b, what):
    for x, y, n in zip(a, b, NAMES):
        if x != y:
            return "%s changes the %s of the pattern: %r to %r" % (what, n, str(x)[:300], str(y)[:300])
    return None


def write_case(fmt, seq, nth, s):
    p = make(seq, nth)
    w = rt.formats()[fmt]["writer"]
    st = dict(samples.DATE)
    st.update(copy.deepcopy(s))
    before, s0 = snap(p), copy.deepcopy(st)
    f = io.StringIO() if getattr(w, "WRITE_FILE_IN_TEXT_MODE", False) else io.BytesIO()
    try:
        rt.lib().EmbPattern.write_embroidery(w, p, f, st)
    except Exception:
        pass
    if st != s0:
        return "writing %s changes the settings %r to %r" % (fmt, s0, st)
    return compare(before, snap(p), "writing %s with %r" % (fmt, s))


def encode_case(seq, nth, s):
    p = make(seq, nth)
    st = None if s is None else copy.deepcopy(s)
    before, s0 = snap(p), copy.deepcopy(st)
    q = p.get_normalized_pattern(st)
    if st != s0:
        return "encoding changes the settings %r to %r" % (s0, st)
    m = compare(before, snap(p), "encoding with %r" % (s,))
    if m:
        return m
    return vandal(p, q, before, "get_normalized_pattern")


def vandal(p, q, before, what):
    """Whatever is done to the result must not show in the source."""
    if not isinstance(q, type(p)) or q is p:
        return None
    for s in q.stitches:
        s[0] += 1000
        s[2] = E
    q.stitches.append([1, 2, 3])
    q.threadlist.append(None)
    del q.threadlist[:1]
    q.extras["new"] = 1
    q.extras.pop("name", None)
    q.move_abs(77, 88)
    return compare(before, snap(p), "changing the result of %s" % what)


QUERIES = {
    "get_stable_pattern": lambda p: p.get_stable_pattern(),
    "get_pattern_merge_jumps": lambda p: p.get_pattern_merge_jumps(),
    "get_pattern_interpolate_trim": lambda p: p.get_pattern_interpolate_trim(2),
    "copy": lambda p: p.copy(),
    "__copy__": lambda p: copy.copy(p),
    "deepcopy": lambda p: copy.deepcopy(p),
    "EmbPattern(p)": lambda p: type(p)(p),
    "p + p": lambda p: p + p,
    "q += p": lambda p: iadd(p),
    "add_pattern": lambda p: addp(p),
    "add_pattern(transformed)": lambda p: addp(p, 3, 4, 2, 2, 90),
    "add_pattern(moved)": lambda p: addp(p, 3, 4),
    "bounds": lambda p: p.bounds(),
    "len": lambda p: len(p),
    "str": lambda p: str(p),
    "repr": lambda p: repr(p),
    "eq": lambda p: (p == p.copy(), p != p.copy(), p == 3, p != None),
    "getitem": lambda p: [p[k] for k in range(len(p.stitches))] + ([p["name"]] if "name" in p.extras else []),
    "counts": lambda p: (p.count_stitches(), p.count_color_changes(), p.count_needle_sets(), p.count_threads(), p.count_stitch_commands(S), p.count_stitch_commands(J)),
    "get_as_stitchblock": lambda p: list(p.get_as_stitchblock()),
    "get_as_command_blocks": lambda p: list(p.get_as_command_blocks()),
    "get_as_colorblocks": lambda p: list(p.get_as_colorblocks()),
    "get_as_stitches": lambda p: list(p.get_as_stitches()),
    "get_unique_threadlist": lambda p: p.get_unique_threadlist(),
    "get_singleton_threadlist": lambda p: p.get_singleton_threadlist(),
    "get_thread_or_filler": lambda p: [p.get_thread_or_filler(k) for k in (0, 1, 2, 3, 50)],
    "get_match_commands": lambda p: list(p.get_match_commands(S)),
    "get_metadata": lambda p: (p.get_metadata("name"), p.get_metadata("none"), p.get_metadata("none", 3)),
}


def iadd(p):
    q = make([(1, 1, S), (2, 2, E)], 1)
    q += p
    return q


def addp(p, *a):
    q = make([(1, 1, S), (2, 2, E)], 1)
    q.add_pattern(p, *a)
    return q


def query_case(name, seq, nth):
    p = make(seq, nth)
    before = snap(p)
    r = QUERIES[name](p)
    m = compare(before, snap(p), name)
    if m:
        return m
    return vandal(p, r, before, name)


def shards(tier):
    out = []
    wide, core_ = alphabet("wide"), alphabet("core")
    d = 3 if tier == "quick" else 4
    for f in WRITERS:
        for k in range(len(wide)):
            out.append(("write", f, "wide", 2 if tier == "quick" or f == "png" else 3, k))
        for k in range(len(core_)):
            out.append(("write", f, "core", 3 if tier == "quick" else 4, k))
        out.append(("sample", f))
    for k in range(len(wide)):
        out.append(("encode", "wide", d - 1, k))
        out.append(("query", "wide", d - 1, k))
    for k in range(len(core_)):
        out.append(("encode", "core", d, k))
        out.append(("query", "core", 3, k))
    return out


def seqs(name, depth, first):
    al = alphabet(name)
    if first == 0:
        yield ()
    for n in range(depth):
        for rest in itertools.product(al, repeat=n):
            yield (al[first],) + rest


def run(shard, rec):
    kind = shard[0]
    if kind == "sample":
        f = shard[1]
        for k in ("empty", "one", "two", "rich"):
            seq = [tuple(s) for s in samples.design(k).stitches]
            for n in (0, 1, 2, 6):
                for s in SETTINGS + SPECIAL.get(f, []):
                    one(rec, ("write", f, seq, n, s))
    elif kind == "write":
        _, f, al, depth, first = shard
        ss = SETTINGS[:3] + SPECIAL.get(f, []) if al == "wide" else [{}, {"encode": False}]
        if f == "png" and al == "core":
            depth = 2
        for i, seq in enumerate(seqs(al, depth, first)):
            # large pictures are left to the sample shards
            if f == "png":
                seq = tuple((s[0] / 10 if s[0] > 100 else s[0], s[1], s[2]) for s in seq)
            for s in ss:
                one(rec, ("write", f, seq, 2, s))
            if al == "wide" and len(seq) == 1:
                for s in SETTINGS[3:]:
                    one(rec, ("write", f, seq, 2, s))
    elif kind == "encode":
        _, al, depth, first = shard
        for seq in seqs(al, depth, first):
            for s in [None] + SETTINGS:
                one(rec, ("encode", seq, 2, s))
    elif kind == "query":
        _, al, depth, first = shard
        for seq in seqs(al, depth, first):
            for q in QUERIES:
                for n in ((0, 3) if len(seq) < 3 else (3,)):
                    one(rec, ("query", q, seq, n))


FN = {"write": write_case, "encode": encode_case, "query": query_case}


def one(rec, c):
    rec.traces += 1
    rec.transitions += len(c[2] if c[0] != "encode" else c[1])
    h = core.canon(c)
    rec.state(h)
    rec.outcome(h[:3])
    if rec.traces == 1:
        rec.sample(repr(c))
    rec.case(lambda: FN[c[0]](*c[1:]), lambda: {"kind": c[0], "args": list(c[1:])})


def replay(data):
    a = [x for x in data["args"]]
    return FN[data["kind"]](*a)


def bounds(tier):
    return ("every writer (%d) on all sequences of <= %d of %d commands (settings: default, encode on, encode off and its own) and <= %d of %d core commands; encoder to depth %d with %d settings; %d queries on the same sequences; sample designs with all settings"
            % (len(WRITERS), 2 if tier == "quick" else 3, len(alphabet("wide")), 3 if tier == "quick" else 4, len(alphabet("core")), 3 if tier == "quick" else 4, len(SETTINGS), len(QUERIES)))
