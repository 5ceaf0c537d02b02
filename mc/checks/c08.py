"""Repetition: encoding twice, converting to and fro, and chains of conversions."""
import itertools
import random

from .. import core
from .. import enc
from .. import refenc as R
from .. import rt
from .. import samples
from . import c09

PROPERTY = "C08"
LEVEL = "model_checking"
RULE = "case = one design encoded twice, or taken through a cycle or chain of formats by the real writers and readers; distinct_nontrivial = distinct (settings or chain, design reached)"
ASSUMPTIONS = ["no ties, transforms or stops in place of changes in the settings", "filler colours are drawn from one seed", "positions are whole units; a PEC or PES file has an extra penetration at the end of jumps in both directions, so these two are left out of the chains"]

S = R.STITCH
FORMATS = ("pec", "pes", "exp", "dst", "jef", "vp3", "xxx", "u01", "tbf", "csv", "json", "gcode")
CHAIN = ("exp", "dst", "jef", "vp3", "xxx", "u01", "tbf", "csv", "json", "gcode")
COLORED = ("vp3", "xxx", "csv", "json", "gcode")
SETTINGS = [{}, {"round": True, "full_jump": True, "max_jump": 127, "max_stitch": 127}, {"max_jump": 50, "max_stitch": 40, "long_stitch_contingency": 0xF2}, {"thread_change_command": R.NEEDLE_SET, "needle_count": 3}, {"explicit_trim": True},
            {"sequin_contingency": 0xF8}, {"writes_speeds": False}, {"sequin_contingency": 0xF7}, {"full_jump": True, "max_jump": 50, "max_stitch": 40}, {"long_stitch_contingency": 0xF0, "max_stitch": 30}, {"round": True, "max_jump": 121, "max_stitch": 121, "sequin_contingency": 0xF6}]


def encode_alphabet():
    P = rt.lib()
    out = []
    for a in c09.alphabet("wide"):
        # ties are made again by every encoding; contingencies set on the fly hold for one only
        if a[2] in (-1, 77, P.TIE_ON, P.TIE_OFF) or a[2] & 0xFF in (P.CONTINGENCY_LONG_STITCH_SEW_TO, P.CONTINGENCY_SEQUIN_UTILIZE, P.OPTION_MAX_STITCH_LENGTH):
            continue
        # the needle goes to sequins that are removed, and is not known to have been there afterwards
        out.append(a)
    return out


def file_alphabet(sequins=True, half=True):
    P = rt.lib()
    out = [(0, 0, S), (10, -5, S), (300, 20.5 if half else 20, S), (7, 7, R.JUMP), (400, -3, R.JUMP), (1, 2, R.TRIM), (0, 0, R.COLOR_CHANGE), (3, 3, R.STOP), (0, 0, P.SLOW), (-60, 31, S), (0, 0, R.COLOR_BREAK)]
    if sequins:
        out.append((8, 8, P.SEQUIN_EJECT))
    return out


def design(seq):
    return rt.pattern(((0, 0, S), (2, 2, S)) + tuple(tuple(s) for s in seq) + ((6, 6, S), (9, 9, S), (9, 9, R.END)), enc.threads(8))


def key(p):
    return tuple([(round(s[0]), round(s[1]), s[2]) for s in p.stitches])


def colors(p):
    return [t.color & 0xFFFFFF for t in p.threadlist]


def twice_case(seq, s, rec=None):
    p = design(seq)
    if s.get("sequin_contingency") == 0xF8 and any(x[2] & 0xFF == R.SEQUIN_EJECT for x in seq):
        return None
    random.seed(3)
    a = p.get_normalized_pattern(dict(s))
    random.seed(3)
    b = a.get_normalized_pattern(dict(s))
    if rec is not None:
        rec.state((repr(s), key(a)))
        rec.outcome((repr(s), tuple([x[2] for x in a.stitches])))
    for k, (x, y) in enumerate(zip(a.stitches, b.stitches)):
        # steps of divided moves are rounded by the second encoding if that is asked for
        tol = 0.5 + 1e-9 if s.get("round") else 1e-9
        if x[2] != y[2] or abs(x[0] - y[0]) > tol or abs(x[1] - y[1]) > tol:
            return "encoding twice changes command %d from %r to %r: %r, %r" % (k, x, y, a.stitches[:30], b.stitches[:30])
    if len(a.stitches) != len(b.stitches):
        return "encoding twice changes the number of commands from %d to %d: %r, %r" % (len(a.stitches), len(b.stitches), a.stitches[:30], b.stitches[:30])
    ca = [(t.color, t.description) for t in a.threadlist]
    cb = [(t.color, t.description) for t in b.threadlist]
    if ca != cb:
        return "encoding twice changes the threads from %r to %r" % (ca, cb)
    return None


def convert(f, p):
    random.seed(3)
    d = rt.dump(f, p, samples.DATE)
    return rt.load(f, d)


def cycle_case(fs, seq, rec=None):
    """fs: the formats of one cycle.  After as many rounds as it has blocks nothing changes any more."""
    p = design(seq)
    last = None
    # an empty colour block that a format places at the one before settles one round after it
    for n in range(len(seq) + 3):
        for f in fs:
            p = convert(f, p)
        now = ([tuple(s) for s in p.stitches], colors(p))
        if now == last:
            break
        last, before = now, last
    else:
        return "converting to %s in turn has not settled after %d rounds: %r, then %r" % (", ".join(fs), n, before, now)
    if rec is not None:
        rec.state((fs, key(p)))
        rec.outcome((fs, key(p)))
        rec.count("rounds", n)
    return None


def needles(p):
    return [(round(s[0], 6), round(s[1], 6)) for s in p.stitches if s[2] & 0xFF == S]


def sewn(p):
    """every penetration with the colour of its thread"""
    q = p.get_normalized_pattern()
    out, k = [], 0
    for s in q.stitches:
        c = s[2] & 0xFF
        if c == R.COLOR_CHANGE:
            k += 1
        if c == S:
            out.append((round(s[0], 6), round(s[1], 6), q.threadlist[k].color & 0xFFFFFF if k < len(q.threadlist) else None))
    return out


def chains(rec, seq, formats, depth, view, what):
    p = design(seq)
    want = view(p)
    level = {(): p}
    for d in range(depth):
        nxt = {}
        for ch, q in level.items():
            for f in formats:
                c = ch + (f,)
                got = []

                def go():
                    got.append(convert(f, q))
                    v = view(got[0])
                    if v != want:
                        return "converting to %s changes the %s from %r to %r" % (", ".join(c), what, want[:30], v[:30])
                    return None

                rec.traces += 1
                rec.transitions += 1
                ok = rec.case(go, lambda: {"kind": "chain", "chain": list(c), "seq": [list(s) for s in seq], "what": what})
                if ok:
                    rec.state((c, key(got[0])))
                    rec.outcome((c, len(seq), tuple(want)))
                    nxt[c] = got[0]
        level = nxt


VIEWS = {"penetrations": needles, "colours": sewn}


def chain_case(chain, seq, what):
    p = design(seq)
    want = VIEWS[what](p)
    for f in chain:
        p = convert(f, p)
    got = VIEWS[what](p)
    return None if got == want else "converting to %s changes the %s from %r to %r" % (", ".join(chain), what, want[:40], got[:40])


def shards(tier):
    out = []
    al = encode_alphabet()
    for d in range(0, 4):
        if d < 2:
            out.append(("twice", d, None))
        else:
            for k in range(len(al)):
                out.append(("twice", d, k))
    fa = file_alphabet()
    for a in FORMATS:
        for b in FORMATS:
            for k in range(len(fa)):
                out.append(("cycle", (a,) if a == b else (a, b), k, (3 if a == b else 2) if tier == "quick" else (4 if a == b else 3)))
    n = len(file_alphabet(False, False))
    for k in range(n):
        out.append(("chain", CHAIN, k, 2, 2 if tier == "quick" else 3, "penetrations"))
        out.append(("chain", COLORED, k, 2, 2 if tier == "quick" else 3, "colours"))
        if tier != "quick":
            for j in range(n):
                out.append(("chain2", CHAIN, (k, j), 1, 2, "penetrations"))
                out.append(("chain2", COLORED, (k, j), 1, 3, "colours"))
        else:
            out.append(("chain", CHAIN, k, 1, 3, "penetrations"))
    return out


def run(shard, rec):
    kind = shard[0]
    if kind == "twice":
        _, d, k = shard
        al = encode_alphabet()
        pools = [al] * d if k is None else [[al[k]]] + [al] * (d - 1)
        for seq in itertools.product(*pools):
            for si, s in enumerate(SETTINGS):
                rec.traces += 1
                rec.transitions += len(seq) * 2
                rec.case(lambda: twice_case(seq, s, rec), lambda: {"kind": "twice", "seq": [list(x) for x in seq], "setting": si})
    elif kind == "cycle":
        _, fs, k, depth = shard
        al = file_alphabet()
        for d in range(depth):
            for rest in itertools.product(al, repeat=d):
                seq = (al[k],) + rest
                rec.traces += 1
                rec.transitions += 4 * len(fs)
                rec.case(lambda: cycle_case(fs, seq, rec), lambda: {"kind": "cycle", "formats": list(fs), "seq": [list(s) for s in seq]})
    else:
        _, formats, k, n, depth, what = shard
        al = [a for a in file_alphabet(False, False) if what == "penetrations" or a[2] != R.STOP]
        ks = (k,) if kind == "chain" else k
        if max(ks) >= len(al):
            return
        head = tuple(al[i] for i in ks)
        for m in range(0, n):
            for rest in itertools.product(al, repeat=m):
                chains(rec, head + rest, formats, depth, VIEWS[what], what)


def replay(data):
    if data["kind"] == "twice":
        return twice_case([tuple(x) for x in data["seq"]], SETTINGS[data["setting"]])
    seq = [tuple(x) for x in data["seq"]]
    if data["kind"] == "cycle":
        return cycle_case(tuple(data["formats"]), seq)
    return chain_case(data["chain"], seq, data["what"])


def bounds(tier):
    q = tier == "quick"
    return ("all sequences of <= 3 of %d commands encoded twice with %d settings; cycles of one format on all sequences of <= %d and of two formats (all pairs of %d) on <= %d of %d commands; all chains of <= %d of %d formats (%d that keep colours) on all sequences of %s commands"
            % (len(encode_alphabet()), len(SETTINGS), 3 if q else 4, len(FORMATS), 2 if q else 3, len(file_alphabet()), 2 if q else 3, len(CHAIN), len(COLORED), "<= 2 (chains of 3: one)" if q else "<= 3 (chains of 3: <= 2)"))
