"""Command words: command, thread, needle and order are held independently, in encode/decode and through every place that decodes them."""
import itertools

from .. import refenc as R
from .. import rt

PROPERTY = "C35"
LEVEL = "model_checking"
RULE = "case = one (command, thread, needle, order) combination encoded by the library, decoded by the library and by the documented bit layout; distinct_nontrivial = distinct words"
ASSUMPTIONS = ["thread, needle and order from None and 0..254: a byte holds number + 1"]
FEW = [None, 0, 1, 126, 127, 128, 253, 254]
ALL = [None] + list(range(255))


def word(cmd, t, n, o):
    def f(v):
        return 0 if v is None else v + 1

    return cmd | f(t) << 8 | f(n) << 16 | f(o) << 24


def one(cmd, t, n, o):
    L = rt.lib()
    w = L.encode_thread_change(cmd, t, n, o)
    if w != word(cmd, t, n, o):
        return "encode(%r, %r, %r, %r) = %#x" % (cmd, t, n, o, w)
    got = tuple(L.decode_embroidery_command(w))
    if got != (cmd, t, n, o):
        return "decode(%#x) = %r, wants %r" % (w, got, (cmd, t, n, o))
    if w & L.COMMAND_MASK != cmd:
        return "the command of %#x is lost" % w
    return None


def through(t, n, o):
    """get_as_stitches and needle_change use the same words; counts and matching ignore the arguments."""
    L = rt.lib()
    p = L.EmbPattern()
    cmds = (L.COLOR_CHANGE, L.NEEDLE_SET, L.COLOR_BREAK, L.SET_CHANGE_SEQUENCE, L.STITCH)
    for k, c in enumerate(cmds):
        p.add_stitch_absolute(L.encode_thread_change(c, t, n, o), k, -k)
    if n is not None:
        p.needle_change(n, 1, 2)
    got = [tuple(v) for v in p.get_as_stitches()]
    want = [(k, k, -k, c, t, n, o) for k, c in enumerate(cmds)]
    if n is not None:
        want.append((5, 5, -2, L.NEEDLE_SET, None, n, None))
    if got != want:
        return "get_as_stitches gives %r, wants %r" % (got, want)
    nn = 1 if n is None else 2
    if (p.count_needle_sets(), p.count_color_changes(), p.count_stitch_commands(L.STITCH), p.count_stitch_commands(L.JUMP), p.count_stitches()) != (nn, 1, 1, 0, 4 + nn):
        return "counts are wrong for %r" % (p.stitches,)
    if len(list(p.get_match_commands(L.NEEDLE_SET))) != nn or [s[:2] for s in p.get_match_commands(L.COLOR_BREAK)] != [[2, -2]]:
        return "get_match_commands"
    return None


def beyond(cmd, v):
    """A number that the word cannot hold does not disturb the command and the other numbers."""
    L = rt.lib()
    for k in range(3):
        for other in FEW:
            args = [other, other, other]
            args[k] = v
            got = tuple(L.decode_embroidery_command(L.encode_thread_change(cmd, *args)))
            if got[0] != cmd or any(got[1 + j] != other for j in range(3) if j != k):
                return "%r in place %d of %r reads back as %r" % (v, k, args, got)
    return None


def again(cmd, old, new):
    """Encoding a word that already carries numbers replaces them: nothing of the old ones is left."""
    L = rt.lib()
    w = L.encode_thread_change(word(cmd, *old), *new)
    if w != word(cmd, *new):
        return "encode(%#x, %r) = %#x, wants %#x" % (word(cmd, *old), new, w, word(cmd, *new))
    return None


NAMES = {"NO_COMMAND": -1, "STITCH": 0, "JUMP": 1, "TRIM": 2, "STOP": 3, "END": 4, "COLOR_CHANGE": 5, "SEQUIN_MODE": 6, "SEQUIN_EJECT": 7, "NEEDLE_SET": 9,
         "SLOW": 0xB, "FAST": 0xC, "SET_CHANGE_SEQUENCE": 0x10, "SEW_TO": 0xB0, "NEEDLE_AT": 0xB1, "STITCH_BREAK": 0xE0, "SEQUENCE_BREAK": 0xE1,
         "COLOR_BREAK": 0xE2, "TIE_ON": 0xE4, "TIE_OFF": 0xE5, "FRAME_EJECT": 0xE9,
         "MATRIX_TRANSLATE": R.M_TRANSLATE, "MATRIX_SCALE_ORIGIN": R.M_SCALE_O, "MATRIX_ROTATE_ORIGIN": R.M_ROTATE_O, "MATRIX_SCALE": R.M_SCALE,
         "MATRIX_ROTATE": R.M_ROTATE, "MATRIX_RESET": R.M_RESET, "CONTINGENCY_TIE_ON_THREE_SMALL": R.TIE_ON_3, "CONTINGENCY_TIE_OFF_THREE_SMALL": R.TIE_OFF_3,
         "CONTINGENCY_TIE_ON_NONE": R.TIE_ON_NONE, "CONTINGENCY_TIE_OFF_NONE": R.TIE_OFF_NONE, "OPTION_MAX_STITCH_LENGTH": R.O_MAX_STITCH,
         "OPTION_MAX_JUMP_LENGTH": R.O_MAX_JUMP, "OPTION_IMPLICIT_TRIM": R.O_IMPLICIT, "OPTION_EXPLICIT_TRIM": R.O_EXPLICIT,
         "CONTINGENCY_LONG_STITCH_NONE": R.LONG_NONE, "CONTINGENCY_LONG_STITCH_JUMP_NEEDLE": R.LONG_NEEDLE, "CONTINGENCY_LONG_STITCH_SEW_TO": R.LONG_SEW,
         "CONTINGENCY_SEQUIN_UTILIZE": R.SQ_UTILIZE, "CONTINGENCY_SEQUIN_JUMP": R.SQ_JUMP, "CONTINGENCY_SEQUIN_STITCH": R.SQ_STITCH, "CONTINGENCY_SEQUIN_REMOVE": R.SQ_REMOVE}


def names():
    L = rt.lib()
    a, b = L.get_command_dictionary(), L.get_common_name_dictionary()
    for n, v in NAMES.items():
        if a.get(n) != v or b.get(v) != n or getattr(L, n) != v:
            return "%s is %r, its name is %r" % (n, a.get(n), b.get(v))
    if set(a) != set(NAMES) or len(b) != len(a):
        return "command names %r" % (sorted(set(a) ^ set(NAMES)),)
    return None


def bounds(tier):
    return "all 256 commands x all triples of %d numbers; all pairs of 256 numbers for each two of the three fields; words encoded again over other numbers%s" % (len(FEW), "; all triples of 256 numbers for one command" if tier == "thorough" else "")


def shards(tier):
    out = [("cmd", c) for c in range(0, 256, 16)] + [("pair", k) for k in range(3)] + [("through",), ("names",), ("beyond",)] + [("again", o) for o in FEW]
    if tier == "thorough":
        out += [("all", k) for k in range(256)]
    return out


def run(shard, rec):
    kind = shard[0]

    def do(fn, args, name):
        rec.transitions += 1
        rec.traces += 1
        rec.state((name,) + args)
        rec.case(lambda: fn(*args), {name: args})

    if kind == "cmd":
        for c in range(shard[1], shard[1] + 16):
            for t in FEW:
                for n in FEW:
                    for o in FEW:
                        do(one, (c, t, n, o), "one")
        rec.outcome(shard)
    elif kind == "pair":
        for a in ALL:
            for b in ALL:
                v = [a, b]
                v.insert(shard[1], 3)
                do(one, (9,) + tuple(v), "one")
        rec.outcome(shard)
    elif kind == "through":
        for t in FEW:
            for n in FEW:
                for o in FEW:
                    do(through, (t, n, o), "through")
                    rec.outcome((t, n, o))
    elif kind == "beyond":
        for c in (R.COLOR_CHANGE, R.NEEDLE_SET, 0xFF):
            for v in (255, 256, 257, 300, 65535, 65536, 1 << 24):
                do(beyond, (c, v), "beyond")
        rec.outcome(shard)
    elif kind == "again":
        for c in (0, R.JUMP, R.COLOR_CHANGE, R.NEEDLE_SET, R.SET_CHANGE_SEQUENCE, 0xFF):
            for old in itertools.product(FEW[::2], FEW[1::3], (shard[1],)):
                for new in itertools.product(FEW[::2], FEW[::3], FEW[::3]):
                    do(again, (c, old, new), "again")
        rec.outcome(shard)
    elif kind == "names":
        do(names, (), "names")
    else:
        def plane():
            for n in ALL:
                for o in ALL:
                    m = one(9, ALL[shard[1]], n, o)
                    if m:
                        return m
            return None

        rec.transitions += 65536
        rec.traces += 65536
        rec.state(shard)
        rec.case(plane, {"plane": shard[1]})


def replay(d):
    if "beyond" in d:
        return beyond(*d["beyond"])
    if "again" in d:
        c, old, new = d["again"]
        return again(c, tuple(old), tuple(new))
    if "one" in d:
        return one(*d["one"])
    if "through" in d:
        return through(*d["through"])
    if "names" in d:
        return names()
    return None
