"""Interpolation passes over all command sequences, against references and conserved quantities."""
import itertools
import re

from .. import refenc as R
from .. import reftrims
from .. import rt

PROPERTY = "C32"
LEVEL = "model_checking"
RULE = "case = one command sequence (and threadlist, and parameters) put through one interpolation pass of the real pattern and through its reference; distinct_nontrivial = distinct resulting command sequences"
ASSUMPTIONS = ["passes that deal with colours: patterns divided either by colour changes or by breaks and needle sets, at most one per gap", "get_pattern_interpolate_trim is for core commands"]

ST, J, T, S, C, E, B, N = (9, 9, R.STITCH), (20, 5, R.JUMP), (0, 0, R.TRIM), (7, 8, R.STOP), (1, 1, R.COLOR_CHANGE), (3, 3, R.END), (2, 2, R.COLOR_BREAK), (4, 4, R.encode(R.NEEDLE_SET, None, 2))
SEWN = (R.STITCH, R.SEW_TO, R.NEEDLE_AT)
BREAKS = (R.COLOR_BREAK, R.NEEDLE_SET)


def cmd(s):
    return s[2] & 0xFF


# ---- stops and colours
def color_threads(ix):
    E_ = rt.lib().EmbThread
    # 0 and 1 are the same thread, 2 has another colour, 3 only another description
    return [E_(0xFF0000, "a") if i < 2 else E_(0x0000FF, "b") if i == 2 else E_(0xFF0000, "c") for i in ix]


def is_change(seq, k):
    """Does the command at k change the colour?"""
    c = cmd(seq[k])
    if c == R.COLOR_CHANGE:
        return True
    if c not in BREAKS:
        return False
    return any(cmd(s) in SEWN for s in seq[:k]) and any(cmd(s) in SEWN for s in seq[k:])


def simple_breaks(seq):
    """At most one break per gap between sewing."""
    n = 0
    for s in seq:
        if cmd(s) in SEWN:
            n = 0
        elif cmd(s) in BREAKS:
            n += 1
            if n > 1:
                return False
    return True


def ref_dup_as_stop(seq, threads):
    seq = [list(s) for s in seq]
    threads = list(threads)
    k = 0
    for pos in [i for i in range(len(seq)) if is_change(seq, i)]:
        if k + 1 >= len(threads):
            break
        if threads[k] == threads[k + 1]:
            del threads[k + 1]
            seq[pos][2] = R.STOP
        else:
            k += 1
    return seq, threads


def ref_stop_as_dup(seq, threads, command):
    changes = [i for i in range(len(seq)) if is_change(seq, i)]
    seq = [list(s) for s in seq]
    threads = list(threads)
    k = 0
    for i, s in enumerate(seq):
        if i in changes:
            k += 1
        elif cmd(s) == R.STOP:
            if k >= len(threads):
                break
            threads.insert(k, threads[k])
            s[2] = command
            k += 1
    return seq, threads


def colors_of(seq, threads, changes=None):
    """The thread of each penetration."""
    out, k = [], 0
    for i, s in enumerate(seq):
        if is_change(seq, i):
            k += 1
        if cmd(s) in SEWN:
            out.append((s[0], s[1], threads[k].color if k < len(threads) else None))
    return out


def judge_colors(seq, ix):
    threads = color_threads(ix)
    p = rt.pattern(seq, threads, {"name": "x"})
    p.interpolate_duplicate_color_as_stop()
    want, wt = ref_dup_as_stop(seq, threads)
    if [list(s) for s in p.stitches] != want or p.threadlist != wt:
        return "duplicate colours as stops: %r %r, want %r %r" % (p.stitches, p.threadlist, want, wt)
    if colors_of(p.stitches, p.threadlist) != colors_of(seq, threads):
        # threads beyond the list have no duplicate: only named colours are compared
        a = [c for c in colors_of(p.stitches, p.threadlist) if c[2] is not None]
        b = [c for c in colors_of(seq, threads) if c[2] is not None]
        if a != b:
            return "the colours of the stitches changed: %r to %r" % (b, a)
    for command in (None, R.COLOR_BREAK, R.NEEDLE_SET):
        q = rt.pattern(seq, threads)
        if command is None:
            q.interpolate_stop_as_duplicate_color()
        else:
            q.interpolate_stop_as_duplicate_color(command)
        want, wt = ref_stop_as_dup(seq, threads, command or R.COLOR_CHANGE)
        if [list(s) for s in q.stitches] != want or len(q.threadlist) != len(wt) or any(a != b for a, b in zip(q.threadlist, wt)):
            return "stops as duplicate colours (%r): %r %r, want %r %r" % (command, q.stitches, q.threadlist, want, wt)
    return None


# ---- frame eject
def letter(s):
    c = cmd(s)
    return "J" if c == R.JUMP else "S" if c == R.STOP else "n" if c in (R.TRIM, R.END, 0xFF) else "x"


EJECT = re.compile(r"J[Jn]*S(n*J[Jn]*(?=x|$)|n*(?=J[Jn]*S)|n*$)")


def ref_frame_eject(seq):
    text = "".join(letter(s) for s in seq)
    out, at = [], 0
    while at < len(seq):
        m = EJECT.match(text, at)
        if m and m.end() > at:
            stop = text.index("S", at)
            out.append([seq[stop][0], seq[stop][1], R.FRAME_EJECT])
            at = m.end()
            continue
        if text[at] == "J":
            # a run of jumps that is no frame eject stays as it is, as a whole
            m = re.compile(r"J[Jn]*S?n*").match(text, at)
            out += [list(s) for s in seq[at:m.end()]]
            at = m.end()
            continue
        out.append(list(seq[at]))
        at += 1
    return out


def judge_eject(seq):
    p = rt.pattern(seq, (), {"name": "x"})
    p.interpolate_frame_eject()
    want = ref_frame_eject(seq)
    if [list(s) for s in p.stitches] != want:
        return "frame ejects: %r, want %r" % (p.stitches, want)
    return None


# ---- trims and jumps
def judge_trims(seq, count, dist, clip):
    p = rt.pattern(seq)
    p.interpolate_trims(count, dist, clip)
    want = [tuple(s) for s in reftrims.interpolate(seq, count, dist, clip)]
    got = [tuple(s) for s in p.stitches]
    if got != want:
        return "interpolate_trims(%r, %r, %r): %r, want %r" % (count, dist, clip, got, want)
    return None


def ref_merge_jumps(seq):
    """-> list of ("B",) or stitches"""
    out = []
    for is_jump, g in itertools.groupby(seq, key=lambda s: cmd(s) == R.JUMP):
        out += [("B",)] if is_jump else [tuple(s) for s in g]
    return out


def judge_merge(seq):
    p = rt.pattern(seq, color_threads((0, 2)), {"name": "x"})
    q = p.get_pattern_merge_jumps()
    got = [("B",) if cmd(s) == R.STITCH_BREAK else tuple(s) for s in q.stitches]
    if got != ref_merge_jumps(seq):
        return "merged jumps: %r, want %r" % (got, ref_merge_jumps(seq))
    if q.threadlist != p.threadlist or q.extras != p.extras or [tuple(s) for s in p.stitches] != list(seq):
        return "threads, metadata or the source were changed"
    return None


def ref_interpolate_trim(seq, count):
    """Runs of jumps after uncut stitching become their last jump, after a trim if they are long."""
    out, cut = [], True
    k = 0
    while k < len(seq):
        c = cmd(seq[k])
        if c == R.JUMP and not cut:
            n = k
            while n < len(seq) and cmd(seq[n]) == R.JUMP:
                n += 1
            if n - k >= count:
                out.append(("T",))
                cut = True
            out.append(tuple(seq[n - 1]))
            k = n
            continue
        if c in (R.STITCH, R.SEQUIN_EJECT):
            cut = False
        elif c in (R.COLOR_CHANGE, R.NEEDLE_SET, R.TRIM):
            cut = True
        out.append(tuple(seq[k]) if c != R.TRIM else ("T",))
        k += 1
    return out


def judge_itrim(seq, count):
    p = rt.pattern(seq, color_threads((0, 2)), {"name": "x"})
    q = p.get_pattern_interpolate_trim(count)
    got = [("T",) if cmd(s) == R.TRIM else tuple(s) for s in q.stitches]
    want = ref_interpolate_trim(seq, count)
    if got != want:
        return "interpolate_trim(%d): %r, want %r" % (count, got, want)
    if q.threadlist != p.threadlist or q.extras != p.extras or [tuple(s) for s in p.stitches] != list(seq):
        return "threads, metadata or the source were changed"
    return None


SPACES = {
    # name: (alphabet, quick depth, thorough depth)
    "change": ((ST, S, C, J), 6, 8),
    "break": ((ST, S, B, N, (5, 5, R.SEW_TO)), 6, 7),
    "eject": ((ST, J, (30, 31, R.JUMP), S, (17, 18, R.STOP), T, E, C, (0, 0, R.SEQUIN_EJECT), (0, 0, R.SLOW), B, (0, 0, -1)), 5, 6),
    "eject_long": ((ST, J, S, T), 9, 10),
    "trims": (((9, 9, R.STITCH), (20, 5, R.JUMP), (20, 5, R.encode(R.JUMP, None, 2)), (9, 9, R.JUMP), (10, 9, R.JUMP), T, C, S, (9, 9, R.SEQUIN_EJECT)), 5, 6),
    "trims_y": (((9, 9, R.STITCH), (9, 15, R.JUMP), (9, 20, R.JUMP), (15, 20, R.JUMP), (20, 9, R.JUMP), T), 5, 6),
    "merge": ((ST, J, (30, 31, R.JUMP), (1, 1, R.encode(R.JUMP, 1)), T, S, C, E, (0, 0, R.SEQUIN_EJECT)), 5, 6),
    "itrim": ((ST, J, (30, 31, R.JUMP), T, S, C, E, (0, 0, R.SEQUIN_EJECT), N), 5, 6),
    "itrim_long": ((ST, J, S, T), 8, 9),
}
THREADS = [()] + [t for n in (1, 2, 3) for t in itertools.product((0, 2), repeat=n)] + [(0, 1, 2, 2), (0, 1, 1, 1), (0, 2, 0, 0), (2, 2, 0, 0, 2), (0, 3), (3, 0, 0), (2, 0, 3)]
TRIMS = [(c, d, k) for c in (None, 1, 2, 3) for d in (None, 0, 10.5, 11) for k in (True, False)]


def cases(space, seq):
    if space == "change" or space == "break":
        if simple_breaks(seq) and not trailing_stop(seq):
            for ix in THREADS:
                yield "colors", (seq, ix), lambda ix=ix: judge_colors(seq, ix)
    elif space.startswith("eject"):
        yield "eject", (seq,), lambda: judge_eject(seq)
    elif space.startswith("trims"):
        for a in TRIMS:
            yield "trims", (seq,) + a, lambda a=a: judge_trims(seq, *a)
    elif space == "merge":
        yield "merge", (seq,), lambda: judge_merge(seq)
    else:
        for n in (1, 2, 3, 4):
            yield "itrim", (seq, n), lambda n=n: judge_itrim(seq, n)


def trailing_stop(seq):
    """A stop after a break that nothing is sewn after: its colour is not defined."""
    last = max([k for k, s in enumerate(seq) if cmd(s) in SEWN], default=-1)
    seen = False
    for s in seq[last + 1:]:
        if cmd(s) in BREAKS:
            seen = True
        elif cmd(s) == R.STOP and seen:
            return True
    return False


def bounds(tier):
    return "; ".join("%s: all sequences of <= %d of %d commands" % (n, a[1 if tier == "quick" else 2], len(a[0])) for n, a in SPACES.items()) + "; x %d threadlists, %d trim settings" % (len(THREADS), len(TRIMS))


def shards(tier):
    out = []
    for name, a in SPACES.items():
        for n in range(a[1 if tier == "quick" else 2], -1, -1):
            out += [(name, n, k) for k in range(len(a[0]))] if n else [(name, 0, 0)]
    out.sort(key=lambda s: -s[1])
    return out + [("rep", name, k) for name, a in SPACES.items() for k in range(len(a[0]))]


def run(shard, rec):
    if shard[0] == "rep":
        # long designs: every command 130 times, every pair of commands 65 times over
        name, k = shard[1:]
        al = SPACES[name][0]
        for w in [(al[k],)] + [(al[k], b) for b in al]:
            seq = w * (130 if len(w) == 1 else 65)
            for kind, args, fn in cases(name, seq):
                rec.traces += 1
                rec.transitions += len(seq)
                rec.case(fn, {kind: args})
            rec.state((name, w, "rep"))
        return
    name, n, k = shard
    al = SPACES[name][0]
    for tail in itertools.product(al, repeat=max(0, n - 1)):
        seq = ((al[k],) if n else ()) + tail
        for kind, args, fn in cases(name, seq):
            rec.traces += 1
            rec.transitions += n
            rec.state((kind,) + args)
            if rec.traces == 1:
                rec.sample({kind: args})
            rec.case(fn, {kind: args})
        rec.outcome((name, tuple(cmd(s) for s in seq)))


def replay(d):
    (kind, a), = d.items()
    seq = tuple(tuple(s) for s in a[0])
    f = {"colors": judge_colors, "eject": judge_eject, "trims": judge_trims, "merge": judge_merge, "itrim": judge_itrim}[kind]
    return f(seq, *a[1:])
