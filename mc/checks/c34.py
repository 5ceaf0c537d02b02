"""Sums, copies and merges of patterns: all pairs (and triples) of small designs, encoded and compared with their parts."""
import copy
import itertools
import os

from .. import refenc as R
from .. import rt

PROPERTY = "C34"
LEVEL = "model_checking"
RULE = "case = one pair (or triple) of designs combined by the real operators; the encoding of the result is compared with the encodings of the operands, and operands and results are then modified to show that they are independent; distinct_nontrivial = distinct sewn sequences"
ASSUMPTIONS = ["threadlists name one thread per sewn block, or fewer in the first design of a sum", "at most one thread change between two penetrations, before the first and after the last", "what is added after a scaled or rotated pattern is not claimed"]

SEWN = (R.STITCH, R.SEW_TO, R.NEEDLE_AT)
CHANGES = (R.COLOR_CHANGE, R.COLOR_BREAK, R.NEEDLE_SET)
ST, ST2, J, T, C, B, N, S, E = (9, 9, R.STITCH), (2, 7, R.SEW_TO), (20, 5, R.JUMP), (9, 9, R.TRIM), (1, 1, R.COLOR_CHANGE), (0, 0, R.COLOR_BREAK), (3, 3, R.NEEDLE_SET), (4, 4, R.STOP), (5, 5, R.END)
ALPHA = (ST, ST2, J, T, C, B, N, S)
SMALL = (ST, J, C, B, T)


def cmd(s):
    return s[2] & 0xFF


def blocks(seq):
    """Number of sewn blocks, or None if two changes meet in one gap."""
    n, fresh, pend, breaks = 0, True, 0, True
    for s in seq:
        c = cmd(s)
        if c in SEWN:
            if fresh:
                n += 1
            fresh, pend = False, 0
        elif c in CHANGES:
            # colour breaks before anything is sewn or changed are redundant, however many
            if not (n == 0 and breaks and c == R.COLOR_BREAK):
                pend += 1
            if c != R.COLOR_BREAK:
                breaks = False
            fresh = True
            if pend > 1:
                return None
    return n


def threads(ix):
    Th = rt.lib().EmbThread
    return [Th((0xFF0000, 0x0000FF, 0x00FF00)[i], "t%d" % i) for i in ix]


def operands(alpha, n, colors, ends):
    """All designs of <= n commands, with END or not, and all their threadlists."""
    out = []
    for k in range(n + 1):
        for seq in itertools.product(alpha, repeat=k):
            b = blocks(seq)
            if b is None:
                continue
            for ix in itertools.product(colors, repeat=b):
                for e in ends:
                    out.append((seq + ((E,) if e else ()), ix))
    return out


def make(op, name=None):
    seq, ix = op
    p = rt.pattern(seq, threads(ix), {"name": name, name: 1} if name else None)
    if seq:
        p._previousX, p._previousY = seq[-1][0], seq[-1][1]
    return p


INF = {"max_stitch": 1000, "max_jump": 1000}
_sewn = {}


def sewn(p):
    """[(x, y, colour)] of every penetration of the encoding, the changes before each, and the stops before each."""
    enc = p.get_normalized_pattern(dict(INF))
    pts, changes, stops = [], [0], [0]
    k = 0
    for s in enc.stitches:
        c = cmd(s)
        if c == R.STITCH:
            t = enc.threadlist[k] if k < len(enc.threadlist) else None
            pts.append((s[0], s[1], None if t is None or t.description == "Random" else t.color & 0xFFFFFF))
            changes.append(0)
            stops.append(0)
        elif c == R.COLOR_CHANGE:
            k += 1
            changes[-1] += 1
        elif c == R.STOP:
            stops[-1] += 1
    ends = [i for i, s in enumerate(enc.stitches) if cmd(s) == R.END]
    if ends != [len(enc.stitches) - 1]:
        return None
    return pts, changes, stops


def sewn_of(op):
    v = _sewn.get(op)
    if v is None:
        v = _sewn[op] = sewn(make(op))
    return v


def pending(seq):
    """The change after the last penetration (None: there is none)."""
    last = None
    for s in seq:
        if cmd(s) in SEWN:
            last = None
        elif cmd(s) in CHANGES:
            last = cmd(s)
    return last


def expect(ops):
    """The penetrations of a sum, changes between them, stops between them."""
    pts, changes, stops = [], [0], [0]
    for k, op in enumerate(ops):
        p2, c2, s2 = sewn_of(op)
        if not p2:
            stops[-1] += sum(s2)
            continue
        if pts:
            own = sewn_of(op)
            stops[-1] += s2[0]
            stops += s2[1:]
            join = 1 if changes[-1] or pts[-1][2] != own[0][0][2] else 0
            changes[-1] = join
            changes += c2[1:]
            pts = pts + p2
        else:
            stops[-1] += s2[0]
            stops += s2[1:]
            changes = [0] + c2[1:]
            pts = list(p2)
        # a colour change that ends a design is performed
        changes[-1] = 1 if pending(op[0]) in (R.COLOR_CHANGE, R.NEEDLE_SET) else 0
    return pts, changes, stops


def snap(p):
    return [s[:] for s in p.stitches], list(p.threadlist), dict(p.extras), (p._previousX, p._previousY)


def few(op, op2, how):
    """The first design names fewer threads than it has blocks: it sews as it does alone, and the next one still has its own colours."""
    p, q = make(op), make(op2)
    a, b = sewn_of(op), sewn_of(op2)
    if how == "add":
        r = p + q
    elif how == "iadd":
        r = make(op)
        r += q
    else:
        r = make(op)
        r.add_pattern(q)
    got = sewn(r)
    if got is None:
        return "the sum does not end once: %r" % (r.stitches,)
    want = a[0] + b[0]
    if len(got[0]) != len(want) or any(g[:2] != w[:2] or (w[2] is not None and g[2] != w[2]) for g, w in zip(got[0], want)):
        return "sews %r, want %r" % (got[0], want)
    if [x for x in got[1][1:len(a[0])]] != [x for x in a[1][1:len(a[0])]] or got[1][len(a[0]) + 1:-1] != b[1][1:-1]:
        return "changes colour %r, want %r then %r" % (got[1], a[1], b[1])
    return None


def independent(a, b):
    """Changing one of the two leaves the other."""
    for one, two in ((a, b), (b, a)):
        before = snap(two)
        saved = snap(one)
        for s in one.stitches:
            s[0] += 1000
            s[2] = R.STOP
        if one.stitches:
            del one.stitches[0]
        one.stitch_abs(5, 5)
        one.add_thread("black")
        one.metadata("zzz", 1)
        if snap(two) != before:
            return "changing one pattern changed the other: %r became %r" % (before, snap(two))
        one.stitches, one.threadlist, one.extras = saved[0], saved[1], saved[2]
    return None


def judge(ops, how, rec=None):
    L = rt.lib()
    ps = [make(op, "n%d" % k) for k, op in enumerate(ops)]
    before = [snap(p) for p in ps]
    if how == "add":
        r = ps[0] + ps[1]
        for p in ps[2:]:
            r = r + p
    elif how == "radd":
        r = ps[1].__radd__(ps[0])
    elif how == "iadd":
        r = L.EmbPattern(ps[0])
        q = r
        for p in ps[1:]:
            r += p
        if r is not q:
            return "+= made another pattern"
    elif how == "merge":
        r = ps[0].copy()
        for p in ps[1:]:
            r.add_pattern(p)
    elif how == "self":
        ps = ps[:1]
        before = before[:1]
        r = ps[0] + ps[0]
        ops = (ops[0], ops[0])
    elif how == "iself":
        ps, before = [], []
        r = make(ops[0], "n0")
        r += r
        twin = make(ops[0], "n0")
        twin += make(ops[0], "n0")
        if (r.stitches, r.threadlist, r.extras) != (twin.stitches, twin.threadlist, twin.extras):
            return "added to itself it is %r, an equal one added to it %r" % (r.stitches, twin.stitches)
        ops = (ops[0], ops[0])
    for p, b in zip(ps, before):
        if snap(p) != b:
            return "an operand was changed: %r became %r" % (b, snap(p))
    want_extras = {}
    for b in before:
        want_extras.update(b[2])
    if before and r.extras != want_extras:
        return "texts %r, want %r" % (r.extras, want_extras)
    for p in ps:
        msg = independent(r, p)
        if msg is not None:
            return msg
    got = sewn(r)
    want = expect(ops)
    if got is None:
        return "the sum does not end once: %r" % (r.stitches,)
    if got[0] != want[0]:
        return "sews %r, want %r" % (got[0], want[0])
    if got[1][1:-1] != want[1][1:-1]:
        return "changes colour %r, want %r: %r" % (got[1], want[1], r.stitches)
    if sum(got[2]) != sum(want[2]) or got[2][1:-1] != want[2][1:-1]:
        return "stops %r, want %r" % (got[2], want[2])
    if rec is not None:
        rec.outcome(tuple(got[0]))
    return None


def copies(op):
    L = rt.lib()
    for f in (lambda p: p.copy(), copy.copy, copy.deepcopy, L.EmbPattern, lambda p: p + L.EmbPattern(), lambda p: L.EmbPattern() + p):
        p = make(op, "n")
        b = snap(p)
        q = f(p)
        if snap(p) != b:
            return "copying changed the source"
        q2 = f(p)
        ends = bool(op[0]) and op[0][-1] == E
        if q is p or not isinstance(q, L.EmbPattern):
            return "not a copy"
        if f in (copy.copy, copy.deepcopy, L.EmbPattern) or not (op[0] and any(cmd(s) in CHANGES + (R.END,) for s in op[0])):
            if (q.stitches, q.threadlist, q.extras) != (p.stitches, p.threadlist, p.extras):
                return "a copy is %r, its source %r" % (snap(q), b)
            q.stitch(1, 1)
            p2 = make(op, "n")
            p2.stitch(1, 1)
            if q.stitches != p2.stitches:
                return "a copy does not continue where its source does"
        msg = independent(q2, p)
        if msg is not None:
            return msg
    # what is derived from a pattern is a pattern of its own too
    for name, f in (("normalized", lambda p: p.get_normalized_pattern()), ("stable", lambda p: p.get_stable_pattern()), ("merged", lambda p: p.get_pattern_merge_jumps()),
                    ("trimmed", lambda p: p.get_pattern_interpolate_trim(2))):
        p = make(op, "n")
        b = snap(p)
        q = f(p)
        if snap(p) != b:
            return "the %s pattern changed its source" % name
        if q is p or q.extras != p.extras:
            return "the %s pattern has texts %r" % (name, q.extras)
        msg = independent(q, p)
        if msg is not None:
            return "%s: %s" % (name, msg)
    return None


def placed(op, op2, how):
    """A design added with a displacement, a scale or a rotation."""
    p, q = make(op, "n0"), make(op2, "n1")
    b = snap(q)
    base = sewn(p)[0]
    second = sewn(q)[0]
    end = (op[0][-1][0], op[0][-1][1]) if op[0] else (0, 0)
    p.add_pattern(q, **how)
    if snap(q) != b:
        return "the added pattern was changed"
    got = sewn(p)
    if got is None:
        return "no single end"
    want = list(base)
    for x, y, t in second:
        if "dx" in how or "dy" in how:
            x, y = x + (how.get("dx") or 0), y + (how.get("dy") or 0)
        elif "rotate" in how:
            # by quarter turns about the needle position
            dx, dy = x - end[0], y - end[1]
            x, y = {90: (-dy, dx), 180: (-dx, -dy), 270: (dy, -dx)}[how["rotate"] % 360]
            x, y = x + end[0], y + end[1]
        else:
            sx = how.get("sx") if how.get("sx") is not None else how.get("sy")
            sy = how.get("sy") if how.get("sy") is not None else sx
            x, y = (x - end[0]) * sx + end[0], (y - end[1]) * sy + end[1]
        want.append((x, y, t))
    if got[0] and op2 == op:
        r = make(op, "n0")
        r.add_pattern(r, **how)
        twin = make(op, "n0")
        twin.add_pattern(make(op, "n0"), **how)
        own = r.stitches
        got_ = twin.stitches
        if own != got_:
            return "added to itself it is %r, an equal one added to it %r" % (own, got_)
    if len(got[0]) != len(want) or any(abs(a[0] - w[0]) > 1e-6 or abs(a[1] - w[1]) > 1e-6 or a[2] != w[2] for a, w in zip(got[0], want)):
        return "sews %r, want %r" % (got[0], want)
    return None


HOW = [{"dx": 30, "dy": -7}, {"dx": 5}, {"dy": 6}, {"dx": 0, "dy": 11}, {"sx": 2, "sy": 3}, {"sx": 2}, {"sy": -1}, {"rotate": 90}, {"rotate": 180}, {"rotate": -90}, {"rotate": 270}, {"rotate": -180}, {"rotate": 450}]


def continues(op, op2, how):
    """After an addition, relative operations continue from the last location of what was added."""
    p, q = make(op), make(op2)
    last = (q if op2[0] else p)._previousX, (q if op2[0] else p)._previousY
    if op2[0]:
        q.add_command(R.O_MAX_STITCH, 77, 78)
    if how == "add":
        r = p + q
    elif how == "radd":
        r = q.__radd__(p)
    elif how == "iadd":
        r = p
        r += q
    else:
        r = p
        r.add_pattern(q)
    r.stitch(3, -4)
    if r.stitches[-1] != [last[0] + 3, last[1] - 4, R.STITCH]:
        return "the sum continues with %r, the last location is %r" % (r.stitches[-1], last)
    return None


def fromfile(op, op2):
    """A file name is as good as its pattern."""
    L = rt.lib()
    path = os.path.join(os.environ.get("MC_SCRATCH", "."), "c34-%d.csv" % os.getpid())
    q = make(op2, "n1")
    L.write_csv(q, path)
    a, b = make(op, "n0"), make(op, "n0")
    a.add_pattern(path)
    b.add_pattern(L.read_csv(path))
    os.unlink(path)
    if a != b:
        return "adding a file gives %r, adding its pattern %r" % (a.stitches, b.stitches)
    return None


_sp = {}


def space(name, tier):
    k = (name, tier)
    if k not in _sp:
        deep = tier == "thorough"
        _sp[k] = {
            "few": lambda: [(s, ix[:n]) for s, ix in operands(ALPHA, 4 if deep else 3, (0, 1), (0, 1)) for n in range(len(ix)) if ix and ix[n:] == ix[n:n + 1] * (len(ix) - n)],
            "after": lambda: [o for o in operands(ALPHA, 3 if deep else 2, (0, 2), (0, 1)) if o[1]],
            "first": lambda: operands(ALPHA, 4 if deep else 3, (0, 1), (0, 1)),
            "second": lambda: operands(ALPHA, 3, (1, 2) if deep else (0, 1), (0, 1) if deep else (0,)),
            "triple": lambda: operands(SMALL, 3 if deep else 2, (0, 1), (0,)),
            "copy": lambda: operands(ALPHA, 5 if deep else 4, (0,), (0, 1)),
            "place": lambda: [o for o in operands(SMALL, 3, (0,), (0,)) if not o[0] or o[0][-1] in (ST, ST2, J)],
        }[name]()
    return _sp[k]


CHUNK = 64


def bounds(tier):
    return "pairs: %d x %d designs; %d designs that name too few threads x %d designs; triples of %d designs; copies of %d designs; %d placements of %d x %d designs; each with all its threadlists over 2 colours" % (
        len(space("first", tier)), len(space("second", tier)), len(space("few", tier)), len(space("after", tier)), len(space("triple", tier)), len(space("copy", tier)), len(HOW), len(space("place", tier)), len(space("place", tier)))


def shards(tier):
    out = []
    for name in ("first", "triple", "copy", "place", "few"):
        n = len(space(name, tier))
        out += [(name, tier, i, min(i + CHUNK, n)) for i in range(0, n, CHUNK)]
    return out


def run(shard, rec):
    name, tier, a, b = shard
    for op in space(name, tier)[a:b]:
        if name == "copy":
            one(rec, ("copy", op), lambda: copies(op), len(op[0]))
        elif name == "place":
            for op2 in space("place", tier):
                for h in HOW:
                    one(rec, ("place", op, op2, h), lambda: placed(op, op2, h), len(op[0]) + len(op2[0]))
                for h in ("add", "radd", "iadd", "merge"):
                    one(rec, ("continues", op, op2, h), lambda: continues(op, op2, h), len(op[0]) + len(op2[0]))
                if len(op2[0]) <= 1:
                    one(rec, ("file", op, op2), lambda: fromfile(op, op2), len(op[0]) + len(op2[0]))
        elif name == "few":
            for op2 in space("after", tier):
                for how in ("add", "iadd", "merge"):
                    one(rec, ("few", op, op2, how), lambda: few(op, op2, how), len(op[0]) + len(op2[0]))
        elif name == "triple":
            for op2, op3 in itertools.product(space(name, tier), repeat=2):
                how = "iadd" if (len(op2[0]) + len(op3[0])) % 2 else "add"
                one(rec, ("sum", (op, op2, op3), how), lambda: judge((op, op2, op3), how, rec), len(op[0]) + len(op2[0]) + len(op3[0]))
        else:
            for how in ("self", "iself"):
                one(rec, ("sum", (op,), how), lambda: judge((op,), how, rec), len(op[0]))
            for k, op2 in enumerate(space("second", tier)):
                # a sum of two is made by every operator; deep pairs by one of them
                hows = ("add", "radd", "iadd", "merge") if len(op[0]) + len(op2[0]) <= 3 else (("add", "radd", "iadd", "merge")[k % 4],)
                for how in hows:
                    one(rec, ("sum", (op, op2), how), lambda: judge((op, op2), how, rec), len(op[0]) + len(op2[0]))


def one(rec, key, f, n):
    rec.traces += 1
    rec.transitions += n
    rec.state(repr(key[:-1]) if key[0] == "sum" else repr(key))
    if rec.traces == 1:
        rec.sample(key)
    rec.case(f, lambda: list(key))


def tup(o):
    return (tuple(tuple(s) for s in o[0]), tuple(o[1]))


def replay(d):
    if d[0] == "copy":
        return copies(tup(d[1]))
    if d[0] == "place":
        return placed(tup(d[1]), tup(d[2]), d[3])
    if d[0] == "continues":
        return continues(tup(d[1]), tup(d[2]), d[3])
    if d[0] == "few":
        return few(tup(d[1]), tup(d[2]), d[3])
    if d[0] == "file":
        return fromfile(tup(d[1]), tup(d[2]))
    return judge(tuple(tup(o) for o in d[1]), d[2])
