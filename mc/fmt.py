"""Generic exploration of one stitch format.

A spec is a dict:
  ext        extension
  encoder    the encoder settings the writer asks for (what its documentation promises)
  decode     bytes -> [(kind, x, y)] absolute positions, an independent decoder (raises ValueError)
  written    (events, write settings) -> events that the file must contain
  tocmd      record kind -> core command used in matching
  reading    (records, read settings) -> events a reader must give
  alphabet, long, settings, depth
"""
import itertools

from . import refenc as R
from . import rt


def judge(spec, prog, ws, rs):
    p = rt.pattern(prog, rt_threads(spec))
    enc = dict(spec["encoder"])
    enc.update({k: v for k, v in ws.items() if k not in spec.get("own", ())})
    ev, blocks = R.expected(prog, enc)
    data = rt.dump(spec["ext"], p, ws)
    try:
        recs = spec["decode"](data)
    except ValueError as e:
        return "file does not follow the layout: %s" % e
    cmds = spec["tocmd"]
    sts = [(r[1], r[2], cmds[r[0]] if len(r) == 3 else R.encode(cmds[r[0]], None, r[3])) for r in recs]
    want = spec["written"](ev, ws)
    msg = R.match(sts, want, limits=not spec.get("limits_off"), eps=spec.get("eps", 1e-6), slack=2.0, args=spec.get("args", False))
    if msg is not None:
        return "written file: " + msg
    for r in rs:
        back = rt.load(spec["ext"], data, r)
        got = rt.drop(rt.events(back.stitches), spec.get("ignore", ("J",)))
        msg = rt.diff(got, spec["reading"](recs, r), "read-back events")
        if msg is not None:
            return msg
        if "threads" in spec:
            msg = spec["threads"](back, blocks, recs, ev, r)
            if msg is not None:
                return msg
    if "extra" in spec:
        return spec["extra"](p, data, recs, ev, blocks, ws)
    return None


def extents(recs):
    """Bounds over all records (the end stays where the last one was)."""
    xs = [r[1] for r in recs] or [0]
    ys = [r[2] for r in recs] or [0]
    return min(xs), min(ys), max(xs), max(ys)


def last(recs):
    return (recs[-1][1], recs[-1][2]) if recs else (0, 0)


def fields(data, spec, tol=0):
    """spec: [(name, offset, size, signed, byteorder, expected)]; compares header fields."""
    for name, at, size, signed, order, want in spec:
        got = int.from_bytes(data[at:at + size], order, signed=signed)
        if abs(got - want) > tol:
            return "header field %s is %d, the file has %d" % (name, got, want)
    return None


_T = {}


def rt_threads(spec):
    n = spec.get("nthreads", 3)
    if n not in _T:
        E = rt.lib().EmbThread
        cols = [0xFF0000, 0x0000FF, 0x007F00, 0xFFFF00, 0x123456]
        _T[n] = [E(c, "t%d" % i, str(i), *["%s%d" % (w, i) for w in ("details", "brand", "chart", "weight")]) for i, c in enumerate(cols[:n])]
    return _T[n]


def identity_reading(mapping):
    """Reader gives one event per record; mapping kind -> event name, P/Q carry positions, None drops."""

    def reading(recs, rs):
        out = []
        for r in recs:
            k, x, y = r[:3]
            m = mapping[k]
            if m is None:
                continue
            out.append((m, x, y) if m in ("P", "Q") else (m,))
        return out

    return reading


def shards(spec, tier):
    out = []
    for which in ("alphabet", "long"):
        if which in spec:
            d = spec["depth"][tier][0 if which == "alphabet" else 1]
            for n in range(d + 1):
                if n < 3:
                    out.append(("prog", which, n, None))
                else:
                    out += [("prog", which, n, k) for k in range(len(spec[which]))]
    out.sort(key=lambda s: -s[2])
    out += rep_shards(spec, tier)
    return out


def rep_shards(spec, tier):
    big = [] if spec.get("nobig") else [("rep", "big", 0, 0)]
    return big + [("rep", tier, n, k) for n in (1, 2) for k in range(len(spec["alphabet"]))]


def repeated(word, n, drift, limit=None):
    """The word n times over, each repetition displaced by drift (commands that have a place are)."""
    dx, dy = drift
    return [(x + i * dx, y + i * dy, c) for i in range(n) for x, y, c in word]


def most_changes(limit):
    """Repetitions of a word with which a design has no more than limit changes."""

    def most(w):
        n = sum(1 for q in w if q[2] & 0xFF in (R.COLOR_CHANGE, R.COLOR_BREAK, R.NEEDLE_SET, R.STOP, R.FRAME_EJECT))
        return (limit - 1) // n if n else None

    return most


def rep_programs(alpha, tier, n, k, most=None):
    """Long programs: one command many times over (up to 1030; thorough 33000), and each pair 130 (and 258) times."""
    if tier == "big":  # more commands than 16 bits count
        yield repeated(alpha[:2], 32900, (0, 0))
        return
    most = most or (lambda c: None)
    if n == 1:
        words = [(alpha[k],)]
        times = [(t, d) for t in (17, 33, 65, 130, 258, 520, 1030) + ((2050, 4100, 33000) if tier != "quick" else ()) for d in ((0, 0), (2, -1)) if t < 2000 or d == (0, 0)]
    else:
        words = [(alpha[k], b) for b in alpha]
        times = [(130, (0, 0))] if tier == "quick" else [(130, (0, 0)), (130, (-1, 2)), (258, (0, 0))]
    for w in words:
        for t, d in times:
            m = most(w)
            if m is not None and t > m:
                t = m
            yield repeated(w, t, d)


def run(spec, shard, rec):
    if shard[0] == "rep":
        _, tier, n, k = shard
        ws, rs = spec["settings"][0]
        for prog in rep_programs(spec["alphabet"], tier, n, k, spec.get("most")):

            def one():
                rec.transitions += len(prog)
                rec.traces += 1
                rec.state(("rep", len(prog), tuple(prog[:3]), prog[-1]))
                return spec.get("judge", judge)(spec, prog, ws, rs)

            rec.case(one, {"program": prog, "write": ws, "read": rs})
        rec.outcome(shard)
        return
    _, which, n, k = shard
    alpha = spec[which]
    if n == 0:
        seqs = [()]
    else:
        seqs = itertools.product(*([alpha if k is None else [alpha[k]]] + [alpha] * (n - 1)))
    sets = spec["settings"]
    for seq in seqs:
        use = sets if n <= spec.get("full_settings_to", 3) else sets[:spec.get("few", 1)]
        for ws, rs in use:

            def one():
                rec.transitions += len(seq)
                rec.traces += 1
                rec.state((seq, repr(ws)))
                return spec.get("judge", judge)(spec, seq, ws, rs)

            if rec.traces == 0:
                rec.sample({"program": seq, "write": ws, "read": rs})
            rec.case(one, {"program": seq, "write": ws, "read": rs})
        rec.outcome(tuple(s[2] for s in seq))


def bounds(spec, tier):
    d = spec["depth"][tier]
    t = "all programs of <= %d of %d commands x %d settings" % (d[0], len(spec["alphabet"]), len(spec["settings"]))
    if "long" in spec:
        t += "; all programs of <= %d of %d commands" % (d[1], len(spec["long"]))
    t += "; every command up to %d times over, every pair of commands %s times over" % ((1030, "130") if tier == "quick" else (33000, "130 and 258"))
    if not spec.get("nobig"):
        t += "; one program of 65800 stitches"
    return t


def replay(spec, d):
    return judge(spec, [tuple(s) for s in d["program"]], d["write"], d["read"])


def program_alphabet(lim, jump=None):
    """A sharp alphabet around a displacement limit."""
    jump = jump or lim
    return [
        (0, 0, R.STITCH), (7, -3, R.STITCH), (lim, -lim, R.STITCH), (2 * lim + 9, 40, R.STITCH), (-3 * lim - 1, lim + 1, R.STITCH), (-lim, lim, R.STITCH), (0.5, -2.5, R.STITCH),
        (7, -3, R.JUMP), (-3 * jump - 1, 5, R.JUMP), (0, 0, R.JUMP), (0, 0, R.TRIM), (0, 0, R.COLOR_CHANGE), (0, 0, R.STOP), (4, 4, R.SEQUIN_EJECT),
        (0, 0, R.SLOW), (0, 0, R.FAST), (0, 0, R.END), (0, 0, R.COLOR_BREAK), (50, 50, R.FRAME_EJECT), (0, 0, R.NEEDLE_SET), (lim - 1, 1 - lim, R.SEW_TO),
    ]


def long_alphabet(lim):
    return [(0, 0, R.STITCH), (lim, 3, R.STITCH), (2 * lim + 1, -2 * lim - 1, R.STITCH), (0, 0, R.TRIM), (5, -lim - 2, R.JUMP), (0, 0, R.COLOR_CHANGE), (0, 0, R.STOP)]


def displacement_table(ext, lo, hi, dx, want_records, kinds, decode, settings=None, rs=None):
    """Write and read every displacement (dx, lo..hi), there and back; judge bytes by the decoder, and the reader."""
    for kind in kinds:
        prog = [(0, 0, R.STITCH)]
        x = y = 0
        c = R.STITCH if kind == "P" else R.JUMP
        for dy in range(lo, hi + 1):
            for s in (1, -1):
                x += s * dx
                y += s * dy
                prog.append((x, y, c))
                prog.append((x, y, R.STITCH))
        data = rt.dump(ext, rt.pattern(prog), dict({"encode": True}, **(settings or {})))
        recs = [r for r in decode(data) if r[0] in ("P", "J")]
        want = [("P" if q[2] == R.STITCH else "J", q[0], q[1]) for q in prog]
        msg = rt.diff(recs, want, "records")
        if msg is None:
            back = rt.load(ext, data, rs)
            got = [e for e in rt.events(back.stitches) if e[0] in ("P", "J")]
            msg = rt.diff(got, want, "read-back moves")
        if msg is not None:
            return "%s displacements with dx=%d: %s" % (kind, dx, msg)
    return None


def run_disp(rec, shard, fn, lo, hi):
    _, base, step = shard
    for dx in range(base, min(base + step, hi + 1)):

        def one():
            rec.traces += 1
            rec.transitions += 8 * (hi - lo + 1)
            rec.state(("disp", dx))
            return fn(dx)

        rec.case(one, {"disp": dx})
    rec.outcome(shard)
