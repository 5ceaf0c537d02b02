"""DST: layout, exact displacements, round trip."""
import itertools

from .. import codec_dst as D
from .. import fmt
from .. import refenc as R
from .. import rt

PROPERTY = "C12"
LEVEL = "model_checking"
RULE = "case = one stitch program written by the real DST writer, decoded by an independent decoder and read back by the real reader, or one complete set of raw records read by the real reader; distinct_nontrivial = distinct decoded record-kind sequences"
ASSUMPTIONS = ["coordinates within the alphabet; the displacement and record tables are complete", "stops read back as colour changes (the format has one record for both)"]

A, B, CC, DD, EE = (0, 0), (7, -3), (121, -121), (250, 40), (-400, 1)
ALPHA = [A + (R.STITCH,), B + (R.STITCH,), CC + (R.STITCH,), DD + (R.STITCH,), EE + (R.STITCH,), B + (R.JUMP,), (9, 9, R.JUMP), EE + (R.JUMP,), (0, 0, R.TRIM), (0, 0, R.COLOR_CHANGE), (0, 0, R.STOP),
         (3, 3, R.SEQUIN_EJECT), (0, 0, R.SEQUIN_MODE), (0, 0, R.SLOW), (0, 0, R.FAST), (2.5, -0.5, R.STITCH), (0, 0, R.END), (0, 0, R.COLOR_BREAK), (50, 50, R.FRAME_EJECT)]
SET = [({}, {}), ({"trim_at": 2}, {"trim_at": 2}), ({"trim_at": 5, "version": "extended"}, {"trim_at": 5}), ({"trim_at": 8}, {"trim_at": 8, "clipping": False}), ({"trim_at": 4, "explicit_trim": True, "tie_on": True}, {"trim_at": 4})]
LONG = [A + (R.STITCH,), (60, 60, R.STITCH), (200, 0, R.STITCH), (0, 0, R.TRIM), (300, 0, R.JUMP), (0, 0, R.COLOR_CHANGE), (5, 5, R.SEQUIN_EJECT)]
DEPTH = {"quick": (4, 5), "thorough": (5, 7)}
ENCODER = {"round": True, "max_stitch": 121, "max_jump": 121, "full_jump": False, "sequin_contingency": R.SQ_UTILIZE}
NAMES = ["", "A", "Untitled", "sixteen chars ok", "a name of more than sixteen characters", "n\u00e4me", "a:b,c", "x" * 100, "\u4e2d" * 30]


COUNTS = (0, 1, 99, 254, 255, 256, 999, 1000, 9999, 10000, 32767, 32768, 65536, 100000)


def small(shard, tier):
    """(name, arguments) of the cases of the smaller shards."""
    if shard[0] == "extent":
        return [("extent", (shard[1], b, axis, e)) for b in BIG for axis in (0, 1) for e in (True, False)]
    if shard[0] == "many":
        return [("many", (shard[1], c)) for c in (R.STITCH, R.JUMP, R.COLOR_CHANGE, R.STOP)]
    if shard[0] == "trims":
        return [("trims", (n, d)) for n in range(2, 41) for d in (0, 3, -100)]
    if shard[0] == "texts":
        return [("texts", (shard[1], u, n)) for u in ("abcdefghij", "a b", "\u00e9", "\u4e2d", "x\u4e2d\u00e9") for n in range(1, 520)]
    if shard[0] == "ttexts":
        return [("thread_texts", (shard[1], b, c, e)) for b in TEXTS for c in TEXTS for e in ({"version": "extended"}, {"extended header": True}, {"version": "default"}, {"version": "default", "extended header": True}, {"extended header": False}, {})]
    if shard[0] == "lines":
        return [("lines", (o, sep, bad)) for n in range(0, 7) for o in itertools.permutations(("LA", "AU", "CP", "TC", "ST", "XX"), n) for sep in (b"\r", b"\n", b"\r\n") for bad in (False, True)]
    return [("record_seq", ((shard[2],) + r,)) for r in itertools.product(RECS, repeat=shard[1] - 1)]


def bounds(tier):
    d = DEPTH[tier]
    return "all programs of <= %d of %d commands x %d settings; all programs of <= %d of %d commands; all 243x243 displacements as stitch and as jump; all %s raw records; all sequences of up to %d of 9 records x 8 ways to find trims; trims of 2 to 40 jumps; header: all pairs of 13 coordinates, 14 counts x 4 commands, texts of every length to 520 in 5 scripts and 4 places, all triples of 9 thread texts, all orders of 6 header lines x 3 separators" % (
        d[0], len(ALPHA), len(SET), d[1], len(LONG), "2^24", 5 if tier == "quick" else 6)


def shards(tier):
    d = DEPTH[tier]
    out = [("prog", "a", d[0], k) for k in range(len(ALPHA))] + [("prog", "b", d[1], k) for k in range(len(LONG))]
    out += [("rep", tier, n, k) for n in (1, 2) for k in range(len(ALPHA))]
    out += [("prog", "a", n, None) for n in range(d[0])] + [("prog", "b", n, None) for n in range(d[1])]
    out += [("disp", k, dx) for k in ("STITCH", "JUMP") for dx in range(-121, 122, 11)]
    out += [("raw", b2) for b2 in range(0, 256)]
    out += [("meta",)] + [("extent", a) for a in BIG] + [("many", n) for n in COUNTS] + [("texts", k) for k in ("name", "author", "copyright", "thread")] + [("ttexts", a) for a in TEXTS] + [("lines",), ("trims",)]
    out += [("recs", n, r) for n in range(1, 6 if tier == "quick" else 7) for r in RECS]
    return out


def expected_records(prog, ws):
    """What the file must contain, from the reference encoder's events: penetrations etc. with absolute positions."""
    st = dict(ENCODER)
    st.update({k: v for k, v in ws.items() if k in ("explicit_trim", "tie_on", "tie_off")})
    st["writes_speeds"] = False
    return R.expected(prog, st)[0]


def walk(records):
    x = y = 0
    out = []
    for k, dx, dy in records:
        x += dx
        y += dy
        out.append((k, x, y))
    return out


def near(a, b):
    return abs(a - b) <= 0.5 + 1e-6


def judge(prog, ws, rs):
    p = rt.pattern(prog)
    data = rt.dump("dst", p, ws)
    recs = D.records(data)
    trim_at = ws.get("trim_at", 3)
    # 1. the file says what the reference encoder says
    ev = expected_records(prog, ws)
    pos = walk(recs)
    i = 0
    sequin = False
    msg = None
    for k, e in enumerate(ev):
        if e[0] in ("P", "J", "Q"):
            want = {"P": ("STITCH",), "J": ("JUMP",), "Q": ("JUMP",)}[e[0]]
            while i < len(pos) and not (pos[i][0] in want and near(pos[i][1], e[1]) and near(pos[i][2], e[2]) and (e[0] == "P" or sequin == (e[0] == "Q"))):
                if pos[i][0] not in ("JUMP", "STITCH") or (pos[i][0] == "JUMP" and sequin) or (pos[i][0] == "STITCH" and e[0] != "Q"):
                    return "event %r not in file: record %d is %r of %r" % (e, i, pos[i], pos)
                i += 1
            if i >= len(pos):
                return "event %r not in file %r" % (e, pos)
            i += 1
        elif e[0] == "T":
            if sequin:
                return "trim in sequin mode: %r" % (pos,)
            seq = recs[i:i + trim_at]
            if len(seq) != trim_at or any(r[0] != "JUMP" for r in seq) or sum(r[1] for r in seq) or sum(r[2] for r in seq):
                return "trim is not %d jumps returning to their start: %r of %r" % (trim_at, seq, recs)
            i += trim_at
        elif e[0] == "L":
            for q in range(4):
                if recs[i][0] != "STITCH":
                    return "tie stitch missing in %r" % (recs,)
                i += 1
        else:
            want = {"S": "CHANGE", "C": "CHANGE", "E": "END", "M": "SEQUIN_MODE"}[e[0]]
            if i >= len(recs) or recs[i][0] != want or (recs[i][1], recs[i][2]) != (0, 0):
                return "event %r: record %d of %r" % (e, i, recs)
            if want == "SEQUIN_MODE":
                sequin = not sequin
            i += 1
    if i != len(recs):
        return "records after the last event: %r" % (recs[i:],)
    # 2. reading gives the same events; trims where at least trim_at jumps follow each other uncut
    back = rt.load("dst", data, rs)
    got = rt.drop(rt.events(back.stitches), ("J", "M"))
    want = []
    uncut = False
    jumps = 0
    mark = 0
    need = rs.get("trim_at", 3)
    sequin = False
    for k, x, y in pos:
        if k == "JUMP" and not sequin:
            if jumps == 0:
                mark = len(want)
            jumps += 1
            if uncut and jumps == need:
                want.insert(mark, ("T",))
                uncut = False
            continue
        if k == "SEQUIN_MODE":
            sequin = not sequin
            jumps = 0
            continue
        jumps = 0
        if k == "STITCH":
            want.append(("P", x, y))
            uncut = True
        elif k == "JUMP":
            want.append(("Q", x, y))
            uncut = True
        elif k == "CHANGE":
            want.append(("C",))
            uncut = False
        elif k == "END":
            want.append(("E",))
    msg = rt.diff(got, want, "read-back events")
    if msg is None:
        # 3. the header agrees with the stitches
        h = D.header(data)
        enc = p.get_normalized_pattern(dict(ENCODER, **{k: v for k, v in ws.items() if k not in ("trim_at", "version")}))
        fx, fy = pos[-1][1], pos[-1][2]
        if int(h["CO"][0]) != sum(1 for e in ev if e[0] == "C"):
            msg = "header colour changes %r" % (h["CO"],)
        else:
            for key, v in (("AX", fx), ("AY", -fy)):
                s = h[key][0]
                if abs(int(s.replace(" ", "")) - v) > 1:
                    msg = "header %s %r for end position %r" % (key, s, v)
            xs = [a for _, a, _ in pos]
            ys = [a for _, _, a in pos]
            for key, v in (("+X", max(xs)), ("-X", -min(xs)), ("+Y", max(ys)), ("-Y", -min(ys))):
                if v >= 0 and all(r[0] != "JUMP" for r in recs) and abs(abs(float(h[key][0])) - v) > 1:
                    msg = "header %s %r for extent %r" % (key, h[key], v)
    return msg


def meta(name, author, copy, threads):
    E = rt.lib().EmbThread
    th = [E(c, d, n) for c, d, n in threads]
    p = rt.pattern([(0, 0, 0), (10, 10, 0), (0, 0, 5), (5, 5, 0)], th, {"name": name})
    if author is not None:
        p.metadata("author", author)
    if copy is not None:
        p.metadata("copyright", copy)
    for ver in ("default", "extended"):
        data = rt.dump("dst", p, {"version": ver})
        recs = D.records(data)
        if [r[0] for r in recs] != ["STITCH", "STITCH", "CHANGE", "STITCH", "END"]:
            return "metadata %r disturbs the stitches: %r" % ((name, author, copy), recs)
        q = rt.load("dst", data)
        fits = len(name.encode("utf8")) <= 100
        if fits and (q.get_metadata("name") or "") != name:
            return "name %r reads back as %r" % (name, q.get_metadata("name"))
        if ver == "extended" and fits and len(threads) <= 3:
            for k, v in (("author", author), ("copyright", copy)):
                if q.get_metadata(k) != v:
                    return "%s %r reads back as %r" % (k, v, q.get_metadata(k))
            got = [(t.color & 0xFFFFFF, t.description, t.catalog_number) for t in q.threadlist]
            if got != list(threads[:2]) and len(threads) >= 2:
                return "threads %r read back as %r" % (threads, got)
    return None


def fixed_header(h, enc):
    """The fixed fields against the commands written, to the character."""
    st = enc.stitches
    xs, ys = [v[0] for v in st] or [0], [v[1] for v in st] or [0]
    ax, ay = (int(st[-1][0]), -int(st[-1][1])) if st else (0, 0)
    want = {"ST": "%7d" % len(st), "CO": "%3d" % sum(1 for v in st if v[2] & 0xFF == R.COLOR_CHANGE),
            "+X": "%5d" % abs(max(xs)), "-X": "%5d" % abs(min(xs)), "+Y": "%5d" % abs(max(ys)), "-Y": "%5d" % abs(min(ys)),
            "AX": "%s%5d" % ("-" if ax < 0 else "+", abs(ax)), "AY": "%s%5d" % ("-" if ay < 0 else "+", abs(ay)), "MX": "+    0", "MY": "+    0", "PD": "******"}
    if list(h)[:12] != ["LA"] + list(want):
        return "header fields in the order %r" % (list(h),)
    for k, v in want.items():
        if h.get(k) != [v]:
            return "header %s is %r, must be %r" % (k, h.get(k), v)
    return None


BIG = (-99000, -40000, -32769, -400, -1, -0.4, 0, 0.6, 1, 40, 399, 32768, 70001)


def extent(a, b, axis, encode):
    """Two stitches far apart: every header field is true."""
    pts = [(a, 7), (b, -3)] if axis == 0 else [(7, a), (-3, b)]
    p = rt.pattern([pts[0] + (R.STITCH,), pts[1] + (R.STITCH,), pts[1] + (R.COLOR_CHANGE,), (pts[1][0], pts[1][1], R.STITCH)])
    enc = p.get_normalized_pattern(dict(ENCODER, round=encode))
    data = rt.dump("dst", p if encode else enc, {} if encode else {"encode": False})
    return fixed_header(D.header(data), enc)


def many(n, cmd):
    p = rt.pattern([(0, 0, R.STITCH)] + [(0, 0, cmd)] * n + [(3, 4, R.STITCH), (3, 4, R.END)])
    data = rt.dump("dst", p, {"encode": False})
    k = D.records(data)
    kind = {R.STITCH: "STITCH", R.JUMP: "JUMP", R.COLOR_CHANGE: "CHANGE", R.STOP: "CHANGE"}[cmd]
    if [r[0] for r in k] != ["STITCH"] + [kind] * n + ["STITCH", "END"]:
        return "%d times %s: %d records" % (n, kind, len(k))
    return fixed_header(D.header(data), p)


def trims(n, d):
    """A trim is n jumps that return to where they began; reading finds it with that number, and not with a larger one."""
    prog = ((1, 2, R.STITCH), (1 + d, 2, R.STITCH), (1 + d, 2, R.TRIM), (9, 40, R.STITCH), (9, 40, R.TRIM), (9, 40, R.COLOR_CHANGE), (9, 41, R.STITCH))
    return judge(prog, {"trim_at": n}, {"trim_at": n}) or judge(prog, {"trim_at": n, "explicit_trim": True}, {"trim_at": n + 1, "clipping": False})


def texts(kind, unit, n):
    """Texts of every length around the size of the header: whole or left out, never more than 512 bytes."""
    E = rt.lib().EmbThread
    text = (unit * n)[:n].strip() or "a"
    p = rt.pattern([(0, 0, 0), (10, 10, 0), (10, 10, R.END)], [E(0x112233, "after", "7")], {})
    name = "n"
    if kind == "name":
        p.metadata("name", text)
        name = text
        while len(name.encode("utf8")) > 256:
            name = name[:-1]
    else:
        p.metadata("name", "n")
        if kind == "thread":
            p.threadlist.insert(0, E(0x445566, text, "8"))
        elif kind == "copyright":
            p.metadata("author", "me")
            p.metadata("copyright", text)
        else:
            p.metadata("author", text)
    data = rt.dump("dst", p, {"encode": False, "version": "extended"})
    end = data.find(b"\x1a")
    if not 0 < end < 512 or data[end + 1:512].strip(b" ") or not data[:end].endswith(b"\r"):
        return "the header is not 512 bytes ending in 1A and blanks: %r" % (data[:520],)
    if [r[0] for r in D.records(data)] != ["STITCH", "STITCH", "END"]:
        return "the stitches are disturbed"
    h = D.header(data)
    msg = fixed_header(h, p)
    if msg:
        return msg
    q = rt.load("dst", data)
    if q.get_metadata("name") != name.strip():
        return "name %r reads back as %r" % (name, q.get_metadata("name"))
    # what must be there: each optional line, in order, if it fits
    used = 3 + len(("%-16s" % name).encode("utf8")) + 1
    used += sum(len(k) for k in ("ST:1234567\r", "CO:123\r", "+X:12345\r", "-X:12345\r", "+Y:12345\r", "-Y:12345\r", "AX:+12345\r", "AY:+12345\r", "MX:+12345\r", "MY:+12345\r", "PD:******\r"))
    want = {"author": None, "copyright": None, "threads": []}
    for what, line in [(k, {"author": "AU", "copyright": "CP"}[k] + ":%s\r" % p.get_metadata(k)) for k in ("author", "copyright") if p.get_metadata(k) is not None] + [
            (t, "TC:%s,%s,%s\r" % (t.hex_color(), t.description, t.catalog_number)) for t in p.threadlist]:
        m = len(line.encode("utf8"))
        if used + m < 512:
            used += m
            if isinstance(what, str):
                want[what] = p.get_metadata(what)
            else:
                want["threads"].append((what.color & 0xFFFFFF, what.description, what.catalog_number))
    got = {"author": q.get_metadata("author"), "copyright": q.get_metadata("copyright"), "threads": [(t.color & 0xFFFFFF, t.description, t.catalog_number) for t in q.threadlist]}
    if got != want:
        return "texts of %d characters %r: read back %r, wants %r" % (n, unit, got, want)
    return None


TEXTS = ["", "a", "two words", "double  blank", "tab\there", "colon: x", "\u00e4", "- dash", "#1"]


def thread_texts(a, b, c, ext):
    """Descriptions and catalogue numbers of three threads, whatever they are, by both ways to ask for them."""
    E = rt.lib().EmbThread
    th = [E(0x112233, a, b), E(0x00FF00, b, c), E(0xABCDEF, c, a)]
    p = rt.pattern([(0, 0, 0), (10, 10, 0), (10, 10, R.END)], th, {"name": a or "n"})
    q = rt.load("dst", rt.dump("dst", p, dict(ext, encode=False)))
    got = [(t.color & 0xFFFFFF, t.description, t.catalog_number) for t in q.threadlist]
    if ext.get("version") != "extended" and not ext.get("extended header"):
        return "threads %r without an extended header" % (got,) if got else None
    want = [(t.color & 0xFFFFFF, t.description, t.catalog_number) for t in th]
    if got != want or q.get_metadata("name") != (a or "n"):
        return "threads %r read back as %r, name %r as %r" % (want, got, a or "n", q.get_metadata("name"))
    return None


def lines(order, sep, bad):
    """Reading: header lines in any order, separated by CR or LF or both; lines that are no text are skipped."""
    fields = {"LA": b"LA:my name", "AU": b"AU:an author", "CP": b"CP:right", "TC": b"TC:#123456,red,5", "ST": b"ST:     12", "XX": b"XX:\xff\xfe\xc0"}
    out = b""
    for k in order:
        if k != "XX" or bad:
            out += fields[k] + sep
    out += b"\x1a"
    q = rt.load("dst", out.ljust(512, b" ") + D.to_record(3, 4, "STITCH") + D.to_record(0, 0, "END"))
    got = (q.get_metadata("name"), q.get_metadata("author"), q.get_metadata("copyright"), q.get_metadata("ST"), [(t.color & 0xFFFFFF, t.description, t.catalog_number) for t in q.threadlist], [tuple(v) for v in q.stitches])
    want = ("my name" if "LA" in order else None, "an author" if "AU" in order else None, "right" if "CP" in order else None, "12" if "ST" in order else None,
            [(0x123456, "red", "5")] if "TC" in order else [], [(3, 4, R.STITCH), (3, 4, R.END)])
    return None if got == want else "header lines %r separated by %r: read as %r" % (order, sep, got)


RECS = [(3, 4, "STITCH"), (-121, 7, "STITCH"), (5, -6, "JUMP"), (0, 0, "JUMP"), (0, 0, "CHANGE"), (2, 1, "CHANGE"), (0, 0, "SEQUIN_MODE"), (-8, 9, "SEQUIN_MODE"), (0, 0, "END")]
CODE = {"STITCH": R.STITCH, "JUMP": R.JUMP, "CHANGE": R.COLOR_CHANGE, "SEQUIN_MODE": R.SEQUIN_MODE}
TRIMS = [{}, {"trim_at": 1}, {"trim_at": 2, "clipping": False}, {"trim_at": 4, "trim_distance": 1.0}, {"trim_at": None, "trim_distance": 0.5}, {"trim_at": None, "trim_distance": 0}, {"trim_at": None}, {"trim_distance": 2, "clipping": False}]


def record_seq(seq):
    """Any sequence of records: each is read for what it is, and trims are interpolated as asked."""
    data = b" " * 512 + b"".join(D.to_record(*r) for r in seq)
    want, x, y, mode = [], 0, 0, False
    for dx, dy, k in seq:
        if k == "END":
            break
        x, y = x + dx, y + dy
        want.append((x, y, R.SEQUIN_EJECT if mode and k == "JUMP" else CODE[k]))
        mode ^= k == "SEQUIN_MODE"
    want.append((x, y, R.END))
    got = [tuple(v) for v in rt.load("dst", data, {"clipping": False, "trim_at": 10 ** 9}).stitches]
    if got != want:
        return "records %r: read as %r, are %r" % (seq, got, want)
    for s in TRIMS:
        p = rt.pattern(want)
        d = s.get("trim_distance")
        p.interpolate_trims(s.get("trim_at", 3), None if d is None else d * 10, s.get("clipping", True))
        q = rt.load("dst", data, dict(s))
        if [tuple(v) for v in q.stitches] != [tuple(v) for v in p.stitches]:
            return "records %r read with %r: %r, wants %r" % (seq, s, q.stitches, p.stitches)
    return None


def raw(b2):
    k = D.kind(b2)
    if k == "END":
        body = bytes([0, 0, b2])
        q = rt.load("dst", b" " * 512 + body, {"clipping": False, "trim_at": 10 ** 9})
        return rt.diff(rt.events(q.stitches), [("E",)])
    body = bytearray()
    for b0 in range(256):
        for b1 in range(256):
            body += bytes((b0, b1, b2))
    q = rt.load("dst", b" " * 512 + bytes(body), {"clipping": False, "trim_at": 10 ** 9})
    x = y = 0
    i = 0
    mode = False
    # digit sums are separable by byte
    c0 = [D.delta((b, 0, 0)) for b in range(256)]
    c1 = [D.delta((0, b, 0)) for b in range(256)]
    c2 = D.delta((0, 0, b2))
    sts = q.stitches
    if len(sts) != 65537:
        return "b2=%02x: %d commands for 65536 records" % (b2, len(sts))
    for b0 in range(256):
        for b1 in range(256):
            x += c0[b0][0] + c1[b1][0] + c2[0]
            y += c0[b0][1] + c1[b1][1] + c2[1]
            s = sts[i]
            if k == "SEQUIN_MODE":
                want = R.SEQUIN_MODE
            else:
                want = {"JUMP": R.JUMP, "STITCH": R.STITCH, "CHANGE": R.COLOR_CHANGE}[k]
            if s[0] != x or s[1] != y or s[2] != want:
                return "record %02x %02x %02x reads as %r, want (%d, %d, %d)" % (b0, b1, b2, s, x, y, want)
            i += 1
    return None


def disp(kind, dx):
    prog = []
    x = y = 0
    c = R.STITCH if kind == "STITCH" else R.JUMP
    prog.append((0, 0, R.STITCH))
    for dy in range(-121, 122):
        x += dx
        y += dy
        prog.append((x, y, c))
        prog.append((x, y, R.STITCH))
        x -= dx
        y -= dy
        prog.append((x, y, c))
        prog.append((x, y, R.STITCH))
    p = rt.pattern(prog)
    data = rt.dump("dst", p)
    want = []
    px = py = 0
    body = b""
    for sx, sy, sc in prog:
        body += D.to_record(sx - px, sy - py, "JUMP" if sc == R.JUMP else "STITCH")
        px, py = sx, sy
    body += D.to_record(0, 0, "END")
    if data[512:] != body:
        for i in range(0, len(body), 3):
            if data[512 + i:515 + i] != body[i:i + 3]:
                return "record %d is %r, must be %r for %s %r" % (i // 3, data[512 + i:515 + i], body[i:i + 3], kind, prog[i // 3])
        return "stitch data too long"
    q = rt.load("dst", data, {"clipping": False})
    got = [tuple(s) for s in q.stitches]
    return rt.diff(got, prog + [(0, 0, R.END)], "commands")


def run(shard, rec):
    if shard[0] == "rep":
        _, tier, n, k = shard
        for ws, rs in SET[:1]:
            for prog in fmt.rep_programs(ALPHA, tier, n, k):

                def one():
                    rec.transitions += len(prog)
                    rec.traces += 1
                    rec.state(("rep", len(prog), tuple(prog[:3]), prog[-1]))
                    return judge(prog, ws, rs)

                rec.case(one, {"program": prog, "write": ws, "read": rs})
        rec.outcome(shard)
    elif shard[0] in ("extent", "many", "texts", "ttexts", "lines", "recs", "trims"):
        for name, args in small(shard, rec.tier):

            def one():
                rec.transitions += 1
                rec.traces += 1
                rec.state((name, repr(args)))
                return globals()[name](*args)

            rec.case(one, {"case": [name, [a.decode() if isinstance(a, bytes) else a for a in args]]})
        rec.outcome(shard)
    elif shard[0] == "prog":
        _, which, n, k = shard
        alpha = ALPHA if which == "a" else LONG
        sets = SET if which == "a" else SET[:2]
        if n == 0:
            seqs = [()]
        else:
            heads = alpha if k is None else [alpha[k]]
            seqs = itertools.product(heads, *([alpha] * (n - 1)))
        for seq in seqs:
            sel = sets if len(seq) < 4 or which == "b" else sets[:1] + sets[2:3]
            for ws, rs in sel:

                def one():
                    rec.transitions += len(seq)
                    rec.traces += 1
                    msg = judge(seq, ws, rs)
                    rec.state((seq, repr(ws)))
                    return msg

                if rec.traces == 0:
                    rec.sample({"program": seq, "write": ws, "read": rs})
                rec.case(one, {"program": seq, "write": ws, "read": rs})
            rec.outcome(tuple(s[2] for s in seq))
    elif shard[0] == "disp":
        _, kind, base = shard
        for dx in range(base, min(base + 11, 122)):

            def one():
                rec.traces += 1
                rec.transitions += 4 * 243
                rec.state((kind, dx))
                return disp(kind, dx)

            rec.case(one, {"disp": (kind, dx)})
        rec.outcome(shard)
    elif shard[0] == "raw":

        def one():
            rec.traces += 1
            rec.transitions += 65536
            rec.state(("raw", shard[1]))
            return raw(shard[1])

        rec.case(one, {"raw": shard[1]})
        rec.outcome(shard)
    else:
        T2 = [(0x112233, "red one", "12"), (0xFFFFFE, "x", "y")]
        for name in NAMES + ["y" * 700]:
            for author in (None, "me", "\u00e4\u00f6"):
                for copy in (None, "c 2024"):
                    for th in ([], T2, [(i * 1000, "thread number %d" % i, str(i)) for i in range(40)]):

                        def one():
                            rec.traces += 1
                            rec.transitions += 2
                            rec.state((name, author, copy, len(th)))
                            return meta(name, author, copy, th)

                        rec.case(one, {"meta": (name, author, copy, th)})
                        rec.outcome((len(name), author, copy, len(th)))


def replay(d):
    if "case" in d:
        name, args = d["case"]
        if name == "lines":
            args = [tuple(args[0]), args[1].encode(), args[2]]
        if name == "record_seq":
            args = [[tuple(r) for r in args[0]]]
        return globals()[name](*args)
    if "disp" in d:
        return disp(*d["disp"])
    if "raw" in d:
        return raw(d["raw"])
    if "meta" in d:
        n, a, c, t = d["meta"]
        return meta(n, a, c, [tuple(x) for x in t])
    return judge([tuple(s) for s in d["program"]], d["write"], d["read"])
