"""PEC and PES (v1, v6, truncated): layout, displacements, colours and stops, graphics, metadata, round trip."""
import itertools
import math

from .. import codec_pec
from .. import fmt
from .. import refenc as R
from .. import rt

PROPERTY = "C15"
LEVEL = "model_checking"
RULE = "case = one stitch program written by the real PEC or PES writer (v1, v6, truncated v1 and v6), parsed by an independent parser, compared with the encoded program and read back by the real reader, or one block of displacements or raw records, or one set of texts, or one sequence of threads; distinct_nontrivial = distinct command sequences"
ASSUMPTIONS = ["stops are written as changes to the same thread, and changes to the same thread are read as stops", "every jump after the first penetration is written, and read, as a cut and a jump; explicit trims are not written",
               "where a travel ends without a stitch a stitch in place may be added", "at most 64 different colours"]
ENC = {"round": True, "full_jump": True, "max_stitch": 2047, "max_jump": 2047, "sequin_contingency": R.SQ_JUMP}
KINDS = [("pec", None), ("pes", 1), ("pes", 6), ("pes", "1t"), ("pes", "6t")]


def blank():
    from pyembroidery.PecGraphics import get_blank
    return bytes(get_blank())


def near(v, w):
    return abs(v - w) <= (1e-9 if v == int(v) else 0.5 + 1e-6)


def tokens(enc, nothreads):
    out = []
    jumping = True
    sewn = False
    px = py = 0
    for k, s in enumerate(enc):
        x, y, c = s[0], s[1], s[2] & 0xFF
        if c == R.STITCH:
            if jumping and (x, y) != (px, py):
                out.append(("?", px, py))
            out.append(("P", x, y))
            jumping = False
            sewn = True
        elif c == R.JUMP:
            out.append(("TJ" if sewn else "J" if k == 0 else "J/TJ", x, y))
            jumping = True
        elif c == R.COLOR_CHANGE or (c == R.STOP and not nothreads):
            if jumping:
                out.append(("?", x, y))
            out.append(("C", x, y))
            jumping = False
            sewn = True
        px, py = x, y
    return out


def compare(recs, toks):
    i = 0
    for t in toks:
        r = recs[i] if i < len(recs) else None
        ok = r is not None and near(t[1], r[1]) and near(t[2], r[2])
        if t[0] == "?":
            if ok and r[0] == "P":
                i += 1
            continue
        if not ok or r[0] not in t[0].split("/"):
            return "record %d is %r, wants %r; file has %r" % (i, r, t, recs)
        i += 1
    if i != len(recs):
        return "records %r after the design" % (recs[i:],)
    return None


def key(t):
    return (t.color & 0xFFFFFF, t.description, t.catalog_number, t.brand, t.chart)


def expected_threads(enc):
    """Thread of every colour block of the file (stops repeat the thread)."""
    tl = [None if t.description == "Random" else t for t in enc.threadlist]  # filler threads have any colour
    if not tl:
        return []
    out = [tl[0]]
    k = 0
    for s in enc.stitches:
        c = s[2] & 0xFF
        if c == R.COLOR_CHANGE:
            k += 1
            out.append(tl[k] if k < len(tl) else None)
        elif c == R.STOP:
            out.append(out[-1])
    return out + tl[k + 1:]


def judge(spec, prog, ws, rs):
    kind, version = ws["kind"]
    p = rt.pattern(prog, [] if ws.get("bare") else fmt.rt_threads(spec))
    opts = {k: v for k, v in ws.items() if k not in ("kind", "bare")}
    enc = p.get_normalized_pattern(dict(ENC, **opts))
    if version is not None:
        opts["version"] = version
    data = rt.dump(kind, p, opts)
    try:
        if kind == "pec":
            if data[:8] != b"#PEC0001":
                return "magic %r" % data[:8]
            pec = codec_pec.pec(data, 8)
            if pec["end"] != len(data):
                return "data after the graphics"
            pes = None
        else:
            pes = codec_pec.pes(data)
            pec = pes["pec"]
            if pes["magic"] != (b"#PES0060" if "6" in str(version) else b"#PES0001"):
                return "magic %r" % pes["magic"]
    except ValueError as e:
        return "file does not follow the layout: %s" % e
    threads = expected_threads(enc)
    msg = compare(pec["recs"], tokens(enc.stitches, not threads))
    if msg is None:
        msg = colours(pec["colors"], threads)
    if msg is None:
        msg = size(pec, enc)
    if msg is None and spec.get("graphics"):
        msg = graphics(pec, enc)
    if msg is None and pes is not None:
        msg = pes_part(pes, enc, threads, version)
    if msg is not None:
        return msg
    for r in rs:
        back = rt.load(kind, data, r)
        msg = readback(back, pec, pes)
        if msg is not None:
            return msg
    return None


def colours(indices, threads):
    if len(indices) != len(threads):
        return "%d colours in the file for %d blocks" % (len(indices), len(threads))
    if any(not 0 < k <= 64 for k in indices):
        return "colour indices %r" % (indices,)
    # Filler threads that are None here have a random colour.
    for (i, a), (j, b) in itertools.combinations(list(enumerate(threads)), 2):
        if a is None or b is None:
            continue
        if (indices[i] == indices[j]) != (a.color & 0xFFFFFF == b.color & 0xFFFFFF):
            return "blocks %d and %d: colours %06x %06x, indices %r" % (i, j, a.color, b.color, indices)
    from pyembroidery.EmbThreadPec import get_thread_set
    pal = [None if t is None else t.color & 0xFFFFFF for t in get_thread_set()]
    exact = all(t is not None and t.color & 0xFFFFFF in pal for t in threads)
    for k, t in zip(indices, threads):
        if exact and pal[k] != t.color & 0xFFFFFF:
            return "palette colour %06x written as %06x" % (t.color, pal[k])
    return None


def bound(enc):
    xs = [s[0] for s in enc.stitches]
    ys = [s[1] for s in enc.stitches]
    return min(xs), min(ys), max(xs), max(ys)


def size(pec, enc):
    x0, y0, x1, y1 = bound(enc)
    if abs(pec["size"][0] - (x1 - x0)) > 0.5001 or abs(pec["size"][1] - (y1 - y0)) > 0.5001:
        return "size %r for %r" % (pec["size"], (x1 - x0, y1 - y0))
    return None


def graphics(pec, enc):
    """The icons: a frame, and a dot for each penetration of the design (of one block)."""
    frame = blank()
    ext = bound(enc)
    blocks = [[]]
    for s in enc.stitches:
        c = s[2] & 0xFF
        if c == R.STITCH:
            blocks[-1].append(s)
        elif c in (R.COLOR_CHANGE, R.STOP):
            blocks.append([])
    all_ = [s for b in blocks for s in b]
    for k, g in enumerate(pec["graphics"]):
        pts = all_ if k == 0 else blocks[k - 1] if k <= len(blocks) else []
        if pec["stride"] != 6 or len(g) != len(frame):
            return "graphic size"
        h = len(g) // 6
        margin = 4 if k == 0 else 5
        w, hh = (ext[2] - ext[0]) or 1, (ext[3] - ext[1]) or 1
        sc = min((48 - margin) / float(w), (h - margin) / float(hh))
        must, may = set(), set()
        for s in pts:
            ch = []
            for v, lo, hi, n in ((s[0], ext[0], ext[2], 48), (s[1], ext[1], ext[3], h)):
                q = v * sc - (lo + hi) / 2.0 * sc + n / 2.0
                ch.append({math.floor(q - 1e-6), math.floor(q + 1e-6)})
            cells = set(itertools.product(*ch))
            if len(cells) == 1:
                must |= cells
            may |= cells
        for y in range(h):
            for x in range(48):
                at = 6 * y + x // 8
                bit = g[at] >> x % 8 & 1
                fr = frame[at] >> x % 8 & 1
                if bit and not fr and (x, y) not in may:
                    return "graphic %d has a dot at %r" % (k, (x, y))
                if not bit and (fr or (x, y) in must):
                    return "graphic %d lacks a dot at %r" % (k, (x, y))
    return None


def pes_part(pes, enc, threads, version):
    x0, y0, x1, y1 = bound(enc)
    if "chart" in pes:
        want = [None if t is None else key(t) for t in threads]
        if len(pes["chart"]) != len(want) or any(w is not None and w != g for w, g in zip(want, pes["chart"])):
            return "threads %r in the header, blocks have %r" % (pes["chart"], want)
    if "tail" in pes:
        n = len(pes["pec"]["colors"])
        if "t" in str(version):
            tail = b"\xff" + b" " * 127
        else:
            tail = bytes([n - 1] + pes["pec"]["colors"] if n else []).ljust(128, b" ") + b"\0" * 0x90 * n + b"".join(c[0].to_bytes(3, "little") for c in pes["chart"])
        if pes["tail"] != tail + b"\0\0":
            return "colour addendum %r, wants %r" % (pes["tail"][:160], tail[:160])
    if "t" in str(version):
        return "no design section expected" if "segments" in pes else None
    if abs(pes["width"] - (x1 - x0)) > 1 or abs(pes["height"] - (y1 - y0)) > 1:
        return "design size %r" % ((pes["width"], pes["height"]),)
    # the sections carry the penetrations of each block, and the travels between them
    want = []
    block = 0
    pos = (0, 0)
    last = None
    for s in enc.stitches:
        c = s[2] & 0xFF
        if c == R.STITCH:
            if last != "P":
                want.append((0, block, []))
            want[-1][2].append((s[0], s[1]))
            pos = (s[0], s[1])
            last = "P"
        elif c == R.JUMP:
            if last != "J":
                want.append((1, block, [pos, None]))
            want[-1][2][1] = (s[0], s[1])
            last = "J"
        else:
            last = None
            if c == R.COLOR_CHANGE or (c == R.STOP and threads):
                block += 1
    from pyembroidery.EmbThreadPec import get_thread_set
    pal = [None if t is None else t.color & 0xFFFFFF for t in get_thread_set()]
    got = pes["segments"]
    if len(got) != len(want):
        return "%d sections, wants %d: %r, %r" % (len(got), len(want), got, want)
    for (f, c, pts), (wf, wb, wpts) in zip(got, want):
        if f != wf or len(pts) != len(wpts) or any(abs(a[0] + x0 - b[0]) > 1 or abs(a[1] + y1 - b[1]) > 1 for a, b in zip(pts, wpts)):
            return "section %r, wants %r" % ((f, c, [(a[0] + x0, a[1] + y1) for a in pts]), (wf, wb, wpts))
        t = threads[wb] if wb < len(threads) else None
        if t is None:
            continue
        if "chart" in pes:
            if not c < len(pes["chart"]) or pes["chart"][c][0] != t.color & 0xFFFFFF:
                return "section colour %d is not that of block %d" % (c, wb)
        elif t.color & 0xFFFFFF in pal and pal[c] != t.color & 0xFFFFFF:
            return "section colour %06x for %06x" % (pal[c], t.color)
    return None


def readback(back, pec, pes):
    from pyembroidery.EmbThreadPec import get_thread_set
    pal = get_thread_set()
    if pes is not None and "chart" in pes:
        ids = list(pes["chart"])
    else:
        ids = [key(pal[k]) for k in pec["colors"]]
    k = 0
    want = []
    out = ids[:1]
    for r in pec["recs"]:
        if r[0] == "P":
            want.append(("P", r[1], r[2]))
        elif r[0] == "C":
            if k + 1 < len(ids) and ids[k] == ids[k + 1]:
                want.append(("S",))
                k += 1
            else:
                want.append(("C",))
                k += 1
                out += ids[k:k + 1]
        else:
            if r[0] == "TJ":
                want.append(("T",))
            want.append(("J", r[1], r[2]))
    want.append(("E",))
    out += ids[k + 1:]
    msg = rt.diff(rt.events(back.stitches), want, "read-back events")
    if msg is None:
        msg = rt.diff([key(t) for t in back.threadlist], out, "read-back threads")
    return msg


SPEC = {
    "most": fmt.most_changes(254),
    "judge": judge, "nthreads": 3, "graphics": True,
    "alphabet": fmt.program_alphabet(2047), "long": [(0, 0, R.STITCH), (63, -64, R.STITCH), (2048, 7, R.STITCH), (40, -2050, R.JUMP), (0, 0, R.COLOR_CHANGE), (0, 0, R.STOP), (0, 0, R.TRIM)],
    "settings": [({"kind": k}, [None]) for k in KINDS] +
                [({"kind": k, "explicit_trim": True, "tie_on": True, "tie_off": True}, [None]) for k in KINDS[:3]] +
                [({"kind": k, "sequin_contingency": R.SQ_STITCH, "long_stitch_contingency": R.LONG_SEW, "bare": True}, [None]) for k in KINDS[:3]],
    "depth": {"quick": (3, 5), "thorough": (4, 6)}, "few": 3, "full_settings_to": 2,
}
TEXTS = [None, "a", "01234567", "012345678", "x" * 300, u"\u00e9" * 8, u"\u20ac" * 8, u"\u00e9" * 200, "two words", " in "]
FIELDS = ("name", "category", "author", "keywords", "comments")
TCOL = [(0xFF0000, "red", "1"), (0xFF0000, None, None), (0xFE0000, None, None), (0x0E1F7C, "a", "2"), (0x000000, u"\u00e9", None)]


def bounds(tier):
    return fmt.bounds(SPEC, tier) + "; all displacements |d| <= 70 squared, all +-2047 on each axis, as stitch and jump; all raw 7 and 12 bit values with all flags; all texts; all sequences of %d threads and stops up to %d; headers of 14 versions x 0..6 threads x 5 palettes x 10 sets of missing texts; icons of 2 to 130 blocks x 5 ways to part them; %d ways to ask for a version; icons of 1 to 12 bytes a row as text" % (
        len(TCOL), 4 if tier == "quick" else 5, len(FORMS))


def shards(tier):
    out = fmt.shards(SPEC, tier)
    out += [("disp", d, 16) for d in range(-70, 71, 16)] + [("far", i) for i in range(len(FAR))] + [("raw", k) for k in range(14)]
    out += [("text", i) for i in range(len(TEXTS))] + [("threads", k, 4 if tier == "quick" else 5) for k in range(len(TCOL))]
    out += [("version", m.decode()) for m in LAYOUT] + [("many",), ("forms",), ("icon",)]
    return out


FAR = [-2047, -64, -63, 0, 62, 63, 2047]


def wrecs(data):
    return [("P" if r[0] == "P" else "J",) + r[1:] for r in codec_pec.pec(data, 8)["recs"]]


def disp(dx):
    return fmt.displacement_table("pec", -70, 70, dx, None, ("P", "J"), wrecs)


def far(i):
    d = FAR[i]
    msg = fmt.displacement_table("pec", -2047, 2047, d, None, ("P", "J"), wrecs)
    if msg is not None:
        return msg
    for kind in ("P", "J"):
        c = R.STITCH if kind == "P" else R.JUMP
        prog = [(0, 0, R.STITCH)]
        x = y = 0
        for dx in range(-2047, 2048):
            for s in (1, -1):
                x += s * dx
                y += s * d
                prog.append((x, y, c))
                prog.append((x, y, R.STITCH))
        data = rt.dump("pec", rt.pattern(prog), {"encode": True})
        want = [("P" if q[2] == R.STITCH else "J", q[0], q[1]) for q in prog]
        msg = rt.diff(wrecs(data), want, "records")
        if msg is None:
            msg = rt.diff([e for e in rt.events(rt.load("pec", data).stitches) if e[0] in "PJ"], want, "read-back moves")
        if msg is not None:
            return msg
    return None


def raw(part):
    """Raw records: every 7-bit value and every 12-bit value with every flag, in both positions."""
    body = bytearray()
    want = []
    x = y = 0

    def add(vx, vy, fx, fy):
        nonlocal x, y
        f = 0
        for v, fl in ((vx, fx), (vy, fy)):
            if fl is None:
                body.append(v & 0x7F)
            else:
                body.extend(((0x80 | fl | (v >> 8 & 0xF)), v & 0xFF))
                f |= fl
        x += vx
        y += vy
        if f & 0x10:
            want.append((x, y, R.JUMP))
        elif f & 0x20:
            want.append((x - vx, y - vy, R.TRIM))
            want.append((x, y, R.JUMP))
        else:
            want.append((x, y, R.STITCH))

    if part == 0:
        for a in range(-64, 64):
            for b in range(-64, 64):
                add(a, b, None, None)
    else:
        fx, fy = [(None, 0), (0, None), (0, 0), (0x10, 0x10), (0x20, 0x20), (0x10, None), (None, 0x20), (None, 0x10), (0x20, None), (0, 0x10), (0x10, 0), (0, 0x20), (0x20, 0)][part - 1]
        for a in range(-2048, 2048):
            b = (a * 37 + 5) % 4096 - 2048
            add(a if fx is not None else (a & 0x7F) - 64, b if fy is not None else (b & 0x7F) - 64, fx, fy)
            if part == 3 and a % 64 == 0:
                body.extend(b"\xfe\xb0\x02")
                want.append((x, y, R.COLOR_CHANGE))
    want.append((x, y, R.END))
    head = b"#PEC0001LA:%-16s\r" % b"raw" + b" " * 12 + b"\xff\x00\x06\x26" + b" " * 12 + b"\x00\x05" + b" " * 462
    block = b"\x31\xff\xf0" + b"\0" * 8 + bytes(body) + b"\xff"
    data = head + b"\0\0" + (len(block) + 5).to_bytes(3, "little") + block + b"\0" * 228 * 2
    q = rt.load("pec", data)
    if len(q.threadlist) != 1:
        return "%d threads" % len(q.threadlist)
    return rt.diff([tuple(s) for s in q.stitches], want, "commands")


def cut(s, n):
    while len(s.encode("utf8")) > n:
        s = s[:-1]
    return s


def text(i, j, kind):
    name, other = TEXTS[i], TEXTS[j]
    extras = {}
    if name is not None:
        extras["name"] = name
    if other is not None:
        for k in FIELDS[1:]:
            extras[k] = other
    prog = [(0, 0, R.STITCH), (5, 5, R.STITCH), (5, 5, R.COLOR_CHANGE), (9, 9, R.STITCH)]
    E = rt.lib().EmbThread
    threads = [E(0xFF0000, "red" if other is None else other, "1" if name is None else name), E(0x0000FF, None, None)]
    threads[0].brand = other
    threads[1].chart = name
    data = rt.dump(kind[0], rt.pattern(prog, threads, extras), None if kind[1] is None else {"version": kind[1]})
    try:
        pes = None if kind[0] == "pec" else codec_pec.pes(data)
        pec = codec_pec.pec(data, 8) if pes is None else pes["pec"]
    except ValueError as e:
        return "file does not follow the layout: %s" % e
    label = pec["label"].decode("utf8").rstrip()
    full = "Untitled" if name is None else name
    if not full.startswith(label) or len(label) < min(len(cut(full, 8).rstrip()), 8):
        return "label %r for name %r" % (label, full)
    if pes is not None and "meta" in pes:
        for k, v in zip(FIELDS, pes["meta"]):
            w = extras.get(k)
            w = None if w is None else cut(w, 255)
            if v != w:
                return "%s %r written as %r" % (k, w, v)
        want = [(0xFF0000, threads[0].description, threads[0].catalog_number, threads[0].brand, None), (0x0000FF, None, None, None, threads[1].chart)]
        want = [(w[0],) + tuple(None if s is None else cut(s, 255) for s in w[1:]) for w in want]
        if pes["chart"] != want:
            return "threads %r written as %r" % (want, pes["chart"])
    back = rt.load(kind[0], data)
    if back.extras.get("Name") != label.strip():
        return "label %r read back as %r" % (label, back.extras.get("Name"))
    if pes is not None and "meta" in pes:
        for k in FIELDS:
            w = extras.get(k)
            if back.extras.get(k) != (None if w is None else cut(w, 255)):
                return "%s %r read back as %r" % (k, w, back.extras.get(k))
    return readback(back, pec, pes)


def threads(seq, kind):
    E = rt.lib().EmbThread
    prog = [(0, 0, R.STITCH)]
    tl = [E(*TCOL[seq[0]])]
    for k, c in enumerate(seq[1:]):
        if c is None:
            prog.append((k, k, R.STOP))
        else:
            prog.append((k, k, R.COLOR_CHANGE))
            tl.append(E(*TCOL[c]))
        prog.append((k + 1, k + 1, R.STITCH))
    p = rt.pattern(prog, tl)
    enc = p.get_normalized_pattern(ENC)
    data = rt.dump(kind[0], p, None if kind[1] is None else {"version": kind[1]})
    try:
        pes = None if kind[0] == "pec" else codec_pec.pes(data)
        pec = codec_pec.pec(data, 8) if pes is None else pes["pec"]
    except ValueError as e:
        return "file does not follow the layout: %s" % e
    exp = expected_threads(enc)
    msg = colours(pec["colors"], exp)
    if msg is None and pes is not None:
        msg = pes_part(pes, enc, exp, kind[1])
    if msg is None:
        msg = readback(rt.load(kind[0], data), pec, pes)
    if msg is not None:
        return msg
    if kind[1] == 6 or kind[1] == "6t":
        # no loss at all in version 6
        back = rt.load(kind[0], data)
        changes = [q[0] for q in rt.events(back.stitches) if q[0] in "CS"]
        want = ["S" if c is None or c == prev else "C" for prev, c in zip(filled(seq), seq[1:])]
        if changes != want:
            return "changes and stops %r read back as %r" % (want, changes)
    return None


# version: (value read, bytes skipped before each of the strings that follow the five texts, their names, bytes after them)
LAYOUT = {b"#PES0001": (1, None), b"#PES0020": (2, None), b"#PES0022": (2.2, None), b"#PES0030": (3, None), b"#PES0040": (4, ()),
          b"#PES0050": (5, ((24, "image"),), 24), b"#PES0055": (5.5, ((24, "image"),), 24), b"#PES0056": (5.6, ((24, "image"),), 24), b"#PES0060": (6, ((36, "image_file"),), 24),
          b"#PES0070": (7, ((36, "image_file"),), 24), b"#PES0080": (8, ((38, "image_file"),), 26), b"#PES0090": (9, ((14, "hoop_name"), (30, "image_file")), 34),
          b"#PES0100": (10, ((14, "hoop_name"), (38, "image_file")), 34), b"#PES0777": (None, None)}


def version(magic, nthreads, palette, empty, complicated):
    """The header of any version of PES is read from its places: texts from version 4, threads from version 5."""
    lay = LAYOUT[magic]

    def string(t):
        t = t.encode("utf8")
        return bytes([len(t)]) + t

    def item(k, t):
        return "" if empty >> k & 1 else t

    want = {} if lay[0] is None else {"version": lay[0]}
    head = b""
    chart = []
    if lay[1] is not None:
        head += b"\x01\0" + b"02"
        for k, name in enumerate(FIELDS):
            t = item(k, "%s \u00e9%d" % (name, k))
            head += string(t)
            if t:
                want[name] = t
        for k, (n, name) in enumerate(lay[1]):
            t = item(5 + k, "file %d" % k)
            head += bytes((7 * j + 1) & 0xFF for j in range(n)) + string(t)
            if t:
                want[name] = t
        if len(lay) > 2:
            head += bytes((5 * j + 1) & 0xFF for j in range(lay[2]))
            head += b"".join(bytes([1 if complicated == k else 0, 0]) for k in range(3))
            head += nthreads.to_bytes(2, "little")
            for k in range(nthreads):
                t = [item(k + j, "%s%d" % (w, k)) for j, w in enumerate(("cat", "desc", "brand", "chart"))]
                rgb = 0x112233 + 0x1F0E05 * k & 0xFFFFFF
                head += string(t[0]) + rgb.to_bytes(3, "big") + b"\0\x0a\0\0\0" + b"".join(string(q) for q in t[1:])
                chart.append((rgb, t[1] or None, t[0] or None, t[2] or None, t[3] or None))
            if complicated in (0, 1, 2):
                chart = []
    head += b"\0" * 6
    n = len(palette)
    stitches = b"\x05\x04" + b"".join(b"\xfe\xb0\x02\x03\x02" for _ in palette[1:]) + b"\xff"
    block = b"\x31\xff\xf0" + b"\0" * 8 + stitches
    pec = b"LA:%-16s\r" % b"label" + b" " * 12 + b"\xff\x00\x06\x26" + b" " * 12 + bytes([n - 1]) + bytes(palette) + b" " * (463 - n)
    pec += b"\0\0" + (len(block) + 5).to_bytes(3, "little") + block + b"".join(bytes([k]) * 228 for k in range(n + 1))
    data = magic + (12 + len(head)).to_bytes(4, "little") + head + pec
    q = rt.load("pes", data)
    own = [codec_pec_palette(k) for k in palette]
    if not chart:
        ths = own
    elif len(chart) >= n:
        ths = chart
    else:
        table, left = {}, list(chart)
        for k, o in zip(palette, own):
            if k not in table:
                table[k] = left.pop(0) if left else o
        ths = [table[k] for k in palette]
    # a change to the same thread is a stop
    tl, events = list(ths[:1]), [(5, 4, R.STITCH)]
    x, y = 5, 4
    for k in range(1, n):
        if ths[k] == tl[-1]:
            events.append((x, y, R.STOP))
        else:
            events.append((x, y, R.COLOR_CHANGE))
            tl.append(ths[k])
        x, y = x + 3, y + 2
        events.append((x, y, R.STITCH))
    events.append((x, y, R.END))
    tl += ths[n:]
    got = {k: v for k, v in q.extras.items() if not k.startswith("pec_graphic")}
    want["Name"] = "label"
    if got != want:
        return "%r: texts read as %r, are %r" % (magic, got, want)
    if [key(t) for t in q.threadlist] != tl:
        return "%r: threads read as %r, are %r" % (magic, [key(t) for t in q.threadlist], tl)
    for k in range(n + 1):
        g = q.extras.get("pec_graphic_%d" % k)
        if g is not None and (None if g[2] is None else key(g[2])) != ([None] + ths)[k]:
            return "%r: graphic %d is that of %r" % (magic, k, g[2])
        if g is None or bytes(g[0]) != bytes([k]) * 228 or g[1] != 6:
            return "%r: graphic %d is %r" % (magic, k, g and g[:2])
    return rt.diff([tuple(v) for v in q.stitches], events, "commands")


def codec_pec_palette(k):
    from pyembroidery.EmbThreadPec import get_thread_set
    return key(get_thread_set()[k])


PALETTES = ([1], [1, 2], [5, 9, 5], [7, 7, 3], [1, 2, 3, 1, 2])


def filled(seq):
    out = []
    for c in seq:
        out.append(out[-1] if c is None else c)
    return out


def many(n, sep, kind):
    """Designs of many blocks, each at a place of its own: every icon shows its own block, the first shows all."""
    prog = []
    for k in range(n):
        x, y = 40 * (k % 16), 60 * (k // 16)
        if k:
            prog.append((x, y, (R.COLOR_BREAK, R.TRIM, R.JUMP, R.COLOR_CHANGE)[sep if sep < 4 else k % 3]))
        prog += [(x, y, R.STITCH), (x + 9, y + 7, R.STITCH)]
    return judge(dict(SPEC, nthreads=n if sep in (0, 3) else 3), prog, {"kind": kind, "full_jump": True}, [None])


FORMS = [({"version": 1}, 1), ({"version": 1.0}, 1), ({"version": "1"}, 1), ({"version": "1.0"}, 1), ({"pes version": 1}, 1), ({}, 1), (None, 1), ({"truncated": False}, 1),
         ({"version": 6}, 6), ({"version": 6.0}, 6), ({"version": "6"}, 6), ({"version": "6.0"}, 6), ({"pes version": 6}, 6), ({"pes version": "6"}, 6), ({"pes version": 1, "version": 6}, 6), ({"version": 6, "truncated": False}, 6),
         ({"version": "1t"}, "1t"), ({"truncated": True}, "1t"), ({"version": 1, "truncated": True}, "1t"), ({"pes version": "1t"}, "1t"), ({"version": "1", "truncated": True}, "1t"),
         ({"version": "6t"}, "6t"), ({"version": 6, "truncated": True}, "6t"), ({"version": "6", "truncated": True}, "6t"), ({"version": "6t", "truncated": False}, "6t"), ({"pes version": "6t"}, "6t")]


def icon(stride, rows, k):
    """An icon as text: a row of characters per row of bits, the lowest bit of a byte leftmost."""
    n = stride * rows
    show = rt.lib().get_graphic_as_string
    fills = [bytearray((j * 37 + k) & 0xFF for j in range(n)), bytearray(1 << (k & 7) if j == k * 5 % max(1, n) else 0 for j in range(n)), bytearray(b"\xff" * n)]
    for data in fills:
        for one, zero in (("#", " "), ("1", "0")):
            want = "\n".join("".join(one if data[y * stride + x // 8] >> x % 8 & 1 else zero for x in range(8 * stride)) for y in range(rows))
            forms = [(bytearray(data), stride, None), (list(data), stride, None)] + ([list(data), bytearray(data)] if stride == 6 else [])
            for f in forms:
                got = show(f) if one == "#" else show(f, one, zero)
                if got != want:
                    return "icon %r of %d bytes a row shown as %r" % (bytes(data), stride, got)
    return None


def forms(i, k):
    """Every way to ask for a version gives the same file."""
    prog = [(), ((0, 0, R.STITCH), (5, 5, R.STITCH)), ((0, 0, R.STITCH), (5, 5, R.COLOR_CHANGE), (9, 9, R.STITCH), (9, 9, R.STOP), (1, 2, R.STITCH))][k]
    mk = lambda: rt.pattern(prog, fmt.rt_threads(SPEC), {"name": "n", "author": "a"})
    ws, v = FORMS[i]
    if rt.dump("pes", mk(), None if ws is None else dict(ws)) != rt.dump("pes", mk(), {"version": v}):
        return "settings %r do not give version %r" % (ws, v)
    return None


def run(shard, rec):
    if shard[0] == "many":
        for n in (2, 3, 17, 33, 64, 130):
            for sep in range(5):
                for kind in KINDS[:3]:
                    rec.traces += 1
                    rec.transitions += 3 * n
                    rec.state(("many", n, sep, kind))
                    rec.case(lambda: many(n, sep, kind), {"many": [n, sep, list(kind)]})
    elif shard[0] == "icon":
        for stride in range(1, 13):
            for rows in (0, 1, 2, 6, 8, 38, 60):
                for k in range(8):
                    rec.traces += 1
                    rec.transitions += stride * rows
                    rec.state(("icon", stride, rows, k))
                    rec.case(lambda: icon(stride, rows, k), {"icon": [stride, rows, k]})
    elif shard[0] == "forms":
        for i in range(len(FORMS)):
            for k in range(3):
                rec.traces += 1
                rec.transitions += 2
                rec.state(("forms", i, k))
                rec.case(lambda: forms(i, k), {"forms": [i, k]})
    elif shard[0] in ("prog", "rep"):
        fmt.run(SPEC, shard, rec)
    elif shard[0] == "disp":
        fmt.run_disp(rec, shard, disp, -70, 70)
    elif shard[0] in ("far", "raw"):

        def one():
            rec.traces += 1
            rec.transitions += 32760
            rec.state(shard)
            return (far if shard[0] == "far" else raw)(shard[1])

        rec.case(one, {shard[0]: shard[1]})
    elif shard[0] == "version":
        m = shard[1].encode()
        for n, pal, empty, c in itertools.product(range(7), range(len(PALETTES)), (0, 0x7F, 1, 2, 4, 8, 16, 32, 64, 0x55) if LAYOUT[m][1] is not None else (0,), (None, 0, 1, 2)):
            rec.traces += 1
            rec.transitions += 1
            rec.state((m, n, pal, empty, c))
            rec.case(lambda: version(m, n, PALETTES[pal], empty, c), {"version": [shard[1], n, PALETTES[pal], empty, c]})
        rec.outcome(shard)
    elif shard[0] == "text":
        for j in range(len(TEXTS)):
            for kind in KINDS:
                rec.traces += 1
                rec.transitions += 4
                rec.state(("text", shard[1], j, kind))
                rec.case(lambda: text(shard[1], j, kind), {"text": [shard[1], j, list(kind)]})
    else:
        for n in range(shard[2]):
            for tail in itertools.product(list(range(len(TCOL))) + [None], repeat=n):
                seq = [shard[1]] + list(tail)
                for kind in KINDS:
                    rec.traces += 1
                    rec.transitions += 2 * len(seq)
                    rec.state(("threads", tuple(seq), kind))
                    rec.case(lambda: threads(seq, kind), {"threads": [seq, list(kind)]})


def replay(d):
    if "version" in d:
        return version(d["version"][0].encode(), *d["version"][1:])
    if "many" in d:
        return many(d["many"][0], d["many"][1], tuple(d["many"][2]))
    if "icon" in d:
        return icon(*d["icon"])
    if "forms" in d:
        return forms(*d["forms"])
    if "disp" in d:
        return disp(d["disp"])
    if "far" in d:
        return far(d["far"])
    if "raw" in d:
        return raw(d["raw"])
    if "text" in d:
        return text(*d["text"])
    if "threads" in d:
        return threads(*d["threads"])
    return judge(SPEC, [tuple(s) for s in d["program"]], dict(d["write"], kind=tuple(d["write"]["kind"])), d["read"])
