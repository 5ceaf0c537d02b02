"""TBF (Tajima barudan file): layout, header, exact displacements, needles, threads, round trip."""
import itertools

from .. import fmt
from .. import refenc as R
from .. import rt

PROPERTY = "C19"
LEVEL = "model_checking"
RULE = "case = one stitch program written by the real TBF writer, decoded by an independent decoder, matched with the reference encoder and read back by the real reader, or one block of raw records, or one set of texts and threads; distinct_nontrivial = distinct command sequences"
ASSUMPTIONS = ["needles 1..254, at most 72 threads, at most 256 needle changes", "a jump without displacement may be left out"]


def s8(b):
    return b - 256 if b > 127 else b


def field(data, at, tag, size):
    n = len(tag)
    if data[at:at + n] != tag or data[at + n + size] != 13:
        raise ValueError("header field %r: %r" % (tag, data[at:at + n + size + 1]))
    return data[at + n:at + n + size]


def parse(data):
    if len(data) < 0x600 or data[:4] != b"3.00":
        raise ValueError("short header")
    h = {}
    at = 0x80
    for tag, size in ((b"LA:", 16), (b"ST:", 7), (b"CO:", 3), (b"+X:", 5), (b"-X:", 5), (b"+Y:", 5), (b"-Y:", 5), (b"AX:", 6), (b"AY:", 6), (b"TP:", 32), (b"JC:", 1), (b"DO:", 256)):
        h[tag] = field(data, at, tag, size)
        at += len(tag) + size + 1
    if data[at:at + 3] != b"DA:":
        raise ValueError("no thread list")
    at += 3
    cols = []
    while data[at] == 0x45:
        cols.append(int.from_bytes(data[at + 1:at + 4], "big"))
        at += 5
    if at > 0x376:
        raise ValueError("the thread list is too long")
    order = list(h[b"DO:"])
    out = []
    x = y = 0
    i = 0x600
    n = 0
    while True:
        if i + 2 >= len(data):
            raise ValueError("no end record")
        dx, dy, c = s8(data[i]), -s8(data[i + 1]), data[i + 2]
        i += 3
        x += dx
        y += dy
        if c in (0x80, 0x90):
            if c == 0x90 and (dx, dy) == (0, 0):
                out.append(("T", x, y))
            else:
                out.append(("P" if c == 0x80 else "J", x, y))
            continue
        if (dx, dy) != (0, 0):
            raise ValueError("displacement in command %02x" % c)
        if c == 0x86:
            out.append(("T", x, y))
        elif c == 0x40:
            out.append(("S", x, y))
        elif c == 0x81:
            out.append(("C", x, y, order[n]))
            n += 1
        elif c == 0x8F:
            break
        else:
            raise ValueError("command %02x" % c)
    if any(order[n:]):
        raise ValueError("thread order has %d entries too many" % sum(1 for q in order[n:] if q))
    if data[i:] != b"\x1a":
        raise ValueError("data after the end record")
    return out, h, cols


def decode(data):
    return parse(data)[0]


def written(ev, ws):
    """A jump that does not move is not written (the record means a trim)."""
    out = []
    x = y = 0
    for e in ev:
        if e[0] == "E":
            continue
        if e[0] in ("J", "P", "Q", "L"):
            if (e[0] == "J" or (e[0] == "Q" and e[3] == "jump")) and (round(e[1]), round(e[2])) == (round(x), round(y)):
                continue
            x, y = e[1], e[2]
        out.append(e)
    return out


def reading(recs, rs):
    return fmt.identity_reading({"P": "P", "J": None, "T": "T", "C": "C", "S": "S"})(recs, rs) + [("E",)]


def check_threads(back, blocks, recs, ev, rs):
    got = [R.decode(s[2])[2] for s in back.stitches if s[2] & 0xFF == R.NEEDLE_SET]
    want = [r[3] for r in recs if r[0] == "C"]
    if got != want:
        return "needles %r read back as %r" % (want, got)
    cols = [t.color & 0xFFFFFF for t in back.threadlist]
    want = [t.color for t in fmt.rt_threads(SPEC)]
    return None if cols == want else "threads %r read back as %r" % (want, cols)


def header(p, data, recs, ev, blocks, ws):
    msg = header1(data, recs, recs, ev)
    if msg is not None and any(e[0] in ("J", "Q") for e in ev):
        # a jump at the origin that was left out still belongs to the design
        msg = header1(data, recs, [("J", 0, 0)] + recs, ev)
    return msg


def header1(data, recs, extent, ev):
    h = parse(data)[1]
    zero = sum(1 for e in ev if e[0] in ("J", "Q"))
    x0, y0, x1, y1 = fmt.extents(extent)
    lx, ly = fmt.last(recs)
    n = (len(data) - 0x600) // 3
    want = {b"CO:": (sum(1 for r in recs if r[0] == "C"), 0), b"+X:": (abs(x1), 1), b"-X:": (abs(x0), 1), b"+Y:": (abs(y1), 1), b"-Y:": (abs(y0), 1), b"AX:": (lx, 1), b"AY:": (-ly, 1)}
    for k, (w, tol) in want.items():
        if abs(int(h[k].replace(b" ", b"")) - w) > tol:
            return "header field %r is %r, the file has %d" % (k, h[k], w)
    if not n <= int(h[b"ST:"]) <= n + zero:
        return "header says %r stitches for %d records" % (h[b"ST:"], n)
    return None


SPEC = {
    "most": fmt.most_changes(255),
    "ext": "tbf",
    "encoder": {"round": True, "full_jump": False, "max_stitch": 127, "max_jump": 127, "sequin_contingency": R.SQ_JUMP, "writes_speeds": False,
                "thread_change_command": R.NEEDLE_SET, "explicit_trim": True},
    "decode": decode, "written": written, "reading": reading, "threads": check_threads, "extra": header,
    "tocmd": {"P": R.STITCH, "J": R.JUMP, "T": R.TRIM, "C": R.NEEDLE_SET, "S": R.STOP}, "args": "needle",
    "alphabet": [q for q in fmt.program_alphabet(127) if q[2] != R.NEEDLE_SET] + [(0, 0, R.encode(R.NEEDLE_SET, None, 3)), (0, 0, R.encode(R.NEEDLE_SET, 1, 15))],
    "long": fmt.long_alphabet(127),
    "settings": [({}, [None]), ({"explicit_trim": False, "tie_on": True, "tie_off": True, "needle_count": 7}, [None]),
                 ({"sequin_contingency": R.SQ_STITCH, "long_stitch_contingency": R.LONG_SEW, "needle_count": 2}, [None])],
    "depth": {"quick": (4, 5), "thorough": (4, 7)}, "few": 1,
}
TEXTS = [None, "", "a", "0123456789abcde", "0123456789abcdef", "0123456789abcdefg", "x" * 40, "\u00e9" * 15, "a\u00e9" * 8, "caf\u00e9 caf\u00e9 caf\u00e9", "two  words"]


def bounds(tier):
    return fmt.bounds(SPEC, tier) + "; all 255x255 displacements as stitch and jump; all raw records; ct0 files for all sequences of needle changes up to the depth and for up to 250; %d names x %d machine texts x 0..72 threads; %d end positions" % (len(TEXTS), len(TEXTS), len(FAR) ** 2)


def shards(tier):
    return fmt.shards(SPEC, tier) + [("disp", d, 16) for d in range(-127, 128, 16)] + [("raw",), ("ct0",)] + [("text", i) for i in range(len(TEXTS))] + [("far", a) for a in FAR]


def disp(dx):
    # leave the record without displacement out: as a jump it means a trim
    lo = 1 if dx == 0 else -127
    return fmt.displacement_table("tbf", lo, 127, dx, None, ("P", "J"), decode)


def raw():
    body = bytearray()
    want = []
    x = y = 0
    for a in range(256):
        for b in range(256):
            x += s8(a)
            y -= s8(b)
            body += bytes((a, b, 0x80))
            want.append((x, y, R.STITCH, None))
            body += bytes((a, b, 0x90))
            if a or b:
                x += s8(a)
                y -= s8(b)
                want.append((x, y, R.JUMP, None))
            else:
                want.append((x, y, R.TRIM, None))
            if b == 9:
                body += b"\0\0\x86"
                want.append((x, y, R.TRIM, None))
                body += b"\0\0\x40"
                want.append((x, y, R.STOP, None))
                body += b"\0\0\x81"
                want.append((x, y, R.NEEDLE_SET, a if a < 255 else 1) if a else (x, y, R.STOP, None))
    want.append((x, y, R.END, None))
    head = bytearray(b" " * 0x600)
    head[0x10A:0x20A] = bytes(range(255)) + b"\1"
    head[0x20E:0x213] = b"\x45\x12\x34\x56 "
    q = rt.load("tbf", bytes(head) + bytes(body) + b"\0\0\x8f\x1a")
    if [t.color & 0xFFFFFF for t in q.threadlist] != [0x123456]:
        return "threads %r" % (q.threadlist,)
    return rt.diff([(s[0], s[1], s[2] & 0xFF, R.decode(s[2])[2] if s[2] & 0xFF == R.NEEDLE_SET else None) for s in q.stitches], want, "commands")


def cut(s, n):
    while len(s.encode("utf8")) > n:
        s = s[:-1]
    return s


def text(i, j, n):
    E = rt.lib().EmbThread
    cols = [(0x030507 * (k + 1)) & 0xFFFFFF for k in range(n)]
    prog = []
    for k in range(n):
        prog.append((0, 0, R.COLOR_BREAK))
        prog.append((k, k, R.STITCH))
    extras = {}
    if TEXTS[i] is not None:
        extras["name"] = TEXTS[i]
    if TEXTS[j] is not None:
        extras["tp"] = TEXTS[j]
    data = rt.dump("tbf", rt.pattern(prog, [E(c) for c in cols], extras))
    recs, h, got = parse(data)
    if got != cols:
        return "threads %r in the file for %r" % (got, cols)
    needles = [k % 5 + 1 for k in range(n)]  # five needles by default
    if [r[3] for r in recs if r[0] == "C"] != needles:
        return "needles %r" % (recs,)
    name = "Untitled" if TEXTS[i] is None else TEXTS[i]
    if h[b"LA:"].decode("utf8").strip() != cut(name, 16).strip():
        return "name %r written as %r" % (name, h[b"LA:"])
    back = rt.load("tbf", data)
    if back.extras.get("name") != cut(name, 16).strip():
        return "name %r read back as %r" % (name, back.extras.get("name"))
    if [t.color & 0xFFFFFF for t in back.threadlist] != cols:
        return "threads %r read back as %r" % (cols, back.threadlist)
    if [R.decode(s[2])[2] for s in back.stitches if s[2] & 0xFF == R.NEEDLE_SET] != needles:
        return "needles read back wrongly"
    return None


FAR = (0, 1, -1, 999, -1000, 9999, -9999, 10000, -10000, 32768, -32769, 65536, 99999, -99999)


def far(ax, ay):
    """a design that ends far away, and one that reaches there and comes back"""
    for tail in ((), ((0, 0, R.STITCH),)):
        p = rt.pattern([(0, 0, R.STITCH), (1, 1, R.STITCH), (ax, ay, R.STITCH)] + list(tail), [rt.lib().EmbThread(0xFF0000)])
        data = rt.dump("tbf", p)
        recs, h, got = parse(data)
        xs = [r[1] for r in recs]
        ys = [r[2] for r in recs]
        lx, ly = recs[-1][1:3]
        for k, w in ((b"+X:", abs(max(xs))), (b"-X:", abs(min(xs))), (b"+Y:", abs(max(ys))), (b"-Y:", abs(min(ys))), (b"AX:", lx), (b"AY:", -ly)):
            if int(h[k].replace(b" ", b"")) != w:
                return "header field %r is %r for %d" % (k, h[k], w)
        if (lx, ly) != ((0, 0) if tail else (ax, ay)):
            return "the design ends at %r, not %r" % ((lx, ly), (ax, ay))
        back = rt.load("tbf", data)
        msg = rt.diff([tuple(s[:2]) for s in back.stitches if s[2] == R.STITCH], [(0, 0), (1, 1), (ax, ay)] + [t[:2] for t in tail], "penetrations")
        if msg:
            return msg
    return None


def ct0(seq, ncount):
    """The companion file asked for lists the needles in order, and the design is written as without it."""
    import os
    import tempfile

    E = rt.lib().EmbThread
    prog = []
    for k, n in enumerate(seq):
        prog += [(k, 0, R.encode(R.NEEDLE_SET, None, n) if n else R.COLOR_BREAK), (k, k, R.STITCH), (k, -k, R.STITCH)]
    mk = lambda: rt.pattern(prog, [E((0x030507 * (k + 1)) & 0xFFFFFF) for k in range(min(60, len(seq) + 1))], {"name": "n"})
    d = tempfile.mkdtemp(prefix="ct0")
    path = os.path.join(d, "x.ct0")
    try:
        data = rt.dump("tbf", mk(), {"ct0": path, "needle_count": ncount})
        with open(path, "rb") as f:
            side = f.read()
    finally:
        if os.path.exists(path):
            os.remove(path)
        os.rmdir(d)
    if data != rt.dump("tbf", mk(), {"needle_count": ncount}):
        return "the design differs when a ct0 file is asked for"
    needles = [r[3] for r in decode(data) if r[0] == "C"]
    if len(side) != 0x790 or side[0x108:0x10E] != b"NS1:11" or side[0x30D:0x314] != b"\rRP0:N\r" or side[0x434:0x43A] != b"ST0:0\r" or side[0x583:0x588] != b"\rNS3:" or side[0x778:0x77A] != b"\r\x1a":
        return "layout of the ct0 file"
    if side[0x10E:0x30D].rstrip(b" ") != b"".join(bytes((0x30 + n, 0x31)) for n in needles):
        return "ct0 needles %r for %r" % (side[0x10E:0x30D].rstrip(b" "), needles)
    at = side.index(b"NS2:", 0x434)
    if side[at + 4:0x583].rstrip(b" ") != b"0" * len(needles):
        return "ct0 lists %r for %d needles" % (side[at + 4:0x583].rstrip(b" "), len(needles))
    return None


def run(shard, rec):
    if shard[0] == "far":
        for b in FAR:
            rec.traces += 1
            rec.transitions += 4
            rec.state(("far", shard[1], b))
            rec.case(lambda: far(shard[1], b), {"far": [shard[1], b]})
    elif shard[0] in ("prog", "rep"):
        fmt.run(SPEC, shard, rec)
    elif shard[0] == "disp":
        fmt.run_disp(rec, shard, disp, -127, 127)
    elif shard[0] == "ct0":
        for n in range(5 if rec.tier == "quick" else 7):
            for seq in itertools.product((0, 1, 2, 15), repeat=n):
                for c in (5, 15):
                    rec.traces += 1
                    rec.transitions += n
                    rec.state(("ct0", seq, c))
                    rec.case(lambda: ct0(seq, c), {"ct0": [seq, c]})
        for n in (20, 100, 128, 250):
            rec.traces += 1
            rec.case(lambda: ct0([1 + k % 15 for k in range(n)], 15), {"ct0": [[1 + k % 15 for k in range(n)], 15]})
    elif shard[0] == "raw":

        def one():
            rec.traces += 1
            rec.transitions += 131072
            return raw()

        rec.case(one, {"raw": 1})
    else:
        for j in range(len(TEXTS)):
            for n in list(range(0, 73)) if j == 0 else (0, 1, 5, 72):
                rec.traces += 1
                rec.transitions += 2 * n
                rec.state(("text", shard[1], j, n))
                rec.case(lambda: text(shard[1], j, n), {"text": [shard[1], j, n]})


def replay(d):
    if "disp" in d:
        return disp(d["disp"])
    if "ct0" in d:
        return ct0(*d["ct0"])
    if "raw" in d:
        return raw()
    if "far" in d:
        return far(*d["far"])
    if "text" in d:
        return text(*d["text"])
    return fmt.replay(SPEC, d)
