"""XXX (Singer): layout, exact displacements, colours, round trip."""
from .. import fmt
from .. import refenc as R
from .. import rt

PROPERTY = "C18"
LEVEL = "model_checking"
RULE = "case = one stitch program written by the real XXX writer, decoded by an independent decoder, matched with the reference encoder and read back by the real reader, or one block of raw records; distinct_nontrivial = distinct command sequences"
ASSUMPTIONS = ["stops are written as colour changes to the same colour (the format has one record for both)", "at most 21 threads"]


def s8(b):
    return b - 256 if b > 127 else b


def s16(a, b):
    v = a | b << 8
    return v - 65536 if v > 32767 else v


def parse(data):
    if len(data) < 0x100:
        raise ValueError("short header")
    end = int.from_bytes(data[0xFC:0x100], "little")
    ncol = int.from_bytes(data[0x27:0x29], "little")
    out = []
    x = y = 0
    i = 0x100
    while True:
        if i + 1 >= len(data):
            raise ValueError("no end record")
        a = data[i]
        if a in (0x7D, 0x7E):
            x += s16(data[i + 1], data[i + 2])
            y -= s16(data[i + 3], data[i + 4])
            out.append(("J", x, y))
            i += 5
        elif a != 0x7F:
            x += s8(a)
            y -= s8(data[i + 1])
            out.append(("P", x, y))
            i += 2
        else:
            c, p, q = data[i + 1:i + 4]
            if c == 1:
                x += s8(p)
                y -= s8(q)
                out.append(("J", x, y))
            elif c == 3:
                if (p, q) != (0, 0):
                    raise ValueError("trim with displacement")
                out.append(("T", x, y))
            elif c == 8:
                if (p, q) != (0, 0):
                    raise ValueError("change with displacement")
                out.append(("C", x, y))
            elif (c, p, q) == (0x7F, 2, 0x14):
                if end != i:
                    raise ValueError("header says the stitches end at %d, they end at %d" % (end, i))
                break
            else:
                raise ValueError("control %02x" % c)
            i += 4
    i += 6
    cols = []
    for k in range(ncol):
        if data[i] != 0:
            raise ValueError("colour table")
        cols.append(int.from_bytes(data[i + 1:i + 4], "big"))
        i += 4
    if len(data) != 0x100 + (end - 0x100) + 6 + 4 * max(21, ncol) + 6:
        raise ValueError("file length %d" % len(data))
    return out, cols


def decode(data):
    return parse(data)[0]


def written(ev, ws):
    out = []
    for e in ev:
        if e[0] == "S":
            out.append(("C", R.COLOR_CHANGE, None, None))
        elif e[0] != "E":
            out.append(e)
    return out


def reading(recs, rs):
    return fmt.identity_reading({"P": "P", "J": None, "T": "T", "C": "C"})(recs, rs) + [("E",)]


def sewn_colors(blocks, ev):
    """The threads of the blocks, those with stops once more for every stop."""
    out, k = list(blocks), 0
    for e in ev:
        if e[0] == "C":
            k += 1
        elif e[0] == "S" and k < len(out):
            out.insert(k, out[k])
            k += 1
    return out


def check_threads(back, blocks, recs, ev, rs):
    src = fmt.rt_threads(SPEC)
    blocks = sewn_colors(blocks, ev)
    got = [t.color & 0xFFFFFF for t in back.threadlist]
    if len(got) != len(blocks):
        return "%d colours read back for %d blocks" % (len(got), len(blocks))
    for k, b in enumerate(blocks):
        if b < len(src) and got[k] != src[b].color:
            return "block %d has colour %06x, wants %06x" % (k, got[k], src[b].color)
    return None


def header(p, data, recs, ev, blocks, ws):
    x0, y0, x1, y1 = fmt.extents(recs)
    lx, ly = fmt.last(recs)
    le = lambda n, at, want: (n, at, 2, True, "little", want)
    return fmt.fields(data, [("count", 0x17, 4, True, "little", len(recs)), ("colours", 0x27, 4, True, "little", len(sewn_colors(blocks, ev)))]) or fmt.fields(data, [le("width", 0x2D, x1 - x0), le("height", 0x2F, y1 - y0),
                             le("lastx", 0x31, lx), le("lasty", 0x33, -ly), le("left", 0x35, -x0), le("bottom", 0x37, y1)], 1)


SPEC = {
    "ext": "xxx",
    "encoder": {"round": True, "full_jump": False, "max_stitch": 124, "max_jump": 124, "sequin_contingency": R.SQ_JUMP, "writes_speeds": False},
    "decode": decode, "written": written, "reading": reading, "threads": check_threads, "extra": header, "nthreads": 5,
    "tocmd": {"P": R.STITCH, "J": R.JUMP, "T": R.TRIM, "C": R.COLOR_CHANGE},
    "alphabet": fmt.program_alphabet(124), "long": fmt.long_alphabet(124),
    "settings": [({}, [None]), ({"explicit_trim": True, "tie_on": True, "tie_off": True}, [None]), ({"sequin_contingency": R.SQ_STITCH, "long_stitch_contingency": R.LONG_SEW}, [None])],
    "depth": {"quick": (4, 5), "thorough": (5, 7)}, "few": 1,
}


def bounds(tier):
    return fmt.bounds(SPEC, tier) + "; all 249x249 displacements as stitch and jump; all raw records; 0..21 threads"


def shards(tier):
    return fmt.shards(SPEC, tier) + [("disp", d, 16) for d in range(-124, 125, 16)] + [("raw",), ("colors",)]


def disp(dx):
    return fmt.displacement_table("xxx", -124, 124, dx, None, ("P", "J"), decode)


TAIL = b"\x7f\x7f\x02\x14"


def raw():
    body = bytearray()
    want = []
    x = y = 0
    for a in range(256):
        for b in range(256):
            if a not in (0x7D, 0x7E, 0x7F):
                body += bytes((a, b))
                x += s8(a)
                y -= s8(b)
                want.append((x, y, R.STITCH))
            body += bytes((0x7F, 1, a, b))
            x += s8(a)
            y -= s8(b)
            want.append((x, y, R.JUMP))
            if b in (0, 1, 0x7F, 0x80, 0xFF):
                body += bytes((0x7D, a, b, b, a))
                x += s16(a, b)
                y -= s16(b, a)
                want.append((x, y, R.JUMP))
                body += bytes((0x7F, 8, 0, 0))
                want.append((x, y, R.COLOR_CHANGE))
                body += bytes((0x7F, 0x0A + a % 14, 0, 0))
                want.append((x, y, R.COLOR_CHANGE))
            if a in (0, 1, 0x7F, 0x80, 0xFF) or b in (0, 1, 0x7F, 0x80, 0xFF):
                body += bytes((0x7F, 3, a, b))
                want.append((x, y, R.TRIM))
                x += s8(a)
                y -= s8(b)
                if a or b:
                    want.append((x, y, R.JUMP))
    want.append((x, y, R.END))
    head = bytearray(0x100)
    head[0x27] = 1
    q = rt.load("xxx", bytes(head) + bytes(body) + TAIL + b"\0\0\0\x12\x34\x56" + b"\0" * 86)
    if [t.color for t in q.threadlist] != [0x123456]:
        return "threads %r" % (q.threadlist,)
    return rt.diff([tuple(s) for s in q.stitches], want, "commands")


def colors(n):
    E = rt.lib().EmbThread
    cols = [(0x010203 * (k + 1)) & 0xFFFFFF for k in range(n)]
    prog = []
    for k in range(n):
        if k:
            prog.append((0, 0, R.COLOR_CHANGE))
        prog.append((k, k, R.STITCH))
    data = rt.dump("xxx", rt.pattern(prog, [E(c) for c in cols]))
    if parse(data)[1] != cols:
        return "colours %r in the file for %r" % (parse(data)[1], cols)
    back = rt.load("xxx", data)
    got = [t.color for t in back.threadlist]
    return None if got == cols else "colours %r read back as %r" % (cols, got)


def run(shard, rec):
    if shard[0] in ("prog", "rep"):
        fmt.run(SPEC, shard, rec)
    elif shard[0] == "disp":
        fmt.run_disp(rec, shard, disp, -124, 124)
    elif shard[0] == "raw":

        def one():
            rec.traces += 1
            rec.transitions += 131072
            return raw()

        rec.case(one, {"raw": 1})
    else:
        for n in range(22):
            rec.traces += 1
            rec.transitions += 2 * n
            rec.case(lambda: colors(n), {"colors": n})


def replay(d):
    if "disp" in d:
        return disp(d["disp"])
    if "raw" in d:
        return raw()
    if "colors" in d:
        return colors(d["colors"])
    return fmt.replay(SPEC, d)
