"""U01 (Barudan): layout, exact displacements, needles, speeds, round trip."""
from .. import fmt
from .. import refenc as R
from .. import rt

PROPERTY = "C17"
LEVEL = "model_checking"
RULE = "case = one stitch program written by the real U01 writer, decoded by an independent decoder, matched with the reference encoder and read back by the real reader, or one block of raw records; distinct_nontrivial = distinct command sequences"
ASSUMPTIONS = ["needles 1..14", "a speed change takes effect at the next stitch or jump; the last one before it counts"]


def decode(data):
    if len(data) < 0x100 or (len(data) - 0x100) % 3:
        raise ValueError("length %d" % len(data))
    out = []
    x = y = 0
    for i in range(0x100, len(data), 3):
        c, b, a = data[i:i + 3]
        if not c & 0x80:
            raise ValueError("control byte %02x" % c)
        k = c & 0x1F
        dx = -a if c & 0x20 else a
        dy = b if c & 0x40 else -b
        px, py = x, y
        x += dx
        y += dy
        if k in (0, 2, 4):
            if k:
                out.append(("FAST" if k == 2 else "SLOW", px, py))
            if k == 0 or (dx, dy) != (0, 0):
                out.append(("P", x, y))
        elif k in (1, 3, 5):
            if k > 1:
                out.append(("FAST" if k == 3 else "SLOW", px, py))
            if k == 1 or (dx, dy) != (0, 0):
                out.append(("J", x, y))
        elif k in (6, 7):
            if (dx, dy) != (0, 0):
                raise ValueError("trim with a displacement")
            out.append(("T", x, y))
        elif k == 8:
            out.append(("S", x, y))
        elif 9 <= k <= 0x17:
            out.append(("C", x, y, k - 8))
        elif k == 0x18:
            if i + 3 != len(data):
                raise ValueError("data after the end record")
            return out
        else:
            raise ValueError("command %02x" % k)
    raise ValueError("no end record")


def written(ev, ws):
    out = []
    pend = None
    for e in ev:
        if e[0] in ("SLOW", "FAST"):
            pend = e
        elif e[0] == "E":
            pass
        else:
            if e[0] in ("P", "J", "L", "Q") and pend is not None:
                out.append(pend)
                pend = None
            out.append(e)
    return out


def reading(recs, rs):
    return fmt.identity_reading({"P": "P", "J": None, "T": "T", "C": "C", "S": "S", "FAST": "FAST", "SLOW": "SLOW"})(recs, rs) + [("E",)]


def needles(back, blocks, recs, ev, rs):
    got = [R.decode(s[2])[2] for s in back.stitches if s[2] & 0xFF == R.NEEDLE_SET]
    want = [r[3] for r in recs if r[0] == "C"]
    return None if got == want else "needles %r read back as %r" % (want, got)


def header(p, data, recs, ev, blocks, ws):
    x0, y0, x1, y1 = fmt.extents(recs)
    lx, ly = fmt.last(recs)
    le = lambda n, at, want: (n, at, 2, True, "little", want)
    msg = fmt.fields(data, [le("minx", 0x80, x0), le("maxy", 0x82, -y1), le("maxx", 0x84, x1), le("miny", 0x86, -y0), le("lastx", 0x90, lx), le("lasty", 0x92, -ly)],
                     1)
    if msg is None:
        n = (len(data) - 0x100) // 3
        sp = sum(1 for e in ev if e[0] in ("SLOW", "FAST"))
        c = int.from_bytes(data[0x8C:0x90], "little")
        if not n - sp <= c - 1 <= n + sp:
            msg = "header count %d for %d records" % (c, n)
    return msg


SPEC = {
    "ext": "u01",
    "encoder": {"max_stitch": 127, "max_jump": 127, "thread_change_command": R.NEEDLE_SET, "sequin_contingency": R.SQ_JUMP, "writes_speeds": True},
    "decode": decode, "written": written, "reading": reading, "threads": needles, "extra": header,
    "tocmd": {"P": R.STITCH, "J": R.JUMP, "T": R.TRIM, "C": R.NEEDLE_SET, "S": R.STOP, "FAST": R.FAST, "SLOW": R.SLOW},
    "alphabet": [q for q in fmt.program_alphabet(127) if q[2] != R.NEEDLE_SET] + [(0, 0, R.encode(R.NEEDLE_SET, None, 3)), (0, 0, R.encode(R.NEEDLE_SET, 1, 14))],
    "long": fmt.long_alphabet(127)[:3] + [(0, 0, R.TRIM), (0, 0, R.SLOW), (0, 0, R.FAST), (0, 0, R.STOP), (0, 0, R.COLOR_CHANGE), (7, 7, R.JUMP)],
    "settings": [({}, [None]), ({"explicit_trim": True, "tie_on": True, "tie_off": True, "needle_count": 7}, [None]), ({"round": True, "needle_count": 2}, [None])],
    "depth": {"quick": (4, 5), "thorough": (5, 6)}, "few": 1, "eps": 0.5 + 1e-6, "limits_off": True, "args": "needle",
}


def bounds(tier):
    return fmt.bounds(SPEC, tier) + "; all 255x255 displacements as stitch and jump; all raw records"


def shards(tier):
    return fmt.shards(SPEC, tier) + [("disp", d, 16) for d in range(-127, 128, 16)] + [("raw", c) for c in range(0x80, 0x100, 8)] + [("needles",)]


def disp(dx):
    return fmt.displacement_table("u01", -127, 127, dx, None, ("P", "J"), decode)


def wrapped(needle):
    """A needle the format has is written as that needle; one it does not have, as a change to one it has, never as another record."""
    seq = [(0, 0, R.STITCH), (5, 0, R.STITCH), (5, 0, R.encode(R.NEEDLE_SET, None, needle)), (9, 0, R.STITCH), (9, 4, R.STITCH)]
    p = rt.pattern(seq, fmt.rt_threads({"nthreads": 3}), {"name": "n"})
    q = rt.load("u01", rt.dump("u01", p, {}))
    got = [(s[2] & 0xFF, R.decode(s[2])[2]) for s in q.stitches]
    last = [n for c, n in got if c == R.NEEDLE_SET][1:]
    if [c for c, _ in got if c not in (R.JUMP, R.TRIM)] != [R.NEEDLE_SET, R.STITCH, R.STITCH, R.NEEDLE_SET, R.STITCH, R.STITCH, R.END]:
        return "needle %d makes the records %r" % (needle, got)
    if last != [needle] if needle < 15 else not 1 <= last[0] <= 15:
        return "needle %d reads back as %r" % (needle, last)
    return None


def raw(base):
    """Every record with control bytes base..base+7, all displacement magnitudes along the axes and the diagonal."""
    body = bytearray()
    want = []
    x = y = 0
    for c in range(base, base + 8):
        k = c & 0x1F
        if k >= 0x18:
            continue
        for a in range(256):
            for b in (0, 1, a, 255):
                body += bytes((c, b, a))
                dx = -a if c & 0x20 else a
                dy = b if c & 0x40 else -b
                moved = (dx, dy) != (0, 0)
                if k in (2, 3):
                    want.append((x, y, R.FAST, None))
                if k in (4, 5):
                    want.append((x, y, R.SLOW, None))
                if k in (6, 7):
                    want.append((x, y, R.TRIM, None))
                if k == 8:
                    want.append((x, y, R.STOP, None))
                if k > 8:
                    want.append((x, y, R.NEEDLE_SET, k - 8))
                x += dx
                y += dy
                if k == 0 or (k in (2, 4) and moved):
                    want.append((x, y, R.STITCH, None))
                elif k == 1 or moved:
                    want.append((x, y, R.JUMP, None))
    body += b"\xf8\0\0"
    want.append((x, y, R.END, None))
    q = rt.load("u01", b"0" * 256 + bytes(body))
    return rt.diff([(s[0], s[1]) + (s[2] & 0xFF, R.decode(s[2])[2]) for s in q.stitches], want, "commands")


def run(shard, rec):
    if shard[0] in ("prog", "rep"):
        fmt.run(SPEC, shard, rec)
    elif shard[0] == "disp":
        fmt.run_disp(rec, shard, disp, -127, 127)
    elif shard[0] == "needles":
        for n in range(1, 256):
            rec.traces += 1
            rec.transitions += 5
            rec.state(("needle", n))
            rec.case(lambda: wrapped(n), {"needle": n})
    else:

        def one():
            rec.traces += 1
            rec.transitions += 8 * 1024
            rec.state(shard)
            return raw(shard[1])

        rec.case(one, {"raw": shard[1]})


def replay(d):
    if "disp" in d:
        return disp(d["disp"])
    if "needle" in d:
        return wrapped(d["needle"])
    if "raw" in d:
        return raw(d["raw"])
    return fmt.replay(SPEC, d)
