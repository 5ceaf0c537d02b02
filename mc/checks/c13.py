"""EXP: layout, exact displacements, round trip."""
from .. import fmt
from .. import refenc as R
from .. import rt

PROPERTY = "C13"
LEVEL = "model_checking"
RULE = "case = one stitch program written by the real EXP writer, decoded by an independent decoder, matched with the reference encoder and read back by the real reader, or one block of raw records; distinct_nontrivial = distinct command sequences"
ASSUMPTIONS = ["stops are written as colour changes (the format has one record for both)"]


def s8(b):
    return b - 256 if b > 127 else b


def decode(data):
    out = []
    x = y = 0
    i = 0
    while i < len(data):
        if len(data) - i < 2:
            raise ValueError("odd byte at the end")
        if data[i] != 0x80:
            x += s8(data[i])
            y -= s8(data[i + 1])
            out.append(("P", x, y))
            i += 2
            continue
        if len(data) - i < 4:
            raise ValueError("short control record")
        c, a, b = data[i + 1], data[i + 2], data[i + 3]
        if c == 0x80:
            if (a, b) != (7, 0):
                raise ValueError("trim record %r" % (data[i:i + 4],))
            out.append(("T", x, y))
        elif c == 4:
            x += s8(a)
            y -= s8(b)
            out.append(("J", x, y))
        elif c == 1:
            if (a, b) != (0, 0):
                raise ValueError("change record %r" % (data[i:i + 4],))
            out.append(("C", x, y))
        else:
            raise ValueError("control %02x" % c)
        i += 4
    return out


def written(ev, ws):
    out = []
    for e in ev:
        if e[0] == "S":
            out.append(("C", R.COLOR_CHANGE, None, None))
        elif e[0] != "E":
            out.append(e)
    return out


def reading(recs, rs):
    return fmt.identity_reading({"P": "P", "J": None, "T": "T", "C": "C"})(recs, rs) + [("E",)]


SPEC = {
    "ext": "exp",
    "encoder": {"round": True, "full_jump": True, "max_stitch": 127, "max_jump": 127, "sequin_contingency": R.SQ_JUMP, "writes_speeds": False},
    "decode": decode, "written": written, "reading": reading,
    "tocmd": {"P": R.STITCH, "J": R.JUMP, "T": R.TRIM, "C": R.COLOR_CHANGE},
    "alphabet": fmt.program_alphabet(127), "long": fmt.long_alphabet(127),
    "settings": [({}, [None]), ({"explicit_trim": True, "tie_on": True, "tie_off": True}, [None]), ({"sequin_contingency": R.SQ_STITCH, "long_stitch_contingency": R.LONG_SEW}, [None])],
    "depth": {"quick": (4, 6), "thorough": (5, 7)}, "few": 2,
}


def bounds(tier):
    return fmt.bounds(SPEC, tier) + "; all 255x255 displacements as stitch and jump; all raw two-byte stitch and control records"


def shards(tier):
    return fmt.shards(SPEC, tier) + [("disp", d, 16) for d in range(-127, 128, 16)] + [("raw",)]


def disp(dx):
    return fmt.displacement_table("exp", -127, 127, dx, None, ("P", "J"), decode)


EDGE = (0, 1, 0x7F, 0x80, 0xFF)


def raw():
    """Every two-byte record and every control record the format defines, one after the other."""
    body = bytearray()
    want = []
    x = y = 0
    for a in range(256):
        for b in range(256):
            if a != 0x80:
                body += bytes((a, b))
                x += s8(a)
                y -= s8(b)
                want.append((x, y, R.STITCH))
            body += bytes((0x80, 4, a, b))
            x += s8(a)
            y -= s8(b)
            want.append((x, y, R.JUMP))
            if b == 7:
                body += bytes((0x80, 0x80, 7, 0))
                want.append((x, y, R.TRIM))
                body += bytes((0x80, 1, 0, 0))
                want.append((x, y, R.COLOR_CHANGE))
            if a in EDGE or b in EDGE:
                # a change that moves, and the other form of a stitch
                body += bytes((0x80, 1, a, b))
                want.append((x, y, R.COLOR_CHANGE))
                x += s8(a)
                y -= s8(b)
                if a or b:
                    want.append((x, y, R.JUMP))
                body += bytes((0x80, 2, a, b))
                x += s8(a)
                y -= s8(b)
                want.append((x, y, R.STITCH))
    want.append((x, y, R.END))
    q = rt.load("exp", bytes(body))
    return rt.diff([tuple(s) for s in q.stitches], want, "commands")


def run(shard, rec):
    if shard[0] in ("prog", "rep"):
        fmt.run(SPEC, shard, rec)
    elif shard[0] == "disp":
        fmt.run_disp(rec, shard, disp, -127, 127)
    else:

        def one():
            rec.traces += 1
            rec.transitions += 131072
            return raw()

        rec.case(one, {"raw": 1})


def replay(d):
    if "disp" in d:
        return disp(d["disp"])
    if "raw" in d:
        return raw()
    return fmt.replay(SPEC, d)
