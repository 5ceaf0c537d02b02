"""Colour files: COL, EDR, INF."""
import itertools

from .. import refenc as R
from .. import rt

PROPERTY = "C22"
LEVEL = "model_checking"
RULE = "case = one thread list written by the real colour writer, parsed independently, read back by the real reader, also into a pattern that has threads and stitches; distinct_nontrivial = distinct thread lists"
ASSUMPTIONS = ["COL and EDR hold colours only, INF also description and chart ('Unknown' if not set)"]
COLS = [0x000000, 0xFFFFFF, 0x0A0D1A, 0x01FE80]
TEXTS = [None, "", "a", u"\u00e9", u"\u20ac\U0001f9f5", "two words", "x" * 300]


def bounds(tier):
    return "all sequences of <= %d of %d colours; all channel values; all pairs of %d texts for two threads; up to 300 threads; all three formats; files with other numbers and line ends" % (4 if tier == "quick" else 6, len(COLS), len(TEXTS))


def parse(ext, data):
    out = []
    if ext == "edr":
        if len(data) % 4:
            raise ValueError("length %d" % len(data))
        return [((data[k] << 16 | data[k + 1] << 8 | data[k + 2]), None, None) for k in range(0, len(data), 4)]
    if ext == "col":
        lines = data.decode("ascii").split("\r\n")
        if lines[-1] or int(lines[0]) != len(lines) - 2:
            raise ValueError("lines %r" % lines[:3])
        for k, l in enumerate(lines[1:-1]):
            v = [int(q) for q in l.split(",")]
            if v[0] != k or len(v) != 4:
                raise ValueError("line %r" % l)
            out.append((v[1] << 16 | v[2] << 8 | v[3], None, None))
        return out
    if data[:8] != b"\0\0\0\1\0\0\0\x08" or int.from_bytes(data[8:12], "big") != len(data) - 12:
        raise ValueError("head %r of %d" % (data[:12], len(data)))
    n = int.from_bytes(data[12:16], "big")
    p = 16
    for k in range(n):
        ln = int.from_bytes(data[p:p + 2], "big")
        r = data[p:p + ln]
        if len(r) != ln or ln < 11:
            raise ValueError("record %d" % k)
        if int.from_bytes(r[2:4], "big") != k or int.from_bytes(r[7:9], "big") != k + 1:
            raise ValueError("record %d has numbers %r" % (k, r[:9]))
        t = r[9:].split(b"\0")
        if len(t) != 3 or t[2]:
            raise ValueError("record %d has texts %r" % (k, r[9:]))
        out.append((int.from_bytes(r[4:7], "big"), t[0].decode("utf8"), t[1].decode("utf8")))
        p += ln
    if p != len(data):
        raise ValueError("data after the records")
    return out


def case(ext, threads):
    E = rt.lib().EmbThread
    tl = [E(c, d) for c, d, h in threads]
    for t, (c, d, h) in zip(tl, threads):
        t.chart = h
    p = rt.pattern([(0, 0, R.STITCH), (5, 5, R.COLOR_CHANGE), (9, 9, R.STITCH)], tl)
    data = rt.dump(ext, p)
    data = data.encode("utf8") if isinstance(data, str) else data
    if ext == "inf":
        want = [(c, "Unknown" if d is None else d, "Unknown" if h is None else h) for c, d, h in threads]
    else:
        want = [(c, None, None) for c, d, h in threads]
    try:
        got = parse(ext, data)
    except (ValueError, IndexError) as e:
        return "file does not follow the layout: %s" % e
    if got != want:
        return "%r written as %r" % (want, got)

    def keys(q):
        return [(t.color & 0xFFFFFF, t.description, t.chart) for t in q.threadlist]

    back = rt.load(ext, data)
    if keys(back) != want or back.stitches:
        return "%r read back as %r" % (want, keys(back))
    into = rt.pattern([(1, 1, R.STITCH)], [E(0x111111, "old")])
    rt.load(ext, data, None, into)
    if keys(into) != [(0x111111, "old", None)] + want or [tuple(s) for s in into.stitches] != [(1, 1, R.STITCH)]:
        return "%r read into a pattern gives %r %r" % (want, keys(into), into.stitches)
    return None


NUMBERS = ["0", "1", "007", "12", "1234", "0000"]


def raw(ext, nums, eol):
    """files of other makers: other numbers, other fourth bytes"""
    n = len(nums)
    cols = [(0x102030 * (k + 1) + 7) & 0xFFFFFF for k in range(n)]
    if ext == "col":
        data = "%d%s" % (n, eol) + "".join("%s,%d,%d,%d%s" % (s, c >> 16, c >> 8 & 255, c & 255, eol) for s, c in zip(nums, cols))
        if eol == "":
            return None
    elif ext == "edr":
        data = b"".join(bytes((c >> 16, c >> 8 & 255, c & 255, (int(s) * 37 + len(eol)) & 255)) for s, c in zip(nums, cols))
    else:
        data = b""
        for s, c in zip(nums, cols):
            t = ("thread " + s + eol).encode("utf8") + b"\0" + b"chart" + s.encode("utf8") + b"\0"
            data += (9 + len(t)).to_bytes(2, "big") + int(s).to_bytes(2, "big") + c.to_bytes(3, "big") + (int(s) * 3).to_bytes(2, "big") + t
        data = b"\0\0\0\1\0\0\0\x08" + (len(data) + 4).to_bytes(4, "big") + n.to_bytes(4, "big") + data
    q = rt.load(ext, data)
    if [t.color & 0xFFFFFF for t in q.threadlist] != cols or q.stitches:
        return "%r read as %r" % (data, q.threadlist)
    if ext == "col" and [t.catalog_number for t in q.threadlist] != list(nums):
        return "%r read with numbers %r" % (data, [t.catalog_number for t in q.threadlist])
    if ext == "inf" and [(t.description, t.chart) for t in q.threadlist] != [("thread " + s + eol, "chart" + s) for s in nums]:
        return "%r read with texts %r" % (data, [(t.description, t.chart) for t in q.threadlist])
    return None


def shards(tier):
    return [(ext, 9, 3 if tier == "quick" else 4) for ext in ("col", "edr", "inf")] + [(ext, k, 4 if tier == "quick" else 6) for ext in ("col", "edr", "inf") for k in range(5)]


def run(shard, rec):
    ext, part, depth = shard
    if part == 9:
        for n in range(depth + 1):
            for nums in itertools.product(NUMBERS, repeat=n):
                for eol in ("\r\n", "\n", ""):
                    rec.traces += 1
                    rec.transitions += n
                    rec.state((ext, nums, eol))
                    rec.case(lambda: raw(ext, nums, eol), {"raw": [ext, nums, eol]})
        return

    def go(threads):
        rec.traces += 1
        rec.transitions += len(threads)
        rec.state((ext, tuple(threads)))
        rec.outcome((ext, tuple(threads)))
        rec.case(lambda: case(ext, threads), {"ext": ext, "threads": threads})

    if part == 0:
        for n in range(depth + 1):
            for s in itertools.product(COLS, repeat=n):
                go([(c, None, None) for c in s])
    elif part == 1:
        for v in range(256):
            go([(v << sh, None, None) for sh in (0, 8, 16)] + [(v << 16 | (255 - v) << 8 | v, None, None)])
    elif part == 2:
        for n in (10, 99, 100, 254, 255, 256, 300):
            go([((k * 0x10203) & 0xFFFFFF, "t%d" % k, str(k)) for k in range(n)])
    else:
        for a, b, c, d in itertools.product(TEXTS, repeat=4):
            if TEXTS.index(a) % 2 == part - 3:
                go([(0xFF0001, a, b), (0x00FF02, c, d)])


def replay(d):
    if "raw" in d:
        return raw(*d["raw"])
    return case(d["ext"], [tuple(t) for t in d["threads"]])
