"""Truncated and extended files: every cut point of many designs in every readable format."""
import itertools

from .. import fmt
from .. import hus
from .. import refenc as R
from .. import refread as F
from .. import rt
from .. import samples
from . import c27
from . import c30

PROPERTY = "C28"
LEVEL = "model_checking"
RULE = "case = one file cut at one byte (or followed by one tail) and read by the real reader; distinct_nontrivial = distinct (format, events read)"
ASSUMPTIONS = ["a reader may refuse a truncated file with any exception", "the last line of a truncated text file may itself be cut",
               "DST trims are recognised from runs of jumps, so with the default settings a cut inside such a run may leave its jumps"]
TEXT = ("csv", "gcode", "json", "col", "inf")
NOEND = ("100", "jpx", "spx", "shv", "mit", "pcd", "pcq", "pcs", "pcm", "stx", "exp", "edr", "csv", "gcode", "json", "col", "txt")
# formats whose reader must not fail on a file cut inside its list of stitch records: name -> where the list starts
STREAMS = {"10o": 0, "100": 0, "dsb": 512, "dsz": 512, "inb": 0x2000, "new": 2, "stc": 40, "dat": None, "fxy": 0x100, "gt": 0x200, "emd": 0x30, "ksm": 0x200, "mit": 0, "exy": 0x100, "tap": 0, "exp": 0, "dst": 512, "u01": 0x100, "tbf": 0x600,
           "zxy": 80, "pcd": 12, "pcq": 12, "pcs": 12, "pcm": 10, "max": 0xD9, "sew": 0x1D78}


# formats whose trims are recognised from jumps, and the settings which switch that off
RAW = {e: {"trim_at": 10 ** 6, "clipping": False} for e in ("dst", "exy", "tap")}
RAW["jef"] = {"trim_distance": None, "clipping": False}


def stitches(p):
    return [tuple(s) for s in p.stitches]


def body(sts):
    """without the END the reader adds"""
    n = len(sts)
    while n and sts[n - 1][2] & 0xFF == R.END:
        n -= 1
    return sts[:n]


def threads(p):
    return [(t.color, t.description, t.catalog_number, t.brand, t.chart) for t in p.threadlist]


def cut(ext, data, full, fullthreads, n, rs=None):
    try:
        p = rt.load(ext, data[:n], rs)
    except Exception as e:
        if ext in STREAMS and STREAMS[ext] is not None and n >= STREAMS[ext]:
            return "cut at byte %d of %d, inside the stitch records, reading fails: %s %s" % (n, len(data), type(e).__name__, e)
        return None
    got = body(stitches(p))
    want = full
    if ext in TEXT:
        got = got[:-1]
    if ext in RAW and rs is None:
        got = [s for s in got if s[2] & 0xFF == R.STITCH]
        want = [s for s in full if s[2] & 0xFF == R.STITCH]
    if got != want[:len(got)]:
        k = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b), len(want))
        return "cut at byte %d of %d: command %d is %r, the whole file has %r" % (n, len(data), k, got[k], want[k] if k < len(want) else None)
    if any(t is None for t in p.threadlist):
        return "cut at byte %d of %d: a thread is None" % (n, len(data))
    return None


def file_cuts(rec, ext, data, rs=None, points=None, label=""):
    p = rt.load(ext, data, rs)
    full, ft = body(stitches(p)), threads(p)
    rec.outcome((ext, tuple(full)))
    rec.state((ext, bytes(data) if not isinstance(data, str) else data))
    for n in (range(len(data)) if points is None else points):
        rec.transitions += 1
        rec.case(lambda: cut(ext, data, full, ft, n, rs), lambda: {"kind": "cut", "ext": ext, "data": data if isinstance(data, str) else bytes(data).hex(), "text": isinstance(data, str), "n": n, "rs": rs})


TAILS = [bytes([b]) for b in range(256)] + [bytes([b, 3, 4]) for b in range(256)] + [b"\x1a" * 3, b"\0" * 64, b"\xff\0" * 50, b"\x80" * 30, bytes(range(256)), b"\x05" * 5000]


def tail(ext, data, t):
    a = rt.load(ext, data)
    b = rt.load(ext, data + t)
    if stitches(a) != stitches(b):
        return "with %r after the end: %r, without %r" % (t[:8], stitches(b)[-6:], stitches(a)[-6:])
    if threads(a) != threads(b) or a.extras != b.extras:
        return "with %r after the end the threads or extras differ" % (t[:8],)
    return None


PROG = [(0, 0, R.STITCH), (40, -30, R.STITCH), (400, 130, R.STITCH), (0, 0, R.TRIM), (0, 0, R.COLOR_CHANGE), (0, 0, R.STOP), (300, -2, R.JUMP)]
SOME = ["pec", "pes", "exp", "dst", "jef", "vp3", "csv", "xxx", "u01", "tbf", "pmv", "gcode", "json", "edr", "col", "inf"]


def programs(n):
    for seq in itertools.product(PROG, repeat=n):
        yield seq


def shards(tier):
    th = tier == "thorough"
    out = [("sample", k) for k in range(48)] + [("tail", k) for k in range(48)]
    for ext in SOME:
        if ext in ("edr", "col", "inf"):
            out.append(("threads", ext))
            continue
        heavy = ext in ("pec", "pes", "csv", "json", "tbf", "gcode")
        d = (3 if th else 2) if heavy else (4 if th else 3)
        for n in range(1, d + 1):
            out += [("prog", ext, n, k) for k in range(len(PROG))]
    for f in F.FIXED:
        out += [("fixed", f, n) for n in range(1, (5 if th else 4))]
    for f in c27.VARS:
        out += [("var", f, n) for n in range(1, (5 if th else 4))]
    out += [("pc", e, n) for e in ("pcd", "pcm") for n in range(1, (4 if th else 3))] + [("max",), ("ksm", 3 if th else 2), ("mit", 4 if th else 3), ("shv", 3 if th else 2), ("phx", 3 if th else 2)]
    out += [("expand", n, s) for n in range(1, (6 if th else 5)) for s in hus.STYLES]
    return out


def all_samples():
    return samples.builder_files() + samples.written_files(("two", "rich", "empty"))


def run(shard, rec):
    k = shard[0]
    rec.traces += 1
    if k == "sample":
        for ext, label, data in all_samples()[shard[1]::48]:
            file_cuts(rec, ext, data)
            if ext in RAW:
                file_cuts(rec, ext, data, RAW[ext])
            rec.sample({"format": ext, "file": label, "bytes": len(data)})
    elif k == "tail":
        for ext, label, data in all_samples()[shard[1]::48]:
            if ext in NOEND:
                continue
            for t in TAILS:
                rec.transitions += 1
                rec.case(lambda: tail(ext, data, t), lambda: {"kind": "tail", "ext": ext, "data": bytes(data).hex(), "tail": t.hex()})
    elif k == "prog":
        _, ext, n, first = shard
        for rest in itertools.product(PROG, repeat=n - 1):
            seq = (PROG[first],) + rest
            ths = samples.design("empty").threadlist
            ws = dict(samples.DATE)
            for extra in samples.VARIANTS.get(ext, [{}])[:1 if n > 2 else None]:
                ws2 = dict(ws, **extra)
                data = rt.dump(ext, rt.pattern(seq, ths + ths), ws2)
                file_cuts(rec, ext, data)
                if ext in RAW:
                    file_cuts(rec, ext, data, RAW[ext])
    elif k == "threads":
        E = rt.lib().EmbThread
        for n in range(0, 6):
            p = rt.pattern([], [E(0x10203 * v + 5, "t%d" % v, str(v), "", "br", "ch") for v in range(n)])
            file_cuts(rec, shard[1], rt.dump(shard[1], p))
    elif k == "fixed":
        f = shard[1]
        for rs in itertools.product(c27.ALPHA[f], repeat=shard[2]):
            h = F.head(f)
            data = h + b"".join(c27.make(f, *r) for r in rs)
            file_cuts(rec, F.FIXED[f][0], data, points=range(len(h), len(data)))
    elif k == "var":
        f = shard[1]
        enc, wrap, alpha = c27.VARS[f]
        for rs in itertools.product(alpha, repeat=shard[2]):
            b = b"".join(enc(*r)[0] for r in rs)
            data = wrap(b, [1, 2])
            file_cuts(rec, f, data, points=range(len(data) - len(b), len(data)))
    elif k == "pc":
        for recs in itertools.product(c27.PC, repeat=shard[2]):
            file_cuts(rec, shard[1], F.pcm_file(recs, [1, 2]) if shard[1] == "pcm" else F.pc_file(recs, [1, 2]))
    elif k == "max":
        for pts in itertools.product(c27.MAXP, repeat=3):
            data = F.max_file(pts)
            file_cuts(rec, "max", data, points=range(0xD5, len(data)))
    elif k == "ksm":
        for rs in itertools.product(c27.KSM, repeat=shard[1]):
            data = c27.ksm_build(rs)[0]
            file_cuts(rec, "ksm", data, points=range(0x200, len(data)))
    elif k == "mit":
        for rs in itertools.product(c27.MIT, repeat=shard[1]):
            file_cuts(rec, "mit", c27.mit_build(rs)[0])
    elif k == "shv":
        for b in itertools.product(c27.SHV, repeat=shard[1]):
            bd, _, counts = c27.shv_build([b, b[:1]], [1, 2])
            data = F.shv_file(bd, [1, 2], counts)
            file_cuts(rec, "shv", data, points=range(len(data) - len(bd), len(data)))
    elif k == "phx":
        for acts in itertools.product(c27.PECA, repeat=shard[1]):
            b = F.pec_body(acts)
            for ext, data in (("phb", F.phb_file(b, [1, 2, 3, 4])), ("phc", F.phc_file(b, [1, 2, 3, 4]))):
                file_cuts(rec, ext, data, points=range(len(data) - len(b), len(data)))
    elif k == "expand":
        _, n, style = shard
        for toks in itertools.product(c30.TOK, repeat=n):
            if not c30.valid(toks):
                continue
            data = hus.compress([list(toks) + [hus.END]], style)
            want = bytes(hus.expand_tokens([list(toks)]))
            for m in range(len(data)):
                rec.transitions += 1
                rec.case(lambda: cut_stream(data, want, m), lambda: {"kind": "expand", "data": data.hex(), "want": want.hex(), "n": m})


def cut_stream(data, want, m):
    for size in (len(want), None):
        try:
            got = bytes(bytearray(rt.lib().expand(bytearray(data[:m]), size)))
        except Exception:
            continue
        if not want.startswith(got):
            return "a stream cut at byte %d of %d expands to %r, the whole one to %r" % (m, len(data), got[:40], want[:40])
    return None


def replay(d):
    if d["kind"] == "expand":
        return cut_stream(bytes.fromhex(d["data"]), bytes.fromhex(d["want"]), d["n"])
    data = d["data"] if d.get("text") else bytes.fromhex(d["data"])
    if d["kind"] == "tail":
        return tail(d["ext"], data, bytes.fromhex(d["tail"]))
    p = rt.load(d["ext"], data, d["rs"])
    return cut(d["ext"], data, body(stitches(p)), threads(p), d["n"], d["rs"])


def bounds(tier):
    th = tier == "thorough"
    return {"cut_points": "every byte of every file", "sample_files": "all %d readable formats" % 46, "program_length": "1..%d (%d for formats with large headers)" % ((4, 3) if th else (3, 2)), "tails": len(TAILS)}
