"""HUS: compressed streams of every shape expand to what they hold; HUS files read as the design they hold."""
import itertools

from .. import hus
from .. import refenc as R
from .. import rt
from .c36 import table

PROPERTY = "C30"
LEVEL = "model_checking"
RULE = "case = one compressed stream (or HUS file) written by an independent compressor and expanded by the real code; distinct_nontrivial = distinct expanded contents"
ASSUMPTIONS = ["codes are complete and canonical, as every compressor of this family makes them", "matches do not reach before the start of the stream"]
A = [97, 0, 255]
TOK = [97, 98, 0, ("m", 3, 1), ("m", 4, 2), ("m", 3, 3), ("m", 7, 1)]


def valid(tokens):
    n = 0
    for t in tokens:
        if isinstance(t, int):
            n += 1
        else:
            if t[2] > n:
                return False
            n += t[1]
    return True


def same(got, want):
    return bytes(bytearray(got)) == bytes(want)


def short(b):
    b = bytes(bytearray(b))
    return "%d bytes %s%s" % (len(b), b[:40].hex(), ".." if len(b) > 40 else "")


def judge(blocks, style, kw, end, size, pad):
    blocks = [list(b) for b in blocks]
    want = hus.expand_tokens(blocks)
    if end:
        blocks[-1] = blocks[-1] + [hus.END]
    data = hus.compress(blocks, style, pad, **kw)
    got = rt.lib().expand(bytearray(data), len(want) if size else None)
    if not same(got, want):
        return "expand gives %s, want %s (stream %s)" % (short(got), short(want), short(data))
    return None


def stream_case(rec, blocks, style="huffman", kw={}, variants=((True, True), (True, False), (False, True)), pads=(0, 1)):
    rec.outcome(bytes(hus.expand_tokens(blocks)))
    rec.state((repr(blocks), style, repr(sorted(kw))))
    rec.sample({"blocks": repr(blocks)[:200], "style": style})
    for end, size in variants:
        for pad in pads:
            rec.transitions += sum(map(len, blocks))
            rec.case(lambda: judge(blocks, style, kw, end, size, pad),
                     lambda: {"kind": "stream", "blocks": blocks, "style": style, "kw": {k: list(v) if not isinstance(v, str) else v for k, v in kw.items()}, "end": end, "size": size, "pad": pad})


def stored_case(rec, n, kind):
    def go():
        src = bytearray({"mod": (k * 7 + 3) & 0xFF, "zero": 0, "ff": 255, "low": k & 1}[kind] for k in range(n))
        keep = bytearray(src)
        data = rt.lib().compress(src)
        if src != keep:
            return "compress changed its input"
        for size in (n, None):
            got = rt.lib().expand(bytearray(data), size)
            if not same(got, keep):
                return "expand(compress(%d bytes), %r) gives %s" % (n, size, short(got))
        return None
    rec.transitions += n
    rec.outcome((n, kind))
    rec.case(go, {"kind": "stored", "n": n, "fill": kind})


CMDS = [(0x80, 3, 4), (0x80, -128, 127), (0x80, 0, 0), (0x81, 127, -1), (0x84, 0, 0), (0x84, 5, -6), (0x88, 0, 0), (0x88, 9, -9), (0x88, 0, 7), (0x90, 1, 1), (0x95, 2, 2)]


def hus_want(prog):
    x = y = 0
    ev = []
    for c, dx, dy in prog:
        nx, ny = x + dx, y - dy
        if c == 0x80:
            ev.append(("P", nx, ny))
        elif c == 0x81:
            ev.append(("J", nx, ny))
        elif c == 0x84:
            ev.append(("C",))
        elif c == 0x88:
            if dx or dy:
                ev.append(("J", nx, ny))
            ev.append(("T",))
        else:
            break
        x, y = nx, ny
    return ev + [("E",)]


def lzify(data):
    """greedy matches, as a compressor makes them"""
    out, k = [], 0
    data = bytes(data)
    while k < len(data):
        best = None
        for back in range(1, k + 1):
            n = 0
            while k + n < len(data) and n < 256 and data[k + n] == data[k + n - back]:
                n += 1
            if n >= 3 and (best is None or n > best[1]):
                best = ("m", n, back)
        if best:
            out.append(best)
            k += best[1]
        else:
            out.append(data[k])
            k += 1
    return hus.compress([out + [hus.END]])


STREAMS = {"literal": hus.literal_stream, "noend": lambda d: hus.literal_stream(d, False), "lz": lzify, "stored": lambda d: bytes(rt.lib().compress(bytearray(d)))}


def judge_file(prog, colors, stream, pad):
    data = hus.hus_file([p[0] for p in prog], [p[1] for p in prog], [p[2] for p in prog], colors, STREAMS[stream], pad=b"\x07" * pad, extents=(50, 60, -70, -80))
    p = rt.load("hus", data)
    got = rt.events(p.stitches)
    want = hus_want(prog)
    if got != want:
        return "reads as %r, want %r" % (got, want)
    pal = table()["palettes"]["Hus"]
    cols = [t.color & 0xFFFFFF for t in p.threadlist]
    if cols != [int(pal[c][0], 16) for c in colors]:
        return "threads %r for indexes %r" % (cols, colors)
    return None


def file_case(rec, prog, colors=(0,), stream="literal", pad=0):
    rec.transitions += len(prog)
    rec.outcome(tuple(hus_want(prog)))
    rec.state((tuple(prog), tuple(colors), stream, pad))
    rec.sample({"program": repr(prog)[:200], "stream": stream})
    rec.case(lambda: judge_file(prog, list(colors), stream, pad), lambda: {"kind": "file", "prog": prog, "colors": list(colors), "stream": stream, "pad": pad})


def shards(tier):
    th = tier == "thorough"
    out = [("tok", n, s, t) for n in range(1, (6 if th else 5) + 1) for s in hus.STYLES for t in range(len(TOK)) if isinstance(TOK[t], int)]
    out += [("len", lo, lo + 32) for lo in range(3, 257, 32)]
    out += [("dist", k) for k in range(14)]
    out += [("depth", n) for n in range(2, 18)]
    out += [("gap", lo) for lo in range(0, 510, 30)]
    out += [("alpha", lo) for lo in range(2, 257, 32)]
    out += [("single",)]
    out += [("split", n, s) for n in range(2, (9 if th else 7)) for s in hus.STYLES]
    out += [("stored", lo, th) for lo in range(0, 1200 if th else 600, 100)] + [("storedbig", th)]
    out += [("file", n, s, c) for n in range(1, (4 if th else 3) + 1) for s in STREAMS for c in range(len(CMDS))]
    out += [("colors",), ("bytes",)]
    return out


def run(shard, rec):
    k = shard[0]
    rec.traces += 1
    if k == "tok":
        _, n, style, first = shard
        for rest in itertools.product(TOK, repeat=n - 1):
            seq = (TOK[first],) + rest
            if valid(seq):
                stream_case(rec, [list(seq)], style)
    elif k == "len":
        for length in range(shard[1], min(shard[2], 257)):
            for back in sorted({1, 2, 3, max(1, length - 1), length, length + 1, 260}):
                pre = [(v * 5 + 1) % 7 + 60 for v in range(260)]
                stream_case(rec, [pre + [("m", length, back), 1, 2]], "huffman", pads=(0,))
                if back < 4:
                    stream_case(rec, [pre[:back] + [("m", length, back), 9]], "flat", pads=(0,))
    elif k == "dist":
        s = shard[1]
        lo, hi = (1, 1) if s == 0 else ((1 << (s - 1)) + 1, 1 << s)
        backs = sorted({lo, min(lo + 1, hi), (lo + hi) // 2, max(hi - 1, lo), hi})
        pre = [(v * v * 3 + v // 7) & 0xFF for v in range(hi)]
        stream_case(rec, [pre + [("m", 5, b) for b in backs] + [3, ("m", 9, lo)]], "huffman", pads=(0,))
        for b in backs:
            stream_case(rec, [pre + [("m", 5, b), 3]], "flat", pads=(0,), variants=((True, True),))
    elif k == "depth":
        n = shard[1]
        for base, step in ((0, 1), (40, 3), (200, 7), (240, 16)):
            syms = [base + step * v for v in range(n)]
            for style in hus.STYLES:
                for pt in hus.STYLES:
                    toks = [s if s < 256 else 65 for s in syms] + [65]
                    stream_case(rec, [toks], style, {"extra_syms": [s for s in syms if s < 510], "pt_style": pt}, pads=(0,))
        for style in hus.STYLES:
            # distance codes of every depth too
            pre = [(v * v * 3 + v // 7) & 0xFF for v in range(1 << min(n, 13))]
            stream_case(rec, [pre + [("m", 4, 1 << d) for d in range(min(n, 14))]], style, {"extra_dist": range(n - 1)}, pads=(0,), variants=((True, True),))
    elif k == "gap":
        for a in range(shard[1], min(shard[1] + 30, 510)):
            for gap in [g for g in (0, 1, 2, 3, 17, 18, 19, 20, 21, 22, 100, 300, 508) if a + g + 1 < 510]:
                b = a + gap + 1
                toks = [65] + [s if s < 256 else ("m", s - 253, 1) for s in (a, b)] + [66]
                stream_case(rec, [toks], "huffman", pads=(0,), variants=((True, True), (False, True)))
    elif k == "alpha":
        for n in range(shard[1], min(shard[1] + 32, 257)):
            for style in ("flat", "huffman"):
                stream_case(rec, [[v for v in range(n)] + [v for v in range(n - 1, -1, -1)]], style, pads=(0,))
    elif k == "single":
        for v in range(256):
            stream_case(rec, [[v] * 5], variants=((True, True), (True, False)))
        for v in range(256):
            # blocks with one symbol only take no bits for it
            stream_case(rec, [[v] * 5, [v ^ 1] * 2, [v, v ^ 1]])
            stream_case(rec, [[v, v], [("m", min(3 + v, 256), 1)] * 2, [("m", 3, 2)]])
    elif k == "split":
        _, n, style = shard
        toks = [97, 98, ("m", 3, 2), 0, ("m", 4, 1), 97, ("m", 8, 6), 98][:n]
        for mask in range(1 << (n - 1)):
            blocks, cur = [], []
            for i, t in enumerate(toks):
                cur.append(t)
                if i == n - 1 or mask >> i & 1:
                    blocks.append(cur)
                    cur = []
            stream_case(rec, blocks, style)
    elif k == "stored":
        for n in range(shard[1], shard[1] + 100):
            for kind in ("mod", "zero", "ff", "low"):
                stored_case(rec, n, kind)
    elif k == "storedbig":
        for n in (1023, 1024, 1025, 4096, 5000, 32768) + ((65534, 65535, 65536, 65537, 131070, 131071, 150000) if shard[1] else (65535, 65536)):
            stored_case(rec, n, "mod")
    elif k == "file":
        _, n, stream, first = shard
        for rest in itertools.product(CMDS, repeat=n - 1):
            file_case(rec, (CMDS[first],) + rest, (3, 1), stream)
    elif k == "colors":
        for c in range(29):
            file_case(rec, [CMDS[0]], [c])
            file_case(rec, [CMDS[0], CMDS[4], CMDS[1]], [c, 28 - c, 0])
        for n in range(0, 40):
            file_case(rec, [CMDS[0]], [v % 29 for v in range(n)], pad=n % 3)
    elif k == "bytes":
        for d in range(-128, 128):
            for c in (0x80, 0x81, 0x84, 0x88):
                file_case(rec, [CMDS[0], (c, d, 7), CMDS[0]])
                file_case(rec, [CMDS[0], (c, 7, d), CMDS[0]])
        for c in range(256):
            file_case(rec, [CMDS[0], (c, 5, 6), CMDS[0]])
        for n in (100, 300, 1000, 3000):
            for s in STREAMS:
                file_case(rec, [CMDS[(v * v + v // 5) % 9] for v in range(n)], (1,) * 5, s)
        # sections of very different sizes, every one in turn the longest
        for n in (500, 3000):
            for s in STREAMS:
                for k in range(3):
                    noise = [(v * v * 3 + v // 7) % 251 - 125 for v in range(n)]
                    file_case(rec, [((0x80, 0x81)[noise[v] & 1] if k == 0 else 0x80, noise[v] if k == 1 else 2, noise[v] if k == 2 else -3) for v in range(n)], (1,), s)


def replay(d):
    if d["kind"] == "stream":
        fix = lambda t: t if isinstance(t, int) else tuple(t)
        return judge([[fix(t) for t in b] for b in d["blocks"]], d["style"], d["kw"], d["end"], d["size"], d["pad"])
    if d["kind"] == "stored":
        class Rec:
            transitions = 0
            msg = None
            def outcome(self, o): pass
            def case(self, fn, rep): self.msg = fn()
        r = Rec()
        stored_case(r, d["n"], d["fill"])
        return r.msg
    return judge_file([tuple(p) for p in d["prog"]], d["colors"], d["stream"], d["pad"])


def bounds(tier):
    return {"token_sequence_length": 6 if tier == "thorough" else 5, "token_alphabet": [repr(t) for t in TOK], "match_lengths": "all 3..256", "distance_classes": "all up to 2^13",
            "code_depths": "1..16", "zero_run_classes": "all", "block_splits": "all of 8 tokens" if tier == "thorough" else "all of 6 tokens", "file_program_length": 4 if tier == "thorough" else 3}
