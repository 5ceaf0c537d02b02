"""An independent compressor for the block format of HUS streams, and a HUS file builder.

A stream is a list of blocks; a block is a list of tokens: a literal 0..255, ("m", length, back) or END.
Codes are canonical: shorter codes first, among equal lengths the lower symbol first."""
import heapq
import struct

END = 510


def expand_tokens(blocks):
    out = bytearray()
    for b in blocks:
        for t in b:
            if t == END:
                return out
            if isinstance(t, int):
                out.append(t)
            else:
                for _ in range(t[1]):
                    out.append(out[len(out) - t[2]])
    return out


class Bits:
    def __init__(self):
        self.s = []

    def put(self, value, n):
        assert 0 <= value < (1 << n) or n == 0 and value == 0
        for k in range(n - 1, -1, -1):
            self.s.append((value >> k) & 1)

    def bytes(self, pad=0):
        s = self.s + [pad] * (-len(self.s) % 8)
        return bytes(int("".join(map(str, s[k:k + 8])), 2) for k in range(0, len(s), 8))


def dist_symbol(back):
    """back >= 1 -> symbol, extra value, extra bits"""
    j = back - 1
    if j == 0:
        return 0, 0, 0
    n = j.bit_length()
    return n, j - (1 << (n - 1)), n - 1


def huffman_lengths(freq):
    """{symbol: frequency} with at least two symbols -> {symbol: length}"""
    heap = [(f, s, (s,)) for s, f in freq.items()]
    heapq.heapify(heap)
    length = {s: 0 for s in freq}
    while len(heap) > 1:
        a = heapq.heappop(heap)
        b = heapq.heappop(heap)
        for s in a[2] + b[2]:
            length[s] += 1
        heapq.heappush(heap, (a[0] + b[0], min(a[1], b[1]), a[2] + b[2]))
    return length


def skewed_lengths(symbols, reverse=False):
    """1, 2, 3, .. n-1, n-1: as deep as codes get (at most 17 symbols)"""
    syms = sorted(symbols, reverse=reverse)
    n = len(syms)
    return {s: min(k + 1, n - 1) for k, s in enumerate(syms)}


def flat_lengths(symbols):
    """as equal as a complete code can be: the shorter ones for the lower symbols"""
    syms = sorted(symbols)
    n = len(syms)
    d = (n - 1).bit_length()
    short = (1 << d) - n
    return {s: d - 1 if k < short else d for k, s in enumerate(syms)}


STYLES = ("huffman", "flat", "skewed", "reversed")


def lengths_for(freq, style):
    if len(freq) < 2:
        return None
    if style == "huffman":
        return huffman_lengths(freq)
    if style in ("skewed", "reversed") and len(freq) <= 17:
        return skewed_lengths(freq, style == "reversed")
    return flat_lengths(freq)


def codes(lengths):
    out, code, prev = {}, 0, 0
    for n, s in sorted((n, s) for s, n in lengths.items()):
        code <<= n - prev
        out[s] = (code, n)
        code += 1
        prev = n
    return out


def put_length(bits, n):
    """the variable-length number of code length tables"""
    if n < 7:
        bits.put(n, 3)
    else:
        bits.put(7, 3)
        for _ in range(n - 7):
            bits.put(1, 1)
        bits.put(0, 1)


def put_block(bits, tokens, style="huffman", extra_syms=(), extra_dist=(), pt_style="huffman"):
    cf, df = {}, {}
    for t in tokens:
        s = t if isinstance(t, int) else 253 + t[1]
        cf[s] = cf.get(s, 0) + 1
        if not isinstance(t, int):
            d = dist_symbol(t[2])[0]
            df[d] = df.get(d, 0) + 1
    for s in extra_syms:
        cf.setdefault(s, 1)
    for s in extra_dist:
        df.setdefault(s, 1)
    bits.put(len(tokens), 16)
    cl = lengths_for(cf, style)
    if cl is None:
        (sym,) = cf
        bits.put(0, 5)
        bits.put(0, 5)
        bits.put(0, 9)
        bits.put(sym, 9)
        cc = {sym: (0, 0)}
    else:
        cc = codes(cl)
        n = max(cl) + 1
        rle, k = [], 0
        while k < n:
            if k in cl:
                rle.append((cl[k] + 2, 0, 0))
                k += 1
                continue
            run = 0
            while k + run < n and k + run not in cl:
                run += 1
            k += run
            if run <= 2:
                rle += [(0, 0, 0)] * run
            elif run <= 18:
                rle.append((1, run - 3, 4))
            elif run == 19:
                rle += [(0, 0, 0), (1, 15, 4)]
            else:
                rle.append((2, run - 20, 9))
        pf = {}
        for s, _, _ in rle:
            pf[s] = pf.get(s, 0) + 1
        pl = lengths_for(pf, pt_style)
        if pl is None:
            (sym,) = pf
            bits.put(0, 5)
            bits.put(sym, 5)
            pc = {sym: (0, 0)}
        else:
            pc = codes(pl)
            m = max(pl) + 1
            bits.put(m, 5)
            k = 0
            while k < m:
                if k == 3:
                    skip = 0
                    while skip < 3 and k + skip < m - 1 and k + skip not in pl:
                        skip += 1
                    bits.put(skip, 2)
                    k += skip
                put_length(bits, pl.get(k, 0))
                k += 1
        bits.put(n, 9)
        for s, v, w in rle:
            bits.put(*pc[s])
            bits.put(v, w)
    dl = lengths_for(df, style)
    if dl is None:
        sym = next(iter(df), 0)
        bits.put(0, 5)
        bits.put(sym, 5)
        dc = {sym: (0, 0)}
    else:
        dc = codes(dl)
        m = max(dl) + 1
        bits.put(m, 5)
        for k in range(m):
            put_length(bits, dl.get(k, 0))
    for t in tokens:
        if isinstance(t, int):
            bits.put(*cc[t])
        else:
            bits.put(*cc[253 + t[1]])
            s, v, w = dist_symbol(t[2])
            bits.put(*dc[s])
            bits.put(v, w)


def compress(blocks, style="huffman", pad=0, **kw):
    bits = Bits()
    for b in blocks:
        put_block(bits, b, style, **kw)
    return bits.bytes(pad)


def literal_stream(data, end=True, style="huffman"):
    """data as literals, in blocks of at most 65535 elements"""
    toks = list(data) + ([END] if end else [])
    return compress([toks[k:k + 60000] for k in range(0, len(toks), 60000)], style)


def hus_file(cmds, xs, ys, colors, stream=literal_stream, count=None, pad=b"", extents=(0, 0, 0, 0)):
    """cmds, xs, ys: byte lists; colors: indexes"""
    a, b, c = [stream(bytes(v & 0xFF for v in col)) for col in (cmds, xs, ys)]
    at = 4 * 3 + 8 + 4 * 3 + 8 + 2 + 2 * len(colors) + len(pad)
    out = struct.pack("<iii4hiii8sh", 0x00C8AF5B, len(cmds) if count is None else count, len(colors), *extents, at, at + len(a), at + len(a) + len(b), b"design\0\0", 0)
    return out + struct.pack("<%dH" % len(colors), *colors) + pad + a + b + c
