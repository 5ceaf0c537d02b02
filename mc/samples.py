"""Sample designs, and a sample file for every format that can be read."""
import io

from . import hus
from . import refenc as R
from . import refread as F
from . import rt

DATE = {"date": "20200102030405"}


def design(kind="two"):
    E = rt.lib().EmbThread
    ths = [E(0x102030, "first"), E(0xAA0000, "second"), E(0x00BB00, "third"), E(0x0000CC, "fourth")]
    if kind == "empty":
        seq = []
    elif kind == "one":
        seq = [(3, 4, R.STITCH)]
    elif kind == "two":
        seq = [(0, 0, R.STITCH), (10, -5, R.STITCH), (20, 7, R.STITCH), (0, 0, R.TRIM), (100, 50, R.STITCH), (105, 52, R.STITCH), (0, 0, R.COLOR_CHANGE), (60, 20, R.STITCH), (64, 22, R.STITCH), (68, 20, R.STITCH), (0, 0, R.END)]
    elif kind == "rich":
        seq = [(0, 0, R.STITCH), (10, -5, R.STITCH), (250, 7, R.STITCH), (0, 0, R.STOP), (100, 50, R.STITCH), (105, 52, R.SEQUIN_EJECT), (107, 52, R.STITCH), (0, 0, R.COLOR_BREAK), (-60, 20, R.STITCH), (-64, 22, R.STITCH),
               (0, 0, R.SEQUENCE_BREAK), (-68, 200, R.STITCH), (-70, 201, R.STITCH), (0, 0, R.COLOR_CHANGE), (5, 5, R.STITCH), (6, 7, R.STITCH), (0, 0, R.END)]
    p = rt.pattern(seq, ths, {"name": "Sample", "author": "A. B"})
    return p


def builder_files():
    """Files of the formats that can only be read."""
    out = []
    fx = {"10o": [(0x80, 5, 9), (0x90, 30, 25), (0x81, 0, 0), (0xE0, 20, 7), (0x85, 0, 0), (0x80, 1, 1), (0x87, 0, 0)],
          "100": [(0x61, 5, 9), (0x21, 100, 3), (0x60, 0, 0), (0x61, 0x85, 0xFF)],
          "dsb": [(0x80, 5, 9), (0x81, 30, 25), (0xE7, 0, 0), (0xE9, 0, 0), (0xE0, 20, 7), (0xF8, 0, 0)],
          "dsz": [(0x80, 5, 9), (0x81, 30, 25), (0x9B, 0, 0), (0x85, 0, 0), (0xE0, 20, 7), (0x9F, 0, 0)],
          "inb": [(0x00, 5, 9), (0x02, 30, 25), (0x01, 0, 0), (0x60, 20, 7), (0x04, 0, 0)],
          "new": [(0x00, 5, 9), (0x01, 30, 25), (0x02, 0, 0), (0x60, 20, 7), (0x11, 0, 0)],
          "stc": [(1, 5, 9), (0, 30, 25), (3, 0, 0), (1, 20, 7), (25, 0, 0)],
          "zxy": [(0x00, 5, 9), (0x02, 30, 25), (0x20, 0, 3), (0x0C, 20, 7), (0x20, 255, 0)],
          "barudan": [(0x80, 5, 9), (0x81, 30, 25), (0x86, 0, 0), (0x89, 3, 0), (0x82, 7, 8), (0xE0, 20, 7), (0x98, 0, 0)],
          "sunstar": [(7, 5, 9), (4, 30, 25), (0x80, 3, 4), (0x87, 0, 5), (7, 0x85, 0xFF), (0, 0, 0)]}
    fx["fxy"] = fx["gt"] = fx["dsz"]
    for f, recs in fx.items():
        ext, size, fn, ci, (ai, bi), _ = F.FIXED[f]
        body = b""
        for c, a, b in recs:
            r = bytearray(size)
            r[ci], r[ai], r[bi] = c, a, b
            body += bytes(r)
        out.append((ext, f, F.head(f) + body))
    for f, enc, wrap, recs in (("bro", F.bro, F.bro_file, [("s", 5, 9), ("m", 300, -400), ("n", 2, 20), ("s", -7, 9), ("e", 2)]),
                               ("emd", F.emd, F.emd_file, [("s", 5, 9), ("m", 100, -12), ("c",), ("s", 3, 3), ("t",), ("s", 1, 1), ("e",)]),
                               ("jpx", F.jpx, F.jpx_file, [("s", 5, 9), ("m", 100, -12), ("c", 0, 0), ("s", 3, 3), ("e",)]),
                               ("sew", F.sew, F.sew_file, [("s", 5, 9), ("m", 100, -12), ("c", 0, 0), ("s", 3, 3), ("e",)]),
                               ("zhs", F.zhs, F.zhs_file, [("s", 5, 9), ("m", 100, -12), ("c", 0, 0), ("more", 100, 1), ("s", 3, 3), ("e", 0, 0)]),
                               ("spx", F.spx, F.spx_file, [("s", 5, 9), ("s", 300, -12), ("s", 3, 3)])):
        out.append((f, f, wrap(b"".join(enc(*r)[0] for r in recs), [3, 5])))
    from .checks import c27
    body, _, counts = c27.shv_build([[("s", 5, 9), ("j", 300, -400, 1), ("s", 1, 1)], [("s", 7, 7)]], [1, 2])
    out.append(("shv", "shv", F.shv_file(body, [1, 2], counts)))
    out.append(("ksm", "ksm", c27.ksm_build([(0, 5, 9), (7, 0, 0), (0, 30, 40), (0x17, 0, 0), (0, 3, 3), (0x0C, 0, 0), (0x18, 0, 0), (0, 1, 1), (8, 0, 0)])[0]))
    out.append(("mit", "mit", c27.mit_build([(7, 3, 4), (12, 5, -6), (7, 1, 2), (8, 0, 0), (4, -2, 1), (0, 0, 0)])[0]))
    pc = [(0, 0, 0), (30, -60, 0), (7, 7, 1), (3, 600, 4), (9, 9, 0)]
    out += [(e, e, F.pc_file(pc, [0x102030, 0xFF8001])) for e in ("pcd", "pcq", "pcs")]
    out.append(("pcm", "pcm", F.pcm_file(pc, [3, 5])))
    out.append(("max", "max", F.max_file([(0, 0), (100, -200), (33, 44)])))
    acts = [("s", 3, -4), ("s", 1000, -20), ("tm", -100, 5), ("s", 1, 1), ("c",), ("m", 70, 3), ("s", 2, 2)]
    out.append(("phb", "phb", F.phb_file(F.pec_body(acts), [3, 5])))
    out.append(("phc", "phc", F.phc_file(F.pec_body(acts), [3, 5])))
    dst = b"\x01\x00\x03\x44\x9a\x2b\x05\x00\x83\x01\x01\x03\x00\x00\xc3\x02\x02\x03\x00\x00\xf3"
    out.append(("exy", "exy", F.junk(0x100) + dst))
    out.append(("tap", "tap", dst))
    import struct
    exp = b"\x05\x09\x80\x04\x10\x10\x80\x80\x07\x00\x03\x03\x80\x01\x00\x00\x01\x01"
    out.append(("stx", "stx", F.junk(12) + struct.pack("<iii", 99, 98, 40) + F.junk(16) + exp))
    cm = [(0x80, 3, 4), (0x81, 100, 5), (0x88, 0, 0), (0x80, 1, 1), (0x84, 0, 0), (0x80, 9, -9), (0x90, 0, 0)]
    out.append(("hus", "hus", hus.hus_file([c[0] for c in cm], [c[1] for c in cm], [c[2] for c in cm], [3, 5])))
    out.append(("hus", "hus_lz", hus.hus_file([c[0] for c in cm * 6], [c[1] for c in cm * 6], [c[2] for c in cm * 6], [3, 5], c30_lz)))
    return out


def c30_lz(d):
    from .checks import c30
    return c30.lzify(d)


WRITERS = ("pec", "pes", "exp", "dst", "jef", "vp3", "csv", "xxx", "u01", "tbf", "pmv", "gcode", "json", "edr", "col", "inf")
VARIANTS = {"pes": [{"version": "1"}, {"version": "6"}, {"version": "1t"}, {"version": "6t"}], "dst": [{}, {"extended header": True}], "csv": [{}, {"version": "delta"}, {"version": "full"}]}


def written_files(kinds=("two", "rich", "one", "empty")):
    out = []
    for ext in WRITERS:
        for kind in kinds:
            for k, s in enumerate(VARIANTS.get(ext, [{}])):
                settings = dict(DATE)
                settings.update(s)
                try:
                    out.append((ext, "%s.%s.%d" % (ext, kind, k), rt.dump(ext, design(kind), settings)))
                except Exception:
                    if kind != "empty":
                        raise
    return out
