"""SVG, TXT and template exports: every command sequence written and parsed back."""
import io
import itertools
import re
import xml.etree.ElementTree as ET

from .. import refenc as R
from .. import rt

PROPERTY = "C26"
LEVEL = "model_checking"
RULE = "case = one command sequence written as SVG, as both versions of TXT, or through one set of templates; the output is parsed, or compared with a reference of the template nesting; distinct_nontrivial = distinct outputs"
ASSUMPTIONS = ["templates: stitch_first and stitch_last, which the writer does not use, are not claimed", "TXT numbers have one decimal place"]

CMDS = [(0, 0, R.STITCH), (700.25, -3, R.STITCH), (20, 5, R.JUMP), (1, 1, R.TRIM), (2, 2, R.COLOR_CHANGE), (3, 3, R.STOP), (5, 5, R.SEQUIN_EJECT), (0, 0, R.SLOW), (4, 4, R.COLOR_BREAK), (-123456.875, 1234567.0625, R.STITCH), (9, 9, R.END)]
# The commands the first alphabet does not have, written as they are.
CMDS2 = [(1, 2, R.STITCH), (1, 1, R.TRIM), (2, 2, R.COLOR_CHANGE), (6, 7, R.encode(R.NEEDLE_SET, 1, 4)), (5, 5, R.SEQUIN_MODE), (8, 8, R.FAST), (9, 9, R.END)]
THREADS = (0x12A040, 0x0000FF, 0x0A0B0C, 0xFFFFFF, 0xFF8000, 0x800080, 0x123456, 0x654321)
THREADS += tuple(0x010203 * v for v in range(1, 80)) + tuple(0x000102 * v for v in range(1, 240))
NUM = r"-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?"


def pattern(seq):
    E = rt.lib().EmbThread
    return rt.pattern(seq, [E(c, "thread %d" % k, *["%s%d" % (w, k) for w in ("number", "details", "brand", "chart", "weight")][:k]) for k, c in enumerate(THREADS[:8] if len(seq) < 10 else THREADS)])


def close(a, b, eps):
    return abs(float(a) - b) <= eps + 1e-9 * abs(b)


def svg(seq, rec=None, ns=False):
    p = pattern(seq)
    setting = {"full_jump": False, "max_jump": float("inf"), "max_stitch": float("inf"), "sequin_contingency": R.SQ_STITCH}
    enc = pattern(seq).get_normalized_pattern(setting)
    data = rt.dump("svg", p, {"thread_change_command": R.NEEDLE_SET} if ns else {})
    root = ET.fromstring(data)
    tag = root.tag.split("}")[-1]
    if tag != "svg" or "http://www.w3.org/2000/svg" not in root.tag:
        return "root is %s" % root.tag
    want, cur, k = [], [], 0
    for s in enc.stitches:
        c = s[2] & 0xFF
        if c == R.STITCH:
            cur.append((s[0], s[1]))
            continue
        if cur:
            want.append((cur, k))
            cur = []
        if c == R.COLOR_CHANGE:
            k += 1
    if cur:
        want.append((cur, k))
    if ns:  # same runs and colours; the needle sets have positions of their own
        enc = pattern(seq).get_normalized_pattern(dict(setting, thread_change_command=R.NEEDLE_SET))
    paths = [e for e in root.iter() if e.tag.split("}")[-1] == "path"]
    if len(paths) != len(want):
        return "%d paths for %d runs" % (len(paths), len(want))
    for e, (pts, k) in zip(paths, want):
        d = e.get("d")
        if not d.lstrip().startswith("M") or re.sub(r"[\sM,LE+\-.\deE]", "", d):
            return "path data %r" % d
        nums = [float(v) for v in re.findall(NUM, d)]
        if len(nums) != 2 * len(pts) or any(not close(a, b, 1e-6) for a, b in zip(nums, [v for q in pts for v in q])):
            return "path %r for %r" % (d, pts)
        if e.get("stroke") != "#%06x" % THREADS[k] or e.get("fill") != "none":
            return "stroke %r, fill %r for thread %d" % (e.get("stroke"), e.get("fill"), k)
    xs, ys = [s[0] for s in enc.stitches], [s[1] for s in enc.stitches]
    vb = [float(v) for v in root.get("viewBox").replace(",", " ").split()]
    size = (max(xs) - min(xs), max(ys) - min(ys))
    if not all(close(a, b, 1e-6) for a, b in zip(vb, (min(xs), min(ys)) + size)) or not close(root.get("width"), size[0], 1e-6) or not close(root.get("height"), size[1], 1e-6):
        return "view box %r, size %r x %r for %r" % (vb, root.get("width"), root.get("height"), size)
    if rec is not None:
        rec.outcome(data)
    return None


EMBMOD = {R.STITCH: 0, R.JUMP: 1, R.TRIM: 2, R.STOP: 4, R.COLOR_CHANGE: 4, R.NEEDLE_SET: 4, R.SEQUIN_MODE: 8, R.SEQUIN_EJECT: 8, R.END: 16}


def txt(seq, rec=None, ns=False):
    change = {"thread_change_command": R.NEEDLE_SET} if ns else {}
    enc = pattern(seq).get_normalized_pattern(change)
    # the thread of every record: of the needle sets the first only declares, unless a thread was in use already
    index, k, started = {}, 0, False
    for s in enc.stitches:
        c = s[2] & 0xFF
        if c == R.COLOR_CHANGE or (started and c == R.NEEDLE_SET):
            k += 1
        started = started or c in (R.STITCH, R.SEQUIN_EJECT, R.COLOR_CHANGE, R.NEEDLE_SET)
        index[id(s)] = k
    names = {v: n for n, v in (("STITCH", 0), ("JUMP", 1), ("TRIM", 2), ("STOP", 3), ("END", 4), ("COLOR_CHANGE", 5), ("SEQUIN_MODE", 6), ("SEQUIN_EJECT", 7), ("NEEDLE_SET", 9), ("SLOW", 0xB), ("FAST", 0xC))}
    out = rt.dump("txt", pattern(seq), change).decode("utf8")
    lines = out.split("\n")
    if lines[-1] != "" or len(lines) - 1 != len(enc.stitches):
        return "%d lines for %d commands" % (len(lines) - 1, len(enc.stitches))
    for line, s in zip(lines, enc.stitches):
        m = re.fullmatch(r"(%s),(%s) color:(\d+) command:(\w+) flags:(\d+)" % (NUM, NUM), line)
        if m is None:
            return "line %r" % line
        c, k = s[2] & 0xFF, index[id(s)]
        if not close(m[1], s[0], 0.051) or not close(m[2], s[1], 0.051) or m[4] != names[c] or int(m[5]) != c or (k < len(enc.threadlist) and int(m[3]) & 0xFFFFFF != THREADS[k]):
            return "line %r for %r in thread %d %06x" % (line, s, k, THREADS[k])
    for setting in ({"version": "embroidermodder"}, {"mimic": True}):
        out2 = rt.dump("txt", pattern(seq), dict(setting, **change)).decode("utf8")
        lines = out2.split("\n")
        cmds = [s for s in enc.stitches if s[2] & 0xFF in EMBMOD]
        if lines[-1] != "" or len(lines) - 1 != len(cmds):
            return "embroidermodder: %d lines for %d commands" % (len(lines) - 1, len(cmds))
        for line, s in zip(lines, cmds):
            m = re.fullmatch(r"(%s),(%s) color:(\d+) flags:(\d+)" % (NUM, NUM), line)
            if m is None:
                return "embroidermodder line %r" % line
            c, k = s[2] & 0xFF, index[id(s)]
            if not close(m[1], s[0] / 10.0, 0.051) or not close(m[2], s[1] / 10.0, 0.051) or int(m[4]) != EMBMOD[c] or int(m[3]) != k:
                return "embroidermodder line %r for %r" % (line, s)
    if rec is not None:
        rec.outcome(out)
    return None


SEG = {R.STITCH: "stitch", R.JUMP: "jump", R.TRIM: "trim", R.STOP: "stop", R.COLOR_CHANGE: "color_change", R.SEQUIN_EJECT: "sequin", R.SEQUIN_MODE: "sequin_mode", R.SLOW: "slow", R.FAST: "fast", R.END: "end", R.NEEDLE_SET: "needle_set"}
NAMES = {0: "STITCH", 1: "JUMP", 2: "TRIM", 3: "STOP", 4: "END", 5: "COLOR_CHANGE", 6: "SEQUIN_MODE", 7: "SEQUIN_EJECT", 9: "NEEDLE_SET", 0xB: "SLOW", 0xC: "FAST", 0xE2: "COLOR_BREAK"}
FRAME = {"pattern_start": "P{{{stitch_total}/{thread_total}/{stitch_count}/{jump_count}/{trim_count}/{color_change_count}/{end_count}|{extents_left},{extends_top},{extends_right},{extends_bottom},{extends_width},{extends_height}|{extends_width_mm}\n",
         "pattern_end": "}}P\n", "document_start": "D{{ {document_index}\n", "document_end": "}}D\n", "color_start": "C{{ {color_index}\n", "color_end": "}}C\n", "color_join": "--c\n",
         "block_start": "B{{ {block_index}\n", "block_end": "}}B\n", "block_join": "--b\n"}
VALS = "{index} {cmd_str} {x} {y} {dx} {dy} {ix} {iy} {idx} {idy} {_x} {_idy} {last_x} {z}\n"
TEMPLATES = {
    "all": dict(FRAME, segment="s " + VALS),
    "few": dict(FRAME, stitch="st " + VALS, jump="j {x}\n"),
    "mixed": dict(FRAME, segment="s {cmd_str} {x} {y}\n", segment_start="<", segment_join="|", segment_end=">\n", stitch="ST {x} {y}", color_change="CC", end="E", trim="T {dx}"),
    "change": dict(FRAME, stitch="ST {index} {color_index1} {block_index1}\n", color_change="CC\n", trim="T\n"),
    "fields": dict(pattern_start="{extents_left_mm} {extends_top_mm} {extends_right_mm} {extends_bottom_mm} {extends_width_mm} {extends_height_mm} {name} {k} {stop_count} {sequin_eject_count} {slow_count} {needle_set_count}\n",
                   segment="{cmd} {command} {cmd_thread} {cmd_needle} {cmd_order} {_y} {_ix} {_iy} {_idx} {last_y} {_last_x} {_last_y} {name}\n", pattern_end="{k}/{extends_top}\n"),
    "lists": dict(metadata_entry="{metadata_index}:{metadata_key}={metadata_value};", thread_entry="{thread_index} {thread_color} {thread_description} {thread_red} {thread_green} {thread_blue} {thread_catalog_number} {thread_details} {thread_brand} {thread_chart} {thread_weight};", stitch="x{x};"),
    "needles": dict(FRAME, stitch="ST {x} {z}\n", needle_set="N {cmd_thread} {cmd_needle}\n", fast="F\n", sequin_mode="M\n", trim="T\n", color_change="CC\n"),
    "joins": dict(segment="{x}", segment_join=", "),
    "cases": dict(FRAME, stitch={None: ("{x}", "other\n"), "0": "zero\n"}, end="END\n", stitch_z_travel=2.5),
}


def ref_template(seq, threads, extras, t):
    """What the templates should give: starts and ends nested and balanced, joins between, values true."""
    out = []
    env = {}
    idx = {"document_index": -1, "color_index": -1, "block_index": -1}
    xs, ys = [s[0] for s in seq], [s[1] for s in seq]
    st = {"doc": False, "color": False, "block": False}
    pending = {}

    def emit(name, **kw):
        f = t.get(name)
        if f is not None:
            e = dict(env)
            e.update(idx)
            e.update({k + "1": v + 1 for k, v in idx.items()})
            e.update(kw)
            out.append(f.format_map(e))

    cnt = {}
    for s in seq:
        cnt[s[2] & 0xFF] = cnt.get(s[2] & 0xFF, 0) + 1
    b = (min(xs), min(ys), max(xs), max(ys))
    env.update({"stitch_total": len(seq), "thread_total": len(threads), "extents_left": b[0], "extends_top": b[1], "extends_right": b[2], "extends_bottom": b[3],
                "extends_width": b[2] - b[0], "extends_height": b[3] - b[1], "extends_width_mm": (b[2] - b[0]) / 10.0})
    env.update({"extents_left_mm": b[0] / 10.0, "extends_top_mm": b[1] / 10.0, "extends_right_mm": b[2] / 10.0, "extends_bottom_mm": b[3] / 10.0, "extends_height_mm": (b[3] - b[1]) / 10.0})
    env.update(extras)
    for c, n in NAMES.items():
        env[n.lower() + "_count"] = cnt.get(c, 0)
    emit("pattern_start")
    for i, (k, v) in enumerate(extras.items()):
        emit("metadata_entry", metadata_index=i, metadata_key=str(k), metadata_value=str(v))
    for i, th in enumerate(threads):
        c = th.color
        emit("thread_entry", thread_index=i, thread_color="#%06x" % c, thread_description=th.description, thread_red=c >> 16, thread_green=c >> 8 & 255, thread_blue=c & 255,
             thread_catalog_number=th.catalog_number, thread_details=th.details, thread_brand=th.brand, thread_chart=th.chart, thread_weight=th.weight)
    lx = ly = ix = iy = 0
    z = 0.0
    dz = t.get("stitch_z_travel", 10.0)
    for n, (x, y, w) in enumerate(seq):
        c = w & 0xFF
        seg = t.get(SEG.get(c), t.get("segment")) if c in SEG else t.get("segment")
        if seg is None:
            continue
        jx, jy = int(round(x - ix)), int(round(y - iy))
        ix, iy = ix + jx, iy + jy
        env.update({"index": n, "cmd_str": NAMES[c], "cmd": c, "x": x, "y": y, "dx": x - lx, "dy": y - ly, "ix": ix, "iy": iy, "idx": jx, "idy": jy, "_x": -x, "_y": -y, "_idx": -jx, "_idy": -jy, "last_x": lx, "last_y": ly, "z": z,
                    "_ix": -ix, "_iy": -iy, "_last_x": -lx, "_last_y": -ly, "command": w})
        env.update(zip(("cmd_thread", "cmd_needle", "cmd_order"), R.decode(w)[1:]))
        if isinstance(seg, dict):
            key, default = seg[None]
            seg = seg.get(key.format_map(env), default)
        if c == R.STITCH:
            z += dz
        lx, ly = x, y
        opens = {R.TRIM: "dc", R.COLOR_CHANGE: "d", R.NEEDLE_SET: "dc", R.COLOR_BREAK: ""}.get(c, "dcb")
        new = []
        if "d" in opens and not st["doc"]:
            st["doc"] = True
            idx["document_index"] += 1
            idx["color_index"] = -1
            new.append("document")
        if "c" in opens and not st["color"]:
            st["color"] = True
            idx["color_index"] += 1
            idx["block_index"] = -1
            new.append("color")
        if "b" in opens and not st["block"]:
            st["block"] = True
            idx["block_index"] += 1
            new.append("block")
        for what in new:
            if what != "document" and idx[what + "_index"] != 0:
                emit(what + "_join")
            emit(what + "_start")
        e = dict(env)
        e.update(idx)
        e.update({k + "1": v + 1 for k, v in idx.items()})
        out.append(t.get("segment_start", "") + seg.format_map(e) + t.get("segment_join", "") + t.get("segment_end", ""))
        closes = {R.TRIM: ("block",), R.COLOR_CHANGE: ("block", "color"), R.END: ("block", "color", "doc")}.get(c, ())
        for what in closes:
            if st[what]:
                st[what] = False
                emit({"doc": "document"}.get(what, what) + "_end")
    for what in ("block", "color", "doc"):
        if st[what]:
            emit({"doc": "document"}.get(what, what) + "_end")
    emit("pattern_end")
    return "".join(out)


def template(seq, name, raw, rec=None):
    import importlib
    W = importlib.import_module("pyembroidery.GenericWriter")
    t = TEMPLATES[name]
    p = pattern(seq)
    p.extras["name"] = "n {x}"
    p.extras["k"] = 5
    settings = dict(t)
    if raw:
        settings["encode"] = False
        enc = p
        if not seq:
            return None
    else:
        enc = p.copy().get_normalized_pattern({"writes_speeds": True, "sequin_contingency": R.SQ_UTILIZE})
    f = io.BytesIO()
    rt.lib().EmbPattern.write_embroidery(W, p, f, settings)
    got = f.getvalue().decode("utf8")
    want = ref_template([tuple(s) for s in enc.stitches], list(enc.threadlist), dict(p.extras), t)
    if got != want:
        a, b = got.split("\n"), want.split("\n")
        for k, (u, v) in enumerate(itertools.zip_longest(a, b)):
            if u != v:
                return "template %s, line %d is %r, want %r; %r" % (name, k, u, v, got[:400])
    if settings != dict(t, **({"encode": False} if raw else {})):
        return "settings changed"
    if rec is not None:
        rec.outcome(got)
    return None


def depth(tier):
    return 4 if tier == "quick" else 6


def bounds(tier):
    return "all sequences of <= %d of %d commands x SVG, 3 TXT variants, %d template sets (for sequences of <= %d, also unencoded); unencoded sequences of <= %d of %d further commands" % (depth(tier), len(CMDS), len(TEMPLATES), depth(tier) - 1, depth(tier), len(CMDS2))


def shards(tier):
    out = []
    for n in range(depth(tier), -1, -1):
        if n >= 2:
            out += [(n, i, j, tier) for i in range(len(CMDS)) for j in range(len(CMDS))]
        else:
            out += [(n, i, None, tier) for i in range(len(CMDS) if n else 1)]
    return out + [("rep", i, None, tier) for i in range(len(CMDS))] + [("raw", i, None, tier) for i in range(len(CMDS2))]


def run(shard, rec):
    n, i, j, tier = shard
    if n == "rep":
        # long designs: every command 300 times, every pair of commands 70 times over
        for w in [(CMDS[i],)] + [(CMDS[i], b) for b in CMDS]:
            seq = w * (300 if len(w) == 1 else 70)
            rec.traces += 1
            rec.transitions += len(seq) * 9
            rec.state(("rep", w))
            rec.case(lambda: svg(seq), ["svg", seq])
            rec.case(lambda: txt(seq), ["txt", seq])
            for name in TEMPLATES:
                rec.case(lambda: template(seq, name, False), ["template", seq, name, False])
        return
    if n == "raw":
        for k in range(depth(tier)):
            for tail in itertools.product(CMDS2, repeat=k):
                seq = (CMDS2[i],) + tail
                rec.traces += 1
                rec.transitions += len(seq) * len(TEMPLATES)
                rec.state(("raw", seq))
                for name in TEMPLATES:
                    rec.case(lambda: template(seq, name, True, rec), ["template", seq, name, True])
        return
    head = (CMDS[i],) if n else ()
    if j is not None:
        head += (CMDS[j],)

    def one(key, f):
        rec.traces += 1
        rec.transitions += n
        rec.state(repr(key))
        if rec.traces == 1:
            rec.sample(key)
        rec.case(f, lambda: list(key))

    for tail in itertools.product(CMDS, repeat=max(0, n - len(head))):
        seq = head + tail
        one(("svg", seq), lambda: svg(seq, rec))
        one(("txt", seq), lambda: txt(seq, rec))
        if n < depth(tier) or tier == "thorough":
            one(("svg", seq, True), lambda: svg(seq, rec, True))
            one(("txt", seq, True), lambda: txt(seq, rec, True))
        for name in TEMPLATES:
            for raw in ((False, True) if n < depth(tier) else (False,)):
                one(("template", seq, name, raw), lambda: template(seq, name, raw, rec))


def replay(d):
    seq = tuple(tuple(s) for s in d[1])
    if d[0] == "svg":
        return svg(seq, None, *d[2:])
    if d[0] == "txt":
        return txt(seq, None, *d[2:])
    return template(seq, d[2], d[3])
