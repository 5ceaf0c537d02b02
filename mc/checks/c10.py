"""Results depend on the arguments only: every pair (and triple) of operations in one process against fresh processes."""
import hashlib
import io
import json
import os
import random
import subprocess
import sys

from .. import core
from .. import refenc as R
from .. import rt
from .. import samples

PROPERTY = "C10"
LEVEL = "model_checking"
RULE = "case = one history of operations of the real library in one process, the results of each spoiled by its caller; the last one must give what a fresh process gives; distinct_nontrivial = distinct (history, result)"
ASSUMPTIONS = ["the random source is seeded before each operation, as filler threads and JPX colours are drawn from it", "the JEF date is given"]

KINDS = ("one", "two", "rich")
WRITERS = samples.WRITERS + ("svg", "png", "txt")
SETTINGS = {"exp": [{}, {"max_stitch": 20, "tie_on": R.TIE_ON, "translate": [3, 4]}, {"thread_change_command": R.STOP}], "u01": [{}, {"needle_count": 2}], "gcode": [{}, {"alternate_z": True}], "txt": [{}, {"mimic": True}], "png": [{}, {"fancy": True, "guides": True, "background": 0xFF102030}]}
BAD = [("write", "dst", "rich", {"encode": False}), ("write", "pec", "empty", {"encode": False}), ("write", "xxx", "two", {"encode": False, "round": 3}), ("readbad", "pes"), ("readbad", "vp3"), ("readbad", "json"), ("readbad", "csv"), ("readbad", "hus"), ("readbad", "dst"), ("readbad", "jef"), ("readbad", "emd")]


def digest(x):
    return hashlib.sha256(repr(x).encode("utf8", "surrogatepass")).hexdigest()[:24]


def thread_of(t):
    return None if t is None else rt.thread_key(t)


def pview(p):
    if p is None:
        return None
    return ([tuple(s) for s in p.stitches], [thread_of(t) for t in p.threadlist], sorted((k, bytes(v) if isinstance(v, bytearray) else v) for k, v in p.extras.items()))


def spoil(p):
    """What a caller may do to a pattern of his own."""
    if p is None:
        return
    for t in p.threadlist:
        if t is not None:
            t.color = 0x010101
            t.description = t.catalog_number = t.brand = t.chart = t.details = t.weight = "spoiled"
    del p.threadlist[:]
    for s in p.stitches:
        s[0] = s[1] = 12345
        s[2] = R.END
    del p.stitches[:]
    for v in p.extras.values():
        if isinstance(v, (list, bytearray, dict)):
            v.clear()
    p.extras.clear()
    p.extras["spoiled"] = 1


def perform(op, files):
    """run one operation and return a digest of what it gives"""
    P = rt.lib()
    random.seed(5)
    kind = op[0]
    try:
        if kind == "write":
            p = samples.design(op[2])
            s = dict(samples.DATE)
            s.update(op[3])
            d = rt.dump(op[1], p, s)
            r = ("bytes", d)
            spoil(p)
        elif kind == "read":
            p = rt.load(op[1], bytes.fromhex(files[op[2]]))
            r = ("pattern", pview(p))
            spoil(p)
        elif kind == "readbad":
            p = P.EmbPattern()
            f = io.StringIO('{"x": [\n"*","STITCH","z"\n') if getattr(rt.formats()[op[1]]["reader"], "READ_FILE_IN_TEXT_MODE", False) else io.BytesIO(bytes(range(3, 90)) * 3)
            P.EmbPattern.read_embroidery(rt.formats()[op[1]]["reader"], f, None, p)
            r = ("pattern", pview(p))
            spoil(p)
        elif kind == "encode":
            p = samples.design(op[1])
            q = p.get_normalized_pattern(dict(op[2])) if op[2] is not None else p.get_normalized_pattern()
            r = ("pattern", pview(q))
            spoil(q)
        elif kind == "palette":
            from importlib import import_module
            m = import_module("pyembroidery.EmbThread" + op[1])
            ts = m.get_thread_set()
            r = ("threads", [thread_of(t) for t in ts])
            for t in ts:
                if t is not None:
                    t.color = 0
                    t.description = "spoiled"
            del ts[:]
        elif kind == "colors":
            out = []
            for c in ("red", "#0F0", "#123456", "darkslateblue", "nonsense", "#12345678"):
                t = P.EmbThread()
                try:
                    t.set(c)
                    out.append(t.color)
                except Exception as e:
                    out.append(type(e).__name__)
            r = ("colors", out)
        elif kind == "formats":
            out = []
            for d in P.supported_formats():
                out.append((d["extension"], tuple(d["extensions"]), d["description"], d.get("reader") is None, d.get("writer") is None))
                d.clear()
            r = ("formats", out)
        elif kind == "ops":
            p = samples.design("rich")
            q = p.copy()
            q += samples.design("two")
            q.add_pattern(p, 3, 4)
            q.interpolate_duplicate_color_as_stop()
            q.convert_stop_to_change() if hasattr(q, "convert_stop_to_change") else None
            q.interpolate_stop_as_duplicate_color()
            q.move_center_to_origin()
            m = P.EmbMatrix()
            m.post_rotate(30)
            q.transform(m)
            r = ("ops", pview(q), pview(q.get_stable_pattern()), pview(q.get_pattern_merge_jumps()), q.bounds())
            spoil(q)
        elif kind == "build":
            p = P.EmbPattern()
            p.add_block([(0, 0), (3, 4), (5, 6)], "red")
            p.add_block([(9, 9), (3, 1)], P.EmbThread("blue"))
            p.stitch(3, 4)
            p.needle_change(3)
            p.metadata("name", "x")
            p += "green"
            r = ("build", pview(p))
            spoil(p)
        else:
            raise AssertionError(op)
    except AssertionError as e:
        if not e.args:
            raise
        r = ("error", type(e).__name__)
    except Exception as e:
        r = ("error", type(e).__name__)
    return digest(r)


FRESH = r'''
import sys, json
req = json.load(sys.stdin)
sys.path.insert(0, req["verif"])
sys.path.insert(0, req["repo"])
from mc.checks import c10
print(c10.perform(req["op"], req["files"]))
'''


def fresh(op, files, hashseed):
    need = {op[2]: files[op[2]]} if op[0] == "read" else {}
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update({"PYTHONHASHSEED": str(hashseed), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONUTF8": "1"})
    r = subprocess.run([sys.executable, "-B", "-c", FRESH], input=json.dumps({"verif": core.VERIF, "repo": core.REPO, "op": list(op), "files": need}).encode(), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if r.returncode:
        raise RuntimeError("fresh process failed: " + r.stderr.decode("utf8", "replace")[-800:])
    return r.stdout.decode().strip()


_files = None


def files():
    global _files
    if _files is None:
        from . import c29
        _files = {l: d.hex() for e, l, d in c29.all_files()}
        _files["__ext__"] = {l: e for e, l, d in c29.all_files()}
    return _files


PALETTES = ("Pec", "Jef", "Hus", "Sew", "Shv")
_ops = None


def operations():
    global _ops
    if _ops is None:
        out = []
        for f in WRITERS:
            for k in KINDS:
                for s in samples.VARIANTS.get(f, SETTINGS.get(f, [{}])):
                    out.append(("write", f, k, s))
        out += [("read", e, l) for l, e in sorted(files()["__ext__"].items())]
        out += BAD
        out += [("encode", k, s) for k in KINDS for s in (None, {}, {"max_stitch": 10, "thread_change_command": R.NEEDLE_SET, "tie_on": R.TIE_ON}, {"scale": [2, 2], "rotate": 45, "sequin_contingency": 0xE8})]
        out += [("palette", p) for p in PALETTES] + [("colors",), ("formats",), ("ops",), ("build",)]
        _ops = out
    return _ops


_fresh = {}


def want(op, seed=1):
    k = repr((op, seed))
    if k not in _fresh:
        _fresh[k] = fresh(op, files(), seed)
    return _fresh[k]


def history_case(hist, expect):
    for op in hist[:-1]:
        perform(op, files())
    got = perform(hist[-1], files())
    if got != expect:
        return "after %s in the same process, %r gives something else than in a fresh process" % (", ".join(repr(o) for o in hist[:-1]) or "other work", hist[-1])
    return None


def hash_case(op, seed):
    if want(op, seed) != want(op):
        return "%r gives different results with string hash seeds %d and 1" % (op, seed)
    return None


def representatives():
    """one operation per writer, reader family and kind, for the longer histories"""
    out, seen = [], set()
    for op in operations():
        if op[0] == "write" and op[2] == "two" or op[0] not in ("write", "read"):
            k = op[:2] if op[0] == "write" else op[0]
        elif op[0] == "read" and op[1] in ("pes", "jef", "hus", "emd", "shv", "vp3", "zhs", "csv", "phb"):
            k = op[:2]
        else:
            continue
        if k not in seen:
            seen.add(k)
            out.append(op)
    return out


def shards(tier):
    n = len(operations())
    out = [("op", i, tier) for i in range(n)]
    return out


def run(shard, rec):
    _, i, tier = shard
    ops = operations()
    last = ops[i]
    w = want(last)
    rec.sample(repr(last))
    for seed in (0, 2) if tier == "quick" else range(2, 10):
        rec.traces += 1
        rec.case(lambda: hash_case(last, seed), {"kind": "hash", "op": list(last), "seed": seed})
    one(rec, (last,), w)
    for a in ops:
        one(rec, (a, last), w)
    reps = representatives()
    if tier != "quick" or last in reps:
        for a in reps if tier == "quick" else ops:
            for b in reps:
                if tier == "quick" and a[0] == b[0] == "read":
                    continue
                one(rec, (a, b, last), w)


def one(rec, hist, w):
    rec.traces += 1
    rec.transitions += len(hist)
    h = (repr(hist))
    rec.state(h)
    rec.outcome((h, w))
    rec.case(lambda: history_case(hist, w), lambda: {"kind": "history", "ops": [list(o) for o in hist], "want": w})


def replay(data):
    if data["kind"] == "hash":
        return hash_case(tuple(data["op"]), data["seed"])
    hist = [tuple(o) for o in data["ops"]]
    return history_case(hist, want(hist[-1]))


def bounds(tier):
    return ("all pairs of %d operations (writers, readers, encoder, palettes, builders, failing operations) and all triples over %d of them, each compared with a fresh process; %d string hash seeds"
            % (len(operations()), len(representatives()), 3 if tier == "quick" else 9))
