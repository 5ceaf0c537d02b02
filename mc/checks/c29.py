"""Files by name: dispatch on the extension, conversion, and histories of operations on a directory."""
import io
import itertools
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

from .. import core
from .. import rt
from .. import samples

PROPERTY = "C29"
LEVEL = "model_checking"
RULE = "case = one operation on a named file (or one history of them), compared with the same operation on streams; distinct_nontrivial = distinct (operation, content of the directory)"
ASSUMPTIONS = ["the scratch directory is on a file system that keeps letter case", "the colours of JPX files are random by design and are drawn from one seed"]

# format -> its extensions, whether it is read, whether it is written (from the documentation)
TABLE = {}
for _f in "pec pes exp dst jef vp3 xxx tbf pmv edr inf".split():
    TABLE[_f] = ((_f,), True, True)
for _f in "csv json col".split():
    TABLE[_f] = ((_f,), True, True)
for _f in "sew shv 10o 100 bro dat dsb dsz emd gt inb ksm tap spx stx phb phc new max mit pcd pcq pcm pcs jpx stc zhs hus".split():
    TABLE[_f] = ((_f,), True, False)
for _f in "svg png txt".split():
    TABLE[_f] = ((_f,), False, True)
TABLE["u01"] = (("u00", "u01", "u02"), True, True)
TABLE["exy"] = (("exy", "e00", "e01", "e02"), True, False)
TABLE["fxy"] = (("fxy", "f00", "f01", "f02"), True, False)
TABLE["zxy"] = (("zxy", "z00", "z01", "z02"), True, False)
TABLE["gcode"] = (("gcode", "g-code", "ngc", "nc", "g"), True, True)
OWN = {"pec", "pes", "exp", "dst", "jef", "vp3", "xxx", "tbf", "csv", "json", "u01", "gcode"}  # read_xxx/write_xxx exist
WOWN = OWN | {"txt", "svg", "png"}
TEXTW = {"csv", "json", "col"}


def as_bytes(d):
    return d.encode("utf8") if isinstance(d, str) else bytes(d)


def view(p):
    if p is None:
        return None
    return ([tuple(s) for s in p.stitches], [rt.thread_key(t) for t in p.threadlist], dict(p.extras))


def names(e):
    out = ["x." + e, "x." + e.upper(), "x." + e.title(), "a.dst.pes." + e, "d.csv/x." + e, "two words." + e, "\u00fc\u4e2d." + e, "x..%s" % e, "_.%s" % e[:1] + "." + e]
    if len(e) > 1:
        out.append("x." + e[:-1] + e[-1].upper())
        out.append("x." + e[0].upper() + e[1:])
    return sorted(set(out))


RELATIVE = False


class Dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c29-", dir=os.environ.get("MC_SCRATCH"))
        os.mkdir(os.path.join(self.d, "d.csv"))
        self.old = os.getcwd() if RELATIVE else None
        if RELATIVE:
            os.chdir(self.d)
        return self

    def __exit__(self, *a):
        if self.old is not None:
            os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)

    def path(self, n):
        return n if RELATIVE else os.path.join(self.d, n)

    def put(self, n, data):
        with open(os.path.join(self.d, n), "wb") as f:
            f.write(data)

    def get(self, n):
        try:
            with open(os.path.join(self.d, n), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def listing(self):
        out = {}
        for root, ds, fs in os.walk(self.d):
            for f in fs:
                q = os.path.join(root, f)
                with open(q, "rb") as g:
                    out[os.path.relpath(q, self.d)] = g.read()
        return out


def stream_read(fmt, data, settings=None):
    random.seed(7)
    return view(rt.load(fmt, data, settings))


def by_name_read(how, fmt, path, settings):
    P = rt.lib()
    random.seed(7)
    if how == "read":
        return view(P.read(path, settings))
    if how == "ctor":
        return view(P.EmbPattern(path, settings))
    if how == "ctor_kw":
        return view(P.EmbPattern(path, **(settings or {})))
    if how == "ctor_settings":
        return view(P.EmbPattern(path, settings=settings))
    if how == "method":
        p = P.EmbPattern()
        p.read(path, **(settings or {}))
        return view(p)
    if how == "into":
        p = P.EmbPattern()
        q = P.EmbPattern.static_read(path, settings, p)
        if q is not p:
            return "another pattern was returned"
        return view(p)
    if how == "own":
        return view(getattr(P, "read_" + fmt)(path, settings))
    if how == "own_static":
        return view(getattr(P.EmbPattern, "read_" + fmt)(path, settings))
    raise AssertionError(how)


def by_name_write(how, fmt, p, path, settings):
    P = rt.lib()
    if how == "write":
        P.write(p, path, settings)
    elif how == "method":
        p.write(path, **(settings or {}))
    elif how == "own":
        getattr(P, "write_" + fmt)(p, path, settings)
    elif how == "own_static":
        getattr(P.EmbPattern, "write_" + fmt)(p, path, settings)


_files = None


def all_files():
    """[(format, label, bytes)] for every readable format"""
    global _files
    if _files is None:
        _files = [(e, l, as_bytes(d)) for e, l, d in samples.builder_files()]
        _files += [(e, l, as_bytes(d)) for e, l, d in samples.written_files(("two", "rich"))]
    return _files


FMT = {}


def read_case(fmt, label, name, how, settings):
    data = next(d for e, l, d in all_files() if l == label)
    with Dir() as D:
        D.put(name, data)
        want = stream_read(fmt, data, settings)
        got = by_name_read(how, fmt, D.path(name), settings)
        if got != want:
            return "%s(%r) gives another design than reading the same bytes as %s: %s" % (how, name, fmt, short(got, want))
        if D.listing() != {name: data}:
            return "reading %r changed the directory" % name
    return None


def short(got, want):
    if got is None or isinstance(got, str) or want is None:
        return repr(got)[:200]
    for a, b, w in zip(got, want, ("stitches", "threads", "extras")):
        if a != b:
            return "%s %r instead of %r" % (w, str(a)[:300], str(b)[:300])
    return "?"


def write_case(fmt, kind, name, how, settings):
    p = samples.design(kind)
    want = as_bytes(rt.dump(fmt, p, settings))
    with Dir() as D:
        D.put(name, b"old content" * 10000)
        by_name_write(how, fmt, samples.design(kind), D.path(name), settings)
        got = D.listing()
        if got != {name: want}:
            return "%s(%r) wrote %s, not the %d bytes of a %s file" % (how, name, {k: (len(v), v[:20]) for k, v in got.items()}, len(want), fmt)
    return None


def convert_bytes(src, data, dst, settings):
    """the model: read the bytes, write the pattern"""
    random.seed(7)
    p = rt.load(src, data, settings)
    return as_bytes(rt.dump(dst, p, settings))


def convert_case(src, label, dst, settings):
    data = next(d for e, l, d in all_files() if l == label)
    P = rt.lib()
    with Dir() as D:
        a, b = "in." + src, "d.csv/out." + dst
        D.put(a, data)
        try:
            want = convert_bytes(src, data, dst, settings)
        except Exception as e:
            want = e
        random.seed(7)
        try:
            P.convert(D.path(a), D.path(b), settings)
        except Exception as e:
            if isinstance(want, Exception) and type(e) is type(want):
                return None
            return "convert %s to %s raises %r" % (src, dst, e)
        if isinstance(want, Exception):
            return "convert %s to %s does not raise %r" % (src, dst, want)
        if D.listing() != {a: data, b: want}:
            return "convert %s to %s gives other bytes than reading and writing" % (src, dst)
    return None


UNKNOWN = ["x", "x.", "x.qqq", "x.ds", "x.dstt", "dst", "x.dst~", "x.pes.bak", "x.txt2", "x. dst", "x.dst ", "csv", "DST", "d.csv/x", "d.csv/pes"]


def unsupported_case(kind, name, existing):
    P = rt.lib()
    old = {name: b"precious"} if existing else {}
    with Dir() as D:
        for n, d in old.items():
            D.put(n, d)
        src = dict(old)
        path = D.path(name)
        if kind == "write":
            ops = [lambda: P.write(samples.design("two"), path), lambda: samples.design("two").write(path), lambda: P.write(samples.design("empty"), path, {}), lambda: P.write(rt.pattern([]), path)]
        elif kind == "convert_to":
            D.put("in.dst", rt.dump("dst", samples.design("two")))
            src = D.listing()
            ops = [lambda: P.convert(D.path("in.dst"), path), lambda: P.convert(D.path("in.dst"), path, {"encode": True})]
        elif kind == "convert_from":
            out = D.path("out.dst")
            for op in (lambda: P.convert(path, out), lambda: P.convert(path, D.path("out.qqq")), lambda: P.convert(path, D.path("out.hus"))):
                r = op()
                if r is not None or D.listing() != src:
                    return "convert from %r, which cannot be read, returns %r and leaves %r" % (name, r, sorted(D.listing()))
            return None
        elif kind == "read":
            r = P.read(path)
            if r is not None:
                return "read(%r) gives %r" % (name, r)
            p = samples.design("two")
            before = view(p)
            p.read(path)
            if view(p) != before:
                return "p.read(%r) changed the pattern" % name
            q = P.EmbPattern(path)
            if view(q) != ([], [], {}):
                return "EmbPattern(%r) is not empty" % name
            if D.listing() != src:
                return "reading %r changed the directory" % name
            return None
        for k, op in enumerate(ops):
            try:
                op()
            except IOError:
                pass
            else:
                return "%s %r (%d) raises no IOError" % (kind, name, k)
            if D.listing() != src:
                return "%s %r (%d) raises IOError, but leaves %r" % (kind, name, k, {n: len(v) for n, v in D.listing().items()})
    return None


def missing_case(fmt, e):
    P = rt.lib()
    with Dir() as D:
        for op in (lambda: P.read(D.path("x." + e)), lambda: P.EmbPattern(D.path("x." + e)), lambda: P.EmbPattern().read(D.path("x." + e)), lambda: P.convert(D.path("x." + e), D.path("y.dst"))):
            try:
                op()
            except FileNotFoundError:
                pass
            else:
                return "reading a missing %s file raises no error" % e
            if D.listing():
                return "reading a missing file created %r" % sorted(D.listing())
    return None


def table_case():
    got = {}
    seen = {}
    for d in rt.lib().supported_formats():
        if d["extension"] in got:
            return "two entries of supported_formats have extension %r" % d["extension"]
        exts = set(d["extensions"]) | {d["extension"]}
        for e in exts:
            if e in seen:
                return "extension %r belongs to %s and %s" % (e, seen[e], d["extension"])
            if e != e.lower() or not e or e.startswith("."):
                return "extension %r can never match" % e
            seen[e] = d["extension"]
        got[d["extension"]] = (exts, d.get("reader") is not None, d.get("writer") is not None)
    for f, (exts, r, w) in TABLE.items():
        if f not in got:
            return "format %s is not supported" % f
        if (r and not got[f][1]) or (w and not got[f][2]) or not set(exts) <= got[f][0]:
            return "format %s: %r, documented %r" % (f, got[f], TABLE[f])
    return None


# ---- histories of operations on a directory --------------------------------------------
NAMES = ["a.dst", "b.PES", "c.json", "d.exp", "e.csv", "f.svg", "g.jef"]
HREAD = {"a.dst": "dst", "b.PES": "pes", "c.json": "json", "d.exp": "exp", "e.csv": "csv", "g.jef": "jef"}
HWRITE = dict(HREAD)
HWRITE["f.svg"] = "svg"
KINDS = ("two", "rich", "one")
_memo = {}


def memo(key, fn):
    if key not in _memo:
        try:
            _memo[key] = fn()
        except Exception as e:
            _memo[key] = e
    return _memo[key]


def ops_of(ns):
    out = [("write", k, n) for k in KINDS for n in ns if n in HWRITE]
    out += [("convert", a, b) for a in ns for b in ns]
    out += [("read", n) for n in ns]
    return out


S = samples.DATE


def model_write(fmt, kind):
    random.seed(7)
    return as_bytes(rt.dump(fmt, samples.design(kind), S))


def model(state, op):
    """(new state, exception type or None, value read or None); a state is a tuple of (name, bytes)"""
    d = dict(state)
    if op[0] == "write":
        d[op[2]] = memo(op[:2] + (HWRITE[op[2]],), lambda: model_write(HWRITE[op[2]], op[1]))
        return tuple(sorted(d.items())), None, None
    if op[0] == "read":
        if op[1] not in HREAD:
            return state, None, None
        if op[1] not in d:
            return state, FileNotFoundError, None
        data = d[op[1]]
        return state, None, memo(("r", HREAD[op[1]], data), lambda: stream_read(HREAD[op[1]], data, S))
    a, b = op[1], op[2]
    if a not in HREAD:
        return state, None, None
    if a not in d:
        return state, FileNotFoundError, None
    data = d[a]
    d[b] = memo(("c", HREAD[a], data, HWRITE[b]), lambda: convert_bytes(HREAD[a], data, HWRITE[b], S))
    return tuple(sorted(d.items())), None, None


def perform(D, op):
    P = rt.lib()
    random.seed(7)
    try:
        if op[0] == "write":
            P.write(samples.design(op[1]), D.path(op[2]), S)
        elif op[0] == "read":
            return None, view(P.read(D.path(op[1]), S))
        else:
            P.convert(D.path(op[1]), D.path(op[2]), S)
    except Exception as e:
        return type(e), None
    return None, None


def history_case(ops, rec=None):
    with Dir() as D:
        st = ()
        for k, op in enumerate(ops):
            st, wexc, wval = model(st, op)
            exc, val = perform(D, op)
            if exc is not wexc:
                return "after %r: %r raises %s, expected %s" % (ops[:k], op, exc, wexc)
            if val != wval:
                return "after %r: %r gives %s" % (ops[:k], op, short(val, wval))
            if D.listing() != dict(st):
                got = D.listing()
                bad = [n for n in set(got) | set(dict(st)) if got.get(n) != dict(st).get(n)]
                return "after %r: %r leaves %r with other content than the model" % (ops[:k], op, bad)
        if rec is not None:
            rec.state(("dir", st))
            rec.outcome((ops[-1][0], st))
    return None


# ---- text under an ASCII locale ---------------------------------------------------------
LOCALE = r'''
import sys, json, os
sys.path.insert(0, sys.argv[1])
import pyembroidery as P
from pyembroidery import *
d = sys.argv[2]
out = {}
for e in sys.argv[3].split(","):
    p = EmbPattern()
    p.metadata("name", "N\u00e9\u4e2d\n\u2028x")
    p.metadata("author", "\u00fc")
    p += EmbThread(0x112233)
    p.threadlist[0].description = "d\u00e9\u4e2d"
    p.threadlist[0].catalog_number = "\u00df1"
    p.add_stitch_absolute(STITCH, 0, 0)
    p.add_stitch_absolute(STITCH, 10, 5)
    p.add_stitch_absolute(END)
    n = os.path.join(d, "x." + e)
    try:
        P.write(p, n)
        q = P.read(n) if e not in ("txt", "svg", "png") else None
        out[e] = [open(n, "rb").read().hex(), None if q is None else [[list(s) for s in q.stitches], [[t.color, t.description, t.catalog_number] for t in q.threadlist], q.extras]]
    except Exception as x:
        out[e] = repr(x)
print(json.dumps(out, default=repr))
'''
LFORMATS = ("csv", "json", "col", "txt", "gcode", "svg", "edr", "inf", "vp3", "pes", "dst")


def locale_run(env):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHON"))}
    e.update(env)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    with Dir() as D:
        r = subprocess.run([sys.executable, "-B", "-c", LOCALE, core.REPO, D.d, ",".join(LFORMATS)], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    return json.loads(r.stdout.decode("ascii")) if r.returncode == 0 else {"error": r.stderr.decode("utf8", "replace")[-500:]}


ENVS = [{"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "PYTHONIOENCODING": "latin-1"}]


def locale_case(env):
    want = locale_run({"LC_ALL": "C.UTF-8", "PYTHONUTF8": "1"})
    got = locale_run(env)
    for k in sorted(set(want) | set(got)):
        if got.get(k) != want.get(k):
            return "under %r, %s files come out as %s, under UTF-8 as %s" % (env, k, str(got.get(k))[:300], str(want.get(k))[:300])
        if isinstance(want[k], str):
            return "a %s design with texts that are not ASCII fails: %s" % (k, want[k])
    return None


def hows_r(f):
    return ["read", "ctor", "ctor_kw", "ctor_settings", "method", "into"] + (["own", "own_static"] if f in OWN else [])


def hows_w(f):
    return ["write", "method"] + (["own", "own_static"] if f in WOWN else [])


RS = {"dst": {"trim_at": 10 ** 6, "clipping": False}, "exy": {"trim_at": 10 ** 6, "clipping": False}, "tap": {"trim_at": 10 ** 6, "clipping": False}, "jef": {"trim_distance": None, "clipping": False}}
WS = {"pes": [{"version": "6"}, {"version": "1t"}], "dst": [{"extended header": True}], "csv": [{"version": "delta"}], "txt": [{"mimic": True}], "gcode": [{"increment": 5}], "exp": [{"translate": (3, 4)}], "vp3": [{"scale": (2, 2)}], "svg": [{"round": True}]}


def shards(tier):
    out = [("table",), ("unknown",), ("locale",), ("missing",)]
    out += [("read", f) for f in TABLE if TABLE[f][1]]
    out += [("write", f) for f in TABLE if TABLE[f][2]]
    out += [("convert", f) for f in TABLE if TABLE[f][1]]
    deep = 3
    ns = NAMES[:3] if tier == "quick" else NAMES[:5]
    for op in ops_of(NAMES):
        out.append(("hist2", op))
    for op in ops_of(ns):
        out.append(("hist", op, deep, tuple(ns)))
    return out


def run(shard, rec):
    kind = shard[0]
    if kind == "table":
        rec.traces += 1
        rec.case(table_case, {"kind": "table"})
    elif kind == "unknown":
        for n in UNKNOWN:
            for k in ("write", "convert_to", "convert_from", "read"):
                for ex in (False, True):
                    one(rec, ("unsupported", k, n, ex))
                    one(rec, ("relative", ("unsupported", k, n, ex)))
        for f, (exts, r, w) in TABLE.items():
            for e in exts:
                for n in ("x." + e, "x." + e.upper()):
                    for ex in (False, True):
                        if not w:
                            one(rec, ("unsupported", "write", n, ex))
                            one(rec, ("unsupported", "convert_to", n, ex))
                        if not r:
                            one(rec, ("unsupported", "convert_from", n, ex))
                            one(rec, ("unsupported", "read", n, ex))
    elif kind == "missing":
        for f, (exts, r, w) in TABLE.items():
            if r:
                for e in exts:
                    one(rec, ("missing", f, e))
    elif kind == "locale":
        for k in range(len(ENVS)):
            one(rec, ("locale", k))
    elif kind == "read":
        f = shard[1]
        for e, label, data in all_files():
            if e == f:
                first = True
                for x in TABLE[f][0]:
                    for n in names(x):
                        for how in hows_r(f):
                            for s in ([None, RS[f]] if f in RS else [None]):
                                if first or how in ("read", "method") and n in ("x." + x, "x." + x.upper()):
                                    one(rec, ("read", f, label, n, how, s))
                                    if first and s is None:
                                        one(rec, ("relative", ("read", f, label, n, how, s)))
                first = False
    elif kind == "write":
        f = shard[1]
        for k in ("two", "rich"):
            for x in TABLE[f][0]:
                for n in names(x):
                    for how in hows_w(f):
                        for s in [dict(samples.DATE)] + [dict(samples.DATE, **w) for w in WS.get(f, [])]:
                            one(rec, ("write", f, k, n, how, s))
                            if k == "two" and len(s) == 1:
                                one(rec, ("relative", ("write", f, k, n, how, s)))
    elif kind == "convert":
        f = shard[1]
        for e, label, data in all_files():
            if e == f:
                for g in TABLE:
                    if TABLE[g][2]:
                        for s in [samples.DATE] + [dict(samples.DATE, **w) for w in WS.get(g, [])]:
                            one(rec, ("convert", f, label, g, s))
    elif kind == "hist2":
        for op in ops_of(NAMES):
            hist(rec, (shard[1], op))
    elif kind == "hist":
        _, first, depth, ns = shard
        st = model((), first)[0]
        # explicit-state search: every (state, operation) reached within the depth, once
        frontier, seen = {st: (first,)}, {st}
        for d in range(1, depth):
            nxt = {}
            for s, path in frontier.items():
                for op in ops_of(ns):
                    hist(rec, path + (op,))
                    s2 = model(s, op)[0]
                    if s2 not in seen:
                        seen.add(s2)
                        nxt[s2] = path + (op,)
            frontier = nxt


def hist(rec, ops):
    rec.traces += 1
    rec.transitions += len(ops)
    rec.case(lambda: history_case(ops, rec), lambda: {"kind": "history", "ops": [list(o) for o in ops]})


def one(rec, c):
    rec.traces += 1
    rec.transitions += 1
    rec.state(core.canon(c))
    rec.outcome(core.canon(c))
    rec.sample(repr(c))
    rec.case(lambda: go(c), lambda: {"kind": "one", "case": list(c)})


def go(c):
    global RELATIVE
    if c[0] == "relative":
        RELATIVE = True
        try:
            return go(c[1])
        finally:
            RELATIVE = False
    fn = {"unsupported": unsupported_case, "missing": missing_case, "read": read_case, "write": write_case, "convert": convert_case, "locale": lambda k: locale_case(ENVS[k])}[c[0]]
    return fn(*c[1:])


def replay(data):
    if data["kind"] == "table":
        return table_case()
    if data["kind"] == "one":
        return go(tuple(data["case"]))
    return history_case(tuple(tuple(o) for o in data["ops"]))


def bounds(tier):
    return ("every extension of all %d formats x letter cases x odd names x every way of reading and writing by name; every readable x writable pair converted; unknown, unwritable and unreadable targets with and without an existing file; absolute and relative names; "
            "all histories of 2 operations on %d names and explicit-state search to depth 3 on %d names; %d locales x %d formats" % (len(TABLE), len(NAMES), 3 if tier == "quick" else 5, len(ENVS), len(LFORMATS)))
