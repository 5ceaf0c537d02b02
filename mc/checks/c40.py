"""Reading into a pattern that has something already."""
import io
import itertools
import os
import tempfile

from .. import refenc as R
from .. import rt
from .. import samples

PROPERTY = "C40"
LEVEL = "model_checking"
RULE = "case = one sequence of reads into one pattern by the real readers, compared with each file read alone; distinct_nontrivial = distinct (pattern, file) with a file that is not empty"
ASSUMPTIONS = ["what a file means on its own is judged by C12 to C30; the design read is displaced as a whole by the pattern's position (formats of relative stitches) or not at all",
               "a VP3 design that is not displaced may be reached by a jump of its own"]
CMDS = [("s", 5, 0), ("s", -3, 4), ("j", 6, 6), ("j", -6, -6), ("t",), ("c",), ("stop",), ("b",), ("e",)]
THREADS = [[], ["red"], ["red", "red"], ["red", "red", "red", "blue", "blue"]]
COLOR = ("col", "edr", "inf")
SETTINGS = [None, {}, {"trim_at": 1}, {"trim_at": 5, "clipping": False}, {"trim_distance": 1.0}]


def bounds(tier):
    return ("all command sequences of <= %d over %d kinds x %d thread lists x %d sample files of all formats; all pairs%s of files read one after the other into one pattern, then encoded as one; "
            "%d reader settings; 5 ways to read; files cut off or failing" % (2 if tier == "quick" else 3, len(CMDS), len(THREADS), len(files()), "" if tier == "quick" else " and triples", len(SETTINGS)))


_FILES = []


def files():
    if not _FILES:
        for ext, name, data in list(samples.written_files()) + [tuple(x) for x in samples.builder_files()]:
            _FILES.append((ext, name, data))
        d = samples.design("two")
        d.stitch(3, 3)
        for k in range(4):
            d.move(4, 4)
        d.stitch(1, 1)
        d.end()
        for ext in ("dst", "jef", "exp", "pec", "vp3"):
            _FILES.append((ext, ext + ".jumps", rt.dump(ext, d, {"encode": True, "date": "20200102030405"})))
        twice = rt.pattern([(1, 0, R.STITCH), (5, 5, R.STITCH), (0, 0, R.COLOR_CHANGE), (9, 5, R.STITCH), (0, 0, R.STOP), (3, 3, R.STITCH), (0, 0, R.COLOR_CHANGE), (2, 7, R.STITCH), (0, 0, R.END)],
                           [rt.lib().EmbThread(c) for c in (0xFF0000, 0xFF0000, 0x0000FF)])
        for ext in ("pec", "pes", "jef", "dst", "vp3", "u01"):
            _FILES.append((ext, ext + ".twice", rt.dump(ext, twice, {"date": "20200102030405"})))
        _FILES.append(("tbf", "tbf.long", rt.dump("tbf", twice)))
    return _FILES


def build(seq, threads):
    p = rt.lib().EmbPattern()
    for t in threads:
        p.add_thread(t)
    p.metadata("name", "first")
    p.metadata("mine", "kept")
    for c in seq:
        if c[0] == "s":
            p.stitch(c[1], c[2])
        elif c[0] == "j":
            p.move(c[1], c[2])
        else:
            {"t": p.trim, "c": p.color_change, "stop": p.stop, "b": lambda: p.add_command(R.COLOR_BREAK), "e": p.end}[c[0]]()
    return p


def tk(ext, t):
    k = rt.thread_key(t)
    return tuple(k[1:]) if ext == "jpx" else tuple(k)  # colours of JPX threads are random


def snap(p):
    return [tuple(s) for s in p.stitches], [tuple(rt.thread_key(t)) for t in p.threadlist], dict(p.extras)


_ALONE = {}


def alone(i, sk, st=None):
    if (i, sk) not in _ALONE:
        ext, name, data = files()[i]
        p = rt.load(ext, data, st)
        n = len(p.stitches)
        tail = []
        p.stitch(1, 2)  # where the next stitch goes
        tail = tuple(p.stitches.pop())
        del p.stitches[n:]
        _ALONE[(i, sk)] = ([tuple(s) for s in p.stitches], [tk(ext, t) for t in p.threadlist], dict(p.extras), tail)
    return _ALONE[(i, sk)]


def position(p):
    q = p.copy()
    q.stitch(0, 0)
    return tuple(q.stitches[-1][:2])


def appended(q, before, pos, i, al, name):
    """None or what is wrong with q, which had `before` and read file i, that means `al` on its own"""
    ext = files()[i][0]
    st, th, ex = before
    n, m = len(st), len(th)
    if [tuple(s) for s in q.stitches[:n]] != st:
        return "%s: the commands of the pattern %r became %r" % (name, st, [tuple(s) for s in q.stitches[:n]])
    if [tuple(rt.thread_key(t)) for t in q.threadlist[:m]] != th:
        return "%s: the threads of the pattern became %r, were %r" % (name, [rt.thread_key(t) for t in q.threadlist[:m]], th)
    if [tk(ext, t) for t in q.threadlist[m:]] != al[1]:
        return "%s: threads %r added, the file has %r" % (name, [tk(ext, t) for t in q.threadlist[m:]], al[1])
    want = dict(ex)
    want.update(al[2])
    if q.extras != want:
        return "%s: extras %r, want %r" % (name, q.extras, want)
    got = [tuple(s) for s in q.stitches[n:]]
    c = q.copy()
    c.stitch(1, 2)
    tail = tuple(c.stitches[-1])

    def shifted(dx, dy, g, w):
        return len(g) == len(w) and all(abs(a[0] - b[0] - dx) < 1e-6 and abs(a[1] - b[1] - dy) < 1e-6 and a[2] == b[2] for a, b in zip(g, w))
    for dx, dy in {(0, 0), pos}:
        w = al[0]
        if shifted(dx, dy, got, w) and (shifted(dx, dy, [tail], [al[3]]) or not w):
            return None
        if ext == "vp3" and (dx, dy) == (0, 0) and got and got[0][2] & 0xFF == R.JUMP and shifted(0, 0, got[1:], w) and shifted(0, 0, [tail], [al[3]]):
            return None
    return "%s: added to %r at %r: %r, the file alone is %r (next stitch at %r, alone %r)" % (name, st, pos, got[:12], al[0][:12], tail[:2], al[3][:2])


def one(seq, threads, i, sk=0, way=0):
    ext, name, data = files()[i]
    settings = SETTINGS[sk]
    given = None if settings is None else dict(settings)
    al = alone(i, sk, settings)
    p = build(seq, threads)
    pos = position(p)
    before = snap(p)
    E = rt.lib().EmbPattern
    reader = rt.formats()[ext]["reader"]
    text = getattr(reader, "READ_FILE_IN_TEXT_MODE", False)
    if way == 0:
        q = rt.load(ext, data, settings, p)
    else:
        d = tempfile.mkdtemp(prefix="c40-")
        fn = os.path.join(d, "file." + ext)
        try:
            with open(fn, "wb") as f:
                f.write(data.encode("utf8") if isinstance(data, str) else data)
            lib = rt.lib()
            if way == 1:
                q = lib.read(fn, settings, p)
            elif way == 2:
                q = E.read_embroidery(reader, fn, settings, p)
            elif way == 3:
                fnc = getattr(lib, "read_" + ext, None) or lib.read
                q = fnc(fn, settings, pattern=p)
            else:
                q = E.static_read(fn, settings, p)
        finally:
            if os.path.exists(fn):
                os.remove(fn)
            os.rmdir(d)
    if q is not p:
        return "%s: another pattern came back" % name
    if settings != given:
        return "%s: settings %r became %r" % (name, given, settings)
    return appended(p, before, pos, i, al, name)


def chain(idx):
    """several files into one pattern, then sewn as one design"""
    lib = rt.lib()
    p = lib.EmbPattern()
    for k in idx:
        al = alone(k, 0)
        pos = position(p)
        before = snap(p)
        rt.load(files()[k][0], files()[k][2], None, p)
        bad = appended(p, before, pos, k, al, "+".join(files()[i][1] for i in idx))
        if bad:
            return bad
    for s in p.get_match_commands(R.END):
        s[2] = -1
    pts = [tuple(s[:2]) for s in p.stitches if s[2] & 0xFF == R.STITCH]
    enc = p.get_normalized_pattern()
    got = [tuple(s[:2]) for s in enc.stitches if s[2] & 0xFF == R.STITCH]
    if got != pts:
        return "%s written as one: %d penetrations %r, want %d %r" % ([files()[i][1] for i in idx], len(got), got[:8], len(pts), pts[:8])
    return None


class Boom(Exception):
    pass


class Failing(io.BytesIO):
    left = 0

    def read(self, *a):
        self.left -= 1
        if self.left < 0:
            raise Boom()
        return io.BytesIO.read(self, *a)


def failing(i, k):
    """the k-th read fails, or the file is cut off at k: what the pattern had stays"""
    ext, name, data = files()[i]
    reader = rt.formats()[ext]["reader"]
    if getattr(reader, "READ_FILE_IN_TEXT_MODE", False):
        return None
    if isinstance(data, str):
        data = data.encode("utf8")
    for cut in (False, True):
        p = build([CMDS[0], CMDS[2], CMDS[4], CMDS[1], CMDS[5], CMDS[0], CMDS[5], CMDS[1]], THREADS[2])
        before = snap(p)
        f = Failing(data[:k] if cut else data)
        f.left = 10 ** 9 if cut else k
        try:
            rt.lib().EmbPattern.read_embroidery(reader, f, None, p)
        except Exception:
            pass
        got = [tuple(s) for s in p.stitches[:len(before[0])]], [tuple(rt.thread_key(t)) for t in p.threadlist[:len(before[1])]]
        if got[0] != before[0] or got[1] != before[1]:
            return "%s %s at %d: the pattern had %r, has %r" % (name, "cut off" if cut else "failing", k, before, got)
    return None


def shards(tier):
    n = len(files())
    depth = 2 if tier == "quick" else 3
    return ([("base", i, depth) for i in range(n)] + [("ways", i) for i in range(n)] + [("chain", i, tier != "quick") for i in range(n)] + [("fail", i) for i in range(n)])


def run(shard, rec):
    k, i = shard[:2]
    name = files()[i][1]

    def go(fn, d, st):
        rec.traces += 1
        rec.transitions += 1
        rec.state(st)
        rec.outcome(st)
        rec.case(fn, d)
    if k == "base":
        for n in range(shard[2] + 1):
            for seq in itertools.product(CMDS, repeat=n):
                for th in range(len(THREADS)):
                    go(lambda: one(seq, THREADS[th], i), {"one": [[list(c) for c in seq], th, name, 0, 0]}, (k, seq, th, name))
    elif k == "ways":
        for seq in [()] + [(c,) for c in CMDS[:5]] + [(CMDS[0], CMDS[2], CMDS[2], CMDS[2], CMDS[1], CMDS[5], CMDS[0], CMDS[6], CMDS[2], CMDS[6])]:
            for sk in range(len(SETTINGS)):
                for way in range(5):
                    go(lambda: one(seq, THREADS[3], i, sk, way), {"one": [[list(c) for c in seq], 3, name, sk, way]}, (k, seq, name, sk, way))
    elif k == "chain":
        for j in range(len(files())):
            go(lambda: chain([i, j]), {"chain": [name, files()[j][1]]}, (k, name, files()[j][1]))
            if shard[2] and files()[i][1].split(".")[-1] in ("two", "0", "jumps", "twice") or shard[2] and j % 4 == 0:
                for h in range(0, len(files()), 3):
                    go(lambda: chain([i, j, h]), {"chain": [name, files()[j][1], files()[h][1]]}, (k, name, files()[j][1], files()[h][1]))
    else:
        data = files()[i][2]
        for c in (range(len(data)) if len(data) < 700 else itertools.chain(range(150), range(150, len(data), 37))):
            go(lambda: failing(i, c), {"fail": [name, c]}, (k, name, c))


def index(name):
    return [f[1] for f in files()].index(name)


def replay(d):
    if "one" in d:
        seq, th, name, sk, way = d["one"]
        return one([tuple(c) for c in seq], THREADS[th], index(name), sk, way)
    if "chain" in d:
        return chain([index(n) for n in d["chain"]])
    return failing(index(d["fail"][0]), d["fail"][1])
