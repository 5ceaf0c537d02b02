"""Pattern builder operations: every sequence of operations on a real EmbPattern against a list model."""
import copy
import itertools

from .. import refenc as R
from .. import rt

PROPERTY = "C31"
LEVEL = "model_checking"
RULE = "case = one sequence of builder operations executed on a real EmbPattern and on a model (a list of commands, the previous location, threads, texts), compared after every operation; distinct_nontrivial = distinct resulting designs"
ASSUMPTIONS = ["relative insertions at positions of the pattern; relative insertion at 0 of an empty pattern is not claimed"]


class Model:
    def __init__(self):
        self.st, self.px, self.py, self.th, self.ex = [], 0, 0, [], {}

    def abs(self, c, x, y):
        self.st.append([x, y, c])
        self.px, self.py = x, y

    def rel(self, c, dx=0, dy=0):
        self.abs(c, self.px + dx, self.py + dy)

    def ins_rel(self, pos, c, dx=0, dy=0):
        n = len(self.st)
        if pos < 0:
            pos += n
        if not (0 <= pos <= n) or n == 0:
            return False
        if pos == n:
            self.rel(c, dx, dy)
        else:
            bx, by = (self.st[pos - 1][0], self.st[pos - 1][1]) if pos else (0, 0)
            self.st.insert(pos, [bx + dx, by + dy, c])
        return True

    def ins(self, pos, c, x, y):
        n = len(self.st)
        if n == 0 or not -n <= pos < n:
            return False
        self.st.insert(pos, [x, y, c])
        return True

    def cmd(self, c, x=0, y=0):
        self.st.append([x, y, c])

    def thread(self, key):
        self.th.append(key)

    def block(self, pts, key=None):
        if key is not None:
            self.thread(key)
        if pts is None or not pts:
            return
        for p in pts:
            self.abs(p[2] if len(p) > 2 else R.STITCH, p[0], p[1])
        self.cmd(R.COLOR_BREAK)

    def pts(self, pts):
        for p in pts:
            self.abs(p[2] if len(p) > 2 else R.STITCH, p[0], p[1])

    def sewn(self):
        return any(s[2] & 0xFF in (R.STITCH, R.SEW_TO, R.NEEDLE_AT) for s in self.st)

    def iadd_color(self, key):
        self.thread(key)
        if self.sewn():
            self.rel(R.COLOR_CHANGE)

    def stitchblock(self, pts, key):
        if self.th and self.th[-1] == key:
            self.rel(R.SEQUENCE_BREAK)
        else:
            self.thread(key)
            self.rel(R.COLOR_BREAK)
        for p in pts:
            self.abs(p[2], p[0], p[1])

    def move_all(self, f):
        if not self.st:
            return
        for s in self.st:
            s[0], s[1] = f(s[0], s[1])
        self.px, self.py = f(self.px, self.py)

    def center(self):
        if not self.st:
            return
        xs, ys = [s[0] for s in self.st], [s[1] for s in self.st]
        dx, dy = round((min(xs) + max(xs)) / 2.0), round((min(ys) + max(ys)) / 2.0)
        self.move_all(lambda x, y: (x - dx, y - dy))


class Obj:
    def __init__(self, x, y, command):
        self.x, self.y, self.command = x, y, command


_pool = {}


def th(k):
    """Two different thread objects, equal to each other, and a third."""
    if not _pool:
        E = rt.lib().EmbThread
        _pool.update(a=E(0xFF0000, "red one"), b=E(0xFF0000, "red one"), c=E(0x0000FF, "blue"))
    return _pool[k]


def named(verb, code, dx, dy):
    """The shorthand in its forms: no argument, relative, positioned."""
    def f(p):
        return getattr(p, verb)

    return [
        (verb, lambda p: f(p)(), lambda m: m.rel(code)),
        (verb + "_d", lambda p: f(p)(dx, dy), lambda m: m.rel(code, dx, dy)),
        (verb + "_0", lambda p: f(p)(dx, dy, position=0), lambda m: m.ins_rel(0, code, dx, dy)),
        (verb + "_1", lambda p: f(p)(dx, dy, position=1), lambda m: m.ins_rel(1, code, dx, dy)),
        (verb + "_last", lambda p: f(p)(dx, dy, position=-1), lambda m: m.ins_rel(-1, code, dx, dy)),
        (verb + "_end", lambda p: f(p)(dx, dy, position=len(p.stitches)), lambda m: m.ins_rel(len(m.st), code, dx, dy)),
    ]


def iadd(p, v):
    q = p
    p += v
    assert p is q, "+= gave a new pattern"


def _w(pts, r):
    return lambda p: iadd(p, pts) if r else p.add_block(pts)


W3 = R.encode(R.NEEDLE_SET, None, 3)
BLOCKS = {
    "pairs": ([(1, 2), (3, 4.5)], [(1, 2), (3, 4.5)]),
    "triples": ([[1, 2, R.JUMP], [3, 4, R.STITCH]], [(1, 2, R.JUMP), (3, 4, R.STITCH)]),
    "mixed": (((7, 8), [9, 1, R.SEW_TO], (2, 2)), [(7, 8), (9, 1, R.SEW_TO), (2, 2)]),
    "complex": ([1 + 2j, 3 - 4j, -300.5 - 1000j], [(1, 2), (3, -4), (-300.5, -1000)]),
    "tcomplex": ((5 + 0j,), [(5, 0)]),
    "ints": ([0, 0, 0, 100, -5, 7], [(0, 0), (0, 100), (-5, 7)]),
    "floats": ((0.5, 1.5, 2.0, 3.0), [(0.5, 1.5), (2.0, 3.0)]),
    "empty": ([], []),
    "tempty": ((), []),
}


def build():
    ops = []
    ops += named("stitch", R.STITCH, 3, -2)
    ops += named("move", R.JUMP, 5, 7)
    ops += named("trim", R.TRIM, 1, 1)
    ops += named("stop", R.STOP, 2, 0)
    ops += named("color_change", R.COLOR_CHANGE, 0, 4)
    ops += named("sequin_eject", R.SEQUIN_EJECT, 6, 1)
    ops += named("sequin_mode", R.SEQUIN_MODE, 1, 6)
    ops += named("end", R.END, 9, 9)
    ops += [
        ("needle", lambda p: p.needle_change(3), lambda m: m.rel(W3)),
        ("needle0", lambda p: p.needle_change(), lambda m: m.rel(R.encode(R.NEEDLE_SET, None, 0))),
        ("needle_d", lambda p: p.needle_change(3, 2, 5), lambda m: m.rel(W3, 2, 5)),
        ("needle_1", lambda p: p.needle_change(3, 2, 5, position=1), lambda m: m.ins_rel(1, W3, 2, 5)),
        ("needle_0", lambda p: p.needle_change(needle=3, dx=2, dy=5, position=0), lambda m: m.ins_rel(0, W3, 2, 5)),
        ("stitch_abs", lambda p: p.stitch_abs(40, 50), lambda m: m.abs(R.STITCH, 40, 50)),
        ("move_abs", lambda p: p.move_abs(-40, 20), lambda m: m.abs(R.JUMP, -40, 20)),
        ("stitch_abs_0", lambda p: p.stitch_abs(40, 50, position=0), lambda m: m.ins(0, R.STITCH, 40, 50)),
        ("stitch_abs_1", lambda p: p.stitch_abs(40, 50, position=1), lambda m: m.ins(1, R.STITCH, 40, 50)),
        ("move_abs_0", lambda p: p.move_abs(-40, 20, position=0), lambda m: m.ins(0, R.JUMP, -40, 20)),
        ("move_abs_last", lambda p: p.move_abs(-40, 20, position=-1), lambda m: m.ins(-1, R.JUMP, -40, 20)),
        ("add_abs", lambda p: p.add_stitch_absolute(R.STOP, 11, 12), lambda m: m.abs(R.STOP, 11, 12)),
        ("add_abs0", lambda p: p.add_stitch_absolute(R.STITCH), lambda m: m.abs(R.STITCH, 0, 0)),
        ("add_rel", lambda p: p.add_stitch_relative(R.SEW_TO, 0.5, -0.25), lambda m: m.rel(R.SEW_TO, 0.5, -0.25)),
        ("add_rel0", lambda p: p.add_stitch_relative(R.NEEDLE_AT), lambda m: m.rel(R.NEEDLE_AT)),
        ("insert_rel1", lambda p: p.insert_stitch_relative(1, R.STITCH, 2, 2), lambda m: m.ins_rel(1, R.STITCH, 2, 2)),
        ("insert_rel2", lambda p: p.insert_stitch_relative(2, R.JUMP), lambda m: m.ins_rel(2, R.JUMP)),
        ("insert0", lambda p: p.insert(0, R.JUMP, 70, 71), lambda m: m.ins(0, R.JUMP, 70, 71)),
        ("insert1", lambda p: p.insert(1, R.TRIM), lambda m: m.ins(1, R.TRIM, 0, 0)),
        ("prepend", lambda p: p.prepend_command(R.O_MAX_STITCH, 30, 1), lambda m: m.st.insert(0, [30, 1, R.O_MAX_STITCH])),
        ("command", lambda p: p.add_command(R.M_SCALE, 2, 3), lambda m: m.cmd(R.M_SCALE, 2, 3)),
        ("command0", lambda p: p.add_command(R.SEQUENCE_BREAK), lambda m: m.cmd(R.SEQUENCE_BREAK)),
        ("append_translation", lambda p: p.append_translation(8, 9), lambda m: m.cmd(R.M_TRANSLATE, 8, 9)),
        ("iadd_int", lambda p: iadd(p, R.COLOR_BREAK), lambda m: m.cmd(R.COLOR_BREAK)),
        ("iadd_str", lambda p: iadd(p, "red"), lambda m: m.iadd_color(("set", 0xFF0000))),
        ("iadd_thread", lambda p: iadd(p, th("a")), lambda m: m.iadd_color(("id", "a"))),
        ("iadd_meta", lambda p: iadd(p, ("name", "nine")), lambda m: m.ex.update(name="nine")),
        ("add_thread", lambda p: p.add_thread(th("c")), lambda m: m.thread(("id", "c"))),
        ("add_thread_hex", lambda p: p.add_thread("#0f0"), lambda m: m.thread(("set", 0x00FF00))),
        ("add_thread_int", lambda p: p.add_thread(0x102030), lambda m: m.thread(("set", 0x102030))),
        ("add_thread_dict", lambda p: p.add_thread({"color": "blue", "name": "n"}), lambda m: m.thread(("set", 0x0000FF))),
        ("metadata", lambda p: p.metadata("author", "x"), lambda m: m.ex.update(author="x")),
        ("setmeta", lambda p: p.__setitem__("name", 3), lambda m: m.ex.update(name=3)),
        ("block_thread", lambda p: p.add_block([(1, 1), (2, 2)], "blue"), lambda m: m.block([(1, 1), (2, 2)], ("set", 0x0000FF))),
        ("block_threadobj", lambda p: p.add_block([(1, 1), (2, 2)], th("c")), lambda m: m.block([(1, 1), (2, 2)], ("id", "c"))),
        ("block_empty_thread", lambda p: p.add_block([], 0x102030), lambda m: m.thread(("set", 0x102030))),
        ("block_none", lambda p: p.add_block(None, "blue"), lambda m: m.thread(("set", 0x0000FF))),
        ("sblock_a", lambda p: p.add_stitchblock(([[4, 4, R.STITCH], [5, 6, R.STITCH]], th("a"))), lambda m: m.stitchblock([(4, 4, R.STITCH), (5, 6, R.STITCH)], ("id", "a"))),
        ("sblock_b", lambda p: p.add_stitchblock(([Obj(8, 4, R.STITCH), Obj(9, 9, R.JUMP)], th("b"))), lambda m: m.stitchblock([(8, 4, R.STITCH), (9, 9, R.JUMP)], ("id", "b"))),
        ("sblock_c", lambda p: p.add_stitchblock(([], th("c"))), lambda m: m.stitchblock([], ("id", "c"))),
        ("translate", lambda p: p.translate(2, -3), lambda m: m.move_all(lambda x, y: (x + 2, y - 3))),
        ("transform", lambda p: p.transform(matrix()), lambda m: m.move_all(lambda x, y: (2 * x + 3, 2 * y - 1))),
        ("center", lambda p: p.move_center_to_origin(), lambda m: m.center()),
        ("clear", lambda p: p.clear(), lambda m: m.__init__()),
        ("setitem", lambda p: p.stitches and p.__setitem__(0, [6, 6, R.JUMP]), lambda m: m.st and m.st.__setitem__(0, [6, 6, R.JUMP])),
        ("set_extend", lambda p: p.get_metadata("zz"), lambda m: None),
    ]
    for k, (real, pts) in sorted(BLOCKS.items()):
        ops.append(("block_" + k, lambda p, real=real: p.add_block(real), lambda m, pts=pts: m.block(pts)))
        ops.append(("iadd_" + k, lambda p, real=real: iadd(p, real), lambda m, pts=pts: m.pts(pts)))
    return ops


def matrix():
    L = rt.lib()
    m = L.EmbMatrix()
    m.pre_scale(2)
    m.pre_translate(3, -1)
    return m


OPS = build()
FEW_NAMES = ("stitch_d", "stitch", "move_1", "trim_end", "stitch_abs", "command", "append_translation", "iadd_str", "iadd_pairs", "block_thread", "sblock_a", "sblock_b", "translate",
             "transform", "center", "insert1", "prepend", "end", "needle_d", "stop_last")
FEW = [o for o in OPS if o[0] in FEW_NAMES]
INDEX = {o[0]: o for o in OPS}


def key_of(t):
    for k in ("a", "b", "c"):
        if t is th(k):
            return ("id", k)
    return ("set", t.color & 0xFFFFFF)


def same(p, m):
    if p.stitches != m.st:
        return "commands are %r, want %r" % (p.stitches, m.st)
    if [key_of(t) for t in p.threadlist] != m.th:
        return "threads are %r, want %r" % (p.threadlist, m.th)
    if p.extras != m.ex:
        return "texts are %r, want %r" % (p.extras, m.ex)
    return None


def look(p, m):
    """Reading access agrees with the model and changes nothing."""
    n = len(m.st)
    if len(p) != n or p.count_stitches() != n or p.count_threads() != len(m.th):
        return "lengths"
    if any(p[k] != m.st[k] for k in range(-n, n)) or p[0:2] != m.st[0:2]:
        return "indexing"
    if any(p[k] != v or p.get_metadata(k) != v for k, v in m.ex.items()) or p.get_metadata("nothing") is not None or p.get_metadata("nothing", 4) != 4:
        return "metadata"
    for k, t in enumerate(m.th):
        if p.get_thread(k) is not p.threadlist[k] or p.get_thread_or_filler(k) is not p.threadlist[k]:
            return "get_thread"
    q = p.copy()
    if not (p == q) or p != q:
        return "a copy is not equal"
    for f in (lambda: q.stitch_abs(1, 1), lambda: q.add_thread("red"), lambda: q.metadata("z", 1)):
        q = p.copy()
        f()
        if p == q or not p != q:
            return "equality does not see a difference"
    for f in (lambda: p.copy(), lambda: rt.lib().EmbPattern(p), lambda: copy.copy(p), lambda: copy.deepcopy(p)):
        q = f()
        if q.stitches != m.st or q.threadlist != p.threadlist or q.extras != m.ex:
            return "a copy differs"
        q.stitch(1, -1)
        if q.stitches[-1] != [m.px + 1, m.py - 1, R.STITCH]:
            return "a copy continues from another place than its source: %r after %r" % (q.stitches[-1], (m.px, m.py))
    s = str(p)
    nums = [int(w) for w in "".join(c if c.isdigit() else " " for c in s).split()]
    if nums[-2:] != [n, len(m.th)]:
        return "printed as %s" % s
    return same(p, m)


def run_seq(names, rec=None):
    p, m = rt.lib().EmbPattern(), Model()
    for n in names:
        _, f, g = INDEX[n]
        if g(m) is False:
            return "skip"
        f(p)
        msg = same(p, m)
        if msg is not None:
            return "after %s of %r: %s" % (n, list(names), msg)
    if rec is not None:
        rec.outcome((repr(m.st), repr(m.th), repr(m.ex)))
    return look(p, m)


def depth(tier):
    return (3, 4) if tier == "quick" else (3, 5)


def bounds(tier):
    d = depth(tier)
    return "all sequences of <= %d of %d operations and <= %d of %d operations" % (d[0], len(OPS), d[1], len(FEW))


def shards(tier):
    d = depth(tier)
    out = []
    for k in range(d[1], -1, -1):
        out += [("few", k, i) for i in range(len(FEW))] if k else [("few", 0, 0)]
    for k in range(d[0], 0, -1):
        out += [("all", k, i) for i in range(len(OPS))]
    return out


def run(shard, rec):
    which, n, i = shard
    ops = FEW if which == "few" else OPS
    for tail in itertools.product(ops, repeat=max(n - 1, 0)):
        names = ((ops[i][0],) if n else ()) + tuple([o[0] for o in tail])

        def one():
            msg = run_seq(names, rec)
            if msg == "skip":
                rec.count("not_enabled")
                return None
            rec.traces += 1
            rec.transitions += n
            rec.state(names)
            return msg

        if rec.traces == 1:
            rec.sample({"ops": names})
        rec.case(one, {"ops": names})


def replay(d):
    return run_seq(d["ops"])
