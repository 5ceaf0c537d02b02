"""Matrix algebra: every sequence of matrix operations against an affine reference."""
import math
import itertools

from .. import refmatrix as M
from .. import rt

PROPERTY = "C38"
LEVEL = "model_checking"
RULE = "case = one sequence of <= depth operations on a real EmbMatrix, after each of which its effect on the sample points is compared with an affine reference; distinct_nontrivial = distinct reference transforms"
ASSUMPTIONS = ["invertible transforms, affine matrices", "agreement within 1e-6 relative"]
PTS = [(0, 0), (1, 0), (0, 1), (7, -3), (-2.5, 11)]

A = (0, -1, 1, 0, 5, 7)  # x' = a x + c y + e ...
B = (2, 1, -1, 1, -3, 4)


def real(t):
    a, b, c, d, e, f = t
    return [a, b, 0, c, d, 0, e, f, 1]


# name -> (operation on the real matrix -> matrix, operation on the reference)
OPS = {
    "post_translate": (lambda E, m: m.post_translate(3, -2), lambda t: M.inner(t, M.translation(3, -2))),
    "pre_translate": (lambda E, m: m.pre_translate(3, -2), lambda t: M.inner(M.translation(3, -2), t)),
    "post_scale": (lambda E, m: m.post_scale(2, -1), lambda t: M.inner(t, M.scaling(2, -1))),
    "post_scale1": (lambda E, m: m.post_scale(0.5), lambda t: M.inner(t, M.scaling(0.5, 0.5))),
    "post_scale_at": (lambda E, m: m.post_scale(2, 3, 5, -4), lambda t: M.inner(t, M.scaling(2, 3, 5, -4))),
    "post_scale_at_y": (lambda E, m: m.post_scale(2, None, 0, 6), lambda t: M.inner(t, M.scaling(2, 2, 0, 6))),
    "pre_scale": (lambda E, m: m.pre_scale(-1, 2), lambda t: M.inner(M.scaling(-1, 2), t)),
    "pre_scale1": (lambda E, m: m.pre_scale(3), lambda t: M.inner(M.scaling(3, 3), t)),
    "post_rotate": (lambda E, m: m.post_rotate(30), lambda t: M.inner(t, M.rotation(30))),
    "post_rotate_at": (lambda E, m: m.post_rotate(90, 4, 1), lambda t: M.inner(t, M.rotation(90, 4, 1))),
    "post_rotate_at_x": (lambda E, m: m.post_rotate(-90, 4, None), lambda t: M.inner(t, M.rotation(-90, 4, 0))),
    "pre_rotate": (lambda E, m: m.pre_rotate(90), lambda t: M.inner(M.rotation(90), t)),
    "post_cat": (lambda E, m: m.post_cat([real(A), real(B)]), lambda t: M.inner(M.inner(t, A), B)),
    "pre_cat": (lambda E, m: m.pre_cat([real(A), real(B)]), lambda t: M.inner(B, M.inner(A, t))),
    "matmul": (lambda E, m: m @ E(real(A)), lambda t: M.inner(t, A)),
    "rmatmul": (lambda E, m: E(real(A)) @ m, lambda t: M.inner(A, t)),
    "imatmul": (None, lambda t: M.inner(t, A)),
    "inverse": (lambda E, m: m.inverse(), M.invert),
    "reset": (lambda E, m: m.reset(), lambda t: M.IDENTITY),
}
NAMES = sorted(OPS)
PURE = ("matmul", "rmatmul")


def near(a, b):
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


def same(m, t):
    for x, y in PTS:
        w = M.apply(t, x, y)
        for got in (m.point_in_matrix_space(x, y), m.point_in_matrix_space((x, y)), m.point_in_matrix_space([x, y, 5])):
            if not (near(got[0], w[0]) and near(got[1], w[1])):
                return "(%r, %r) goes to %r, wants %r" % (x, y, got, w)
        got = m.point_in_matrix_space([x, y, 77])
        if len(got) != 3 or got[2] != 77:
            return "the command of a stitch is not kept: %r" % (got,)
        v = [x, y, 9]
        m.apply(v)
        if not (near(v[0], w[0]) and near(v[1], w[1])) or v[2] != 9:
            return "apply gives %r, wants %r" % (v, w)
    g = m.get_matrix()
    for got, want in zip(g, real(t)):
        if not near(got, want):
            return "matrix %r, wants %r" % (g, real(t))
    nums = [float(v) for v in str(m).replace("[", " ").replace("]", " ").replace(",", " ").split()]
    if len(nums) != 9 or any(abs(a - b) > 1e-6 + 1e-6 * abs(b) for a, b in zip(nums, g)):
        return "printed as %s" % m
    if not (m == type(m)(tuple(g)) and m == type(m)(list(g))) or m != type(m)(list(g)) or m == type(m)([v + 1 for v in g]):
        return "equality"
    return None


def run_seq(names):
    E = rt.lib().EmbMatrix
    m = E()
    t = M.IDENTITY
    other = E(real(A))
    for n in names:
        f, r = OPS[n]
        if n == "imatmul":
            m @= other
            res = None
        else:
            before = list(m.get_matrix())
            res = f(E, m)
            if n in PURE:
                if list(m.get_matrix()) != before:
                    return "%s changed its operand" % n
                m = res
        t = r(t)
        if m is None:
            return "%s gives None" % n
        msg = same(m, t)
        if msg is not None:
            return "after %r: %s" % (names, msg)
        if len(names) <= 2:
            g = list(m.get_matrix())
            if any(m == E([v + (i == k) for i, v in enumerate(g)]) or not m != E([v + (i == k) for i, v in enumerate(g)]) for k in range(9)):
                return "after %r: a different matrix is equal" % (names,)
    if list(other.get_matrix()) != real(A):
        return "right operand was changed"
    if same(E(), M.IDENTITY) is not None:
        return "a new matrix is not the identity after %r" % (names,)
    return None


def pattern_case(names):
    """EmbPattern.transform applies the matrix to every command."""
    L = rt.lib()
    m = L.EmbMatrix()
    t = M.IDENTITY
    for n in names:
        if n == "imatmul":
            continue
        res = OPS[n][0](L.EmbMatrix, m)
        if n in PURE:
            m = res
        t = OPS[n][1](t)
    p = rt.pattern([(x, y, k) for k, (x, y) in enumerate(PTS)])
    p.transform(m)
    for k, (s, (x, y)) in enumerate(zip(p.stitches, PTS)):
        w = M.apply(t, x, y)
        if not (near(s[0], w[0]) and near(s[1], w[1]) and s[2] == k):
            return "transform gives %r for %r, wants %r" % (s, (x, y), w)
    return None


def depth(tier):
    return 4 if tier == "quick" else 5


def bounds(tier):
    return "all sequences of <= %d of %d matrix operations on %d points" % (depth(tier), len(NAMES), len(PTS))


def shards(tier):
    d = depth(tier)
    return [(n, k) for n in range(d, 0, -1) for k in range(len(NAMES))] + [("static", k) for k in range(0, 360, 45)]


def static(deg):
    """The matrices made without an instance, and by an angle."""
    E = rt.lib().EmbMatrix
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    for got, want in ((E.get_identity(), (1, 0, 0, 0, 1, 0, 0, 0, 1)), (E.get_scale(deg), (deg, 0, 0, 0, deg, 0, 0, 0, 1)), (E.get_scale(deg, 3), (deg, 0, 0, 0, 3, 0, 0, 0, 1)),
                      (E.get_translate(deg, -2), (1, 0, 0, 0, 1, 0, deg, -2, 1)), (E.get_rotate(deg), (c, s, 0, -s, c, 0, 0, 0, 1))):
        if len(got) != 9 or not all(near(a, b) for a, b in zip(got, want)):
            return "%r, want %r" % (got, want)
    return None


def run(shard, rec):
    n, k = shard
    if n == "static":
        for deg in range(k - 720, k - 675) if k < 180 else range(k, k + 45):
            rec.traces += 1
            rec.transitions += 5
            rec.state(("static", deg))
            rec.case(lambda: static(deg), {"static": deg})
        return
    for tail in itertools.product(NAMES, repeat=n - 1):
        names = (NAMES[k],) + tail
        # every prefix is judged in its own shard: judge the last state here
        rec.transitions += n
        rec.traces += 1
        rec.state(names)
        rec.outcome(names)
        rec.case(lambda: last(names), {"ops": names})
        if n <= 2:
            rec.case(lambda: pattern_case(names), {"pattern": names})
    rec.sample({"ops": (NAMES[k],) * n})


def last(names):
    if len(names) <= 3:
        return run_seq(names)
    E = rt.lib().EmbMatrix
    m = E()
    t = M.IDENTITY
    for n in names:
        if n == "imatmul":
            m @= E(real(A))
        else:
            res = OPS[n][0](E, m)
            if n in PURE:
                m = res
        t = OPS[n][1](t)
    for x, y in PTS:
        w = M.apply(t, x, y)
        got = m.point_in_matrix_space(x, y)
        if not (near(got[0], w[0]) and near(got[1], w[1])):
            return "after %r: (%r, %r) goes to %r, wants %r" % (names, x, y, got, w)
    return None


def replay(d):
    if "static" in d:
        return static(d["static"])
    if "pattern" in d:
        return pattern_case(d["pattern"])
    return run_seq(d["ops"])
