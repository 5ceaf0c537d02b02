"""Views of a pattern: stitch blocks, colour blocks, command blocks, stable pattern, colour counts, over all command sequences."""
import itertools

from .. import refenc as R
from .. import rt

PROPERTY = "C33"
LEVEL = "model_checking"
RULE = "case = one command sequence with one threadlist; every generator of blocks is compared with a direct reference; distinct_nontrivial = distinct (block sizes, block threads)"
ASSUMPTIONS = ["missing threads are filled with any thread"]
ALPHA = [(3, 4, R.STITCH), (5, 9, R.encode(R.STITCH, 1)), (1, 2, R.JUMP), (0, 0, R.TRIM), (6, 6, R.COLOR_CHANGE), (0, 0, R.encode(R.COLOR_CHANGE, 2, 1)),
         (0, 0, R.COLOR_BREAK), (0, 0, R.encode(R.NEEDLE_SET, None, 3)), (0, 0, R.STOP), (8, 8, R.END), (2, 7, R.SEW_TO), (2, 8, R.NEEDLE_AT), (4, 4, R.SEQUIN_EJECT)]
SHORT = [ALPHA[0], ALPHA[2], ALPHA[4], ALPHA[6], ALPHA[7]]


def thread_list(n):
    """n different threads, or (n < 0) the same thread -n times, or (n < -10) that many equal threads."""
    E = rt.lib().EmbThread
    if n < -10:
        return [E(0x123456, "same") for _ in range(-10 - n)]
    if n < 0:
        return [E(0x123456, "same")] * -n
    return [E(0x111111 * (k + 1), "t%d" % k) for k in range(n)]


def is_thread(got, threads, k):
    """block k of the threadlist, or any filler."""
    if k < len(threads):
        return got is threads[k]
    return got is not None and got not in threads and 0 <= got.color & 0xFFFFFF


SEWN = (R.STITCH, R.SEW_TO, R.NEEDLE_AT, R.SEQUIN_EJECT)


def ref_changes(st):
    """For every record the number of thread changes up to it, itself included: every color change, and every
    color break or needle set, unless nothing was sewn and no needle set or colour changed before it."""
    out, n, started = [], 0, False
    for s in st:
        c = s[2] & 0xFF
        if c == R.COLOR_CHANGE or (started and c in (R.COLOR_BREAK, R.NEEDLE_SET)):
            n += 1
        if c in SEWN or c in (R.COLOR_CHANGE, R.NEEDLE_SET):
            started = True
        out.append(n)
    return out


def ref_stitch_blocks(st):
    out, cur, k = [], [], 0
    for s, change in zip(st, ref_changes(st)):
        if s[2] & 0xFF == R.STITCH:
            cur.append(s)
            continue
        if cur:
            out.append((cur, k))
            cur = []
        k = change
    if cur:
        out.append((cur, k))
    return out


def ref_color_blocks(st):
    """Blocks end with their colour change, begin with their needle set, and are divided by colour breaks,
    which belong to none and never make an empty block."""
    out, cur = [], []
    for s in st:
        c = s[2] & 0xFF
        if c == R.COLOR_BREAK:
            if cur:
                out.append(cur)
            cur = []
        elif c == R.COLOR_CHANGE:
            out.append(cur + [s])
            cur = []
        elif c == R.NEEDLE_SET:
            if cur:
                out.append(cur)
            cur = [s]
        else:
            cur.append(s)
    if cur:
        out.append(cur)
    return out


def ref_sewn_blocks(st):
    n, fresh = 0, True
    for s in st:
        c = s[2] & 0xFF
        if c in (R.STITCH, R.SEW_TO, R.NEEDLE_AT):
            if fresh:
                n += 1
            fresh = False
        elif c in (R.COLOR_CHANGE, R.COLOR_BREAK, R.NEEDLE_SET):
            fresh = True
    return n


def judge(seq, nthreads, rec=None):
    threads = thread_list(nthreads)
    p = rt.pattern(seq, threads, {"name": "n", "k": 5})
    src = [list(s) for s in seq]
    # command blocks
    blocks = list(p.get_as_command_blocks())
    flat = [s for b in blocks for s in b]
    want = [list(g) for _, g in itertools.groupby(src, key=lambda s: s[2] & 0xFF)]
    if flat != src or [b for b in blocks if b] != want:
        return "command blocks %r, want %r" % (blocks, want)
    # stitch blocks
    sb = list(p.get_as_stitchblock())
    ref = ref_stitch_blocks(src)
    if [b for b, _ in sb] != [b for b, _ in ref]:
        return "stitch blocks %r, want %r" % (sb, ref)
    for (b, t), (_, k) in zip(sb, ref):
        if not is_thread(t, threads, k):
            return "stitch block %r has thread %r, wants thread %d" % (b, t, k)
    # colour blocks
    cb = list(p.get_as_colorblocks())
    ref2 = ref_color_blocks(src)
    if [b for b, _ in cb] != ref2:
        return "colour blocks %r, want %r" % (cb, ref2)
    k, started = 0, False
    for b, t in cb:
        if not is_thread(t, threads, k):
            return "colour block %r has thread %r, wants thread %d" % (b, t, k)
        # what comes before the first needle set or break, without sewing, is of the first thread as well
        started = started or any(s[2] & 0xFF in SEWN + (R.COLOR_CHANGE, R.NEEDLE_SET) for s in b)
        if started or b[-1][2] & 0xFF == R.COLOR_CHANGE:
            k += 1
    # none of these changes the pattern
    if p.stitches != src or p.threadlist != threads or p.extras != {"name": "n", "k": 5}:
        return "looking at blocks changed the pattern: %r" % (p.stitches,)
    # decoded view
    dec = [tuple(v) for v in p.get_as_stitches()]
    if dec != [(k, s[0], s[1]) + R.decode(s[2]) for k, s in enumerate(src)]:
        return "get_as_stitches gives %r" % (dec,)
    # counts and bounds
    if p.count_stitches() != len(src) or len(p) != len(src) or p.count_threads() != len(threads):
        return "counts"
    if src and tuple(p.bounds()) != (min(s[0] for s in src), min(s[1] for s in src), max(s[0] for s in src), max(s[1] for s in src)):
        return "bounds %r" % (p.bounds(),)
    if tuple(p.extents()) != tuple(p.bounds()) or tuple(p.extends()) != tuple(p.bounds()):
        return "extents"
    # threadlists
    if nthreads >= 0 and (p.get_unique_threadlist() != set(threads) or p.get_singleton_threadlist() != threads):
        return "thread lists"
    # stable pattern
    st = p.get_stable_pattern()
    got, cur, idx = [], [], -1
    for s in st.stitches:
        c = s[2] & 0xFF
        if c in (R.COLOR_BREAK, R.SEQUENCE_BREAK):
            if cur:
                got.append((cur, idx))
            cur = []
            if c == R.COLOR_BREAK:
                idx += 1
        elif c == R.STITCH:
            cur.append(s)
        else:
            return "stable pattern has command %r" % (s,)
    if cur:
        got.append((cur, idx))
    if [b for b, _ in got] != [b for b, _ in ref]:
        return "stable blocks %r, want %r" % (got, ref)
    for (b, k), (_, w) in zip(got, ref):
        if k >= len(st.threadlist) or not is_thread(st.threadlist[k], threads, w):
            return "stable block %r has thread %r, wants thread %d" % (b, st.threadlist[k:k + 1], w)
    if st.extras != p.extras:
        return "stable pattern lost metadata"
    if p.stitches != src or p.threadlist != threads:
        return "get_stable_pattern changed the pattern"
    # colour count
    n = ref_sewn_blocks(src)
    p.fix_color_count()
    if len(p.threadlist) != max(n, len(threads)) or any(a is not b for a, b in zip(p.threadlist, threads)) or p.stitches != src:
        return "fix_color_count leaves %r for %d blocks" % (p.threadlist, n)
    if rec is not None:
        rec.outcome((tuple([(len(b), k) for b, k in ref]), tuple([len(b) for b in ref2]), n))
    return None


def singleton(ix):
    """get_singleton_threadlist drops equal neighbours only; get_unique_threadlist keeps one of each."""
    E = rt.lib().EmbThread
    mk = [lambda: E(0xFF0000, "a"), lambda: E(0xFF0000, "a"), lambda: E(0xFF0000, "b"), lambda: E(0x0000FF, "a", "1")]
    ths = [mk[i]() for i in ix]
    p = rt.pattern([], ths)
    got = p.get_singleton_threadlist()
    want = []
    for t in ths:
        if not want or want[-1] != t:
            want.append(t)
    if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
        return "singleton list %r of %r" % (got, ths)
    u = p.get_unique_threadlist()
    keys = set({0: 0, 1: 0, 2: 2, 3: 3}[i] for i in ix)
    if len(u) != len(keys) or any(t not in u for t in ths):
        return "unique list %r of %r" % (u, ths)
    return None


def depth(tier):
    return (5, 7) if tier == "quick" else (6, 9)


def bounds(tier):
    d = depth(tier)
    return "all sequences of <= %d of %d commands and <= %d of %d x 0, 1, 2 or 4 different threads or 3 times the same or 3 equal ones (fewer beyond length 4); all lists of <= 5 of 4 threads" % (d[0], len(ALPHA), d[1], len(SHORT))


def shards(tier):
    d = depth(tier)
    out = []
    for which, n in (("short", d[1]), ("all", d[0])):
        al = SHORT if which == "short" else ALPHA
        for k in range(n, -1, -1):
            out += [(which, k, i) for i in range(len(al))] if k else [(which, 0, 0)]
    return out + [("single",)] + [("rep", i) for i in range(len(ALPHA))]


def run(shard, rec):
    if shard[0] == "single":
        for n in range(6):
            for ix in itertools.product(range(4), repeat=n):
                rec.traces += 1
                rec.transitions += n
                rec.state(("single", ix))
                rec.case(lambda: singleton(ix), {"single": ix})
        return
    if shard[0] == "rep":
        # long designs: every command 300 times, every pair of commands 130 times over
        a = ALPHA[shard[1]]
        for w in [(a,)] + [(a, b) for b in ALPHA]:
            seq = w * (300 if len(w) == 1 else 130)
            for nt in (0, 2, 280, 400):
                rec.traces += 1
                rec.transitions += len(seq)
                rec.state(("rep", w, nt))
                rec.case(lambda: judge(seq, nt), {"stitches": seq, "threads": nt})
        return
    which, n, i = shard
    al = SHORT if which == "short" else ALPHA
    for tail in itertools.product(al, repeat=max(n - 1, 0)):
        seq = ((al[i],) if n else ()) + tail
        for nt in ((0, 1, 2, 4, -3, -13) if n <= 4 else (1, 3, -3) if which == "short" else (2,)):
            rec.traces += 1
            rec.transitions += n
            rec.state((seq, nt))
            if rec.traces == 1:
                rec.sample({"stitches": seq, "threads": nt})
            rec.case(lambda: judge(seq, nt, rec), {"stitches": seq, "threads": nt})


def replay(d):
    if "single" in d:
        return singleton(d["single"])
    return judge([tuple(s) for s in d["stitches"]], d["threads"])
