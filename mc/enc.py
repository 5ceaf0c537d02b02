"""Exploration of the real encoder: every command sequence over an alphabet up to a
depth, in several contexts, under a list of settings, against mc.refenc."""
import itertools

from . import refenc as R

_cache = {}


def lib():
    import pyembroidery

    return pyembroidery


def threads(n):
    t = _cache.get(n)
    if t is None:
        E = lib().EmbThread
        t = _cache[n] = [E(0x010203 * (i + 1) & 0xFFFFFF, "thread %d" % i, str(100 + i)) for i in range(n)]
    return t


def pattern(stitches, nthreads):
    p = lib().EmbPattern()
    p.stitches = [list(s) for s in stitches]
    p.threadlist = list(threads(nthreads))
    return p


def encode(stitches, nthreads, settings):
    return pattern(stitches, nthreads).get_normalized_pattern(dict(settings))


def check_threads(out, nthreads, blocks, st):
    """The threadlist of the encoding names the thread of every block, in order."""
    src = threads(nthreads)
    if st["change"] == R.NEEDLE_SET:
        if [id(t) for t in out.threadlist] != [id(t) for t in src] and list(out.threadlist) != src:
            return "threadlist %r is not the whole source list" % (out.threadlist,)
        return None
    if len(out.threadlist) != len(blocks):
        return "%d threads for %d colour blocks" % (len(out.threadlist), len(blocks))
    for k, (t, want) in enumerate(zip(out.threadlist, blocks)):
        if want < nthreads:
            if t != src[want]:
                return "block %d has thread %r, not thread %d %r" % (k, t, want, src[want])
        elif t is None or not 0 <= t.color <= 0xFFFFFF:
            return "block %d has no thread" % k
    return None


def compare(stitches, nthreads, settings, limits=False, check_thr=False):
    out = encode(stitches, nthreads, settings)
    ev, blocks = R.expected(stitches, settings)
    msg = R.match(out.stitches, ev, limits)
    if msg is None and check_thr:
        msg = check_threads(out, nthreads, blocks, R.settings_of(settings))
    return msg, out, ev


def outkey(out):
    return tuple([(round(s[0], 6), round(s[1], 6), s[2]) for s in out.stitches])


def explore(rec, alphabet, depth, settings, nthreads, contexts=(((), ()),), first=None, judge=None, limits=False, check_thr=False):
    """All sequences of exactly `depth` symbols (first symbol fixed if given)."""
    heads = [first] if first is not None else alphabet
    rest = depth - 1 if depth else 0
    pools = ([heads] if depth else []) + [alphabet] * rest
    for seq in itertools.product(*pools):
        for pre, post in contexts:
            st = list(pre) + list(seq) + list(post)
            for si, setting in enumerate(settings):

                def run(st=st, setting=setting, si=si):
                    if judge is not None:
                        msg, out, ev = judge(st, nthreads, setting)
                    else:
                        msg, out, ev = compare(st, nthreads, setting, limits, check_thr)
                    rec.transitions += len(st)
                    rec.traces += 1
                    rec.state(outkey(out))
                    rec.outcome((si, tuple([(e[0], e[3] if e[0] == "P" else None) for e in ev])))
                    return msg

                if rec.traces == 0:
                    rec.sample({"stitches": st, "settings": repr(setting)})
                rec.case(run, lambda: {"stitches": st, "threads": nthreads, "settings": setting})


def rep_alphabet(sp):
    """The alphabet without the commands whose repetition makes coordinates or limits grow without bound."""
    return [c for c in sp["alphabet"] if c[2] & 0xFF not in (R.M_SCALE, R.M_SCALE_O, R.O_MAX_STITCH, R.O_MAX_JUMP, R.END)]


def explore_repeated(rec, sp, n, k):
    """Every command of the space many times over, and every word of n commands: counters, tables and flags that overflow."""
    alpha = rep_alphabet(sp)
    nthreads = sp.get("threads", 3)
    words = itertools.product([alpha[k]], *([alpha] * (n - 1)))
    times = (258, 1030) if n == 1 else (131,) if n == 2 else (90,)
    for word, t, setting in itertools.product(words, times, [sp["settings"][i] for i in sp["rep"]]):
        st = list(word) * t

        def run():
            judge = sp.get("judge")
            if judge is not None:
                msg, out, ev = judge(st, nthreads, setting)
            else:
                msg, out, ev = compare(st, nthreads, setting, sp.get("limits", False), sp.get("check_thr", False))
            rec.transitions += len(st)
            rec.traces += 1
            rec.state((word, t, len(out.stitches)))
            rec.outcome((word, t))
            return msg

        rec.case(run, {"stitches": st, "threads": nthreads, "settings": setting})


def shards_for(spaces, tier):
    """spaces: name -> (alphabet, {tier: max depth}, ...).  One shard per (space, depth, first symbol)."""
    out = [(name, -n, k) for name, sp in spaces.items() if sp.get("rep") for n in ((1, 2) if tier == "quick" else (1, 2, 3)) for k in range(len(rep_alphabet(sp)))]
    for name, sp in spaces.items():
        dmax = sp["depth"][tier]
        for d in range(0, dmax + 1):
            if d == 0:
                out.append((name, 0, None))
            else:
                for k in range(len(sp["alphabet"])):
                    out.append((name, d, k))
    # longest first, so that the pool stays busy; the first counterexample is chosen by size afterwards
    out.sort(key=lambda s: -s[1])
    return out


def run_space(spaces, shard, rec, **kw):
    name, d, k = shard
    sp = spaces[name]
    if d < 0:
        return explore_repeated(rec, sp, -d, k)
    explore(
        rec, sp["alphabet"], d, sp["settings"], sp.get("threads", 3),
        sp.get("contexts", (((), ()),)), None if k is None else sp["alphabet"][k],
        limits=sp.get("limits", False), check_thr=sp.get("check_thr", False), judge=sp.get("judge"), **kw
    )


def fix_settings(s):
    out = {}
    for k, v in s.items():
        out[k] = tuple(v) if isinstance(v, list) else v
    return out


def replay_compare(data, limits=True, check_thr=True):
    msg, out, ev = compare([tuple(s) for s in data["stitches"]], data["threads"], fix_settings(data["settings"]), limits, check_thr)
    return msg


def bounds_text(spaces, tier):
    return "; ".join(
        "%s: all sequences of <= %d of %d commands x %d contexts x %d settings"
        % (n, s["depth"][tier], len(s["alphabet"]), len(s.get("contexts", (1,))), len(s["settings"]))
        + (", each command up to 1030 and each pair 131 times over" if s.get("rep") else "")
        for n, s in spaces.items()
    )
