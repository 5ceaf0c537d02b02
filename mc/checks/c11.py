"""Two threads: every schedule with one preemption (and two, for small operations) at any line of the library."""
import copy
import os
import sys
import threading

from .. import core
from .. import refenc as R
from .. import rt
from .. import samples
from . import c10

PROPERTY = "C11"
LEVEL = "model_checking"
RULE = "case = one schedule of two real threads, each performing one operation of the library, switched at chosen lines of its source; both must give what they give alone; distinct_nontrivial = distinct (operations, switch points)"
ASSUMPTIONS = ["threads are switched between source lines of the library (thorough: between bytecodes for small operations); builtins are atomic", "operations that draw random filler colours are left out",
               "two threads may share a pattern they both only write, encode or query; a pattern that one of them changes is not shared"]

INSIDE = os.path.join(os.path.realpath(core.REPO), "pyembroidery") + os.sep
_inside = {}


def inside(code):
    r = _inside.get(code)
    if r is None:
        r = _inside[code] = os.path.realpath(code.co_filename).startswith(INSIDE)
    return r


# ---- operations -----------------------------------------------------------------------
def act(op, shared):
    """perform an operation and return what it gives; `shared` is a pattern both threads use, or None"""
    P = rt.lib()
    kind = op[0]
    if kind == "write":
        p = shared if shared is not None else samples.design(op[2])
        s = dict(samples.DATE)
        s.update(op[3])
        return rt.dump(op[1], p, s)
    if kind == "encode":
        p = shared if shared is not None else samples.design(op[1])
        return c10.pview(p.get_normalized_pattern(None if op[2] is None else dict(op[2])))
    if kind == "read":
        return c10.pview(rt.load(op[1], bytes.fromhex(c10.files()[op[2]])))
    if kind == "query":
        p = shared if shared is not None else samples.design("rich")
        return (c10.pview(p.get_stable_pattern()), c10.pview(p.get_pattern_merge_jumps()), p.bounds(), c10.pview(p.copy()), c10.pview(p + p), p.count_stitches(), str(p), [len(b) for b, t in p.get_as_colorblocks()])
    if kind == "build":
        p = P.EmbPattern()
        p.add_block([(0, 0), (3, 4), (5, 6)], "red")
        p.add_block([(9, 9), (3, 1)], P.EmbThread("blue"))
        p.stitch(3, 4)
        p.needle_change(3)
        p += "darkslateblue"
        q = samples.design("two")
        q.interpolate_duplicate_color_as_stop()
        q.interpolate_trims(2)
        q.move_center_to_origin()
        p += q
        m = P.EmbMatrix()
        m.post_rotate(30)
        p.transform(m)
        return c10.pview(p)
    raise AssertionError(op)


def outcome(op, shared):
    try:
        return ("value", act(op, shared))
    except Exception as e:
        return ("error", type(e).__name__, str(e))


# ---- the scheduler ----------------------------------------------------------------------
class Abort(BaseException):
    pass


class Run:
    """Two threads of which exactly one holds the baton; `plan` is [(thread, step)]: when that thread
    arrives at its step-th point, the baton goes to the other one."""

    def __init__(self, fns, plan, opcodes=False):
        self.fns, self.opcodes = fns, opcodes
        self.plan = [dict((k, True) for t, k in plan if t == i) for i in (0, 1)]
        self.left = [len(self.plan[0]), len(self.plan[1])]
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.results = [None, None]
        self.steps = [0, 0]
        self.switches = 0
        self.blocked = 0

    def tracer(self, me):
        steps, plan, opcodes = self.steps, self.plan[me], self.opcodes
        want = "opcode" if opcodes else "line"

        def local(frame, event, arg):
            if event == want:
                k = steps[me]
                steps[me] = k + 1
                if k in plan:
                    self.left[me] -= 1
                    self.switch(me)
                    if not self.left[me]:
                        sys.settrace(None)
                        return None
            return local

        def glob(frame, event, arg):
            if inside(frame.f_code):
                if opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None

        return glob

    def switch(self, me):
        other = 1 - me
        if self.done[other]:
            return
        self.switches += 1
        self.go[other].release()
        # A thread that waits for a lock the other one holds is not a failure: carry on.
        if not self.go[me].acquire(timeout=0.5):
            self.blocked += 1

    def body(self, me):
        self.go[me].acquire()
        if self.left[me]:
            sys.settrace(self.tracer(me))
        try:
            self.results[me] = self.fns[me]()
        except BaseException as e:
            self.results[me] = ("died", repr(e))
        finally:
            sys.settrace(None)
            self.done[me] = True
            self.go[1 - me].release()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in (0, 1)]
        for t in ts:
            t.start()
        self.go[0].release()
        for t in ts:
            t.join(60)
        if any(t.is_alive() for t in ts):
            return None
        return self.results


_points = {}


def points(op, kind, occurrences, opcodes=False):
    """Indexes of the points of an operation at which it may be switched: the first `occurrences`
    visits of every line (or bytecode), and the last one."""
    key = (repr(op), kind, occurrences, opcodes)
    if key in _points:
        return _points[key]
    seq = []
    want = "opcode" if opcodes else "line"

    def local(frame, event, arg):
        if event == want:
            seq.append((frame.f_code, frame.f_lasti if opcodes else frame.f_lineno))
        return local

    def glob(frame, event, arg):
        if inside(frame.f_code):
            if opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return None

    sh = samples.design(kind) if kind else None
    outcome(op, sh)
    res = []

    def go():
        sys.settrace(glob)
        try:
            res.append(outcome(op, sh))
        finally:
            sys.settrace(None)

    t = threading.Thread(target=go)
    t.start()
    t.join()
    count, last, out = {}, {}, set()
    for k, loc in enumerate(seq):
        count[loc] = n = count.get(loc, 0) + 1
        last[loc] = k
        if n <= occurrences:
            out.add(k)
    out.update(last.values())
    _points[key] = sorted(out)
    return _points[key]


_alone = {}


def alone(op, kind):
    key = (repr(op), kind)
    if key not in _alone:
        _alone[key] = outcome(op, samples.design(kind) if kind else None)
    return _alone[key]


def schedule_case(a, b, kind, plan, opcodes=False, info=None):
    want = (alone(a, kind), alone(b, kind))
    sh = samples.design(kind) if kind else None
    before = c10.pview(sh)
    r = Run((lambda: outcome(a, sh), lambda: outcome(b, sh)), plan, opcodes)
    got = r.run()
    if info is not None:
        info.append(r.switches)
    if got is None:
        return "%r and %r never end when switched at %r" % (a, b, plan)
    for k in (0, 1):
        if got[k] != want[k]:
            return "%r gives something else when run together with %r (switched at points %r%s): %s, alone %s" % ((a, b)[k], (b, a)[k], plan, ", sharing one pattern" if kind else "", str(got[k])[:200], str(want[k])[:200])
    if c10.pview(sh) != before:
        return "%r and %r change the pattern they share" % (a, b)
    return None


def deterministic(op):
    """Not drawing random colours: the same result for different seeds."""
    return not (op[0] == "read" and op[1] == "jpx")


def operations():
    out = []
    for op in c10.operations():
        if op[0] == "write" and op[2] in ("one", "two"):
            if op[2] == "one" and op[1] not in ("csv", "json", "dst", "pec"):
                continue
            out.append(op)
        elif op[0] == "read" and deterministic(op) and ".rich" not in op[2]:
            out.append(op)
    out += [("encode", "two", None), ("encode", "rich", {"thread_change_command": R.NEEDLE_SET, "tie_on": R.TIE_ON}), ("query",), ("build",)]
    return out


HEAVY = [("write", "pes", "two", {"version": "6"}), ("build",)]
SMALL = [("encode", "one", None), ("write", "col", "one", {}), ("write", "exp", "one", {}), ("read", "exp", "exp.two.0"), ("read", "json", "json.two.0"), ("write", "edr", "one", {})]


def shards(tier):
    ops = operations()
    out = []
    for i, a in enumerate(ops):
        for n in range(len(partners(ops, i, tier))):
            out.append(("one", i, tier, n))
        if a[0] in ("write", "encode", "query"):
            out.append(("shared", i, tier))
    for i in range(len(SMALL)):
        for j in range(len(SMALL)):
            if tier != "quick" or j in (i, (i + 1) % len(SMALL)):
                # one shard per part of the first thread's points, so that no shard is long
                for part in range(4 if tier == "quick" else 16):
                    out.append(("two", i, j, tier, part))
    if tier != "quick":
        for i in range(len(SMALL)):
            out.append(("opcode", i))
    return out


def partners(ops, i, tier):
    a = ops[i]
    out = [a] + HEAVY
    # neighbours in the list use the same helpers; the stride walks over the other formats
    out.append(ops[(i + 1) % len(ops)])
    if tier != "quick":
        n = len(ops)
        out += [ops[(i + k) % n] for k in range(2, n, 3)]
    else:
        out.append(ops[(i * 7 + 13) % len(ops)])
    res = []
    for b in out:
        if b not in res:
            res.append(b)
    return res


def run(shard, rec):
    kind = shard[0]
    ops = operations()
    if kind == "one":
        _, i, tier, n = shard
        a = ops[i]
        b = partners(ops, i, tier)[n]
        occ = 1 if tier == "quick" else (10 ** 9 if n < 2 else 2)
        for k in points(a, None, occ):
            one(rec, a, b, None, [(0, k)])
    elif kind == "shared":
        _, i, tier = shard
        a = ops[i]
        k_ = "two"
        bs = [a, ("write", "pes", "two", {"version": "6"}), ("query",)] if tier == "quick" else [o for o in ops if o[0] in ("write", "encode", "query")]
        for n, b in enumerate(bs):
            for k in points(a, k_, 1 if tier == "quick" else (5 if n < 3 else 2)):
                one(rec, a, b, k_, [(0, k)])
    elif kind == "two":
        _, i, j, tier, part = shard
        a, b = SMALL[i], SMALL[j]
        occ = 0 if tier == "quick" else 3
        pa, pb = points(a, None, occ), points(b, None, occ)
        for x in pa[part::4 if tier == "quick" else 16]:
            for y in pb:
                one(rec, a, b, None, [(0, x), (1, y)])
    elif kind == "opcode":
        a = SMALL[shard[1]]
        for b in SMALL + HEAVY:
            for k in points(a, None, 3, True):
                one(rec, a, b, None, [(0, k)], True)


def one(rec, a, b, kind, plan, opcodes=False):
    rec.traces += 1
    rec.transitions += len(plan) + 1
    key = (repr(a), repr(b), kind, tuple(plan), opcodes)
    rec.state(key)
    if rec.traces == 1:
        rec.sample(repr(key))
    info = []
    rec.case(lambda: schedule_case(a, b, kind, plan, opcodes, info), lambda: {"a": list(a), "b": list(b), "kind": kind, "plan": plan, "opcodes": opcodes})
    if info and info[0]:
        rec.outcome(key)
        rec.count("switches", info[0])
    else:
        rec.count("schedules_without_a_switch")


def replay(data):
    return schedule_case(tuple(data["a"]), tuple(data["b"]), data["kind"], [tuple(x) for x in data["plan"]], data["opcodes"])


def bounds(tier):
    if tier == "quick":
        return "one preemption at the first and last visit of every library line of %d operations, against 5 partners (own pattern) and 3 (shared pattern); two preemptions over the last visits of all lines of %d small operations, each with itself and the next" % (len(operations()), len(SMALL))
    return "one preemption at every visit of every library line of %d operations against itself and a PES writer, at the first 2 visits against every third other operation, and all pairs on a shared pattern; two preemptions over the first 3 visits for %d small operations; bytecode granularity for those" % (len(operations()), len(SMALL))
