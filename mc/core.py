"""Core of the explicit-state explorer: shards, recorders, evidence, verdicts.

A check module (mc/checks/<id>.py) defines

    PROPERTY   its id                         LEVEL      evidence level
    RULE       how cases are made             ASSUMPTIONS list of strings
    shards(tier)    -> list of picklable shard descriptors, covering the bounded space
    run(shard, rec) -> explores every behaviour of that shard, reporting into rec
    replay(data)    -> re-runs one recorded counterexample, returns None or a message

Every shard is a *complete* enumeration of its part of the space.  The only cap
is the number of violations after which a shard stops; if a cap of any other
kind is hit it is reported in the evidence as such.
"""
import array
import importlib
import json
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")
CASE_CPU_SECONDS = 10
MAX_VIOLATIONS_PER_SHARD = 3
MAX_VIOLATIONS = 24  # over all shards: after that the remaining shards are skipped
DEADLINE = {"quick": 600, "thorough": 6 * 3600}  # wall seconds; reaching it is reported as a cap
MAX_STATE_HASHES = 400000  # per shard; beyond that only counted per shard


class NonTermination(BaseException):
    pass


class StopShard(Exception):
    pass


def bootstrap():
    """Import the code under test from /repo's working tree, and nowhere else."""
    sys.dont_write_bytecode = True
    # Never read stale bytecode from /repo: look for it in a place where there is none.
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "mc-no-such-cache-%d" % os.getpid())
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import pyembroidery  # noqa: F401

    where = os.path.dirname(os.path.dirname(os.path.abspath(pyembroidery.__file__)))
    if os.path.realpath(where) != os.path.realpath(REPO):
        raise RuntimeError("pyembroidery imported from %s, not %s" % (where, REPO))
    return pyembroidery


def canon(obj):
    """Hashable canonical form of a plain value (lists -> tuples, dicts sorted)."""
    if isinstance(obj, (list, tuple)):
        return tuple([canon(o) for o in obj])
    if isinstance(obj, dict):
        return tuple(sorted((repr(k), canon(v)) for k, v in obj.items()))
    if isinstance(obj, (bytearray,)):
        return bytes(obj)
    return obj


class Recorder:
    """Collects what one shard explored."""

    def __init__(self, pid, tier, seed, shard):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.shard = shard
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self._states = set()
        self.states_overflow = 0
        self._outcomes = set()
        self.samples = []
        self.violations = []
        self.known_hits = set()
        self.counters = {}
        self._armed = False

    # -- coverage -------------------------------------------------------
    def state(self, obj):
        h = hash(obj) & 0xFFFFFFFFFFFFFFFF
        if h in self._states:
            return False
        if len(self._states) >= MAX_STATE_HASHES:
            self.states_overflow += 1
            return True
        self._states.add(h)
        return True

    def outcome(self, obj):
        if len(self._outcomes) < MAX_STATE_HASHES:
            self._outcomes.add(hash(obj) & 0xFFFFFFFFFFFFFFFF)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    # -- verdicts -------------------------------------------------------
    def violation(self, key, message, replay):
        k = keystr(key)
        if k in _KNOWN:
            self.known_hits.add(k)
            self.count("known_findings_hit")
            return
        self.violations.append(
            {
                "key": key,
                "message": str(message)[:4000],
                "replay": replay,
                "shard": repr(self.shard)[:300],
            }
        )
        if _NVIOL is not None:
            with _NVIOL.get_lock():
                _NVIOL.value += 1
        if len(self.violations) >= MAX_VIOLATIONS_PER_SHARD:
            raise StopShard()

    def case(self, fn, replay, key=None):
        """Run one complete execution; fn returns None or a failure message.
        Any exception that escapes fn, and any execution that does not end, is a failure."""
        self.evaluations += 1
        if self.evaluations % 64 == 1:
            signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS)
        stop = False
        try:
            msg = fn()
        except StopShard:
            raise
        except NonTermination:
            msg = "execution did not terminate within %d s of CPU" % CASE_CPU_SECONDS
            signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS)
            stop = True
        except MemoryError:
            msg = "execution exhausted memory"
        except Exception as e:  # the code under test must not fail here
            tb = traceback.extract_tb(e.__traceback__)
            last = [t for t in tb][-4:]
            msg = "unexpected %s: %s at %s" % (
                type(e).__name__,
                e,
                " < ".join("%s:%d" % (os.path.basename(t.filename), t.lineno) for t in reversed(last)),
            )
        if msg is not None:
            r = replay() if callable(replay) else replay
            k = key if key is not None else r
            self.violation(k, msg, r)
            if stop:
                raise StopShard()
            return False
        return True

    def result(self):
        return {
            "states": array.array("Q", sorted(self._states)),
            "states_overflow": self.states_overflow,
            "outcomes": array.array("Q", sorted(self._outcomes)),
            "transitions": self.transitions,
            "traces": self.traces,
            "evaluations": self.evaluations,
            "samples": self.samples,
            "violations": self.violations,
            "known_hits": sorted(self.known_hits),
            "counters": self.counters,
        }


def _alarm(signum, frame):
    raise NonTermination()


_MODULE = None
_KNOWN = {}  # keys of the listed known findings of this property
_NVIOL = None  # shared counter of violations not listed as known
_T0 = 0.0


def _worker_init():
    signal.signal(signal.SIGVTALRM, _alarm)
    lim = 3 * 1024 ** 3
    try:
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except (ValueError, OSError):
        pass


def _run_shard(args):
    pid, tier, seed, index, shard = args
    rec = Recorder(pid, tier, seed, shard)
    t0 = time.time()
    if _NVIOL is not None and _NVIOL.value >= MAX_VIOLATIONS:
        rec.count("capped_shards_skipped_after_violations")
        rec.count("capped")
        return finish(rec, index, t0)
    if t0 - _T0 > DEADLINE[tier]:
        rec.count("capped_shards_skipped_at_deadline")
        rec.count("capped")
        return finish(rec, index, t0)
    try:
        _MODULE.run(shard, rec)
    except StopShard:
        rec.count("shards_stopped_at_violation_cap")
    except NonTermination:
        rec.violations.append(
            {"key": "nontermination:" + repr(shard), "message": "shard did not terminate", "replay": {"shard": repr(shard)}, "shard": repr(shard)}
        )
    except Exception as e:
        inside = os.path.join(os.path.realpath(REPO), "pyembroidery")
        if any(os.path.realpath(t.filename).startswith(inside) for t in traceback.extract_tb(e.__traceback__)):
            # raised by the code under test while the harness prepared a case
            rec.violations.append(
                {"key": "crash:" + type(e).__name__, "message": traceback.format_exc()[-3000:], "replay": {"shard": repr(shard)}, "shard": repr(shard)}
            )
        else:
            # an error of the harness itself: make it loud
            return {"harness_error": traceback.format_exc(), "shard": repr(shard)[:300]}
    return finish(rec, index, t0)


def finish(rec, index, t0):
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    r = rec.result()
    r["index"] = index
    r["secs"] = time.time() - t0
    r["shard"] = repr(rec.shard)[:200]
    return r


def load_check(pid):
    return importlib.import_module("mc.checks." + pid.lower())


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            entries = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in entries if e.get("property") == pid and e.get("status") == "known"]


def keystr(key):
    return json.dumps(key, sort_keys=True, default=repr)


def write_replay(pid, i, v):
    d = os.path.join(EVIDENCE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (pid, i))
    with open(path, "w") as f:
        json.dump(
            {"property": pid, "message": v["message"], "key": v["key"], "replay": v["replay"], "shard": v["shard"]},
            f, indent=1, default=repr,
        )
        f.write("\n")
    return os.path.relpath(path, VERIF)


def run_check(pid, tier, seed):
    global _MODULE, _NVIOL, _T0, _KNOWN
    _KNOWN = {keystr(e["key"]): e for e in known_findings(pid)}
    t0 = _T0 = time.time()
    _NVIOL = multiprocessing.get_context("fork").Value("i", 0)
    try:
        bootstrap()
    except Exception:
        # The library cannot even be imported: no property of it holds.
        msg = traceback.format_exc()
        path = write_replay(pid, 0, {"message": msg, "key": "import", "replay": {"import": True}, "shard": ""})
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  pyembroidery cannot be imported: " + msg.strip().splitlines()[-1])
        return 1
    _MODULE = load_check(pid)
    os.makedirs(EVIDENCE, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="mc-%s-" % pid)
    os.environ["MC_SCRATCH"] = scratch
    os.chdir(scratch)
    try:
        shards = list(_MODULE.shards(tier))
        jobs = [(pid, tier, seed, i, s) for i, s in enumerate(shards)]
        nproc = int(os.environ.get("MC_PROCS", "0")) or min(8, os.cpu_count() or 1)
        sys.stdout.flush()
        ctx = multiprocessing.get_context("fork")
        results = []
        if nproc == 1 or len(jobs) == 1:
            _worker_init()
            results = [_run_shard(j) for j in jobs]
        else:
            # concurrent.futures notices a dead worker (for instance one ended for memory).
            from concurrent.futures import ProcessPoolExecutor
            from concurrent.futures.process import BrokenProcessPool

            with ProcessPoolExecutor(max_workers=nproc, mp_context=ctx, initializer=_worker_init) as ex:
                futs = [ex.submit(_run_shard, j) for j in jobs]
                for f in futs:
                    try:
                        results.append(f.result())
                    except BrokenProcessPool:
                        results.append({"harness_error": "a worker process died", "shard": "?"})
                        break
    finally:
        os.chdir(VERIF)
        shutil.rmtree(scratch, ignore_errors=True)

    errors = [r for r in results if "harness_error" in r]
    good = [r for r in results if "harness_error" not in r]
    states = set()
    outcomes = set()
    tot = {"transitions": 0, "traces": 0, "evaluations": 0, "states_overflow": 0}
    counters = {}
    samples = []
    violations = []
    for r in good:
        states.update(r["states"])
        outcomes.update(r["outcomes"])
        for k in tot:
            tot[k] += r[k]
        for k, n in r["counters"].items():
            counters[k] = counters.get(k, 0) + n
        if len(samples) < 6:
            samples.extend(r["samples"][: 6 - len(samples)])
        violations.extend(r["violations"])

    new = violations
    for k in sorted(set(k for r in good for k in r["known_hits"])):
        print("KNOWN-FINDING: property=%s %s" % (pid, _KNOWN[k]["what"]))

    # simplest first
    new.sort(key=lambda v: (len(keystr(v["replay"])), keystr(v["replay"])))
    uniq, seen = [], set()
    for v in new:
        k = keystr(v["key"])
        if k not in seen:
            seen.add(k)
            uniq.append(v)

    coverage = {
        "states": len(states) + tot["states_overflow"],
        "transitions": tot["transitions"],
        "traces_validated_against_impl": tot["traces"],
        "evaluations": tot["evaluations"],
        "distinct_nontrivial": len(outcomes),
        "rule": getattr(_MODULE, "RULE", ""),
        "samples": samples,
        "shards": len(shards),
        "exhaustive": not errors and not new and not counters.get("capped"),
        "bounds": _MODULE.bounds(tier) if hasattr(_MODULE, "bounds") else "",
        "counters": counters,
    }
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": _MODULE.LEVEL,
        "coverage": coverage,
        "assumptions": list(getattr(_MODULE, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(uniq),
    }
    with open(os.path.join(EVIDENCE, "%s.json" % pid), "w") as f:
        json.dump(evidence, f, indent=1, default=repr)
        f.write("\n")

    print(
        "%s tier=%s shards=%d states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs"
        % (pid, tier, len(shards), coverage["states"], coverage["transitions"],
           coverage["traces_validated_against_impl"], len(outcomes), evidence["wall_s"])
    )
    if os.environ.get("MC_SLOW"):
        for r in sorted(good, key=lambda r: -r["secs"])[:8]:
            print("   %.1fs %s" % (r["secs"], r["shard"]))
    if uniq:
        for i, v in enumerate(uniq[:5]):
            path = write_replay(pid, i, v)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  " + v["message"][:700].replace("\n", "\n  "))
        return 1
    if errors:
        print("ERROR in the harness: %s\n%s" % (errors[0]["shard"], errors[0]["harness_error"]), file=sys.stderr)
        return 3
    return 0


def run_replay(path):
    bootstrap()
    with open(path) as f:
        data = json.load(f)
    mod = load_check(data["property"])
    if not hasattr(mod, "replay"):
        print("no replay for %s" % data["property"])
        return 2
    print("property %s" % data["property"])
    print("case     %s" % json.dumps(data["replay"]))
    msg = mod.replay(data["replay"])
    print("result   %s" % ("holds" if msg is None else "VIOLATED: " + str(msg)))
    return 0 if msg is None else 1


def main(argv):
    if argv and argv[0] == "--replay":
        return run_replay(argv[1])
    if argv and argv[0] == "--selfcheck":
        bootstrap()
        n = 0
        for name in sorted(os.listdir(os.path.join(VERIF, "mc", "checks"))):
            if name.endswith(".py") and name != "__init__.py":
                m = load_check(name[:-3])
                print("%s %-6s %d quick shards" % (m.PROPERTY, m.LEVEL[:6], len(list(m.shards("quick")))))
                n += 1
        return 0 if n else 2
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return run_check(pid, tier, seed)
