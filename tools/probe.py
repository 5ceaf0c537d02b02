"""probe.py FILE: try hand-written changes. FILE defines P = [(name, [checks], [(source file, [(old, new), ...]), ...]), ...].
Each is applied to a scratch copy of /repo; the repository's stable tests and the named checks are run against it."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from ed import edit  # noqa: E402

VERIF = os.path.dirname(HERE)
BASE = json.load(open("/opt/vp/BASELINE.json"))


def stable():
    for k in ("passed", "stable", "tests"):
        v = BASE.get(k)
        if v:
            return set(v) if isinstance(v, list) else {t for t, r in v.items() if r in (True, "passed", "pass")}


def one(p):
    name, checks, files = p
    d = tempfile.mkdtemp(prefix="probe-")
    try:
        r = os.path.join(d, "repo")
        subprocess.run(["git", "-C", "/repo", "worktree", "list"], capture_output=True)
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git"))
        for f, pairs in files:
            try:
                edit(os.path.join(r, "pyembroidery", f), pairs)
            except AssertionError as e:
                return name, "BADEDIT %s" % (str(e)[:200]), []
        os.mkdir(d + "/cwd")
        env = {k: v for k, v in os.environ.items() if k not in ("PYTHONHOME",)}
        env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=r + ":/opt/vp/lib", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "--rootdir=" + r, "-p", "no:cacheprovider", "-p", "pytest_timeout", "-p", "vp_seed", "--timeout=60", "--continue-on-collection-errors",
                        "-o", "junit_family=xunit2", "--junitxml=" + d + "/junit.xml", r + "/test"], cwd=d + "/cwd", env=env, capture_output=True, timeout=600)
        subprocess.run(["/opt/venv/bin/python", "/opt/vp/results.py", d + "/out.json", "junit:" + d + "/junit.xml"], capture_output=True)
        lost = stable() - set(json.load(open(d + "/out.json"))["passed"])
        tests = "TESTS LOST %s" % sorted(lost)[:2] if lost else "tests ok"
        out = []
        for c in checks:
            env = dict(os.environ, MC_REPO=r, MC_PROCS="3", MC_EVIDENCE=d)
            q = subprocess.run([sys.executable, "-B", os.path.join(VERIF, "run.py"), c], env=env, capture_output=True, text=True, timeout=3000)
            m = re.search(r"VIOLATION.*\n(.*)", q.stdout)
            out.append((c, q.returncode, (m.group(1).strip()[:150] if m else "")))
        return name, tests, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    g = {}
    exec(open(sys.argv[1]).read(), g)
    P = g["P"]
    if len(sys.argv) > 2:
        P = [p for p in P if p[0] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(int(os.environ.get("PAR", "3"))) as ex:
        for name, tests, out in ex.map(one, P):
            ok = any(rc == 1 for _, rc, _ in out)
            print("%s %s [%s] %s" % ("caught" if ok else "MISSED", name, tests, " ; ".join("%s=%d %s" % o for o in out)), flush=True)
