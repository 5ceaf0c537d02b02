"""Faults: every stream operation of every writer and reader fails once, on every design."""
import errno
import gc
import io
import os
import random
import resource
import shutil
import signal
import tempfile
import warnings

from .. import rt
from .. import samples
from . import c29

PROPERTY = "C39"
LEVEL = "model_checking"
RULE = "case = one execution of a real writer or reader whose k-th stream operation fails, for every k; distinct_nontrivial = distinct (format, design, operation that failed)"
ASSUMPTIONS = ["an operation that fails raises; streams that silently return fewer bytes than asked are not considered"]


class Boom(OSError):
    pass


class Halt(KeyboardInterrupt):
    pass


class Closed(ValueError):
    pass


class Text(UnicodeError):
    pass


class Stop(EOFError):
    pass


EXC = {"oserror": lambda: Boom(errno.ENOSPC, "no space"), "interrupt": lambda: Halt("stop"), "value": lambda: Closed("closed"), "unicode": lambda: Text("bad"), "eof": lambda: Stop("eof")}


class Faulty:
    """A stream whose operation number `at` raises; counts the operations."""

    def __init__(self, inner, at, exc=None):
        self.inner, self.at, self.n, self.exc = inner, at, 0, exc
        self.raised = None
        self.after = 0
        self.closes = 0
        self.log = []

    def _op(self, name):
        k = self.n
        self.n += 1
        if self.raised is not None:
            self.after += 1
        if k == self.at:
            self.raised = EXC[self.exc]()
            self.raised_op = name
            raise self.raised

    def write(self, d):
        self._op("write")
        return self.inner.write(d)

    def writelines(self, ls):
        self._op("writelines")
        return self.inner.writelines(ls)

    def read(self, *a):
        self._op("read")
        return self.inner.read(*a)

    def readline(self, *a):
        self._op("readline")
        return self.inner.readline(*a)

    def readlines(self, *a):
        self._op("readlines")
        return self.inner.readlines(*a)

    def readinto(self, b):
        self._op("readinto")
        return self.inner.readinto(b)

    def __iter__(self):
        return self

    def __next__(self):
        self._op("next")
        return next(self.inner)

    def seek(self, *a):
        self._op("seek")
        return self.inner.seek(*a)

    def tell(self):
        self._op("tell")
        return self.inner.tell()

    def flush(self):
        self._op("flush")
        return self.inner.flush()

    def seekable(self):
        return True

    def readable(self):
        return True

    def writable(self):
        return True

    def close(self):
        self.closes += 1

    def getvalue(self):
        return self.inner.getvalue()

    closed = False


def full(p):
    return ([list(s) for s in p.stitches], [id(t) for t in p.threadlist], [vars(t).copy() for t in p.threadlist], dict(p.extras), p._previousX, p._previousY)


def reset():
    random.seed(11)


def new_stream(w, data=None):
    if getattr(w, "WRITE_FILE_IN_TEXT_MODE", False):
        return io.StringIO()
    return io.BytesIO()


_clean = {}


def settings_of(fmt, v):
    s = dict(samples.DATE)
    s.update(samples.VARIANTS.get(fmt, [{}])[v])
    return s


WRITERS = samples.WRITERS + ("svg", "png", "txt")


def clean_write(fmt, kind, v):
    key = (fmt, kind, v)
    if key not in _clean:
        w = rt.formats()[fmt]["writer"]
        f = Faulty(new_stream(w), -1)
        reset()
        rt.lib().EmbPattern.write_embroidery(w, samples.design(kind), f, settings_of(fmt, v))
        _clean[key] = (f.getvalue(), f.n)
        if f.closes:
            raise RuntimeError("clean write closed the stream")
    return _clean[key]


def write_fault(fmt, kind, v, ks, exc):
    w = rt.formats()[fmt]["writer"]
    want, n = clean_write(fmt, kind, v)
    p = samples.design(kind)
    s = settings_of(fmt, v)
    before, s0 = full(p), dict(s)
    for k in ks:
        f = Faulty(new_stream(w), k, exc)
        reset()
        try:
            rt.lib().EmbPattern.write_embroidery(w, p, f, s)
        except BaseException as e:
            if e is not f.raised:
                if f.raised is None:
                    raise
                return "operation %d (%s) of writing %s fails with %r, the caller gets %r" % (k, f.raised_op, fmt, f.raised, e)
        else:
            if f.raised is None:
                return "writing %s again after a failure needs %d operations, not %d" % (fmt, f.n, n)
            return "operation %d (%s) of writing %s fails with %r, the caller is not told" % (k, f.raised_op, fmt, f.raised)
        if f.closes:
            return "writing %s closes the caller's stream when operation %d fails" % (fmt, k)
        if full(p) != before:
            return "writing %s changes the pattern when operation %d fails" % (fmt, k)
        if s != s0:
            return "writing %s changes the settings when operation %d fails" % (fmt, k)
    f = Faulty(new_stream(w), -1)
    reset()
    rt.lib().EmbPattern.write_embroidery(w, p, f, s)
    if f.getvalue() != want:
        return "after failures at operations %r, writing the same design as %s gives other bytes" % (ks, fmt)
    if f.closes:
        return "writing %s closes the caller's stream" % fmt
    return None


def reader_stream(fmt, data):
    r = rt.formats()[fmt]["reader"]
    if getattr(r, "READ_FILE_IN_TEXT_MODE", False):
        return io.StringIO(data.decode("utf8"), newline="")
    return io.BytesIO(data)


def clean_read(fmt, label):
    key = ("r", fmt, label)
    if key not in _clean:
        data = next(d for e, l, d in c29.all_files() if l == label)
        f = Faulty(reader_stream(fmt, data), -1)
        reset()
        p = rt.lib().EmbPattern.read_embroidery(rt.formats()[fmt]["reader"], f)
        _clean[key] = (c29.view(p), f.n, data)
    return _clean[key]


def read_fault(fmt, label, ks, exc):
    want, n, data = clean_read(fmt, label)
    r = rt.formats()[fmt]["reader"]
    for k in ks:
        f = Faulty(reader_stream(fmt, data), k, exc)
        reset()
        try:
            rt.lib().EmbPattern.read_embroidery(r, f)
        except BaseException as e:
            if e is not f.raised:
                if f.raised is None:
                    raise
                return "operation %d (%s) of reading %s fails with %r, the caller gets %r" % (k, f.raised_op, fmt, f.raised, e)
        else:
            if f.raised is None:
                return "reading %s again after a failure needs %d operations, not %d" % (fmt, f.n, n)
            return "operation %d (%s) of reading %s fails with %r, the caller is not told" % (k, f.raised_op, fmt, f.raised)
        if f.closes:
            return "reading %s closes the caller's stream" % fmt
    f = Faulty(reader_stream(fmt, data), -1)
    reset()
    p = rt.lib().EmbPattern.read_embroidery(r, f)
    if c29.view(p) != want:
        return "after failures at operations %r, reading the same %s file gives another design" % (ks, fmt)
    if f.closes:
        return "reading %s closes the caller's stream" % fmt
    return None


# ---- named files ------------------------------------------------------------------------
def fds():
    return sorted(os.listdir("/proc/self/fd"))


def limited(limit, fn):
    """run fn while no file may grow beyond limit bytes"""
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    h = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, old[1]))
    try:
        return fn()
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)
        signal.signal(signal.SIGXFSZ, h)


def file_fault(fmt, kind, v, limit, how):
    """how: 'limit' (no room after limit bytes), 'full' (a device that is full), 'dir' (the name is a directory), 'nodir' (its directory is missing)"""
    P = rt.lib()
    d = tempfile.mkdtemp(prefix="c39-", dir=os.environ.get("MC_SCRATCH"))
    try:
        path = os.path.join(d, "x." + fmt)
        want = c29.as_bytes(clean_write(fmt, kind, v)[0])
        if how == "full":
            os.symlink("/dev/full", path)
        elif how == "dir":
            os.mkdir(path)
        elif how == "nodir":
            path = os.path.join(d, "no", "x." + fmt)
        p = samples.design(kind)
        s = settings_of(fmt, v)
        before, s0 = full(p), dict(s)
        open0 = fds()
        err = None
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            reset()
            try:
                if how == "limit":
                    limited(limit, lambda: P.write(p, path, s))
                else:
                    P.write(p, path, s)
            except OSError as e:
                err = e.errno
            gc.collect() if limit % 50 == 0 else None
        if any(issubclass(w.category, ResourceWarning) for w in ws):
            return "writing %s leaves its file open when that fails: %s" % (fmt, [str(w.message) for w in ws])
        if fds() != open0:
            return "writing %s leaks a file descriptor when that fails" % fmt
        fails = how != "limit" or limit < len(want)
        if fails and err is None:
            return "writing %s where only %d of %d bytes fit (%s) raises no error" % (fmt, limit, len(want), how)
        if not fails and err is not None:
            return "writing %s with room for %d of %d bytes fails" % (fmt, limit, len(want))
        if full(p) != before or s != s0:
            return "a failed write of %s changes the pattern or the settings" % fmt
        if how in ("limit", "full"):
            if how == "full":
                os.remove(path)
            reset()
            P.write(p, path, s)
            with open(path, "rb") as g:
                if g.read() != want:
                    return "writing %s again after a failed write gives other bytes" % fmt
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def readdir_case(fmt):
    P = rt.lib()
    d = tempfile.mkdtemp(prefix="c39-", dir=os.environ.get("MC_SCRATCH"))
    try:
        path = os.path.join(d, "x." + fmt)
        os.mkdir(path)
        open0 = fds()
        for op in (lambda: P.read(path), lambda: P.convert(path, os.path.join(d, "y.dst")), lambda: P.EmbPattern(path)):
            try:
                op()
            except OSError:
                pass
            else:
                return "reading a directory named like a %s file raises no error" % fmt
        if fds() != open0 or sorted(os.listdir(d)) != ["x." + fmt]:
            return "reading a directory named like a %s file leaves something behind" % fmt
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def variants(fmt):
    return range(len(samples.VARIANTS.get(fmt, [{}])))


def shards(tier):
    kinds = ("one", "two") if tier == "quick" else ("one", "two", "rich")
    out = []
    for f in WRITERS:
        for v in variants(f):
            for k in kinds:
                out.append(("write", f, k, v))
            out.append(("pairs", f, "one", v, 90 if tier == "quick" else 700))
            out.append(("file", f, "one", v, 1500 if tier == "quick" else 20000))
    for f, (exts, r, w) in c29.TABLE.items():
        if r:
            out.append(("read", f, tier))
    return out


def run(shard, rec):
    kind = shard[0]
    if kind == "write":
        _, f, k, v = shard
        want, n = clean_write(f, k, v)
        rec.case(lambda: None if n else "nothing is written", {"kind": "write", "args": [f, k, v, [], "oserror"]})
        for at in range(n):
            for exc in EXC if n < 400 else ("oserror", "interrupt"):
                one(rec, ("write", f, k, v, (at,), exc))
    elif kind == "pairs":
        _, f, k, v, cap = shard
        n = clean_write(f, k, v)[1]
        if n <= cap:
            for a in range(n):
                for b in range(n):
                    one(rec, ("write", f, k, v, (a, b), "oserror"))
    elif kind == "file":
        _, f, k, v, cap = shard
        size = len(c29.as_bytes(clean_write(f, k, v)[0]))
        for limit in sorted(set(list(range(min(size + 2, cap))) + list(range(max(0, size - 40), size + 3)) + list(range(8190, min(size, 8200))))):
            one(rec, ("file", f, k, v, limit, "limit"))
        for how in ("full", "dir", "nodir"):
            one(rec, ("file", f, k, v, 0, how))
    elif kind == "read":
        _, f, tier = shard
        for e, label, data in c29.all_files():
            if e == f:
                n = clean_read(f, label)[1]
                for at in range(n):
                    for exc in EXC if n < 400 else ("oserror", "interrupt"):
                        one(rec, ("read", f, label, (at,), exc))
                if n <= (60 if tier == "quick" else 400):
                    for a in range(n):
                        for b in range(n):
                            one(rec, ("read", f, label, (a, b), "oserror"))
        one(rec, ("readdir", f))


FN = {"write": write_fault, "read": read_fault, "file": file_fault, "readdir": readdir_case}


def one(rec, c):
    rec.traces += 1
    rec.transitions += len(c[-2]) if isinstance(c[-2], tuple) else 1
    rec.state(c)
    rec.outcome(c)
    rec.sample(repr(c))
    rec.case(lambda: FN[c[0]](*c[1:]), lambda: {"kind": c[0], "args": [list(x) if isinstance(x, tuple) else x for x in c[1:]]})


def replay(data):
    return FN[data["kind"]](*data["args"])


def bounds(tier):
    return ("every stream operation of every writer (%d) and reader on the sample designs fails once, with %d kinds of exception; all pairs of failures where there are few operations; "
            "named files with room for every number of bytes, a full device, a directory, a missing directory" % (len(WRITERS), len(EXC)))
