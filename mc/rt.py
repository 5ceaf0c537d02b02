"""Round trips through the real writers and readers, and the machine events of a pattern."""
import io

from . import refenc as R

_formats = None


def lib():
    import pyembroidery

    return pyembroidery


def formats():
    global _formats
    if _formats is None:
        _formats = {}
        for d in lib().EmbPattern.supported_formats():
            _formats[d["extension"]] = d
    return _formats


def pattern(stitches, threads=(), extras=None):
    p = lib().EmbPattern()
    p.stitches = [list(s) for s in stitches]
    p.threadlist = list(threads)
    if extras:
        p.extras.update(extras)
    return p


def dump(ext, p, settings=None):
    w = formats()[ext]["writer"]
    text = getattr(w, "WRITE_FILE_IN_TEXT_MODE", False)
    f = io.StringIO() if text else io.BytesIO()
    lib().EmbPattern.write_embroidery(w, p, f, settings)
    return f.getvalue()


def load(ext, data, settings=None, into=None):
    r = formats()[ext]["reader"]
    if getattr(r, "READ_FILE_IN_TEXT_MODE", False):
        f = io.StringIO(data if isinstance(data, str) else data.decode("utf8"))
    else:
        f = io.BytesIO(data.encode("utf8") if isinstance(data, str) else data)
    return lib().EmbPattern.read_embroidery(r, f, settings, into)


def events(stitches):
    """Machine events of a core-command pattern: penetrations, trims, changes, stops, sequins, end."""
    out = []
    for s in stitches:
        c = s[2] & 0xFF
        if c == R.STITCH:
            out.append(("P", s[0], s[1]))
        elif c == R.JUMP:
            out.append(("J", s[0], s[1]))
        elif c == R.TRIM:
            out.append(("T",))
        elif c in (R.COLOR_CHANGE, R.NEEDLE_SET):
            out.append(("C",))
        elif c == R.STOP:
            out.append(("S",))
        elif c == R.END:
            out.append(("E",))
        elif c == R.SEQUIN_MODE:
            out.append(("M",))
        elif c == R.SEQUIN_EJECT:
            out.append(("Q", s[0], s[1]))
        elif c == R.SLOW:
            out.append(("SLOW",))
        elif c == R.FAST:
            out.append(("FAST",))
        else:
            out.append(("?", s[0], s[1], s[2]))
    return out


def drop(ev, kinds):
    return [e for e in ev if e[0] not in kinds]


def diff(got, want, what="events"):
    if got == want:
        return None
    n = min(len(got), len(want))
    for i in range(n):
        if got[i] != want[i]:
            return "%s differ at %d: got %r, want %r; got %r, want %r" % (what, i, got[i], want[i], got[:40], want[:40])
    return "%s differ in number: got %d %r, want %d %r" % (what, len(got), got[:40], len(want), want[:40])


def thread_key(t):
    return (t.color & 0xFFFFFF, t.description, t.catalog_number, t.details, t.brand, t.chart, t.weight)
