"""Reference model of the encoder, written from the documentation.

`expected(stitches, nthreads, settings)` gives the sequence of *machine events*
an encoding of the pattern has to perform:

    ("P", x, y, mode)   needle penetration; mode says what may precede it
         "travel"  jumps (start of a thread run)        "needle"  jumps when out of range
         "sew"     gap penetrations when out of range    "direct"  nothing
    ("L", x, y, ax, ay) a lock (tie) at x,y towards the anchor ax,ay
    ("J", x, y)         an explicit move without penetration
    ("T",) trim  ("S",) stop  ("E",) end  ("SLOW",) ("FAST",)
    ("C", kind, thread, needle) thread change      ("M",) sequin mode toggle
    ("Q", x, y, kind)   sequin event, kind in "eject" "jump" "stitch"

and the thread indices of the blocks, in order.
Travel (the jumps the encoder inserts) is constrained by the checks, not listed.
"""
import math

from . import refmatrix as rm

STITCH, JUMP, TRIM, STOP, END, COLOR_CHANGE = 0, 1, 2, 3, 4, 5
SEQUIN_MODE, SEQUIN_EJECT, NEEDLE_SET = 6, 7, 9
SLOW, FAST, SET_CHANGE_SEQUENCE = 0xB, 0xC, 0x10
SEW_TO, NEEDLE_AT = 0xB0, 0xB1
STITCH_BREAK, SEQUENCE_BREAK, COLOR_BREAK = 0xE0, 0xE1, 0xE2
TIE_ON, TIE_OFF, FRAME_EJECT = 0xE4, 0xE5, 0xE9
M_TRANSLATE, M_SCALE_O, M_ROTATE_O, M_RESET, M_SCALE, M_ROTATE = 0xC0, 0xC1, 0xC2, 0xC3, 0xC4, 0xC5
O_MAX_STITCH, O_MAX_JUMP, O_EXPLICIT, O_IMPLICIT = 0xD5, 0xD6, 0xD7, 0xD8
TIE_ON_NONE, TIE_ON_3 = 0xD3, 0xD1
TIE_OFF_NONE, TIE_OFF_3 = 0xD4, 0xD2
LONG_NONE, LONG_NEEDLE, LONG_SEW = 0xF0, 0xF1, 0xF2
SQ_UTILIZE, SQ_JUMP, SQ_STITCH, SQ_REMOVE = 0xF5, 0xF6, 0xF7, 0xF8

SEWN = (STITCH, SEW_TO, NEEDLE_AT, SEQUIN_EJECT)
CHANGES = (COLOR_CHANGE, NEEDLE_SET, COLOR_BREAK)
INF = float("inf")


def decode(cmd):
    def f(v):
        return None if v == 0 else v - 1

    return cmd & 0xFF, f((cmd >> 8) & 0xFF), f((cmd >> 16) & 0xFF), f((cmd >> 24) & 0xFF)


def encode(cmd, thread=None, needle=None, order=None):
    def f(v):
        return 0 if v is None else v + 1

    return cmd | (f(thread) << 8) | (f(needle) << 16) | (f(order) << 24)


def settings_of(settings):
    g = dict(settings or {})
    s = {
        "max_stitch": g.get("max_stitch", INF),
        "max_jump": g.get("max_jump", INF),
        "full_jump": g.get("full_jump", False),
        "round": g.get("round", False),
        "needle_count": g.get("needle_count", 5),
        "change": g.get("thread_change_command", COLOR_CHANGE),
        "speeds": g.get("writes_speeds", True),
        "explicit_trim": g.get("explicit_trim", False),
        "tie_on": g.get("tie_on", TIE_ON_NONE),
        "tie_off": g.get("tie_off", TIE_OFF_NONE),
        "long": g.get("long_stitch_contingency", LONG_NEEDLE),
        "sequin": g.get("sequin_contingency", SQ_JUMP if g.get("strip_sequins", True) else SQ_UTILIZE),
        "translate": g.get("translate"),
        "scale": g.get("scale"),
        "rotate": g.get("rotate"),
    }
    if s["tie_on"] is True:
        s["tie_on"] = TIE_ON_3
    if s["tie_off"] is True:
        s["tie_off"] = TIE_OFF_3
    if s["needle_count"] <= 1 and s["change"] == NEEDLE_SET:
        s["change"] = STOP
    m = rm.IDENTITY
    if s["translate"] is not None:
        m = rm.inner(m, rm.translation(*s["translate"]))
    if s["scale"] is not None:
        sc = s["scale"]
        if not isinstance(sc, (tuple, list)):
            sc = (sc, sc)
        m = rm.inner(m, rm.scaling(*sc))
    if s["rotate"] is not None:
        m = rm.inner(m, rm.rotation(s["rotate"]))
    s["matrix"] = m
    return s


def plan_changes(stitches, st):
    """The planned thread changes: index -> [thread, needle] with the defaults filled in.
    Change 0 is the thread the design starts with."""
    plan = {0: [None, None]}
    nxt = 0  # index of the next thread change command
    preset = 0  # index the next order-less SET_CHANGE_SEQUENCE applies to
    for s in stitches:
        c, thread, needle, order = decode(s[2])
        if c in SEWN and nxt == 0:
            nxt = 1
        if c == SET_CHANGE_SEQUENCE:
            if order is None:
                k = preset
                preset += 1
            else:
                k = order
        elif c in CHANGES:
            k = nxt
            if not (c == COLOR_BREAK and nxt == 0):
                nxt += 1  # a colour break before anything was sewn changes nothing
            preset = max(preset, k + 1)
        else:
            continue
        e = plan.setdefault(k, [None, None])
        if thread is not None:
            e[0] = thread
        if needle is not None:
            e[1] = needle
    t = 0
    n = 1
    for k in sorted(plan):
        e = plan[k]
        if e[0] is None:
            e[0] = t
            t += 1
        if e[1] is None:
            e[1] = n if n <= st["needle_count"] else (n - 1) % st["needle_count"] + 1
            n += 1
    return plan


def expected(stitches, settings):
    st = settings_of(settings)
    m = st["matrix"]
    plan = plan_changes(stitches, st)
    ev = []
    blocks = []  # thread index of each block, in order
    nx = ny = 0
    trimmed = True
    mode_on = False
    brk = False
    order = -1

    def change():
        nonlocal order, trimmed
        order += 1
        thread, needle = plan[order]
        blocks.append(thread)
        if st["change"] == COLOR_CHANGE:
            if order != 0:
                ev.append(("C", COLOR_CHANGE, order, needle))  # an index into the new threadlist
        else:
            ev.append(("C", st["change"], thread, needle))
        trimmed = True

    def tie(at, key, on):
        if st[key] != on:
            return
        j = at
        if not 0 <= j < len(stitches):
            return
        s = stitches[j]
        if (s[2] & 0xFF) in SEWN:
            ax, ay = rm.apply(m, s[0], s[1])
            ev.append(("L", nx, ny, ax, ay, st["max_stitch"]))

    def trim():
        nonlocal trimmed, mode_on
        if mode_on and st["sequin"] == SQ_UTILIZE:
            ev.append(("M",))
            mode_on = False
        ev.append(("T",))
        trimmed = True

    def exceeds(x, y, lim):
        return abs(x - nx) > lim or abs(y - ny) > lim

    def sequins_off_for_jump():
        nonlocal mode_on
        if mode_on:
            if st["sequin"] == SQ_UTILIZE:
                ev.append(("M",))
                mode_on = False

    def start_run(x, y, i):
        nonlocal trimmed, nx, ny
        if order == -1:
            change()
        trimmed = False
        if exceeds(x, y, st["max_jump"]) or (st["full_jump"] and (nx, ny) != (x, y)):
            sequins_off_for_jump()
        ev.append(("P", x, y, "travel", st["max_jump"], st["full_jump"]))
        nx, ny = x, y
        tie(i + 1, "tie_on", TIE_ON_3)

    for i, s in enumerate(stitches):
        x, y = rm.apply(m, s[0], s[1])
        if st["round"]:
            x, y = round(x), round(y)
        c = s[2] & 0xFF
        if c in (STITCH, NEEDLE_AT, SEW_TO):
            if trimmed:
                start_run(x, y, i)
                continue
            if brk:
                how = "needle"
            elif c == SEW_TO:
                how = "sew"
            elif c == NEEDLE_AT:
                how = "needle"
            else:
                how = {LONG_NEEDLE: "needle", LONG_SEW: "sew"}.get(st["long"], "direct")
            brk = False
            if how == "needle" and exceeds(x, y, st["max_stitch"]):
                sequins_off_for_jump()
            ev.append(("P", x, y, how, INF if how == "direct" else st["max_stitch"], False))
            nx, ny = x, y
        elif c == STITCH_BREAK:
            brk = True
        elif c in (TRIM, SEQUENCE_BREAK):
            if not trimmed:
                tie(i - 1, "tie_off", TIE_OFF_3)
                trim()
        elif c == FRAME_EJECT:
            if not trimmed:
                tie(i - 1, "tie_off", TIE_OFF_3)
                trim()
            sequins_off_for_jump()
            ev.append(("J", x, y, st["max_jump"]))
            nx, ny = x, y
            ev.append(("S",))
            trimmed = True
        elif c == JUMP:
            if not brk:
                sequins_off_for_jump()
                ev.append(("J", x, y, st["max_jump"]))
                nx, ny = x, y
        elif c in CHANGES:
            if c == COLOR_BREAK and order < 0:
                continue
            if not trimmed:
                tie(i - 1, "tie_off", TIE_OFF_3)
                if st["explicit_trim"]:
                    trim()
            if c == COLOR_BREAK:
                more = False
                for r in stitches[i:]:
                    rc = r[2] & 0xFF
                    if rc in SEWN or rc == TIE_ON:
                        more = True
                        break
                    if rc == END:
                        break
                if not more:
                    continue
            change()
        elif c == TIE_OFF:
            tie(i - 1, "tie_off", TIE_OFF_3)
        elif c == TIE_ON:
            tie(i + 1, "tie_on", TIE_ON_3)
        elif c == SEQUIN_MODE:
            if st["sequin"] == SQ_UTILIZE:
                ev.append(("M",))
                mode_on = not mode_on
        elif c == SEQUIN_EJECT:
            if trimmed:
                start_run(x, y, i)
            if st["sequin"] == SQ_UTILIZE and not mode_on:
                ev.append(("M",))
                mode_on = True
            if st["sequin"] == SQ_REMOVE:
                continue
            kind = {SQ_UTILIZE: "eject", SQ_JUMP: "jump", SQ_STITCH: "stitch"}[st["sequin"]]
            ev.append(("Q", x, y, kind, st["max_stitch"]))
            nx, ny = x, y
        elif c == STOP:
            ev.append(("S",))
            trimmed = True
        elif c == SLOW:
            if st["speeds"]:
                ev.append(("SLOW",))
        elif c == FAST:
            if st["speeds"]:
                ev.append(("FAST",))
        elif c == END:
            break
        elif c == TIE_ON_3:
            st["tie_on"] = TIE_ON_3
        elif c == TIE_ON_NONE:
            st["tie_on"] = TIE_ON_NONE
        elif c == TIE_OFF_3:
            st["tie_off"] = TIE_OFF_3
        elif c == TIE_OFF_NONE:
            st["tie_off"] = TIE_OFF_NONE
        elif c == O_MAX_JUMP:
            st["max_jump"] = s[0]
        elif c == O_MAX_STITCH:
            st["max_stitch"] = s[0]
        elif c == O_EXPLICIT:
            st["explicit_trim"] = True
        elif c == O_IMPLICIT:
            st["explicit_trim"] = False
        elif c in (LONG_NONE, LONG_NEEDLE, LONG_SEW):
            st["long"] = c
        elif c in (SQ_REMOVE, SQ_STITCH, SQ_JUMP, SQ_UTILIZE):
            if c != SQ_UTILIZE and mode_on:
                sequins_off_for_jump()
            st["sequin"] = c
        elif c == M_TRANSLATE:
            m = rm.inner(m, rm.translation(s[0], s[1]))
        elif c == M_SCALE_O:
            m = rm.inner(m, rm.scaling(s[0], s[1]))
        elif c == M_ROTATE_O:
            m = rm.inner(m, rm.rotation(s[0]))
        elif c == M_SCALE:
            q = rm.apply(rm.invert(m), nx, ny)
            m = rm.inner(m, rm.scaling(s[0], s[1], q[0], q[1]))
        elif c == M_ROTATE:
            q = rm.apply(rm.invert(m), nx, ny)
            m = rm.inner(m, rm.rotation(s[0], q[0], q[1]))
        elif c == M_RESET:
            m = rm.IDENTITY
    ev.append(("E",))
    return ev, blocks


# ---------------------------------------------------------------------------
# Matching an actual encoding against the expected events.

EPS = 1e-6


def on_segment(px, py, x0, y0, x1, y1, slack=1e-4):
    dx, dy = x1 - x0, y1 - y0
    ln = math.hypot(dx, dy)
    if ln < slack:
        return math.hypot(px - x0, py - y0) < 2 * slack
    cross = abs((px - x0) * dy - (py - y0) * dx) / ln
    t = ((px - x0) * dx + (py - y0) * dy) / ln
    return cross < slack and -slack <= t <= ln + slack


def match(actual, events, limits=False, eps=EPS, slack=1e-4, args=True):
    """Walk the actual output and the expected events together.
    Returns None, or a description of the first difference.  The moves the
    encoder inserts between events are free, as long as they lie on the straight
    way and do not go backwards; with `limits` every single move must also obey the
    length limit in force, and moves already in range must not be divided.
    eps is the tolerance of the events' positions, slack that of the moves between them
    (a file in whole units rounds both); args=False when the output does not carry
    thread and needle numbers, args="needle" when it carries only needles."""
    def near(a, b):
        return abs(a - b) <= eps

    i = 0
    nx = ny = 0.0
    n = len(actual)

    def cur():
        return actual[i] if i < n else None

    for k, e in enumerate(events):
        kind = e[0]

        def bad(what):
            return "event %d %r: %s; output %r at index %d of %r" % (k, e, what, cur(), i, actual)

        if kind in ("P", "J", "Q"):
            x, y = e[1], e[2]
            want = STITCH
            travel = JUMP
            full = False
            if kind == "J":
                want = JUMP
                limit = e[3]
            elif kind == "Q":
                want = {"eject": SEQUIN_EJECT, "jump": JUMP, "stitch": STITCH}[e[3]]
                travel = STITCH
                limit = e[4]
            else:
                limit = e[4]
                full = e[5]
                if e[3] == "sew":
                    travel = STITCH
                elif e[3] == "direct":
                    travel = None
            inrange = abs(x - nx) <= limit + EPS and abs(y - ny) <= limit + EPS
            lastt = -1.0
            px, py = nx, ny
            steps = 0
            while True:
                s = cur()
                if s is None:
                    return bad("output ends")
                c = s[2] & 0xFF
                at = near(s[0], x) and near(s[1], y)
                if limits and (abs(s[0] - px) > limit + EPS or abs(s[1] - py) > limit + EPS):
                    return bad("move of (%r, %r) exceeds the limit %r" % (s[0] - px, s[1] - py, limit))
                px, py = s[0], s[1]
                if c == want and at:
                    i += 1
                    break
                if travel is not None and c == travel:
                    if not on_segment(s[0], s[1], nx, ny, x, y, slack):
                        return bad("travel leaves the straight way")
                    t = math.hypot(s[0] - nx, s[1] - ny)
                    if t < lastt - 2 * slack:
                        return bad("travel goes backwards")
                    lastt = t
                    steps += 1
                    if limits and inrange and not (full and at and steps == 1):
                        return bad("a move within the limit %r is divided" % limit)
                    i += 1
                    continue
                return bad("not found")
            if limits and full and steps == 0 and not (near(nx, x) and near(ny, y)):
                return bad("full jump expected before the penetration")
            nx, ny = x, y
        elif kind == "L":
            x, y, ax, ay, limit = e[1:]
            for q in range(4):
                s = cur()
                if s is None or (s[2] & 0xFF) != STITCH:
                    return bad("lock stitch %d missing" % q)
                if not on_segment(s[0], s[1], x, y, ax, ay, slack):
                    return bad("lock stitch away from the anchor line")
                if math.hypot(s[0] - x, s[1] - y) > limit + 2 * slack:
                    return bad("lock stitch too long")
                i += 1
            s = actual[i - 1]
            if not (near(s[0], x) and near(s[1], y)):
                return bad("lock does not return to the lock point")
        else:
            s = cur()
            want = {"T": TRIM, "S": STOP, "E": END, "SLOW": SLOW, "FAST": FAST, "M": SEQUIN_MODE}.get(kind)
            if kind == "C":
                want = e[1]
            if s is None or (s[2] & 0xFF) != want:
                return bad("expected command %r" % want)
            if kind == "C" and args:
                c, thread, needle, order = decode(s[2])
                # a number of 255 or more cannot be held by a command: it is absent
                wt, wn = [None if v is None or v >= 255 else v for v in (e[2], e[3])]
                if (args != "needle" and thread != wt) or needle != wn:
                    return bad("thread/needle %r/%r" % (thread, needle))
            if not (near(s[0], nx) and near(s[1], ny)):
                return bad("command away from the needle position (%r, %r)" % (nx, ny))
            i += 1
    if i != n:
        return "output continues after the last expected event: %r" % (actual[i:],)
    return None
