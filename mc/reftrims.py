"""Reference model of adding trims to runs of jumps (what the DST and JEF readers promise).

A run is a sequence of consecutive jumps.  The first time a run that follows uncut stitching reaches the given
number of jumps, or gets further than the given distance from its start on an axis, a trim is put before it.
With clipping, the jumps of a run are left out whenever they have led back to where the run began.
"""
from . import refenc as R


def interpolate(stitches, count, dist, clipping):
    out = []
    x = y = 0
    cut = True
    run = None
    for s in stitches:
        c = s[2] & 0xFF
        if c == R.JUMP:
            if run is None:
                run = [len(out), 0, x, y]
            run[1] += 1
            dx, dy = s[0] - run[2], s[1] - run[3]
            out.append(tuple(s))
            if not cut and (run[1] == count or (dist is not None and max(abs(dx), abs(dy)) > dist)):
                out.insert(run[0], (run[2], run[3], R.TRIM))
                run[0] += 1
                cut = True
            if clipping and dx == 0 and dy == 0:
                del out[run[0]:]
        else:
            run = None
            if c in (R.STITCH, R.SEQUIN_EJECT):
                cut = False
            elif c in (R.COLOR_CHANGE, R.NEEDLE_SET, R.TRIM):
                cut = True
            out.append(tuple(s))
        x, y = s[0], s[1]
    return out
