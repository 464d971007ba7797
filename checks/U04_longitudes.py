"""U04: longitude conversion on all regular grids and all short lists of positions."""
import itertools

import numpy as np

from checks.U03_serial import observe
from mc.spaces import batches


def same(a, b, turn=360.0):
    d = abs(float(a) - float(b)) % turn
    return min(d, turn - d) < 1e-9


def judge_180(rec, lons, how):
    from metcalcpy.util.utils import convert_lon_360_to_180
    arg = np.array(lons) if how == 'array' else list(lons)
    got = observe(convert_lon_360_to_180, arg)
    rec.trace()
    rec.outcome(repr(got))
    if isinstance(got, str):
        bad = got
    else:
        out = list(got)
        want = sorted((x + 180) % 360 - 180 for x in lons)
        bad = None
        if len(out) != len(lons) or any(not same(a, b) for a, b in zip(out, want)):
            bad = 'positions %r' % out[:8]
        elif any(not -180 <= x < 180 for x in out) or any(a > b for a, b in zip(out, out[1:])):
            bad = 'range or order %r' % out[:8]
        elif all(isinstance(x, int) for x in lons) != np.issubdtype(np.asarray(got).dtype, np.integer) and len(lons):
            bad = 'type %s' % np.asarray(got).dtype
        elif list(arg) != list(lons):
            bad = 'argument changed'
    if bad:
        rec.violation('conversion of %r (%s) to -180..180: %s' % (lons[:8], how, bad), {'lons': lons, 'via': how})


def judge_indices(rec, lons, start, turn):
    from metcalcpy.util.utils import convert_lons_indices
    arg = np.array(lons)
    got = observe(convert_lons_indices, arg, start, turn)
    rec.trace()
    if isinstance(got, str):
        bad = got
    else:
        out, idx = list(got[0]), [int(i) for i in got[1]]
        rec.outcome(repr(idx))
        bad = None
        if sorted(idx) != list(range(len(lons))):
            bad = 'indices %r' % idx[:8]
        elif any(not same(out[k], lons[i], turn) for k, i in enumerate(idx)):
            bad = 'positions %r' % out[:8]
        elif any(not start - 1e-9 <= x < start + turn for x in out) or any(a > b for a, b in zip(out, out[1:])):
            bad = 'range or order %r' % out[:8]
        elif list(arg) != list(lons):
            bad = 'argument changed'
    if bad:
        rec.violation('longitudes %r from %r over %r: %s' % (lons[:8], start, turn, bad),
                      {'lons': lons, 'start': start, 'turn': turn})


STARTS = (-180, -90, -30, 0, 20, 180)


def worker(rec, part):
    for lons in part:
        rec.state(('lons', lons), depth=min(len(lons), 12))
        rec.transition()
        for how in ('array', 'list'):
            judge_180(rec, lons, how)
        for start in STARTS:
            judge_indices(rec, lons, start, 360)


def small_turns(rec, part):
    for lons, start, turn in part:
        rec.state(('turn', lons, start, turn))
        rec.transition()
        judge_indices(rec, lons, start, turn)


def grids(thorough):
    for n in [d for d in range(1, 361) if 360 % d == 0]:
        step = 360 // n
        for first in range(0, step if thorough else min(step, 4)):
            for kind in (int, float):
                up = tuple(kind(first + i * step) for i in range(n))
                yield up
                yield tuple(reversed(up))
                yield tuple(kind(x - 180) for x in up)
    # half and quarter degrees
    for n in (720, 1440):
        yield tuple(i * 360.0 / n for i in range(n))


def explore(check):
    check.preload = ['metcalcpy.util.utils']
    points = (0, 1, 90, 179, 180, 181, 270, 359)
    lists = [v for k in range(1, 5) for v in itertools.product(points, repeat=k)]
    lists += [tuple(x + 0.5 for x in v) for k in range(1, 4) for v in itertools.permutations(points, k)]
    lists += [v for k in range(1, 4) for v in itertools.product((-180, -90, -1, 0, 179, 180, 360), repeat=k)]
    lists += list(grids(check.thorough))
    check.bounds = {'lists': 'all of 1..4 positions out of %r' % (points,),
                    'grids': 'every divisor of 360, first longitude 0..3, both directions and conventions',
                    'starts': STARTS}
    check.run(worker, batches(lists, 40))
    short = [(v, s, t) for k in (1, 2, 3) for v in itertools.product((0, 5, 30, 45, 59, 89), repeat=k)
             for s, t in ((0, 90), (-45, 90), (-30, 60), (10, 180))]
    check.run(small_turns, batches(short, 100))
