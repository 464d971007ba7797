"""C05: blocked longitudes, groups of them, and blocks do not depend on where longitude 0 lies."""
import itertools
import math
import os

import numpy as np

from mc.aggdrv import quiet
from mc.spaces import batches

LON = 360


def run(f, *args, **kw):
    with quiet():
        try:
            return f(*args, **kw)
        except Exception as ex:  # noqa
            return '%s: %s' % (type(ex).__name__, ex)


def calculator(**options):
    from metcalcpy.contributed.blocking_weather_regime.Blocking import BlockingCalculation
    for k in [k for k in os.environ if k.startswith('VPB_')]:
        del os.environ[k]
    for k, v in options.items():
        os.environ['VPB_' + k] = str(v)
    return BlockingCalculation('VPB')


# ---------------------------------------------------------------- groups of blocked longitudes
def grouped(points, dist, size):
    """Longitudes of the groups: neighbours at most dist apart, groups at least size wide, gaps filled."""
    pts = sorted(points)
    if not pts:
        return set()
    gaps = [((pts[(i + 1) % len(pts)] - p) % LON or LON) for i, p in enumerate(pts)]
    if all(g <= dist for g in gaps):
        return set(range(LON))
    starts = [i for i in range(len(pts)) if gaps[i - 1] > dist]
    out = set()
    for s in starts:
        i, width = s, 1
        while gaps[i] <= dist:
            width += gaps[i]
            i = (i + 1) % len(pts)
        if width >= size:
            out |= {(pts[s] + k) % LON for k in range(width)}
    return out


def runs_to_points(runs, start):
    """runs: lengths and gaps alternating, from a start longitude."""
    pts, at = [], start
    for i, n in enumerate(runs):
        if i % 2 == 0:
            pts += [(at + k) % LON for k in range(n)]
        at += n
    return sorted(set(pts))


def group_worker(rec, item):
    shape, options = item
    calc = calculator(**options)
    dist, size = options.get('IBL_DIST', 7), options.get('IBL_IN_GIBL', 15)
    starts = list(range(0, LON))
    ibl = np.zeros((2, LON // 2, LON))
    want = np.zeros_like(ibl)
    for s in starts:
        pts = runs_to_points(shape, s)
        ibl[s % 2, s // 2, pts] = 1
        want[s % 2, s // 2, sorted(grouped(pts, dist, size))] = 1
        rec.state((shape, repr(sorted(options.items())), s), depth=len(shape))
    before = ibl.copy()
    got = run(calc.run_Calc_GIBL, ibl, np.arange(LON))
    rec.transition(LON)
    rec.trace(LON)
    rec.outcome((shape, repr(options), want.sum()))
    where = {'lengths and gaps': shape, 'options': options}
    if isinstance(got, str):
        rec.violation('groups of %r: %s' % (shape, got), where)
    elif not np.array_equal(got, want):
        y, d = (int(v[0]) for v in np.where((got != want).any(axis=2)))
        where['first longitude'] = 2 * d + y
        rec.violation('runs and gaps %r from longitude %d, options %r: %d longitudes in groups, not %d' % (
            shape, 2 * d + y, options, got[y, d].sum(), want[y, d].sum()), where)
    elif not np.array_equal(ibl, before):
        rec.violation('the blocked longitudes were changed', where)


# ---------------------------------------------------------------- blocks in time
def lasting(present):
    """Days that belong to a block: present on five days or more, never absent for two days."""
    days, chains = [i for i, p in enumerate(present) if p], []
    for d in days:
        if chains and d - chains[-1][-1] <= 2:
            chains[-1].append(d)
        else:
            chains.append([d])
    return [d for c in chains if len(c) >= 5 for d in c]


def block_worker(rec, part):
    calc = calculator()
    lon = np.arange(LON)
    for kind, arg in part:
        g = np.zeros((2, 12, LON))
        want = np.zeros_like(g)
        if kind == 'still':
            # groups that stay where they are: year, first day, days, first longitude, width
            for y, d0, days, at, width in arg:
                for d in range(d0, d0 + days):
                    g[y, d, [(at + i) % LON for i in range(width)]] = 1
                    if days >= 5:
                        want[y, d, [(at + i) % LON for i in range(width)]] = 1
        elif kind == 'days':
            # groups that stay where they are, present on some days: year, first longitude, width, days
            for y, at, width, present in arg:
                cells = [(at + i) % LON for i in range(width)]
                for d, p in enumerate(present):
                    if p:
                        g[y, d, cells] = 1
                for d in lasting(present):
                    want[y, d, cells] = 1
        else:
            # one group that moves by steps with sufficient overlap
            y, d0, at, width, steps = arg
            moved = [0]
            for s in steps:
                moved.append(moved[-1] + s)
            far = [i for i, m in enumerate(moved) if abs(m) > 45]
            lasts = far[0] if far else len(moved)
            for i, m in enumerate(moved):
                cells = [(at + m + k) % LON for k in range(width)]
                g[y, d0 + i, cells] = 1
                if i < lasts and lasts >= 5:
                    want[y, d0 + i, cells] = 1
        rec.state((kind, arg), depth=len(arg))
        rec.transition()
        rec.trace()
        got = run(calc.run_Calc_Blocks, g.copy(), g.copy(), lon, None)
        rec.outcome((want.sum(), g.sum()))
        where = {'kind': kind, 'groups': arg}
        if isinstance(got, str):
            rec.violation('blocks of %s groups %r: %s' % (kind, arg, got), where)
        elif got.shape != want.shape or not np.array_equal(got, want):
            rec.violation('blocks of %s groups %r cover %r days, not %r' % (
                kind, arg, (got.sum(axis=2) > 0).sum(axis=1).tolist(), (want.sum(axis=2) > 0).sum(axis=1).tolist()), where)


# ---------------------------------------------------------------- blocked longitudes
def index_of(column, central, deltas, limit):
    """Largest difference of the mean north and the mean south of the central latitude."""
    best = None
    c = int(90 - central)
    for l in deltas:
        n0, mid, s1 = int(c - limit / 2 - l), c - l, int(c + limit / 2 - l)
        d = np.mean(column[n0:mid + 1]) - np.mean(column[mid:s1 + 1])
        best = d if best is None or d > best else best
    return best


def point_worker(rec, item):
    import netCDF4
    options, centrals, seeds, via_file = item
    calc = calculator(**options)
    deltas = [int(v) for v in options.get('LAT_DELTA', '-5,0,5').split(',')]
    limit = int(options.get('NORTH_SOUTH_LIMITS', 30))
    lats = np.arange(90, -1, -1).astype(float)
    cbl = np.array([centrals[i % len(centrals)] for i in range(LON)], dtype=float)
    fields = []
    for seed in seeds:
        f = np.zeros((91, LON))
        for i in range(LON):
            # one or two bumps in the column, every position in turn
            at = (i // len(centrals) + seed * 11) % 75
            f[at, i] = 1.0 if seed % 2 == 0 else -1.0
            f[(at + 7 * seed + 3) % 75, i] += (seed % 3) - 1.0
        fields.append(f)
    data = np.array(fields)
    want_bi = np.array([[index_of(f[:, i], cbl[i], deltas, limit) for i in range(LON)] for f in data])
    rec.state(repr(item), depth=len(seeds))
    rec.transition(len(seeds) * LON)
    rec.trace(len(seeds) * LON)
    rec.outcome(np.round(want_bi, 6).tobytes())
    where = {'options': options, 'central latitudes': centrals, 'seeds': seeds, 'from files': via_file}
    sure = np.abs(want_bi) > 1e-9
    if not via_file:
        got = run(calc.run_mod_blocking1d, data, cbl, lats, np.arange(LON), 'PH')
        if isinstance(got, str):
            rec.violation('blocked longitudes: %s' % got, where)
            return
        blocked, bi = got
        if not np.allclose(bi, want_bi, atol=1e-9):
            k, i = (int(v[0]) for v in np.where(~np.isclose(bi, want_bi, atol=1e-9)))
            rec.violation('blocking index %r, not %r, central latitude %r, options %r' % (bi[k, i], want_bi[k, i], cbl[i], options), where)
            return
    else:
        files = []
        for k, f in enumerate(data):
            path = os.path.join(rec.dir, 'z%d_%d.nc' % (k, abs(hash(repr(item))) % 10 ** 8))
            with netCDF4.Dataset(path, 'w') as ds:
                ds.createDimension('lat', 91)
                ds.createDimension('lon', LON)
                ds.createVariable('lat', 'd', ('lat',))[:] = lats
                ds.createVariable('lon', 'd', ('lon',))[:] = np.arange(LON)
                v = ds.createVariable('Z500', 'd', ('lat', 'lon'))
                v[:] = f
                v.init_time = '20010101_000000'
                v.valid_time = '200101%02d_120000' % (k + 1)
            files.append(path)
        # years without a central latitude take no part
        spread = np.array([cbl - 2, cbl + 2, np.where(np.arange(LON) % 3, cbl, np.nan)])
        got = run(calc.run_Calc_IBL, spread, files, 1, len(files))
        if isinstance(got, str):
            rec.violation('blocked longitudes from files: %s' % got, where)
            return
        blocked, times = got
        blocked = blocked[0]
        valid = ['200101%02d_120000' % (k + 1) for k in range(len(files))]
        leads = ['%02d0000' % (24 * k + 12) for k in range(len(files))]
        if list(times['valid'][0]) != valid or list(times['lead'][0]) != leads:
            rec.violation('times of the blocked longitudes are %r %r' % (times['valid'], times['lead']), where)
    if not np.array_equal(blocked[sure] == 1, want_bi[sure] > 0):
        k, i = (int(v[0]) for v in np.where(sure & ((blocked == 1) != (want_bi > 0))))
        rec.violation('longitude %d with blocking index %r is reported %r' % (i, want_bi[k, i], blocked[k, i]), where)


# ---------------------------------------------------------------- central latitude
def sequence(letters, order):
    """Every word of the given length occurs once on the circle (de Bruijn)."""
    a, out = [0] * letters * order, []

    def db(t, p):
        if t > order:
            if order % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, letters):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return out


def central_worker(rec, item):
    import netCDF4
    lats, pts, shift, missing, years = item
    calc = calculator(SMOOTHING_PTS=pts)
    words = sequence(len(lats), 5)
    words = (words * 3)[:LON]
    files = []
    choice = []
    for y in range(years):
        c = np.roll(words, shift + 40 * y)
        choice.append([lats[i] for i in c])
        for d, sign in enumerate((1.0, -1.0)):
            f = np.zeros((len(lats), LON))
            for i in range(LON):
                for r, lat in enumerate(lats):
                    # the chosen latitude has the largest weighted deviation, although a higher raw one exists elsewhere
                    w = math.sqrt(math.cos(math.radians(lat)))
                    f[r, i] = sign * (1.0 if r == c[i] else 0.95 - 0.01 * r) / w
            path = os.path.join(rec.dir, 'a%d_%d_%d.nc' % (y, d, shift))
            with netCDF4.Dataset(path, 'w') as ds:
                ds.createDimension('lat', len(lats))
                ds.createDimension('lon', LON)
                ds.createVariable('lat', 'd', ('lat',))[:] = lats
                ds.createVariable('lon', 'd', ('lon',))[:] = np.arange(LON)
                v = ds.createVariable('Z500_ANA', 'd', ('lat', 'lon'))
                v[:] = f
                v.init_time = v.valid_time = '20010101_000000'
            files.append(path)
        if missing:
            files.append('missing')
    got = run(calc.run_CBL, files, years, len(files) // years)
    rec.state(repr(item), depth=years)
    rec.transition(LON * years)
    rec.trace(LON * years)
    where = {'latitudes': lats, 'smoothing': pts, 'rotation': shift, 'missing files': missing, 'years': years}
    if isinstance(got, str):
        rec.violation('central latitude: %s' % got, where)
        return
    m = (pts - 1) // 2
    want = np.array([[int(sum(c[(i + k) % LON] for k in range(-m, m + 1)) / pts + 1e-9) for i in range(LON)] for c in choice])
    rec.outcome(want.tobytes())
    if not np.array_equal(np.asarray(got[0]), want):
        y, i = (int(v[0]) for v in np.where(np.asarray(got[0]) != want))
        rec.violation('central latitude at longitude %d is %r, not %r (smoothing over %d)' % (i, got[0][y, i], want[y, i], pts), where)


def explore(check):
    check.preload = ['metcalcpy.contributed.blocking_weather_regime.Blocking']
    big = check.thorough
    lengths = (1, 2, 7, 8, 14, 15, 16, 29, 30)
    gaps = (1, 5, 6, 7, 8, 9, 30)
    shapes = [()] + [(a,) for a in lengths + (100, 359, 360)]
    shapes += [(a, g, b) for a in lengths for g in gaps for b in lengths]
    if big:
        shapes += [(a, g, b, h, c) for a in (1, 8, 15) for g in (6, 7) for b in (1, 7) for h in (6, 7, 30) for c in (1, 15)]
    shapes += [(1, 6) * 51, (1, 7) * 45, (1, 5) * 60, (2, 6, 1, 6) * 3]
    check.bounds = {'groups': '%d patterns of runs and gaps at every longitude' % len(shapes),
                    'blocks': 'all pairs of still groups, all walks of one group over 5-7 days, all sets of up to 10 days of one group'}
    check.assumptions = ['groups that overlap by exactly the required number of longitudes are not judged']
    items = [(s, {}) for s in shapes]
    items += [(s, o) for s in shapes[:60] for o in ({'IBL_DIST': 4}, {'IBL_IN_GIBL': 8}, {'IBL_DIST': 10, 'IBL_IN_GIBL': 20})]
    check.run(group_worker, items, chunk=4)
    cases = [('still', ())]
    places = list(range(0, LON, 12)) + [1, 340, 345, 347, 350, 355, 359]
    for w in (15, 16, 21, 30):
        for at in places:
            for days in range(1, 8):
                cases.append(('still', ((0, 2, days, at, w),)))
    for w1, w2, sep in itertools.product((16, 21), (16, 30), (60, 150)):
        for (a1, n1), (a2, n2) in itertools.product(((1, 5), (1, 3), (2, 6)), ((1, 5), (3, 6), (6, 3))):
            for at in (0, 100, 200, 290, 330, 345, 355):
                cases.append(('still', ((0, a1, n1, at, w1), (0, a2, n2, (at + sep) % LON, w2))))
                cases.append(('still', ((0, a1, n1, at, w1), (1, a2, n2, at, w2))))
    steps = (0, 4, -4, 9)
    for days in (5, 6, 7) if not big else (5, 6, 7, 8):
        for walk in itertools.product(steps, repeat=days - 1):
            for at in (100, 345, 0) if days < 7 else (350,):
                cases.append(('walk', (1, 2, at, 24, walk)))
    for at in (0, 10, 100, 200, 300, 330, 350):
        for w in (24, 31):
            for days in (5, 6, 7, 8, 9):
                for s in (12, -12, 9, -9):
                    cases.append(('walk', (0, 1, at, w, (s,) * (days - 1))))
    for days in range(1, 11 if not big else 13):
        for present in itertools.product((0, 1), repeat=days):
            for y, at, w in ((0, 100, 20), (1, 350, 20)) if days < 10 else ((1, 352, 24),):
                cases.append(('days', ((y, at, w, present),)))
    # the days of two groups in one year, and of one group in two years
    for first, second in itertools.product(itertools.product((0, 1), repeat=4), repeat=2):
        for other in ((0, 200, 18), (1, 352, 18)):
            cases.append(('days', ((0, 352, 20, (1, 1, 1) + first), other + ((1,) + second + (1, 1),))))
    check.run(block_worker, list(batches(cases, 40)), chunk=1)
    cases = []
    for centrals in ((45, 50, 55), (40, 60), (52.5, 47.25), (41, 43, 45, 47, 49)):
        for options in ({}, {'LAT_DELTA': '0'}, {'LAT_DELTA': '-4,0,4', 'NORTH_SOUTH_LIMITS': 20}):
            cases.append((options, centrals, tuple(range(8)), False))
            if all(c == int(c) for c in centrals):
                cases.append((options, centrals, (0, 1, 2, 5), True))
    check.run(point_worker, cases, chunk=1)
    check.run(central_worker, [(lats, pts, shift, missing, years) for lats in ((60.0, 45.0, 30.0), (70.0, 51.0, 40.0))
                               for pts in (1, 3, 5, 9) for shift in (0, 3, 7) for missing in (False, True)
                               for years in (1, 2)], chunk=2)
