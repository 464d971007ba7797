"""F05: zonal and meridional means of all small grids and bands."""
import itertools
import math

import numpy as np
import xarray as xr

from checks.U03_serial import observe

NAN = float('nan')
LATS = (-90.0, -45.0, 0.0, 30.0, 60.0, 75.0, 90.0)
LIMITS = (-90, -45, -10, 0, 30, 60, 80, 90)


def lat_sets():
    for n in (1, 2, 3):
        yield from itertools.combinations(LATS, n)
    yield LATS


def average(pairs):
    """Weighted mean of (weight, value), leaving out undefined values."""
    pairs = [(w, v) for w, v in pairs if v == v]
    total = math.fsum(w for w, v in pairs)
    if not pairs or total == 0:
        return NAN
    return math.fsum(w * v for w, v in pairs) / total


def fields(n):
    """Value columns of n points: every combination of a few values, one of them undefined."""
    letters = (1.0, -2.0, NAN) if n <= 3 else (1.0, NAN)
    return list(itertools.product(letters, repeat=n))


def same(a, b):
    return (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-9


def build(lats, cols, dim, lat_first, kind):
    a = xr.DataArray(np.array(cols), dims=('x', dim), coords={dim: list(lats), 'x': range(len(cols))})
    if lat_first:
        a = a.transpose(dim, 'x')
    if kind == 'dataset':
        return xr.Dataset({'a': a, 'b': a * 2})
    return a


def unpack(got, kind):
    if kind == 'dataset':
        return got['a'], got['b'] / 2
    return (got,)


def meridional(rec, item):
    lats, dim, order, lat_first, kind = item
    from metcalcpy.pre_processing.directional_means import meridional_mean
    lats = tuple(reversed(lats)) if order else lats
    cols = fields(len(lats))
    dat = build(lats, cols, dim, lat_first, kind)
    for lat1, lat2 in itertools.product(LIMITS, repeat=2):
        rec.state((lats, dim, lat_first, kind, lat1, lat2), depth=len(lats))
        rec.transition()
        got = observe(meridional_mean, dat, lat1, lat2, *(() if dim == 'latitude' else (dim,)))
        rec.trace()
        where = {'lats': lats, 'dim': dim, 'band': (lat1, lat2), 'kind': kind}
        if lat1 >= lat2:
            rec.outcome('refused')
            if not (isinstance(got, str) and got.startswith('ValueError')):
                rec.violation('band %r is accepted' % ((lat1, lat2),), where)
            continue
        inside = [i for i, x in enumerate(lats) if lat1 <= x <= lat2]
        if not inside:
            # nothing to average: no value, or a refusal
            rec.count('empty band')
            if not isinstance(got, str):
                for g in unpack(got, kind):
                    if not np.all(np.isnan(g.values)):
                        rec.violation('empty band %r has values' % ((lat1, lat2),), where)
            continue
        if isinstance(got, str):
            rec.violation('latitudes %r, band %r: %s' % (lats, (lat1, lat2), got), where)
            continue
        for g in unpack(got, kind):
            if g.dims != ('x',):
                rec.violation('dimensions %r' % (g.dims,), where)
                continue
            for c, h in zip(cols, g.values):
                weights = [(math.cos(math.radians(lats[i])), c[i]) for i in inside]
                want = average(weights)
                rec.trace()
                rec.outcome(repr(want))
                if all(abs(w) < 1e-9 for w, v in weights if v == v) and any(v == v for w, v in weights):
                    continue        # only poles: the weights are rounding errors
                if not same(float(h), want):
                    rec.violation('latitudes %r values %r, band %r: %r, expected %r'
                                  % (lats, c, (lat1, lat2), float(h), want), dict(where, values=repr(c)))
                    break


def zonal(rec, item):
    n, dim, lon_first, kind = item
    from metcalcpy.pre_processing.directional_means import zonal_mean
    cols = list(itertools.product((1.0, -2.0, 0.25, NAN), repeat=n))
    dat = build([i * 360.0 / n for i in range(n)], cols, dim, lon_first, kind)
    got = observe(zonal_mean, dat, *(() if dim == 'longitude' else (dim,)))
    where = {'longitudes': n, 'dim': dim, 'kind': kind}
    if isinstance(got, str):
        rec.violation('zonal mean of %d longitudes: %s' % (n, got), where)
        return
    for g in unpack(got, kind):
        for c, h in zip(cols, g.values):
            rec.state(('zonal', n, dim, lon_first, kind, repr(c)), depth=n)
            rec.transition()
            rec.trace()
            want = average([(1.0, v) for v in c])
            rec.outcome(repr(want))
            if not same(float(h), want):
                rec.violation('zonal mean of %r: %r' % (c, float(h)), dict(where, values=repr(c)))
                break


def explore(check):
    check.preload = ['metcalcpy.pre_processing.directional_means']
    check.bounds = {'latitudes': '1..3 and all 7 of %r' % (LATS,), 'limits': LIMITS, 'longitudes': '1..5'}
    check.assumptions = ['undefined values take no part', 'an empty band has no value or is refused']
    items = [(s, 'latitude', order, first, kind) for s in lat_sets() for order in (0, 1) for first in (False, True)
             for kind in (('array', 'dataset') if len(s) == 3 and not order else ('array',))]
    items += [(s, 'lat', 0, False, 'array') for s in lat_sets()]
    check.run(meridional, items, chunk=2)
    check.run(zonal, [(n, d, f, k) for n in range(1, 6) for d in ('longitude', 'lon') for f in (False, True)
                      for k in ('array', 'dataset')], chunk=1)
