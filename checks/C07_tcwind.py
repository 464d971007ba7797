"""C07: radial and tangential winds around a storm, from files in any order of dimensions."""
import argparse
import itertools
import math
import os

import numpy as np
import xarray as xr

from checks.U03_serial import observe

DIMS = ('range', 'azimuth', 'pressure', 'track_point')
ARGS = argparse.Namespace(u='U', v='V', T='T')


def dataset(u, v, azimuths):
    nr, na, nl, nt = u.shape
    coords = {'range': np.arange(nr) * 0.5, 'azimuth': np.array(azimuths, dtype=float),
              'pressure': 1000.0 - 100 * np.arange(nl), 'track_point': np.arange(nt)}
    ds = xr.Dataset({'U': (DIMS, u.copy()), 'V': (DIMS, v.copy()), 'T': (DIMS, u * 0 + 280.0)}, coords=coords)
    ds['TrackLines'] = ('track_line', np.arange(2))
    return ds


def components(u, v, azimuths):
    """Unit vectors at 90 degrees from the azimuth."""
    er = np.array([complex(-math.sin(math.radians(a)), math.cos(math.radians(a))) for a in azimuths])[None, :, None, None]
    w = (u + 1j * v) * np.conj(er)
    return w.real, w.imag


def judge(rec, what, ds, u, v, azimuths, where):
    from metcalcpy import process_tcrmw as code
    before = ds.copy(deep=True)
    got = observe(code.compute_wind_components, ARGS, ds)
    rec.trace()
    if isinstance(got, str):
        rec.violation('%s: %s' % (what, got), where)
        return
    want = components(u, v, azimuths)
    rec.outcome(np.round(want, 5).tobytes())
    scale = 1e-5 * (1 + np.nanmax(np.abs(u)) + np.nanmax(np.abs(v)))
    for name, have, exp in zip(('radial', 'tangential'), got, want):
        if np.shape(have) != exp.shape or not np.allclose(have, exp, atol=scale, equal_nan=True):
            rec.violation('%s: %s wind at azimuths %r is wrong' % (what, name, list(azimuths)), where)
            return
    if not ds.identical(before):
        rec.violation('%s: the data were changed' % what, where)


def point_worker(rec, item):
    azimuths, shape, at, wind = item
    u, v = np.zeros(shape), np.zeros(shape)
    u[at], v[at] = wind
    rec.state(repr(item), depth=len(azimuths))
    rec.transition()
    judge(rec, 'wind %r at %r' % (wind, at), dataset(u, v, azimuths), u, v, azimuths,
          {'azimuths': azimuths, 'shape': shape, 'at': at, 'wind': wind})


def file_worker(rec, item):
    from metcalcpy import process_tcrmw as code
    orders, shape = item
    nr, na, nl, nt = shape
    n = nr * na * nl * nt
    azimuths = [360.0 / na * i for i in range(na)]
    u = (np.arange(n) * 7 % 13 - 6.0).reshape(shape)
    v = (np.arange(n) * 5 % 11 - 5.0).reshape(shape)
    ds = dataset(u, v, azimuths)
    for name, order in zip(('U', 'V', 'T'), orders):
        ds[name] = ds[name].transpose(*[DIMS[i] for i in order])
    path = os.path.join(rec.dir, 'rmw%d.nc' % len(os.listdir(rec.dir)))
    ds.to_netcdf(path)
    rec.state(repr(item), depth=2)
    rec.transition()
    got = observe(code.read_tcrmw, path)
    where = {'orders': orders, 'shape': shape}
    if isinstance(got, str):
        rec.violation('reading a file with orders %r: %s' % (orders, got), where)
        return
    with got:
        ok = all(got[k].dims == DIMS and np.array_equal(got[k].values, x) for k, x in (('U', u), ('V', v)))
        if not ok:
            rec.violation('a file with orders %r is read wrongly' % (orders,), where)
            return
        judge(rec, 'file with orders %r' % (orders,), got.load(), u, v, azimuths, where)
    os.remove(path)


def explore(check):
    check.preload = ['metcalcpy.process_tcrmw']
    big = check.thorough
    check.bounds = {'azimuths': 'regular circles of 1-8, every set of up to 2 of 24, 5 degree circle',
                    'files': 'all pairs of orders of the dimensions of the two winds'}
    items = []
    winds = [w for w in itertools.product((-3.0, 0.0, 10.0), repeat=2) if w != (0.0, 0.0)] + [(math.nan, 1.0)]
    circles = [tuple(360.0 / n * i for i in range(n)) for n in range(1, 9)]
    circles += [c for k in (1, 2) for c in itertools.permutations([15.0 * i for i in range(24)], k)]
    for c in circles:
        for at in ((0, len(c) - 1, 1, 0), (1, 0, 0, 1)):
            for w in winds:
                items.append((c, (2, len(c), 2, 2), at, w))
    for na in (72, 180, 360):
        c = tuple(360.0 / na * i for i in range(na))
        for i in range(na):
            items.append((c, (1, na, 1, 1), (0, i, 0, 0), (3.0, -4.0)))
    for shape in itertools.product((1, 2, 3), repeat=4):
        for at in itertools.product(*[range(n) for n in shape]):
            items.append((tuple(30.0 * i for i in range(shape[1])), shape, at, (2.0, 5.0)))
    check.run(point_worker, items)
    orders = list(itertools.permutations(range(4)))
    files = [((a, b, a), s) for a in orders for b in orders for s in ((2, 3, 4, 5), (2, 2, 2, 2))]
    if big:
        files += [((a, b, b), (3, 8, 2, 1)) for a in orders for b in orders]
    check.run(file_worker, files, chunk=12)
