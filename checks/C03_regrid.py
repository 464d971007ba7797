"""C03: flipping longitudes, splitting into symmetric parts and storing spectra keep every value in its place."""
import itertools
import os

import numpy as np
import xarray as xr

from checks.U03_serial import observe

FLIPS = ('metcalcpy.contributed.spacetime.spacetime_utils', 'metcalcpy.contributed.tropical_diagnostics.utils')


def modules():
    import importlib
    return [importlib.import_module(m) for m in FLIPS]


def cube(lons, kind):
    n = len(lons)
    values = np.arange(2 * 2 * n, dtype=float).reshape(2, 2, n) * 1.5 + 1
    return xr.DataArray(values, dims=('time', 'lat', 'lon'),
                        coords={'time': [10, 20], 'lat': [-5.0, 5.0], 'lon': np.array(lons).astype(kind)})


def as_map(data):
    out = {}
    for l in data['lon'].values:
        key = round(float(l) % 360.0, 6)
        if key in out:
            return None
        out[key] = data.sel(lon=l).values.tolist()
    return out


def flip_worker(rec, item):
    lons, kind, how = item
    for mod in modules():
        data = cube(lons, kind)
        before = data.copy(deep=True)
        lon = {'coordinate': data['lon'], 'copy': data['lon'].copy(deep=True),
               'array': xr.DataArray(np.array(lons).astype(kind), dims='lon')}[how]
        got = observe(mod.lonFlip, data, lon)
        rec.state((lons, kind, how, mod.__name__), depth=len(lons))
        rec.transition()
        rec.trace()
        where = {'longitudes': lons, 'type': kind, 'given as': how, 'module': mod.__name__}
        if isinstance(got, str):
            rec.violation('flipping %r: %s' % (lons, got), where)
            continue
        rec.outcome(repr(got.values.tolist()) + repr(got['lon'].values.tolist()))
        want = [l % 360 for l in lons] if min(lons) < 0 else [l - 360 if l >= 180 else l for l in lons]
        if got['lon'].values.tolist() != sorted(want):
            rec.violation('flipping %r gives longitudes %r' % (lons, got['lon'].values.tolist()), where)
        elif as_map(got) != as_map(before):
            rec.violation('flipping %r moves values to other longitudes' % (lons,), where)
        elif not data.identical(before) or not np.array_equal(lon.values, before['lon'].values):
            rec.violation('flipping %r changes the longitudes of the caller' % (lons,), where)
        elif got['time'].values.tolist() != [10, 20] or got['lat'].values.tolist() != [-5.0, 5.0]:
            rec.violation('flipping %r changes times or latitudes' % (lons,), where)
        else:
            # a whole circle flipped twice is the circle again
            back = observe(mod.lonFlip, got, got['lon'])
            rec.trace()
            if isinstance(back, str) or as_map(back) != as_map(before):
                rec.violation('flipping %r twice: %s' % (lons, back if isinstance(back, str) else 'values moved'), where)


def symmetric_worker(rec, item):
    from metcalcpy.contributed.spacetime import spacetime as code
    lats, row, value, kind = item
    n = len(lats)
    base = np.array([[[(3 * t + 2 * l + m * m) % 5 for l in range(3)] for m in range(n)] for t in range(2)], dtype=float)
    base[1, row, 2] += value
    for opt, sign, rows in (('symm', 1, [i for i in range(n) if lats[i] >= 0]),
                            ('asymm', -1, [i for i in range(n) if lats[i] > 0]),
                            ('anti-symm', -1, [i for i in range(n) if lats[i] > 0])):
        data = base.copy()
        lat = np.array(lats)
        if kind == 'DataArray':
            data = xr.DataArray(data, dims=('time', 'lat', 'lon'), coords={'time': [0, 1], 'lat': lat, 'lon': [0, 120, 240]})
            lat = data['lat']
        got = observe(code.get_symmasymm, data, lat, opt)
        rec.state((lats, row, value, kind, opt), depth=n)
        rec.transition()
        rec.trace()
        where = {'latitudes': lats, 'row': row, 'value': value, 'as': kind, 'part': opt}
        if isinstance(got, str):
            rec.violation('%s part on %r: %s' % (opt, lats, got), where)
            continue
        have = np.asarray(got)
        want = np.stack([0.5 * (base[:, i] + sign * base[:, n - 1 - i]) for i in rows], axis=1) if rows else \
            np.zeros((2, 0, 3))
        rec.outcome(have.tobytes())
        if have.shape != want.shape or not np.allclose(have, want, atol=1e-12):
            rec.violation('%s part on latitudes %r is %r, not %r' % (opt, lats, have[1].tolist(), want[1].tolist()), where)
        elif not np.array_equal(np.asarray(data), base):
            rec.violation('the field was changed', where)


def store_worker(rec, item):
    nf, nk, folder = item
    for mod in modules():
        stc = np.arange(8 * nf * nk, dtype=float).reshape(8, nf, nk) / 7.0
        freq = np.arange(nf) / (2.0 * nf)
        wave = np.arange(nk) - nk // 2
        d = os.path.join(rec.dir, '%d_%d_%s' % (nf, nk, mod.__name__.split('.')[-2]))
        os.makedirs(d, exist_ok=True)
        got = observe(mod.save_Spectra, stc, freq, wave, 'spectra', d + os.sep if folder else d + os.sep)
        rec.state((nf, nk, folder, mod.__name__), depth=1)
        rec.transition()
        rec.trace()
        where = {'frequencies': nf, 'waves': nk, 'module': mod.__name__}
        path = os.path.join(d, 'spectra.nc')
        if isinstance(got, str) or not os.path.exists(path):
            rec.violation('spectra were not stored: %s' % (got,), where)
            continue
        with xr.open_dataset(path) as ds:
            ok = np.array_equal(ds['STC'].values, stc) and np.array_equal(ds['freq'].values, freq) and \
                np.array_equal(ds['wnum'].values, wave) and ds['STC'].dims == ('var', 'freq', 'wnum')
        rec.outcome((nf, nk))
        if not ok:
            rec.violation('stored spectra differ from the spectra', where)


def circles():
    """Regular circles, starting anywhere, and parts of them in ascending order."""
    for n in range(2, 9):
        step = 360.0 / n
        if step != int(step):
            continue
        for start in (-180, -175, -180 + step / 2, -10, 0, 5, step / 2):
            lons = [start + i * step for i in range(n)]
            for a in range(n):
                for b in range(a + 1, n + 1):
                    part = tuple(lons[a:b])
                    if all(-180 <= l < 180 for l in part) and min(part) < 0 or all(0 <= l < 360 for l in part):
                        yield part


def explore(check):
    check.preload = list(FLIPS) + ['metcalcpy.contributed.spacetime.spacetime']
    parts = sorted(set(circles()))
    if check.thorough:
        parts += [tuple(-180 + 10 * i for i in range(36)), tuple(10 * i for i in range(36))]
    check.bounds = {'longitudes': '%d circles and parts of circles, 2-8 longitudes' % len(parts),
                    'latitudes': 'symmetric sets of 1-5, both orders'}
    kinds = ('float64', 'float32', 'int64')
    check.run(flip_worker, [(p, k, h) for p in parts for k in kinds for h in ('coordinate', 'copy', 'array')
                            if k != 'int64' or all(l == int(l) for l in p)])
    items = []
    for half in ((), (10.0,), (5.0, 20.0), (5.0, 20.0, 30.0)):
        for zero in (False, True):
            lats = sorted([-l for l in half] + ([0.0] if zero else []) + list(half))
            if not lats:
                continue
            for order in (lats, lats[::-1]):
                for row in range(len(order)):
                    for value in (0.0, 1.0, -4.0):
                        for kind in ('array', 'DataArray'):
                            items.append((tuple(order), row, value, kind))
    check.run(symmetric_worker, items)
    check.run(store_worker, [(nf, nk, f) for nf in range(1, 5) for nk in (1, 3, 5) for f in (True,)], chunk=3)
