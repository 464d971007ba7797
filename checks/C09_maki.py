"""C09: MaKE and MaKI indices and the MJO wind power that goes into them."""
import datetime
import itertools

import numpy as np
import xarray as xr

from mc.aggdrv import quiet


def run(f, *args, **kw):
    with quiet(), np.errstate(all='ignore'):
        try:
            return f(*args, **kw)
        except Exception as ex:  # noqa
            return '%s: %s' % (type(ex).__name__, ex)


def numbers(shape, seed):
    i = np.arange(int(np.prod(shape)))
    return (((i * i * (2 * seed + 3) + 5 * i + seed) % 9973) % 101 - 37.0).reshape(shape)


def series_worker(rec, item):
    from metcalcpy.contributed.mjo_enso import compute_mjo_enso as code
    start, days, nlon, seed = item
    times = np.array([np.datetime64(start) + np.timedelta64(i, 'D') for i in range(days)]).astype('datetime64[ns]')
    lon = np.arange(nlon) * 10.0
    wave = np.abs(np.arange(days)[:, None] % 140 - 70) * (1.0 + seed) + np.arange(days)[:, None] * (0.9 - 0.6 * seed)
    sst, power = numbers((days, nlon), seed) + wave, numbers((days, nlon), seed + 1) - wave
    eofs = numbers((2, 2 * nlon), seed + 5) / 7.0
    args = [xr.DataArray(x.copy(), dims=('time', 'lon'), coords={'time': times, 'lon': lon}) for x in (sst, power)]
    meofs = xr.DataArray(eofs.copy(), dims=('eof', 'lonn'))
    rec.state(repr(item), depth=days)
    rec.transition()
    dates = [datetime.date.fromisoformat(start) + datetime.timedelta(i) for i in range(days)]
    firsts = [d for d in dates[90:] if d.day == 1]
    where = {'first day': start, 'days': days, 'longitudes': nlon, 'case': seed}
    got = run(code.make_maki, *args, meofs)
    rec.trace(len(firsts))
    both = np.concatenate([power / power.std(axis=0), sst / sst.std(axis=0)], axis=1)
    pcs = [-(both @ e) for e in eofs]
    one, two = (p / p.std() for p in pcs)
    want = []
    for daily in (one + np.abs(two), one + two):
        low = np.array([min(daily[dates.index(d - datetime.timedelta(90)):dates.index(d) + 1]) for d in firsts])
        want.append(low / low.std() if len(low) > 1 else low)
    rec.outcome((len(firsts), np.round(want[0], 6).tobytes(), np.round(want[1], 6).tobytes()))
    if isinstance(got, str):
        rec.violation('indices of %d days from %s: %s' % (days, start, got), where)
        return
    for name, have, exp in zip(('MaKE', 'MaKI'), got, want):
        stamps = [str(t)[:10] for t in have['time'].values]
        if stamps != [d.isoformat() for d in firsts]:
            rec.violation('%s of %d days from %s has months %r, not %r' % (name, days, start, stamps, [str(d) for d in firsts]), where)
            return
        rec.count('judged' if len(exp) > 1 and np.ptp(exp) > 1e-6 * np.abs(exp).max() else 'all months alike')
        solid = len(exp) > 1 and np.ptp(exp) > 1e-6 * np.abs(exp).max()
        if solid and not np.allclose(have.values, exp, rtol=1e-8, atol=1e-10):
            rec.violation('%s of %d days from %s is %r, not %r' % (name, days, start, have.values.tolist(), exp.tolist()), where)
            return
    if not np.array_equal(args[0].values, sst) or not np.array_equal(args[1].values, power):
        rec.violation('the data were changed', where)


def power_worker(rec, item):
    """The power is the product of currents and stresses, weighted by a function of latitude alone."""
    from metcalcpy.contributed.mjo_enso import compute_mjo_enso as code
    half, step, nlon, seed = item
    lat = np.arange(-half, half + 1) * step
    lon = np.arange(nlon) * 5.0
    shape = (2, len(lat), nlon)
    coords = {'time': [0, 1], 'lat': lat, 'lon': lon}
    u, v, tx, ty = (numbers(shape, seed + k) for k in range(4))
    args = [xr.DataArray(x.copy(), dims=('time', 'lat', 'lon'), coords=coords) for x in (u, v, tx, ty)]
    rec.state(repr(item), depth=len(lat))
    rec.transition()
    rec.trace()
    where = {'latitudes': lat.tolist(), 'longitudes': nlon, 'case': seed}
    got = run(code.calc_wpower_MJO, *args)
    ones = [xr.DataArray(np.ones(shape) * k, dims=('time', 'lat', 'lon'), coords=coords) for k in (1.0, 1.0, 1.0, 0.0)]
    unit = run(code.calc_wpower_MJO, *ones)
    if isinstance(got, str) or isinstance(unit, str):
        rec.violation('wind power: %s' % (got if isinstance(got, str) else unit), where)
        return
    weight = unit.values[0, :, 0]
    rec.outcome(np.round(weight, 9).tobytes())
    if not np.allclose(unit.values, weight[None, :, None]):
        rec.violation('the weight depends on more than latitude', where)
    elif not np.allclose(got.values, weight[None, :, None] * (u * tx + v * ty), rtol=1e-9, atol=1e-12):
        rec.violation('the power is not the product of currents and stresses', where)
    elif not np.allclose(weight, weight[::-1], rtol=1e-6) or not (np.diff(weight[:half + 1]) > 0).all() or (weight <= 0).any():
        rec.violation('the weight %r is not symmetric about the equator and largest there' % weight.tolist(), where)


def tau_worker(rec, item):
    """The MJO part of a stress: filtered point by point, projected on the patterns, missing where the stress is missing."""
    from metcalcpy.contributed.mjo_enso import compute_mjo_enso as code
    nlat, nlon, sea, seed = item
    days, flt = 24, (3, 5)
    stress = numbers((days, nlat, nlon), seed) / 10.0
    patterns = numbers((4, nlat, nlon), seed + 3) / 10.0
    land = np.array([i not in sea for i in range(nlat * nlon)]).reshape(nlat, nlon)
    stress[:, land] = np.nan
    patterns[:, land] = np.nan
    low = (np.abs(numbers((flt[0], len(sea)), seed + 7)) + 1) / 60.0
    band = (np.abs(numbers((flt[1], len(sea)), seed + 9)) + 1) / 60.0
    lat, lon = np.arange(nlat) - 1.0, np.arange(nlon) * 10.0
    flux = xr.DataArray(stress.copy(), dims=('time', 'lat', 'lon'), coords={'time': np.arange(days), 'lat': lat, 'lon': lon})
    eofs = xr.DataArray(patterns.copy(), dims=('time', 'lat', 'lon'), coords={'time': np.arange(4), 'lat': lat, 'lon': lon})
    rec.state(repr(item), depth=len(sea))
    rec.transition()
    rec.trace(len(sea) * days)
    where = {'latitudes': nlat, 'longitudes': nlon, 'points with data': list(sea), 'case': seed}

    def same(x, w):
        half = (len(w) - 1) // 2
        return [sum(w[k] * x[t + half - k] for k in range(len(w)) if 0 <= t + half - k < len(x)) for t in range(len(x))]

    points = [(i // nlon, i % nlon) for i in sea]
    filtered = []
    for n, (y, x) in enumerate(points):
        raw = list(stress[:, y, x])
        high = [a - b for a, b in zip(raw, same(raw, low[:, n]))]
        filtered.append(same(high, band[:, n]))
    want = np.full((days, nlat, nlon), np.nan)
    want[:, ~land] = 0.0
    for pattern in patterns:
        pc = [sum(pattern[y, x] * filtered[n][t] for n, (y, x) in enumerate(points)) / len(points) for t in range(days)]
        sd = (sum((p - sum(pc) / days) ** 2 for p in pc) / (days - 1)) ** 0.5
        for n, (y, x) in enumerate(points):
            share = sum(f * p for f, p in zip(filtered[n], pc)) / sd
            want[:, y, x] += share * np.array(pc)
    got = run(code.calc_tau_MJO, flux, eofs, low, band)
    rec.outcome(np.round(want, 4).tobytes())
    if isinstance(got, str):
        rec.violation('MJO stress: %s' % got, where)
        return
    have = got.transpose('time', 'lat', 'lon').values
    scale = np.nanmax(np.abs(want))
    if not (np.array_equal(got.lat.values, lat) and np.array_equal(got.lon.values, lon)
            and np.array_equal(got.time.values, np.arange(days))):
        rec.violation('MJO stress has other coordinates than the stress', where)
    elif not np.array_equal(np.isnan(have), np.isnan(want)):
        rec.violation('MJO stress is missing at %r' % np.argwhere(np.isnan(have[0])).tolist(), where)
    elif not np.allclose(have, want, rtol=1e-3, atol=1e-4 * scale, equal_nan=True):
        rec.violation('MJO stress is not the sum over the patterns of the filtered stress', where)
    elif not np.array_equal(flux.values, stress, equal_nan=True) or not np.array_equal(eofs.values, patterns, equal_nan=True):
        rec.violation('the data were changed', where)


def explore(check):
    check.preload = ['metcalcpy.contributed.mjo_enso.compute_mjo_enso']
    big = check.thorough
    starts = ['%d-%02d-%02d' % (y, m, d) for y in (2003, 2004) for m in range(1, 13) for d in (1, 2, 15, 28)]
    if big:
        starts += ['2000-%02d-%02d' % (m, d) for m in range(1, 13) for d in range(1, 29)]
    days = (92, 122, 151, 185, 215, 250, 300, 366)
    check.bounds = {'series': '%d first days, %r days' % (len(starts), days), 'grids': '3-21 latitudes about the equator',
                    'stresses': 'every set of points with data on grids of 2-6 points'}
    check.assumptions = ['months that all have the same minimum cannot be scaled to unit variance and are not judged']
    check.run(series_worker, [(s, n, l, c) for s in starts for n in days for l, c in ((1, 0), (3, 2), (2, 4))], chunk=12)
    check.run(power_worker, [(h, s, l, c) for h in range(1, 11) for s in (0.25, 0.5, 1.0) for l in (1, 2, 4) for c in range(3)],
              chunk=12)
    seas = [(nlat, nlon, sea, c) for nlat, nlon in ((1, 2), (2, 2), (2, 3), (3, 2)) for n in range(1, nlat * nlon + 1)
            for sea in itertools.combinations(range(nlat * nlon), n) for c in range(2)]
    check.run(tau_worker, seas, chunk=12)
