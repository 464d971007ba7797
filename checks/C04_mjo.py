"""C04: MJO indices: running mean, projection onto the two patterns, normalisation and the band of periods."""
import itertools
import math

import numpy as np
import xarray as xr

from mc.aggdrv import quiet
from mc.spaces import batches

START = np.datetime64('2001-02-20T00:00:00', 'ns')


def run(f, *args, **kw):
    with quiet():
        try:
            return f(*args, **kw)
        except Exception as ex:  # noqa
            return '%s: %s' % (type(ex).__name__, ex)


def axis(n, hours):
    return START + np.arange(n) * np.timedelta64(hours, 'h')


def mean_removed(table, window):
    """Each value minus the mean of itself and the window of steps before it, undefined values left out."""
    out = np.empty_like(table)
    for i in range(len(table)):
        part = table[max(0, i - window):i + 1]
        for j in range(table.shape[1]):
            known = [v for v in part[:, j] if not math.isnan(v)]
            out[i, j] = table[i, j] - (sum(known) / len(known) if known else math.nan)
    return out


def coefficients(v, e1, e2):
    """Least squares by the normal equations."""
    a, b, c = e1 @ e1, e1 @ e2, e2 @ e2
    p, q = e1 @ v, e2 @ v
    d = a * c - b * b
    return (p * c - q * b) / d, (q * a - p * b) / d


def mean_worker(rec, item):
    from metcalcpy.contributed.rmm_omi import compute_mjo_indices as code
    hours, rows = item
    window = int(120 / (hours / 24.0))
    table = np.array(rows, dtype=float).T
    n = len(table)
    time = axis(n, hours)
    data = xr.DataArray(table.copy(), dims=('time', 'lon'), coords={'time': time, 'lon': range(len(rows))})
    got = run(code.rem_120day_mean, data, time)
    for r in rows:
        rec.state((hours, repr(r)), depth=n)
    rec.transition(len(rows))
    rec.trace(len(rows))
    where = {'hours between times': hours, 'series': rows[:3]}
    if isinstance(got, str):
        rec.violation('running mean: %s' % got, where)
        return
    want = mean_removed(table, window)
    rec.outcome((hours, np.round(want, 6).tobytes()))
    bad = ~np.isclose(got.values, want, rtol=1e-9, atol=1e-12, equal_nan=True)
    if bad.any():
        j = int(np.where(bad)[1][0])
        rec.violation('series %r every %d hours without its 120 day mean is %r, not %r' % (
            rows[j], hours, got.values[:, j].tolist(), want[:, j].tolist()), {'hours': hours, 'series': rows[j]})
    elif not np.array_equal(data.values, table, equal_nan=True):
        rec.violation('the series was changed', where)


def vector_worker(rec, part):
    from metcalcpy.contributed.rmm_omi import compute_mjo_indices as code
    for e1, e2, v in part:
        a, b, w = (np.array(x, dtype=float) for x in (e1, e2, v))
        got = run(code.regress_vector_onto_eofs, w, a, b)
        rec.state((e1, e2, v), depth=len(v))
        rec.transition()
        rec.trace()
        want = coefficients(w, a, b)
        rec.outcome(tuple(round(x, 9) for x in want))
        if isinstance(got, str) or not np.allclose(got, want, atol=1e-9):
            rec.violation('coefficients of %r on %r and %r are %r, not %r' % (v, e1, e2, got, want),
                          {'vector': v, 'patterns': [e1, e2]})


def numbers(shape, seed):
    n = int(np.prod(shape))
    i = np.arange(n)
    return (((i * i * (seed + 2) + 3 * i + seed) % 11) - 5.0).reshape(shape)


def rmm_worker(rec, item):
    from metcalcpy.contributed.rmm_omi import compute_mjo_indices as code
    nt, nl, hours, seed, norms, pcs = item
    time = axis(nt, hours)
    lon = np.arange(nl) * (360.0 / nl)
    raw = [numbers((nt, nl), seed + k) for k in range(3)]
    fields = [xr.DataArray(r.copy(), dims=('time', 'lon'), coords={'time': time, 'lon': lon}) for r in raw]
    eofs = [numbers((3, nl), seed + 7 + k) for k in (0, 4)]
    pats = [xr.DataArray(e.copy(), dims=('var', 'lon'), coords={'lon': lon}) for e in eofs]
    got = run(code.rmm, *fields, time, max(1, 24 // hours), *pats, list(norms), list(pcs))
    rec.state(repr(item), depth=nt)
    rec.transition()
    rec.trace(nt)
    where = {'times': nt, 'longitudes': nl, 'hours': hours, 'case': seed, 'norms': norms, 'pc norms': pcs}
    if isinstance(got, str):
        rec.violation('RMM: %s' % got, where)
        return
    window = int(120 / (hours / 24.0))
    data = np.concatenate([mean_removed(r, window) / norms[k] for k, r in enumerate(raw)], axis=1)
    want = np.array([coefficients(row, eofs[0].ravel(), eofs[1].ravel()) for row in data]) / np.array(pcs)
    rec.outcome(np.round(want, 6).tobytes())
    for k in (0, 1):
        if not np.allclose(got[k].values, want[:, k], rtol=1e-8, atol=1e-10):
            rec.violation('RMM%d is %r, not %r' % (k + 1, got[k].values.tolist(), want[:, k].tolist()), where)
            return
        if not np.array_equal(got[k]['time'].values, time):
            rec.violation('RMM%d has other times' % (k + 1), where)
            return
    if any(not np.array_equal(f.values, r) for f, r in zip(fields, raw)):
        rec.violation('the fields were changed', where)
    # a grid that differs from the patterns in any of the fields is refused
    for k in range(3):
        other = list(fields)
        other[k] = other[k].assign_coords(lon=lon + 1.0)
        ans = run(code.rmm, *other, time, 1, *pats, list(norms), list(pcs))
        rec.trace()
        if not (isinstance(ans, str) and ans.startswith('ValueError')):
            rec.violation('RMM accepts a field %d on other longitudes' % k, where)


def detrended(f):
    t = np.arange(len(f), dtype=float)
    t -= t.mean()
    slope = np.tensordot(t, f, axes=(0, 0)) / (t @ t)
    return f - f.mean(axis=0) - t[:, None, None] * slope


def band(data, days, shortest, longest, low, high, pad):
    """Detrended, tapered over ten days, padded with zeros; only the requested waves are left."""
    nt, nm, nl = data.shape
    total = pad(nt)
    full = np.zeros((total, nm, nl))
    full[:nt] = detrended(data)
    w = int(10 / days)
    full[:w] *= (0.5 * (1 - np.cos(np.arange(w) * math.pi / w)))[:, None, None]
    full[total - w:] *= (0.5 * (1 - np.cos(np.arange(-w + 1, 1) * math.pi / w)))[:, None, None]
    spec = np.fft.fft2(full, axes=(0, 2))
    f = np.fft.fftfreq(total, days)
    k = np.round(np.fft.fftfreq(nl) * nl)
    # eastward waves have opposite signs of frequency and wave number; the highest one of an even grid has no direction
    east = -np.sign(f)[:, None] * k[None, :]
    if nl % 2 == 0:
        east[:, nl // 2] = -nl // 2
    keep = ((np.abs(f) >= 1.0 / longest) & (np.abs(f) <= 1.0 / shortest))[:, None] & (east >= low) & (east <= high)
    return np.real(np.fft.ifft2(spec * keep[:, None, :], axes=(0, 2)))[:nt]


def filter_worker(rec, item):
    from metcalcpy.contributed.rmm_omi import compute_mjo_indices as code
    kind, nt, nl, hours, periods, waves, seed = item
    days = hours / 24.0
    time = axis(nt, hours)
    lat, lon = [-5.0, 5.0], np.arange(nl) * (360.0 / nl)
    raw = numbers((nt, 2, nl), seed)
    data = xr.DataArray(raw.copy(), dims=('time', 'lat', 'lon'), coords={'time': time, 'lat': lat, 'lon': lon})
    rec.state(repr(item), depth=nt)
    rec.transition()
    rec.trace()
    where = {'kind': kind, 'times': nt, 'longitudes': nl, 'hours': hours, 'periods': periods, 'waves': waves, 'case': seed}
    if kind == 'omi':
        eofs = [numbers((366, 2, nl), seed + k) + np.arange(366)[:, None, None] % 3 for k in (3, 8)]
        pats = [xr.DataArray(e.copy(), dims=('doy', 'lat', 'lon'), coords={'lat': lat, 'lon': lon}) for e in eofs]
        got = run(code.omi, data, time, max(1, 24 // hours), *pats)
        part = band(raw, days, 20, 96, -720, 720, lambda n: n + 1000)
        doy = [int((t.astype('datetime64[D]') - t.astype('datetime64[Y]').astype('datetime64[D]')).astype(int)) for t in time]
        pc = np.array([coefficients(part[i].ravel(), eofs[0][d].ravel(), eofs[1][d].ravel()) for i, d in enumerate(doy)])
        want = pc / np.std(pc[:, 0])
        if isinstance(got, str):
            rec.violation('OMI: %s' % got, where)
            return
        got = np.stack([got[0].values, got[1].values], axis=1)
    elif kind == 'spectral':
        got = run(code.perform_3dim_spectral_filtering, data, days, *periods, *waves)
        want = band(raw, days, *periods, *waves, lambda n: n + 1000)
    else:
        got = run(code.bandpass_filter_3D, data, time, *periods)
        want = band(raw, days, *periods, -720, 720, lambda n: 2 ** 17)
    if isinstance(got, str):
        rec.violation('%s filter: %s' % (kind, got), where)
        return
    if kind == 'omi':
        for name, c in (('lon', {'lon': lon + 1.0}), ('lat', {'lat': [-4.0, 6.0]})):
            ans = run(code.omi, data.assign_coords(c), time, 1, *pats)
            rec.trace()
            if not (isinstance(ans, str) and ans.startswith('ValueError')):
                rec.violation('OMI accepts data on another grid (%s)' % name, where)
    have = np.asarray(got)
    rec.outcome((kind, np.round(want, 6).tobytes()))
    if have.shape != want.shape or not np.allclose(have, want, rtol=1e-6, atol=1e-8):
        rec.violation('%s of %d times every %d hours, periods %r, waves %r differs by up to %r' % (
            kind, nt, hours, periods, waves, float(np.abs(have - want).max()) if have.shape == want.shape else have.shape), where)
    elif not np.array_equal(data.values, raw):
        rec.violation('%s: the data of the caller were changed' % kind, where)


def day_worker(rec, item):
    """The patterns are those of the day of the year of each time."""
    from metcalcpy.contributed.rmm_omi import compute_mjo_indices as code
    first, step, count = item
    time = np.datetime64(first) + np.arange(count) * np.timedelta64(step, 'h')
    lat, lon = [-5.0, 5.0], [0.0, 120.0, 240.0]
    # patterns that differ from day to day
    day = np.arange(366)[:, None, None]
    shape = np.arange(6).reshape(1, 2, 3)
    one, two = 1.0 + (day * 7 + shape * 3) % 11, np.where(shape % 2 == 0, 1.0, -1.0) * (1 + (day * 5 + shape) % 13)
    pats = [xr.DataArray(p, dims=('doy', 'lat', 'lon'), coords={'lat': lat, 'lon': lon}) for p in (one, two)]
    index = [int((t.astype('M8[D]') - t.astype('M8[Y]').astype('M8[D]')).astype(int)) for t in time]
    want = np.array([[k % 5 - 2.0, 1.0 + k % 3] for k in range(count)])
    data = xr.DataArray([a * one[i] + b * two[i] for (a, b), i in zip(want, index)], dims=('time', 'lat', 'lon'),
                        coords={'time': time, 'lat': lat, 'lon': lon})
    got = run(code.regress_3dim_data_onto_eofs, data, time, *pats)
    rec.state(item, depth=count)
    rec.transition(count)
    rec.trace(count)
    where = {'first time': first, 'hours': step, 'times': count}
    have = np.asarray(got).T if not isinstance(got, str) else None
    rec.outcome((item, repr(have)))
    if have is None:
        rec.violation('coefficients of %r: %s' % (item, got), where)
    elif have.shape != want.shape or not np.allclose(have, want, atol=1e-8):
        k = int(np.where(~np.isclose(have, want, atol=1e-8).all(axis=1))[0][0]) if have.shape == want.shape else 0
        rec.violation('coefficients of %s are %r, not %r' % (time[k], have[k].tolist(), want[k].tolist()), where)


def taper_worker(rec, part):
    from metcalcpy.contributed.rmm_omi import compute_mjo_indices as code
    for n, window in part:
        # every value in turn is the only one
        for at in range(n):
            v = np.zeros(n)
            v[at] = 2.0
            got = run(code.taper_vector_to_zero, v, window)
            rec.state(('taper', n, window, at), depth=n)
            rec.transition()
            rec.trace()
            near = min(at, n - 1 - at)
            want = np.zeros(n)
            want[at] = 2.0 if near >= window else 1 - math.cos(near * math.pi / window)
            rec.outcome(('taper', repr(got)))
            if isinstance(got, str) or np.shape(got) != (n,) or not np.allclose(got, want, atol=1e-12):
                rec.violation('value %d of %d tapered over %d is %r, not %r' % (at, n, window, got, want.tolist()),
                              {'values': n, 'window': window, 'at': at})


def edge_free(nt, hours, periods, pad):
    """No frequency of the padded series lies on a limit of the band."""
    span = (nt + 1000 if pad is None else pad) * hours / 24.0
    return all(abs(span / p - round(span / p)) > 1e-6 for p in periods)


def explore(check):
    check.preload = ['metcalcpy.contributed.rmm_omi.compute_mjo_indices']
    big = check.thorough
    top = 7 if big else 6
    check.bounds = {'series': 'all of 2..%d values of -1, 0, 3, undefined; 5 time steps' % top,
                    'vectors': 'all of 3 values over -1, 0, 2 on all pairs of patterns',
                    'filters': 'even and odd numbers of times and longitudes, 1-24 hours'}
    check.assumptions = ['frequencies exactly on the limit of a band are avoided']
    items = []
    for hours in (24 * 30, 24 * 40, 24 * 60, 24 * 120, 24 * 200):
        for n in range(2, top + 1):
            rows = list(itertools.product((-1.0, 0.0, 3.0, math.nan), repeat=n))
            items += [(hours, b) for b in batches(rows, 512)]
    check.run(mean_worker, items, chunk=1)
    vectors = list(itertools.product((-1, 0, 2), repeat=3))
    cases = [(a, b, v) for a in vectors for b in vectors for v in vectors
             if (np.dot(a, a) * np.dot(b, b) - np.dot(a, b) ** 2) > 1e-9]
    check.run(vector_worker, list(batches(cases, 400)), chunk=1)
    cases = [(nt, nl, hours, seed, norms, pcs) for nt in (2, 3, 5, 8) for nl in (1, 2, 4) for hours in (12, 24, 24 * 40)
             for seed in range(6 if big else 3) for norms, pcs in (((1.0, 1.0, 1.0), (1.0, 1.0)), ((2.0, 3.0, 5.0), (7.0, 11.0)))
             if 3 * nl >= 2]
    check.run(rmm_worker, cases, chunk=4)
    cases = []
    for nt in (30, 31, 43) if not big else (30, 31, 43, 77, 90):
        for nl in (2, 3, 4, 5):
            for hours in (24, 12, 6):
                for seed in range(2):
                    cases.append(('omi', nt, nl, hours, (20, 96), (-720, 720), seed))
                    for periods in ((20, 96), (3, 8)):
                        for waves in ((-720, 720), (1, 3), (-2, -1), (-1, 1)):
                            cases.append(('spectral', nt, nl, hours, periods, waves, seed))
    for nt in (30, 43):
        for nl in (1, 2):
            for hours in (24, 12):
                for periods in ((20, 96), (3, 8)):
                    cases.append(('bandpass', nt, nl, hours, periods, None, 1))
    cases = [c for c in cases if edge_free(c[1], c[3], c[4], 2 ** 17 if c[0] == 'bandpass' else None)]
    check.run(filter_worker, cases, chunk=4)
    days = [('%d-01-01' % y, 24, n) for y, n in ((2019, 365), (2020, 366), (1900, 365), (2000, 366))]
    days += [('%d-%s' % (y, d), hours, n) for y in (2019, 2020, 2023, 2024) for d in ('12-29', '12-30T06', '12-31T18', '02-27')
             for hours in (6, 12, 24) for n in (1, 3, 9)]
    check.run(day_worker, days, chunk=8)
    check.run(taper_worker, batches([(n, w) for n in range(1, 25) for w in range(1, n // 2 + 1)], 20), chunk=1)
