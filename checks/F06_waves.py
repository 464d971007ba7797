"""F06: zonal wave coefficients, amplitudes, phases, contributions and covariances of all small fields."""
import itertools
import math

import numpy as np
import xarray as xr

from checks.U03_serial import observe

LETTERS = {2: (0.0, 1.0, -2.0, 5.0), 3: (0.0, 1.0, -2.0, 5.0), 4: (0.0, 1.0, -2.0), 5: (0.0, 1.0, -2.0),
           6: (0.0, 1.0), 7: (0.0, 1.0), 8: (0.0, 1.0)}


def fields(n):
    return np.array(list(itertools.product(LETTERS[n], repeat=n)))


def basis(n):
    j = np.arange(n)
    return j, 2 * math.pi * j / n


def spectrum(table):
    """Coefficients by the definition of the transform, one row per field."""
    n = table.shape[1]
    j, angle = basis(n)
    return np.array([table @ np.exp(-1j * k * angle) for k in range(n // 2 + 1)]).T


def times(n, k):
    return 1 if k == 0 or 2 * k == n else 2


def array(table, dim, layout):
    n = table.shape[1]
    lons = [5.0 + i * 360.0 / n for i in range(n)]
    a = xr.DataArray(table, dims=('x', dim), coords={'x': range(len(table)), dim: lons})
    return a.transpose(*[dim if d == 'lon' else d for d in layout])


def selections(n):
    ks = range(n // 2 + 1)
    out = [None]
    for m in range(1, len(ks) + 1):
        out += [list(c) for c in itertools.combinations(ks, m)]
    return out


def close(a, b):
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * np.maximum(1.0, np.abs(b))))


def first_bad(a, b):
    if a.shape != b.shape:
        return 'shape %r, expected %r' % (a.shape, b.shape)
    i = tuple(x[0] for x in np.where(~(np.abs(a - b) <= 1e-9 * np.maximum(1.0, np.abs(b)))))
    return 'at %r: %r, expected %r' % (i, a[i], b[i])


def worker(rec, item):
    n, dim, layout, pkg, waves = item
    from metcalcpy.pre_processing import waves as code
    table = fields(n)
    dat = array(table, dim, layout)
    args = () if dim == 'longitude' else (dim,)
    ks = list(range(n // 2 + 1)) if waves is None else waves
    spec = spectrum(table)[:, ks]
    j, angle = basis(n)
    mult = np.array([times(n, k) for k in ks])
    where = {'longitudes': n, 'dim': dim, 'layout': layout, 'package': pkg, 'waves': waves}
    for row in table:
        rec.state((n, dim, layout, pkg, repr(waves), tuple(row)), depth=n)
    rec.transition(len(table))

    def judge(what, got, order, want):
        rec.trace(len(table))
        if isinstance(got, str):
            rec.violation('%s of %d longitudes (%s, waves %r): %s' % (what, n, pkg, waves, got), where)
            return
        try:
            have = got.transpose(*order).values
        except Exception as ex:  # noqa
            rec.violation('%s of %d longitudes (%s): %s' % (what, n, pkg, ex), where)
            return
        rec.outcome((what, repr(have[:3])))
        if 'lon_wavenum' in order and list(got['lon_wavenum'].values) != ks:
            rec.violation('%s: wave numbers %r' % (what, list(got['lon_wavenum'].values)), where)
        elif not close(have, want):
            rec.violation('%s of %d longitudes (%s, waves %r) %s' % (what, n, pkg, waves, first_bad(have, want)), where)

    kw = {'waves': waves, 'fftpkg': pkg}
    got = observe(code.zonal_wave_coeffs, dat, *args, **kw)
    judge('coefficients', got, ('x', 'lon_wavenum'), spec)
    if not isinstance(got, str) and got.attrs.get('nlons') != n:
        rec.violation('number of longitudes %r' % got.attrs.get('nlons'), where)
    for deg in (False, True):
        got = observe(code.zonal_wave_ampl_phase, dat, *args, phase_deg=deg, **kw)
        if isinstance(got, str):
            rec.violation('amplitudes of %d longitudes (%s): %s' % (n, pkg, got), where)
            continue
        ampl, phase = got
        judge('amplitudes', ampl, ('x', 'lon_wavenum'), np.abs(spec) * mult / n)
        # phases only where there is a wave; compared on the circle
        order = [d if d != dim else 'lon_wavenum' for d in dat.dims]
        ph = phase if isinstance(phase, xr.DataArray) else xr.DataArray(np.asarray(phase), dims=order)
        p = ph.transpose('x', 'lon_wavenum').values * (math.pi / 180 if deg else 1)
        rec.trace(len(table))
        bad = (np.abs(spec) > 1e-9) & (np.abs(np.exp(1j * p) - np.exp(1j * np.angle(spec))) > 1e-6)
        if bad.any():
            rec.violation('phases of %d longitudes (%s, degrees %r) of %r' % (
                n, pkg, deg, table[np.where(bad)[0][0]].tolist()), where)
    got = observe(code.zonal_wave_contributions, dat, *args, **kw)
    parts = np.stack([mult[i] / n * np.real(spec[:, i, None] * np.exp(1j * k * angle)[None, :])
                      for i, k in enumerate(ks)], axis=-1)
    judge('contributions', got, ('x', dim, 'lon_wavenum'), parts)
    if waves is None and not isinstance(got, str):
        # the contributions add up to the field
        judge('sum of contributions', got.sum('lon_wavenum'), ('x', dim), table)
    # covariance with every rotation of the field and with the reversed field
    for shift in list(range(n)) + ['reversed']:
        other = table[:, ::-1] if shift == 'reversed' else np.roll(table, shift, axis=1)
        dat2 = array(other, dim, layout)
        names = () if dim == 'longitude' else (dim, dim)
        got = observe(code.zonal_wave_covariance, dat, dat2, *names, **kw)
        want = np.real(spec * np.conj(spectrum(other)[:, ks])) * mult / n ** 2
        judge('covariance', got, ('x', 'lon_wavenum'), want)
        if waves is None and not isinstance(got, str):
            eddy = ((table - table.mean(axis=1, keepdims=True)) * (other - other.mean(axis=1, keepdims=True))).mean(axis=1)
            judge('sum of covariances', got.isel(lon_wavenum=slice(1, None)).sum('lon_wavenum'), ('x',), eddy)


def explore(check):
    check.preload = ['metcalcpy.pre_processing.waves']
    top = 8 if check.thorough else 7
    check.bounds = {'longitudes': '2..%d' % top, 'values': LETTERS, 'waves': 'every set of wave numbers',
                    'packages': ['scipy', 'xrft']}
    check.assumptions = ['phases of absent waves are not judged']
    items = []
    for n in range(2, top + 1):
        for waves in selections(n):
            for pkg in ('scipy', 'xrft'):
                items.append((n, 'longitude', ('x', 'lon'), pkg, waves))
        for pkg in ('scipy', 'xrft'):
            items.append((n, 'longitude', ('lon', 'x'), pkg, None))
            items.append((n, 'lon', ('x', 'lon'), pkg, None))
    check.run(worker, items, chunk=2)
