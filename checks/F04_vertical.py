"""F04: vertical interpolation of all small columns to all positions of the target level."""
import itertools
import logging
import math

import numpy as np
import xarray as xr

from checks.U03_serial import observe

NAN = float('nan')
HEIGHTS = (0.0, 1.0, 2.0, 4.0, 8.0)
TARGETS = tuple(x / 2 for x in range(-2, 20)) + (1 / 256, 255 / 256, 257 / 256, 1023 / 256, 8 - 1 / 64)
# (level unit, surface unit, one surface unit in level units)
UNITS = (('meter', 'meter', 1.0), ('meter', 'km', 1000.0), ('km', 'm', 0.001), ('m', 'unheard', 1.0))


def columns(n, thorough):
    """(coordinate, values) of every column of n levels, with up to n - 1 levels under the ground."""
    letters = (0.0, 1.0, -3.5) if n < 4 or thorough else (0.0, 1.0)
    for z in itertools.combinations(HEIGHTS, n):
        for under in range(n):
            zz = (NAN,) * under + z[under:]
            for f in itertools.product(letters, repeat=n):
                yield zz, f


def model(z, f, eta):
    good = [(a, b) for a, b in zip(z, f) if a == a]
    if eta >= good[-1][0]:
        return good[-1][1]
    if eta < good[0][0]:
        return good[0][1] if z[0] == z[0] else NAN
    for (a, x), (b, y) in zip(good, good[1:]):
        if a <= eta < b:
            return x + (eta - a) / (b - a) * (y - x)


LAYOUTS = [('lev', 'x'), ('x', 'lev'), ('time', 'lev', 'x'), ('x', 'lev', 'time')]


def worker(rec, item):
    n, layout, units, name, kind, thorough = item
    from metcalcpy.vertical_interp import vertical_interp
    logging.disable(logging.CRITICAL)
    cols = list(columns(n, thorough))
    if kind[0] == 'i':
        # whole numbers
        cols = [(zz, tuple(2 * v for v in ff)) for zz, ff in cols]
    z = np.array([c[0] for c in cols])
    f = np.array([c[1] for c in cols])
    level_unit, unit, factor = units
    sizes = {'lev': n, 'x': len(cols), 'time': 2}
    dims = [name if d == 'lev' else d for d in layout]
    coords = {name: [1000.0 - 100 * i for i in range(n)], 'x': range(len(cols)), 'time': [0, 6]}

    def shape(table, step):
        out = xr.DataArray(table / 1.0, dims=('x', name), coords={name: coords[name], 'x': coords['x']})
        if 'time' in dims:
            out = xr.concat([out, out + step], dim='time').assign_coords(time=coords['time'])
        return out.transpose(*dims)
    field = shape(f, 10.0).astype(kind)
    tol = 1e-5 if kind == 'f4' else 1e-9
    surfaces = shape(z / factor, 0.0)
    field.attrs['units'] = 'K'
    surfaces.attrs['units'] = unit
    config = {'vertical_dim_name': name, 'vertical_levels': list(TARGETS), 'vertical_level_units': level_unit}
    got = observe(vertical_interp, 'T', config, surfaces, field)
    where = {'levels': n, 'layout': layout, 'units': units, 'dimension': name, 'number type': kind}
    if isinstance(got, str):
        rec.violation('interpolation fails: %s' % got, where)
        return
    out = got[0]
    want_dims = tuple('lev' if d == name else d for d in dims)
    if out.dims != want_dims or not np.allclose(out['lev'].values, TARGETS, rtol=1e-6):
        rec.violation('layout %r, targets %r became %r, %r' % (dims, TARGETS, out.dims, out['lev'].values.tolist()), where)
        return
    out = out.transpose('x', 'lev', *[d for d in out.dims if d not in ('x', 'lev')]).values
    for i, (zz, ff) in enumerate(cols):
        rec.state((n, layout, units, name, kind, repr(zz), ff), depth=n)
        for k, eta in enumerate(TARGETS):
            want = model(zz, ff, eta)
            rec.transition()
            rec.trace()
            rec.outcome(repr(want))
            have = np.atleast_1d(out[i, k])
            for t, h in enumerate(have):
                w = want + 10.0 * t
                if not ((math.isnan(h) and math.isnan(w)) or abs(h - w) <= tol):
                    rec.violation('column %r at %r to %r (%s, surfaces in %s): %r, expected %r'
                                  % (ff, zz, eta, level_unit, unit, float(h), w),
                                  dict(where, z=repr(zz), f=ff, target=eta))
                    break


def explore(check):
    check.preload = ['metcalcpy.vertical_interp']
    check.bounds = {'levels': '1..4', 'heights': HEIGHTS, 'targets': TARGETS, 'units': UNITS, 'layouts': LAYOUTS}
    check.assumptions = ['the coordinate increases with the level', 'undefined coordinates only under the ground']
    items = [(n, layout, units, name, 'f8', check.thorough) for n in (1, 2, 3, 4) for layout in LAYOUTS
             for units in UNITS for name in (('pressure', 'lev') if units is UNITS[0] else ('pressure',))]
    items += [(n, LAYOUTS[0], UNITS[0], 'pressure', kind, check.thorough) for n in (1, 2, 3) for kind in ('f4', 'i4', 'i2', 'i8')]
    items.sort(key=lambda i: -i[0])
    check.run(worker, items, chunk=1)
