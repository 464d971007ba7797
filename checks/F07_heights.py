"""F07: heights of pressure levels for all small columns and positions of the surface."""
import itertools
import logging
import math

import numpy as np
import xarray as xr

from checks.U03_serial import observe

LEVELS = (1000.0, 850.0, 500.0, 200.0)
SURFACE = (1020.0, 1000.0, 900.0, 850.0, 600.0, 500.0, 300.0, 150.0)
TEMPS = (250.0, 290.0)
HUMID = (0.0, 0.8)
GEOPOTENTIAL = (0.0, 4000.0)


def virtual(p, t, rh):
    from metpy.calc import mixing_ratio_from_relative_humidity, virtual_temperature
    from metpy.units import units
    w = mixing_ratio_from_relative_humidity(p * units.hPa, t * units.kelvin, rh)
    return virtual_temperature(t * units.kelvin, w).to('kelvin').magnitude


def model(levels, ps, phi, tv):
    """Height of every level above the surface, none below it."""
    from metpy import constants
    g = constants.earth_gravity.to_base_units().magnitude
    r = constants.dry_air_gas_constant.to_base_units().magnitude
    out = []
    z, p_before = phi / g, ps
    for p, t in zip(levels, tv):
        if p > ps:
            out.append(math.nan)
            continue
        z += r / g * t * math.log(p_before / p)
        p_before = p
        out.append(z)
    return out


def columns(levels):
    n = len(levels)
    for t in itertools.product(TEMPS, repeat=n):
        for h in itertools.product(HUMID, repeat=n) if n < 4 else [(a,) * n for a in HUMID]:
            for ps in SURFACE:
                for phi in GEOPOTENTIAL:
                    yield t, h, ps, phi


def worker(rec, item):
    levels, unit, first = item
    from metcalcpy.vertical_interp import height_from_pressure
    logging.disable(logging.CRITICAL)
    cols = list(columns(levels))
    scale = {'hPa': 1.0, 'Pa': 100.0}
    dims = ('lev', 'x') if first else ('x', 'lev')

    def grid(values):
        a = xr.DataArray(np.array(values), dims=('x', 'lev'), coords={'lev': list(levels), 'x': range(len(cols))})
        a['lev'].attrs['units'] = 'hPa'
        return a.transpose(*dims)

    def line(values, attrs):
        return xr.DataArray(np.array(values), dims=('x',), coords={'x': range(len(cols))}, attrs=attrs)
    temperature = grid([c[0] for c in cols])
    temperature.attrs['units'] = 'K'
    humidity = grid([c[1] for c in cols])
    ps = line([c[2] * scale[unit] for c in cols], {'units': unit})
    phi = line([c[3] for c in cols], {'units': 'm2 s-2'})
    got = observe(height_from_pressure, {'vertical_dim_name': 'lev'}, phi, ps, temperature, humidity)
    where = {'levels': levels, 'unit': unit, 'level first': first}
    if isinstance(got, str):
        rec.violation('heights fail: %s' % got, where)
        return
    if got.dims != dims:
        rec.violation('layout %r became %r' % (dims, got.dims), where)
        return
    heights = got.transpose('x', 'lev').values
    table = {(p, t, h): virtual(p, t, h) for p in levels for t in TEMPS for h in HUMID}
    for (t, h, p0, z0), have in zip(cols, heights):
        rec.state((levels, unit, first, t, h, p0, z0), depth=len(levels))
        rec.transition()
        rec.trace()
        want = model(levels, p0, z0, [table[k] for k in zip(levels, t, h)])
        rec.outcome(repr(want))
        for p, a, b in zip(levels, have, want):
            same = (math.isnan(a) and (math.isnan(b) or p == p0)) or abs(a - b) <= 1e-6 * max(1.0, abs(b))
            if not same:
                rec.violation('temperature %r, humidity %r, surface %r %s at %r: %r, expected %r'
                              % (t, h, p0, unit, z0, have.tolist(), want),
                              dict(where, t=t, h=h, surface=p0, geopotential=z0))
                break


def explore(check):
    check.preload = ['metcalcpy.vertical_interp']
    check.bounds = {'levels': '1..4 out of %r' % (LEVELS,), 'surface': SURFACE, 'temperatures': TEMPS,
                    'humidities': HUMID, 'geopotentials': GEOPOTENTIAL, 'units': ('hPa', 'Pa')}
    check.assumptions = ['pressure decreases with the level', 'virtual temperature is that of MetPy',
                         'a level at the surface has the surface height or none']
    sets = [s for n in (1, 2, 3, 4) for s in itertools.combinations(LEVELS, n)]
    check.run(worker, [(s, u, f) for s in sets for u in ('hPa', 'Pa') for f in (True, False)], chunk=1)
