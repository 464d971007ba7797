"""F08: the interpolation program writes the fields it computed, where and when they are valid."""
import calendar
import itertools
import logging
import math
import os
import runpy
import sys
import tempfile
import time
from unittest import mock

import numpy as np
import xarray as xr

from checks.F04_vertical import model
from mc.aggdrv import quiet
from mc.statrun import Raised

ZONES = ('UTC0', 'MST7', 'JST-9')
TIMES = ('2020-02-28T18:00:00', '2020-03-01T00:00:00', '2019-12-31T23:30:00')
SIZES = {'time': 2, 'lev': 2, 'lat': 1, 'lon': 3}
KINDS = ('float64', 'float32', 'int32', 'int64', 'bool')


def zone(name):
    os.environ['TZ'] = name
    time.tzset()


def stamp(text):
    """Seconds since 1970, in UTC."""
    return calendar.timegm(time.strptime(text, '%Y-%m-%dT%H:%M:%S'))


def origin(units):
    assert units.startswith('seconds since '), units
    text = units[len('seconds since '):].replace(' ', 'T')
    return stamp(text if text.count(':') == 2 else text + ':00')


def instants(var):
    return [origin(var.units) + float(x) for x in np.ravel(var[:])]


def dataset(dims, kind, attrs, with_times):
    shape = [SIZES[d] for d in dims]
    n = int(np.prod(shape)) if shape else 1
    values = np.arange(n, dtype='float64') * 3 + 1
    other = values[::-1] + 0.5
    if kind.startswith('float'):
        values[-1] = math.nan
    values = (values % 2 == 1) if kind == 'bool' else values.astype(kind)
    coords = {d: (d, np.array([10.0, 20.0, 40.0][:SIZES[d]]), {'units': 'unit of ' + d}) if d != 'time' else
              np.array(TIMES[:2], dtype='datetime64[ns]') for d in dims}
    ds = xr.Dataset(coords=coords)
    if with_times:
        ds['valid_time'] = np.datetime64(TIMES[1], 'ns')
        ds['init_time'] = np.datetime64(TIMES[with_times], 'ns')
    ds['F'] = (dims, values.reshape(shape), {'units': 'K', 'long_name': 'field'} if attrs else {})
    ds['G'] = (dims[::-1], other.reshape(shape[::-1]), {'units': 'm'})
    if attrs:
        ds.attrs.update(title='a title', number=7)
    return ds


def written(rec, item):
    import netCDF4
    from metcalcpy.vertical_interp import write_dataset
    logging.disable(logging.CRITICAL)
    dims, kind, attrs, with_times, ref, tz = item
    ds = dataset(dims, kind, attrs, with_times)
    path = os.path.join(rec.dir, 'out.nc')
    zone(tz)
    rec.state(repr(item), depth=len(dims))
    rec.transition()
    rec.trace()
    where = {'dimensions': dims, 'kind': kind, 'attributes': attrs, 'times': with_times, 'reference': ref, 'zone': tz}
    try:
        with quiet():
            out = netCDF4.Dataset(path, 'w')
            try:
                write_dataset(ds, out, forecast_reference_time=ref, create_time_dim=bool(with_times))
            finally:
                out.close()
        got = netCDF4.Dataset(path)
    except Exception as err:  # noqa
        rec.violation('writing %r: %r' % (where, Raised(err)), where)
        return
    finally:
        zone('UTC0')
    problems = []
    try:
        for d in dims:
            if d not in got.variables or got.variables[d].dimensions != (d,):
                problems.append('no coordinate %s' % d)
            elif d == 'time':
                if instants(got.variables[d]) != [stamp(t) for t in TIMES[:2]]:
                    problems.append('times %r' % instants(got.variables[d]))
            elif list(got.variables[d][:]) != list(ds[d].values) or got.variables[d].units != 'unit of ' + d:
                problems.append('coordinate %s is %r' % (d, got.variables[d]))
        extra = ('valid_time',) if with_times else ()
        for name in 'FG':
            want = ds[name]
            if name not in got.variables or got.variables[name].dimensions != extra + want.dims:
                problems.append('no %s%r' % (name, extra + want.dims))
                continue
            var = got.variables[name]
            have = np.ma.filled(np.ma.asarray(var[:]).astype(float), math.nan).reshape(want.shape)
            if not np.array_equal(have, want.values.astype(float), equal_nan=True):
                problems.append('%s is %r' % (name, have.tolist()))
            if name == 'F' and kind != 'bool' and var.dtype != np.dtype(kind):
                problems.append('%s became %s' % (kind, var.dtype))
            if {a: var.getncattr(a) for a in var.ncattrs() if a != '_FillValue'} != want.attrs:
                problems.append('attributes of %s: %r' % (name, var))
        if {a: got.getncattr(a) for a in got.ncattrs()} != ds.attrs:
            problems.append('attributes %r' % got.ncattrs())
        if with_times and instants(got.variables['valid_time']) != [stamp(TIMES[1])]:
            problems.append('valid time %r' % instants(got.variables['valid_time']))
        if ref:
            want = calendar.timegm(time.strptime(str(ref), '%Y%m%d%H'))
            if instants(got.variables['forecast_reference_time']) != [want]:
                problems.append('reference time %r, not %r' % (instants(got.variables['forecast_reference_time']), want))
        elif 'forecast_reference_time' in got.variables:
            problems.append('a reference time that was not given')
    except Exception as err:  # noqa
        problems.append('cannot be read: %r' % Raised(err))
    finally:
        got.close()
    rec.outcome((dims, kind, tuple(problems)))
    if problems:
        rec.violation('%s (%r)' % ('; '.join(problems), where), where)


def program(rec, item):
    """The whole program: file in, file out."""
    import netCDF4
    import yaml
    logging.disable(logging.CRITICAL)
    dims, targets, fields, times, add_dim, ref = item
    # the program leaves its input open
    folder = tempfile.mkdtemp(dir=rec.dir)
    heights = np.array([[0.0, 1000.0, 3000.0], [500.0, 1500.0, 2000.0]])
    ds = xr.Dataset(coords={'plev': [1000.0, 850.0, 500.0], 'lat': ('lat', [30.0, 31.0], {'units': 'degrees_north'}),
                            'lon': ('lon', [5.0], {'units': 'degrees_east'})})
    base = {'H': heights, 'T': np.array([[280.0, 270.0, 250.0], [300.0, 260.0, 220.0]]), 'U': heights * 0 + [[1, 5, -3], [2, 2, 9]]}
    for name, v in base.items():
        a = xr.DataArray(v[:, None, :], dims=('lat', 'lon', 'plev')).transpose(*dims)
        ds[name] = (dims, a.values, {'units': 'm' if name == 'H' else 'K'})
    ds.attrs['title'] = 'program'
    if times:
        ds['valid_time'] = np.datetime64(TIMES[1], 'ns')
        ds['time'] = np.datetime64(TIMES[0], 'ns')
    ds.to_netcdf(os.path.join(folder, 'in.nc'), engine='netcdf4')
    config = {'height_from_pressure': False, 'vertical_coord_type_in': 'pressure', 'vertical_coord_type_out': 'height',
              'geopotential_height_name': 'H', 'fields': list(fields), 'vertical_dim_name': 'plev',
              'vertical_levels': list(targets), 'vertical_level_units': 'meter'}
    with open(os.path.join(folder, 'c.yaml'), 'w') as f:
        yaml.safe_dump(config, f)
    name = 'out.%s.nc' % ref if ref else 'out.nc'
    path = os.path.join(folder, name)
    if os.path.exists(path):
        os.unlink(path)
    from metcalcpy import vertical_interp as code
    argv = ['vertical_interp.py', '--datadir', folder, '--input', 'in.nc', '--config', os.path.join(folder, 'c.yaml'),
            '--output', name] + (['--create_time_dim'] if add_dim else []) + (['--ref_time_from_filename'] if ref else [])
    rec.state(repr(item), depth=len(targets))
    rec.transition()
    rec.trace()
    where = {'dimensions': dims, 'targets': targets, 'fields': fields, 'times': times, 'time dimension': add_dim, 'reference': ref}
    try:
        with quiet(), mock.patch.object(sys, 'argv', argv), mock.patch.object(os, 'system', lambda c: 0):
            runpy.run_path(code.__file__, run_name='__main__')
        got = netCDF4.Dataset(path)
    except BaseException as err:  # noqa
        if isinstance(err, KeyboardInterrupt):
            raise
        rec.violation('the program fails for %r: %r' % (where, Raised(err)), where)
        return
    problems = []
    try:
        if list(got.variables['lev'][:]) != list(targets) or list(got.variables['lat'][:]) != [30, 31]:
            problems.append('levels %r' % list(got.variables['lev'][:]))
        lead = ('valid_time',) if add_dim else ()
        for f in fields:
            var = got.variables[f]
            want_dims = lead + tuple('lev' if d == 'plev' else d for d in dims)
            if var.dimensions != want_dims:
                problems.append('%s has dimensions %r' % (f, var.dimensions))
                continue
            have = np.ma.filled(np.ma.asarray(var[:]).astype(float), math.nan)
            have = np.moveaxis(have, [want_dims.index(d) for d in ('lat', 'lon', 'lev')], [-3, -2, -1]).reshape(2, len(targets))
            for r in (0, 1):
                for k, eta in enumerate(targets):
                    want = model(list(heights[r]), list(base[f][r]), eta)
                    if not (math.isnan(want) and math.isnan(have[r, k]) or abs(have[r, k] - want) < 1e-6):
                        problems.append('%s at %r m of %r: %r, not %r' % (f, eta, base[f][r].tolist(), float(have[r, k]), want))
        problems += ['%s was not asked for' % v for v in set(base) - set(fields) if v in got.variables]
        if getattr(got, 'title', None) != 'program':
            problems.append('no title')
        if add_dim and instants(got.variables['valid_time']) != [stamp(TIMES[1])]:
            problems.append('valid time %r' % instants(got.variables['valid_time']))
        if ref and instants(got.variables['forecast_reference_time']) != [calendar.timegm(time.strptime(ref, '%Y%m%d%H'))]:
            problems.append('reference time')
    except Exception as err:  # noqa
        problems.append('cannot be read: %r' % Raised(err))
    finally:
        got.close()
    rec.outcome((fields, targets, tuple(problems)))
    rec.sample(where)
    if problems:
        rec.violation('%s (%r)' % ('; '.join(problems[:3]), where), where)


def required(rec, item):
    from metcalcpy.vertical_interp import read_required_fields
    names, zero, dims = item
    ds = xr.Dataset({n: (dims, np.full([2] * len(dims), 10.0 * i + 1)) for i, n in enumerate(names)})
    roles = ('surface_geopotential', 'surface_pressure', 'temperature', 'relative_humidity')
    config = dict({r + '_name': n for r, n in zip(roles, names)}, zero_surface_geopotential=zero)
    rec.state(repr(item), depth=1)
    rec.transition()
    rec.trace()
    if zero:
        ds = ds.drop_vars(names[0])
    try:
        got = [a.values for a in read_required_fields(config, ds)]
    except Exception as err:  # noqa
        got = Raised(err)
    want = [np.full([2] * len(dims), 0.0 if zero and i == 0 else 10.0 * i + 1) for i in range(4)]
    rec.outcome(repr(want))
    if isinstance(got, Raised) or len(got) != 4 or any(not np.array_equal(a, b) for a, b in zip(got, want)):
        rec.violation('fields %r are %r' % (names, got), {'names': names, 'no surface geopotential': zero})


def explore(check):
    check.preload = ['metcalcpy.vertical_interp']
    layouts = [p for n in (1, 2, 3) for p in itertools.permutations(('time', 'lev', 'lat', 'lon'), n)]
    items = []
    for dims in layouts:
        for kind, attrs in itertools.product(KINDS, (True, False)):
            for with_times in (0, 1, 2) if 'time' not in dims else (0,):
                items.append((dims, kind, attrs, with_times, None, 'UTC0'))
    for ref in (None, '2020022918', 2019010100, '1999123123'):
        for tz in ZONES:
            for with_times in (0, 1, 2):
                for dims in (('lev', 'lat'), ('lon',)) + ((('time', 'lat'),) if not with_times else ()):
                    items.append((dims, 'float32', True, with_times, ref, tz))
    check.bounds = {'dimension orders': len(layouts), 'kinds': KINDS, 'zones': ZONES}
    check.run(written, items, chunk=20)
    runs = []
    for dims in itertools.permutations(('plev', 'lat', 'lon')):
        for targets in ((0.0, 1000.0, 2500.0), (500.0, 3000.0)):
            for fields in (('T',), ('U',), ('U', 'T')):
                for times, add_dim in ((False, False), (True, False), (True, True)):
                    for ref in (None, '2020010212'):
                        runs.append((dims, targets, fields, times, add_dim, ref))
    check.run(program, runs, chunk=6)
    check.run(required, [(n, z, d) for n in itertools.permutations(('A', 'B', 'C', 'D')) for z in (True, False)
                         for d in (('x',), ('lev', 'x'))], chunk=20)
