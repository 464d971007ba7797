"""C10: activity of convectively coupled waves: anomalies, projections, skill and patterns.

The drawing libraries the module imports are not installed, so stand-ins without any drawing take their place.
"""
import datetime
import itertools
import os
import sys
import types

import numpy as np
import xarray as xr

from checks.C09_maki import numbers, run
from mc.spaces import batches

DATES = ('2015-11-30', '2015-12-01', '2015-12-31', '2016-01-01', '2016-02-28', '2016-02-29', '2016-03-01', '2016-11-30',
         '2016-12-01', '2017-03-01')
FILES = {'kelvin': 'EOF_1-4_130-270E_-15S-15N_persiann_cdr_%s_nlat%d_fillmiss8314_1983-2016_Kelvinband_',
         'er': 'EOF_1-4_60-220E_-21S-21N_persiann_cdr_%s_nlat%d_fillmiss8314_1983-2016_ERband_',
         'mjo': 'EOF_1-4_30-240E_-21S-21N_persiann_cdr_%s_nlat%d_fillmiss8314_1983-2016_MJOband_',
         'mrg': 'EOF_1-2_150-210E_-21S-21N_precip.trmm.8x.1deg.lats%d.v7a.fillmiss.comp.1998-201806_MRGband_'}


def module():
    for name in ('kaleido', 'kaleido.scopes', 'kaleido.scopes.plotly', 'plotly', 'plotly.graph_objects'):
        try:
            __import__(name)
        except ImportError:
            made = types.ModuleType(name)
            made.__path__ = []
            sys.modules[name] = made
            if '.' in name:
                setattr(sys.modules[name.rpartition('.')[0]], name.rpartition('.')[2], made)
    if not hasattr(sys.modules['kaleido.scopes.plotly'], 'PlotlyScope'):
        sys.modules['kaleido.scopes.plotly'].PlotlyScope = object
    from metcalcpy.contributed.tropical_diagnostics import ccew_activity
    return ccew_activity


def times_of(dates, per_day):
    out = []
    for d in dates:
        day = datetime.datetime.fromisoformat(d)
        out += [day + datetime.timedelta(hours=24 // per_day * k) for k in range(per_day)]
    return out


def means(values, times, cyclic):
    """Anomalies from the mean of the same calendar day, or from the mean of everything."""
    out = np.empty(values.shape)
    for i, t in enumerate(times):
        same = [j for j, s in enumerate(times) if not cyclic or (s.month, s.day) == (t.month, t.day)]
        out[i] = values[i] - sum(values[j] for j in same) / len(same)
    return out


def cyclic_of(dates):
    days = [d[5:] for d in dates]
    return len(set(days)) < len(days)


def anomalies_worker(rec, part):
    code = module()
    for dates, per_day in part:
        times = times_of(dates, per_day)
        values = numbers((len(times), 2, 2), len(dates))
        rec.state(('anomalies', dates, per_day), depth=len(dates))
        for name, f, cyclic in (('of the calendar day', code.rem_seas_cyc, True), ('of the period', code.rem_seas_mean, False)):
            data = xr.DataArray(values.copy(), dims=('time', 'lat', 'lon'), coords={'time': times, 'lat': [0., 1.], 'lon': [0., 5.]})
            got = run(f, data)
            rec.transition()
            rec.trace()
            want = means(values, times, cyclic)
            rec.outcome(np.round(want, 6).tobytes())
            where = {'dates': list(dates), 'per day': per_day, 'mean': name}
            if isinstance(got, str) or got.dims != data.dims or not np.allclose(got.values, want) \
                    or not np.array_equal(got['time'].values, data['time'].values):
                rec.violation('anomalies from the mean %s at %r: %s' % (name, dates, got if isinstance(got, str) else got.values.tolist()), where)
            elif not np.array_equal(data.values, values):
                rec.violation('the data were changed', where)


def activity_worker(rec, part):
    code = module()
    for wave, resolution, monthly, dates, per_day, extra in part:
        times = times_of(dates, per_day)
        count = 2 if wave.lower() == 'mrg' else 4
        lat, lon = np.array([-1., 0., 1.]), np.array([150., 155.])
        months = range(1, 13) if monthly else (0,)
        patterns = {m: numbers((count, 3, 2), m + count) / 9.0 for m in months}
        name = FILES[wave.lower()] % ((180,) if wave.lower() == 'mrg' else (resolution, 180))
        path = rec.dir + os.sep
        for m in months:
            file = path + name + ('%02d' % m if monthly else 'annual') + '.nc'
            if os.path.exists(file):
                os.remove(file)
            xr.Dataset({'eof': (('eofnum', 'lat', 'lon'), patterns[m])},
                       coords={'eofnum': np.arange(count) + 1, 'lat': lat, 'lon': lon}).to_netcdf(file)
        # the data cover more than the patterns
        wide_lat = np.concatenate([[-3., -2.][:extra], lat, [2., 3.][:extra]])
        wide_lon = np.concatenate([[140., 145.][2 - extra:], lon, [160., 165.][:extra]])
        values = numbers((len(times), len(wide_lat), len(wide_lon)), 3 + extra)
        data = xr.DataArray(values.copy(), dims=('time', 'lat', 'lon'), coords={'time': times, 'lat': wide_lat, 'lon': wide_lon})
        if extra != 1:
            data.attrs['units'] = 'mm/d'
        rec.state((wave, resolution, monthly, dates, per_day, extra), depth=len(dates))
        rec.transition()
        rec.trace(len(times))
        got = run(code.waveact, data, wave, path, per_day, resolution, 180, 'monthly' if monthly else 'annual')
        part_of = means(values, times, cyclic_of(dates))[:, extra:extra + 3, extra:extra + 2]
        want = [sum((part_of[i] * e).sum() ** 2 for e in patterns[t.month if monthly else 0]) ** 0.5 for i, t in enumerate(times)]
        rec.outcome(np.round(want, 6).tobytes())
        where = {'wave': wave, 'monthly': monthly, 'dates': list(dates), 'per day': per_day, 'wider by': extra}
        if isinstance(got, str):
            rec.violation('activity of %s at %r: %s' % (wave, dates, got), where)
        elif got.dims != ('time',) or not np.array_equal(got['time'].values, data['time'].values) or not np.allclose(got.values, want, atol=1e-9):
            rec.violation('activity of %s at %r is %r, not %r' % (wave, dates, got.values.tolist(), want), where)
        elif (got.attrs.get('units') == 'mm/d') != (extra != 1):
            rec.violation('units of the activity are %r' % got.attrs.get('units'), where)
        elif not np.array_equal(data.values, values):
            rec.violation('the data were changed', where)


def corr(a, b):
    n = len(a)
    ma, mb = sum(a) / n, sum(b) / n
    return sum((x - ma) * (y - mb) for x, y in zip(a, b)) / (sum((x - ma) ** 2 for x in a) * sum((y - mb) ** 2 for y in b)) ** 0.5


def skill_worker(rec, item):
    code = module()
    leads, lines, days, seed, kind = item
    values = numbers((leads, lines, days), seed)
    act = values.copy()
    if kind == 'labelled':
        act = xr.DataArray(act, dims=('fchrs', 'line', 'time'), coords={'fchrs': np.arange(leads) * 24})
    rec.state(item, depth=lines)
    rec.transition()
    rec.trace(leads * (lines - 1))
    got = run(code.wave_skill, act)
    want = np.array([[corr(values[f, n], values[f, 0]) for n in range(1, lines)] for f in range(leads)])
    rec.outcome(np.round(want, 6).tobytes())
    where = {'leads': leads, 'lines': lines, 'days': days, 'kind': kind}
    if isinstance(got, str):
        rec.violation('skill of %r: %s' % (item, got), where)
    elif np.size(got) != want.size or not np.allclose(np.asarray(got).reshape(want.shape), want):
        rec.violation('skill of %r is %r, not %r' % (item, np.asarray(got).tolist(), want.tolist()), where)
    elif not np.array_equal(np.asarray(act), values):
        rec.violation('the activities were changed by computing the skill', where)


def patterns_worker(rec, item):
    """Patterns and series of the leading parts, by eigenvectors of the products of the data with themselves."""
    code = module()
    shape, dim, count, covariance, seed = item
    values = numbers(shape, seed) / 5.0
    data = xr.DataArray(values.copy(), dims=('a', 'b', 'c', 'd')[:len(shape)])
    table = np.moveaxis(values, dim, 0).reshape(shape[dim], -1)
    rest = tuple(n for i, n in enumerate(shape) if i != dim)
    if not covariance:
        table = (table - table.mean(axis=0)) / table.std(axis=0)
    rec.state(item, depth=count)
    rec.transition()
    got = run(code.eof_comp, data, count, code.opt_eof(covariance), dim)
    where = {'shape': list(shape), 'dimension': dim, 'patterns': count, 'covariance': covariance, 'case': seed}
    if isinstance(got, str):
        rec.violation('patterns of %r: %s' % (item, got), where)
        return
    series, share, eofs = got
    power, vectors = np.linalg.eigh(table @ table.T)
    order = np.argsort(-power)
    rec.trace(count)
    rec.outcome(np.round(power[order[:count]], 6).tobytes())
    if np.shape(series) != (shape[dim], count) or np.shape(share) != (count,) or np.shape(eofs) != (count,) + rest:
        rec.violation('patterns of %r have shapes %r' % (item, [np.shape(g) for g in got]), where)
        return
    for k in range(count):
        p = power[order[k]]
        near = [q for j, q in enumerate(power) if j != order[k] and abs(q - p) < 1e-6 * power.max()]
        if near or p < 1e-6 * power.max():
            rec.count('parts that are not unique')
            continue
        v = vectors[:, order[k]]
        whole = np.outer(v, v @ table) / p ** 0.5
        have = np.outer(np.asarray(series)[:, k], np.asarray(eofs)[k].ravel())
        if not np.allclose(have, whole, atol=1e-7) or abs(share[k] - p / power.sum()) > 1e-9:
            rec.violation('part %d of %r (share %r, expected %r)' % (k, item, share[k], p / power.sum()), where)
            return
    if not np.array_equal(data.values, values):
        rec.violation('the data were changed', where)


def labels_worker(rec, part):
    code = module()
    for stamp in part:
        t = datetime.datetime.fromisoformat(stamp)
        rec.state(('label', stamp), depth=1)
        rec.transition()
        rec.trace()
        act = xr.DataArray([1.0, 2.0], dims='time', coords={'time': [t, t + datetime.timedelta(hours=6)]})
        got = run(code.get_timestr, act['time'])
        want = [x.strftime('%Y-%m-%d %H:%M') for x in (t, t + datetime.timedelta(hours=6))]
        rec.outcome(tuple(want))
        if isinstance(got, str) or list(got) != want:
            rec.violation('labels of %r are %r' % (want, got), {'time': stamp})


def explore(check):
    module()
    big = check.thorough
    sets = [s for n in range(1, 5 if big else 4) for s in itertools.combinations(DATES, n)]
    work = [(s, per_day) for s in sets for per_day in (1, 2, 4)]
    check.run(anomalies_worker, batches(work, 24), chunk=1)
    acts = []
    for wave in ('Kelvin', 'kelvin', 'ER', 'er', 'MJO', 'mjo', 'MRG', 'mrg'):
        for monthly in (True, False):
            for dates in (DATES[1:3], DATES[3:6], (DATES[2], DATES[6], DATES[9])):
                for extra in (0, 1, 2):
                    acts.append((wave, '1p0' if extra else '2p5', monthly, dates, 1 + extra % 2, extra))
    for dates in sets:
        acts.append(('MRG', '1p0', len(dates) == 3, dates, 2 if len(dates) == 2 else 1, 1))
    check.run(activity_worker, batches(acts, 6), chunk=1)
    check.run(skill_worker, list(itertools.product((1, 2, 3), (2, 3, 4), (2, 3, 5, 9), range(3), ('plain', 'labelled'))), chunk=12)
    shapes = [s for n in (2, 3) for s in itertools.product((2, 3, 4), repeat=n)]
    pats = [(s, d, k, c, seed) for s in shapes for d in range(len(s)) for k in (1, 2) for c in (True, False) for seed in range(2)
            if k <= min(s[d], np.prod(s) // s[d]) and np.ptp(numbers(s, seed), axis=d).min() > 0]
    check.run(patterns_worker, pats, chunk=20)
    stamps = ['%s %02d:%02d' % (d, h, m) for d in DATES + ('1969-07-20', '2000-02-29') for h in (0, 6, 23) for m in (0, 30)]
    check.run(labels_worker, batches(stamps, 12))
    check.bounds = {'dates': 'every set of up to %d of %d dates about year ends and leap days, 1-4 times a day' % (4 if big else 3, len(DATES)),
                    'activity': '%d requests: waves, monthly and annual patterns, data wider than the patterns' % len(acts),
                    'skill': '1-3 leads, 1-3 lines, 2-9 days', 'patterns': 'tables of 2-4 in 2 and 3 dimensions, every time dimension'}
    check.assumptions = ['plotting libraries are replaced by stand-ins', 'parts of equal variance have no unique pattern and are not judged']
