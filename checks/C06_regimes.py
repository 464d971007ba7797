"""C06: weather regimes: numbering by frequency, matching, counting, and the files written and read."""
import itertools
import os

import numpy as np

from mc.aggdrv import quiet
from mc.spaces import batches


def run(f, *args, **kw):
    with quiet():
        try:
            return f(*args, **kw)
        except Exception as ex:  # noqa
            return '%s: %s' % (type(ex).__name__, ex)


def calculator(folder, **options):
    from metcalcpy.contributed.blocking_weather_regime.WeatherRegime import WeatherRegimeCalculation
    for k in [k for k in os.environ if k.startswith('VPW_')]:
        del os.environ[k]
    os.environ['SCRIPT_OUTPUT_BASE'] = folder
    for k, v in options.items():
        os.environ['VPW_' + k] = str(v)
    return WeatherRegimeCalculation('VPW')


def patterns(n, rows, cols):
    """Well separated fields."""
    return [np.array([[(10.0 * ((r * 3 + c * 5 + k * (k + 1)) % 7) + 200.0 * k * (-1) ** k) for c in range(cols)]
                      for r in range(rows)]) for k in range(n)]


def count_worker(rec, part):
    calc = {}
    for labels, num, step in part:
        key = (num, step)
        if key not in calc:
            calc[key] = calculator(rec.dir, WR_NUMBER=num, WR_FREQ=step)
        wr = np.array(labels, dtype=float)
        got = run(calc[key].compute_wr_freq, wr)
        rec.state((labels, num, step), depth=len(labels[0]))
        rec.transition()
        rec.trace()
        years, days = wr.shape
        want = np.array([[[sum(1 for d in labels[y][s:s + step] if d == w + 1) for s in range(days - step + 1)]
                          for y in range(years)] for w in range(num)], dtype=float)
        rec.outcome(want.tobytes())
        where = {'labels': labels, 'regimes': num, 'days': step}
        if isinstance(got, str):
            rec.violation('frequency of %r: %s' % (labels, got), where)
        elif got[0].shape != want.shape or not np.array_equal(got[0], want) or got[1] != days - step + 1 or got[2] != step:
            rec.violation('frequency of %r over %d days is %r, not %r' % (labels, step, got[0].tolist(), want.tolist()), where)


def reorder_worker(rec, part):
    from metcalcpy.contributed.blocking_weather_regime import Blocking_WeatherRegime_util as code
    for labels, order, how in part:
        n = len(order)
        means = np.array(patterns(n, 2, 3))
        perc = np.arange(n, 0, -1) / 10.0
        wrc = np.array(labels, dtype=float)
        if how == 'given':
            got = run(code.reorder_fcst_regimes, means.copy(), perc.copy(), wrc.copy(), n, list(order))
        else:
            # the observed patterns are scaled forecast patterns in the given order
            obs = np.array([2.0 * means[o - 1] + 5.0 for o in order])
            got = run(code.reorder_fcst_regimes_correlate, obs, means.copy(), perc.copy(), wrc.copy(), n)
        rec.state((labels, order, how), depth=n)
        rec.transition()
        rec.trace()
        place = {o: i + 1 for i, o in enumerate(order)}
        want_wrc = np.array([[float(place.get(d, np.nan)) for d in row] for row in labels])
        want_means = np.array([means[o - 1] for o in order])
        want_perc = np.array([perc[o - 1] for o in order])
        rec.outcome((order, want_wrc.tobytes()))
        where = {'labels': labels, 'order': order, 'how': how}
        if isinstance(got, str):
            rec.violation('reordering %r: %s' % (order, got), where)
        elif not (np.array_equal(got[0], want_means) and np.array_equal(got[1], want_perc)):
            rec.violation('regimes in order %r are wrong' % (order,), where)
        elif len(set(order)) == n and not np.array_equal(got[2], want_wrc):
            rec.violation('labels %r in order %r are %r' % (labels, order, got[2].tolist()), where)
        elif len(set(order)) < n and not np.array_equal(np.isnan(got[2]), np.isnan(want_wrc)):
            rec.violation('labels %r with the matches %r are %r' % (labels, order, got[2].tolist()), where)


def cluster_worker(rec, part):
    for seq, shape, num in part:
        years, days = shape
        calc = calculator(rec.dir, WR_NUMBER=num)
        means = patterns(num, 2, 3)
        data = np.array([means[s].ravel() for s in seq])
        got = run(calc.run_K_means, data.copy(), {}, (years, days, 2, 3))
        rec.state((seq, shape, num), depth=len(seq))
        rec.transition()
        rec.trace()
        counts = [seq.count(k) for k in range(num)]
        where = {'pattern of each day': seq, 'years and days': shape}
        if isinstance(got, str):
            rec.violation('regimes of %r: %s' % (seq, got), where)
            continue
        centers, number, perc, labels = got
        rec.outcome((seq, num))
        labels = np.asarray(labels)
        bad = None
        if labels.shape != shape or number != num:
            bad = 'labels of shape %r' % (labels.shape,)
        elif not np.allclose(perc, sorted((c / len(seq) for c in counts), reverse=True)):
            bad = 'frequencies %r' % (list(perc),)
        else:
            flat = labels.ravel()
            for i, s in enumerate(seq):
                r = int(flat[i])
                if not 1 <= r <= num or not np.allclose(centers[r - 1], means[s], atol=1e-6):
                    bad = 'day %d has regime %r whose pattern is not that of the day' % (i, flat[i])
                elif abs(perc[r - 1] - counts[s] / len(seq)) > 1e-9:
                    bad = 'frequency of regime %d is %r' % (r, perc[r - 1])
        if bad:
            rec.violation('regimes of %r: %s' % (seq, bad), where)


def file_worker(rec, item):
    kind, years, days, months = item
    calc = calculator(rec.dir, WR_OUTPUT_FILE_TYPE=kind, WR_OUTPUT_FILE='regimes')
    valid = np.array([['%04d%02d%02d_120000' % (2000 + 3 * y, months[d % len(months)], 1 + 2 * d) for d in range(days)]
                      for y in range(years)])
    labels = np.array([[1.0 + (y * 2 + d) % 6 for d in range(days)] for y in range(years)])
    rec.state(repr(item), depth=days)
    rec.transition()
    rec.trace()
    where = {'type': kind, 'years': years, 'days': days, 'months': months}
    # a file of an earlier run is replaced
    for turn in range(2):
        ans = run(calc.write_K_means_file, {'valid': valid}, labels)
        if isinstance(ans, str):
            rec.violation('writing the regimes: %s' % ans, where)
            return
    flat, times = labels.ravel(), valid.ravel()
    rec.outcome((kind, years, days, months))
    if kind == 'text':
        rows = [l.split() for l in open(os.path.join(rec.dir, 'regimes.txt')) if not l.startswith('#')]
        want = [[t[:4], t[4:6], t[6:8]] for t in times]
        if [r[:3] for r in rows] != want or [float(r[3]) for r in rows] != list(flat):
            rec.violation('the file has rows %r' % rows, where)
    else:
        import netCDF4
        import datetime
        with netCDF4.Dataset(os.path.join(rec.dir, 'regimes.nc')) as ds:
            got = (list(ds['date'][:]), list(ds['wrnum'][:]), list(ds['time'][:]), ds['time'].units)
        first = datetime.date(int(times[0][:4]), int(times[0][4:6]), int(times[0][6:8]))
        want = ([int(t[:8]) for t in times], [int(v) for v in flat],
                [(datetime.date(int(t[:4]), int(t[4:6]), int(t[6:8])) - first).days for t in times])
        if tuple(got[:3]) != want or str(first) not in got[3]:
            rec.violation('the file holds %r' % (got,), where)


HEADER = ('VERSION MODEL DESC FCST_LEAD FCST_VALID_BEG FCST_VALID_END OBS_LEAD OBS_VALID_BEG OBS_VALID_END FCST_VAR FCST_UNITS '
          'FCST_LEV OBS_VAR OBS_UNITS OBS_LEV OBTYPE VX_MASK INTERP_MTHD INTERP_PNTS FCST_THRESH OBS_THRESH COV_THRESH '
          'ALPHA LINE_TYPE').split()


def matched_worker(rec, item):
    """Files with matched pairs, from fields that were read from files."""
    import netCDF4
    from metcalcpy.contributed.blocking_weather_regime import Blocking_WeatherRegime_util as code
    years, days, absent, lead, nlat, nlon = item
    folder = os.path.join(rec.dir, 'm%d' % len(os.listdir(rec.dir)))
    os.makedirs(folder)
    where = {'years': years, 'days': days, 'absent files': absent, 'lead seconds': lead, 'grid': (nlat, nlon)}
    rec.state(repr(item), depth=days)
    rec.transition()
    files, truth = [], {}
    import datetime
    for i in range(years * days):
        if i in absent:
            files.append('missing')
            continue
        path = os.path.join(folder, 'in%d.nc' % i)
        v = datetime.datetime(2001 + i // days, 2, 25 + i % days, 6, 30)
        init = v - datetime.timedelta(seconds=lead)
        f = np.arange(nlat * nlon).reshape(nlat, nlon) * 0.5 + 100 * i
        with netCDF4.Dataset(path, 'w') as ds:
            ds.createDimension('lat', nlat)
            ds.createDimension('lon', nlon)
            ds.createVariable('lat', 'd', ('lat',))[:] = 10.0 * np.arange(nlat)
            ds.createVariable('lon', 'd', ('lon',))[:] = 20.0 * np.arange(nlon)
            var = ds.createVariable('TMP', 'd', ('lat', 'lon'))
            var[:] = f
            var.init_time, var.valid_time = init.strftime('%Y%m%d_%H%M%S'), v.strftime('%Y%m%d_%H%M%S')
        files.append(path)
        truth[i] = (f, init.strftime('%Y%m%d_%H%M%S'), v.strftime('%Y%m%d_%H%M%S'))
    got = run(code.read_nc_met, files, 'TMP', years, days)
    rec.trace()
    if not truth:
        if not (isinstance(got, str) and 'No input files' in got):
            rec.violation('without any file: %r' % (got,), where)
        return
    if isinstance(got, str):
        rec.violation('reading: %s' % got, where)
        return
    data, lats, lons, times = got
    text = '%02d%02d%02d' % (lead // 3600, lead % 3600 // 60, lead % 60)
    rec.outcome(repr(item))
    for i in range(years * days):
        y, d = divmod(i, days)
        have = (times['init'][y][d], times['valid'][y][d], times['lead'][y][d])
        want = (truth[i][1], truth[i][2], text) if i in truth else ('', '', '')
        fld = truth[i][0] if i in truth else np.full((nlat, nlon), np.nan)
        if tuple(have) != want or not np.array_equal(data[y, d], fld, equal_nan=True):
            rec.violation('file %d is read as %r' % (i, have), where)
            return
    if list(lats) != [10.0 * k for k in range(nlat)] or list(lons) != [20.0 * k for k in range(nlon)]:
        rec.violation('grid %r %r' % (lats, lons), where)
    # matched pairs at the points of the first latitude
    pts = nlon
    fc = data[:, :, 0, :]
    ob = fc + 0.25
    out = os.path.join(folder, 'pairs')
    ans = run(code.write_mpr_file, ob, fc, [5.5 + k for k in range(pts)], [7.25 * k for k in range(pts)], times, times,
              'GFS_model', 'd1', 'FV', 'FU', 'FL', 'OV', 'OU', 'OL', 'MASK', '500', out)
    rec.trace()
    if isinstance(ans, str):
        rec.violation('writing matched pairs: %s' % ans, where)
        return
    names = {os.path.basename(p) for p in os.listdir(folder) if p.startswith('pairs')}
    want_names = {'pairs_%sL_%s_%sV.stat' % (text, truth[i][2][:8], truth[i][2][9:15]) for i in truth}
    if names != want_names:
        rec.violation('files of matched pairs %r, not %r' % (sorted(names), sorted(want_names)), where)
        return
    for i in truth:
        v = truth[i][2]
        rows = [l.split() for l in open(os.path.join(folder, 'pairs_%sL_%s_%sV.stat' % (text, v[:8], v[9:15])))]
        y, d = divmod(i, days)
        bad = rows[0] != HEADER or len(rows) != pts + 1
        for k, r in enumerate(rows[1:]):
            want = ['V9.1', 'GFS_model', 'd1', text, v, v, text, v, v, 'FV', 'FU', 'FL', 'OV', 'OU', 'OL', 'ADPUPA', 'MASK',
                    'NEAREST', '1', 'NA', 'NA', 'NA', 'NA', 'MPR', str(pts), str(k + 1), 'NA', '%.4f' % (5.5 + k),
                    '%.4f' % (7.25 * k), '500', 'NA', '%.4f' % fc[y, d, k], '%.4f' % ob[y, d, k], 'NA', 'NA', 'NA', 'NA']
            bad = bad or r != want
        if bad:
            rec.violation('matched pairs of %s are %r' % (v, rows), where)
            return


def anomalies(data):
    out = np.empty_like(data)
    t = np.arange(data.shape[0], dtype=float)
    t -= t.mean()
    for d in range(data.shape[1]):
        f = data[:, d]
        out[:, d] = f - f.mean(axis=0) - t[:, None, None] * (np.tensordot(t, f, axes=(0, 0)) / (t @ t))
    return out


def eof_worker(rec, item):
    years, days, nlat, nlon, seed = item
    n = years * days * nlat * nlon
    data = ((np.arange(n) * (seed + 3) ** 2 + np.arange(n) ** 2 * 7) % 23).astype(float).reshape(years, days, nlat, nlon)
    want = anomalies(data)
    flat = want.reshape(years * days, nlat * nlon)
    s = np.linalg.svd(flat, compute_uv=False)
    rank = int((s > 1e-8 * s[0]).sum())
    rec.state(repr(item), depth=years)
    rec.transition()
    for num in range(1, rank + 1):
        calc = calculator(rec.dir, NUM_PCS=num, WR_NUMBER=2)
        got = run(calc.Calc_EOF, data.copy())
        rec.trace()
        where = {'case': item, 'components': num}
        if isinstance(got, str):
            rec.violation('components: %s' % got, where)
            return
        eof, pc, _, share = got
        back = run(calc.reconstruct_heights, eof, pc, data.shape)
        rec.outcome((item, num))
        if isinstance(back, str):
            rec.violation('reconstruction: %s' % back, where)
            return
        left = np.linalg.norm(flat - np.asarray(back).reshape(flat.shape)) ** 2
        exp = float((s[num:] ** 2).sum())
        if abs(left - exp) > 1e-6 * (s ** 2).sum():
            rec.violation('%d components leave %r of the variance, not %r' % (num, left, exp), where)
            return
        if not np.allclose(share, 100 * s[:num] ** 2 / (s ** 2).sum(), atol=1e-6):
            rec.violation('variance fractions %r' % (list(share),), where)
            return


def weights_worker(rec, part):
    calc = calculator(rec.dir)
    for series, other, shape, lats, flat in part:
        years, (days, nlat, nlon) = len(series), shape
        # every grid point and day has a multiple of one of the two series
        data = np.empty((years,) + shape)
        for d, r, c in itertools.product(*map(range, shape)):
            data[:, d, r, c] = [(d + 2) * x + r for x in (series if (r + c) % 2 == 0 else other)]
        lat, lon = np.array(lats[:nlat], dtype=float), np.arange(nlon, dtype=float)
        weight = np.cos(np.deg2rad(lat))[:, None]
        if not flat:
            lon, lat = np.meshgrid(lon, lat)
        want = anomalies(data) * weight
        given = data.copy()
        got = run(calc.weights_detrend, lat, lon, given)
        rec.state((series, other, shape, lats, flat), depth=years)
        rec.transition()
        rec.trace()
        rec.outcome(want.round(6).tobytes())
        where = {'series': [series, other], 'days, latitudes, longitudes': shape, 'latitudes': lats[:nlat], 'coordinates': 1 if flat else 2}
        if isinstance(got, str):
            rec.violation('weighted anomalies of %r: %s' % (where, got), where)
        elif np.shape(got[0]) != want.shape or not np.allclose(got[0], want, atol=1e-9) \
                or not np.allclose(got[1], want.reshape(years * days, nlat * nlon), atol=1e-9):
            rec.violation('weighted anomalies of %r are %r, not %r' % (where, np.asarray(got[0]).tolist(), want.tolist()), where)


def elbow_worker(rec, part):
    for counts, most in part:
        n = len(counts)
        fields = [f.ravel() * 1e5 for f in patterns(n, 2, 3)]
        days = np.array([fields[k] for k, m in enumerate(counts) for _ in range(m)])
        np.random.seed(0)
        got = run(calculator(rec.dir, NUM_CLUSTERS=most + 1).run_elbow, days)
        rec.state((counts, most), depth=len(days))
        rec.transition()
        rec.trace()
        where = {'days of each pattern': counts, 'most clusters': most}
        if isinstance(got, str):
            rec.violation('number of clusters of %r: %s' % (counts, got), where)
            continue
        ks, _, best, line, curve = got
        whole = ((days - days.mean(axis=0)) ** 2).sum() * 1e-10
        curve, line = np.asarray(curve), np.asarray(line)
        rec.outcome((counts, most, repr(list(best))))
        chord = [curve[0] + (curve[-1] - curve[0]) * k / (most - 1) for k in range(most)]
        below = [c - v for c, v in zip(chord, curve)]
        tol = 1e-6 * whole
        if list(ks) != list(range(1, most + 1)) or len(curve) != most or abs(curve[0] - whole) > tol or (curve < -tol).any():
            rec.violation('spread of %r in 1-%d clusters is %r' % (counts, most, curve.tolist()), where)
        elif any(v > tol for k, v in zip(ks, curve) if k >= n) or any(v < tol for k, v in zip(ks, curve) if k < n):
            rec.violation('spread of %r in 1-%d clusters is %r' % (counts, most, curve.tolist()), where)
        elif not np.allclose(line, chord, atol=tol):
            rec.violation('chord of %r is %r' % (curve.tolist(), line.tolist()), where)
        elif not len(best) or any(below[b] < max(below) - tol for b in best):
            rec.violation('best number of clusters of the spread %r is %r' % (curve.tolist(), [b + 1 for b in best]), where)


def steps_worker(rec, item):
    from metcalcpy.contributed.blocking_weather_regime import Blocking_WeatherRegime_util as code
    for name, value in zip(('FCST_STEPS', 'OBS_STEPS'), item):
        if value is None:
            os.environ.pop(name, None)
        else:
            os.environ[name] = value
    got = run(code.parse_steps)
    rec.state(repr(item), depth=1)
    rec.transition()
    rec.trace()
    want = tuple((v or '').split('+') for v in item)
    rec.outcome(repr(want))
    if isinstance(got, str) or tuple(got) != want:
        rec.violation('steps %r are read as %r' % (item, got), {'steps': item})


def explore(check):
    check.preload = ['metcalcpy.contributed.blocking_weather_regime.WeatherRegime']
    big = check.thorough
    check.bounds = {'labels': 'all label tables of up to 2 x 4 days, 3 regimes', 'orders': 'all permutations and maps of up to 4',
                    'sequences': 'all sequences of days over 2-3 patterns with distinct counts'}
    check.assumptions = ['k-means is judged where every day equals one of the patterns']
    cases = []
    for days in range(1, 7 if big else 6):
        for row in itertools.product((1, 2, 3), repeat=days):
            for step in range(1, days + 1):
                cases.append(((row,), 3, step))
    for rows in itertools.product(itertools.product((1, 2), repeat=3), repeat=2):
        for step in (1, 2, 3):
            cases.append((rows, 2, step))
    check.run(count_worker, list(batches(cases, 100)), chunk=1)
    cases = []
    for n in (2, 3, 4):
        maps = [tuple(m) for m in itertools.product(range(1, n + 1), repeat=n)]
        tables = [(tuple(range(1, n + 1)), tuple(range(n, 0, -1)))] + \
            [(row,) for row in itertools.product(range(1, n + 1), repeat=2)]
        for m in maps:
            for t in tables:
                for how in ('given', 'correlated'):
                    cases.append((t, m, how))
    check.run(reorder_worker, list(batches(cases, 100)), chunk=1)
    cases = []
    for num, total in ((2, 3), (2, 5), (3, 6), (2, 6)):
        for seq in itertools.product(range(num), repeat=total):
            counts = [seq.count(k) for k in range(num)]
            if min(counts) == 0 or len(set(counts)) < num:
                continue
            cases.append((seq, (1, total), num))
            if total % 3 == 0:
                cases.append((seq, (3, total // 3), num))
    check.run(cluster_worker, list(batches(cases, 15)), chunk=1)
    check.run(file_worker, [(k, y, d, m) for k in ('text', 'netcdf') for y in (1, 2, 3) for d in (1, 2, 5)
                            for m in ((1,), (12, 2), (2, 3, 11))], chunk=3)
    cases = []
    for years, days in ((1, 1), (1, 3), (2, 2)):
        n = years * days
        for absent in itertools.chain.from_iterable(itertools.combinations(range(n), k) for k in range(n + 1)):
            for lead in (0, 3600, 9 * 3600 + 61, 36 * 3600, 120 * 3600):
                cases.append((years, days, absent, lead, 2, 3))
    check.run(matched_worker, cases, chunk=6)
    check.run(eof_worker, [(y, d, a, b, s) for y in (3, 4, 5) for d in (1, 2) for a, b in ((1, 2), (2, 2), (2, 3))
                           for s in range(3)], chunk=3)
    cases = []
    for years in (2, 3, 4):
        for series in itertools.product((0, 1, 5), repeat=years):
            for other in ((3,) * years, tuple(range(years)), series[::-1]):
                for shape in ((1, 1, 2), (2, 2, 3), (1, 2, 2)):
                    for flat in (True, False):
                        cases.append((series, other, shape, (0, 60) if years % 2 else (-45, 80), flat))
    check.run(weights_worker, list(batches(cases, 60)), chunk=1)
    cases = [(c, most) for n in (2, 3, 4) for c in itertools.product((1, 2, 5), repeat=n) for most in range(max(n, 3), min(sum(c), 6) + 1)]
    check.run(elbow_worker, list(batches(cases, 8)), chunk=1)
    check.run(steps_worker, list(itertools.product((None, '', 'A', 'A+B', 'PLOT+A+C'), repeat=2)))
