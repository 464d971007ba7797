"""A04: confidence bounds are the quantiles the method and the level ask for."""
import itertools
import math
import os
from fractions import Fraction as F

import numpy as np

from mc.aggdrv import base_params, number, quiet, read_table, run_aggstat, write_table
from mc.spaces import batches
from mc.statrun import Raised

LEVELS = [0, 0.01, 0.05, 0.1, 0.25, 0.5, 1]
DATA = np.array([[1.0], [2.0]])


def quantile(values, q):
    """Linear interpolation between the order statistics."""
    xs = sorted(F(v) for v in values)
    pos = q * (len(xs) - 1)
    i = min(int(math.floor(pos)), len(xs) - 1)
    j = min(i + 1, len(xs) - 1)
    return xs[i] + (pos - i) * (xs[j] - xs[i])


def interval(dist, value, level, method):
    """(lower, value, upper) or None when nothing is reported."""
    live = [d for d in dist if d is not None]
    if value is None or method not in ('perc', 'pivotal'):
        return None, None, None
    if not live or (method == 'perc' and len(set(live)) == 1):
        return None, value, None
    a = F(level)
    low, high = quantile(live, a / 2), quantile(live, 1 - a / 2)
    if method == 'pivotal':
        low, high = 2 * F(value) - high, 2 * F(value) - low
    return low, value, high


def same(got, exp):
    if got is None or exp is None:
        return got is None and exp is None
    return abs(float(got) - float(exp)) <= 1e-9 * max(1.0, abs(float(exp)))


def run(dist, value, level, method, eclv=False):
    from metcalcpy.bootstrap import bootstrap_and_value

    def stat(values):
        return [value] if values.ndim == 2 else [[d] for d in dist]
    with quiet():
        return bootstrap_and_value(DATA, stat_func=stat, alpha=level, num_iterations=len(dist), num_threads=1,
                                   ci_method=method, save_data=False, save_distributions=True, eclv=eclv)


def distributions(rec, part):
    for dist, value, method in part:
        last = None
        for level in LEVELS:
            rec.state((dist, value, method, level), depth=len(dist))
            rec.transition()
            replay = {'replicates': dist, 'value': value, 'method': method, 'level': level}
            where = 'replicates %r, value %r, %s, level %r' % (dist, value, method, level)
            exp = interval(dist, value, level, method)
            try:
                res = run(dist, value, level, method)
                got = (res.lower_bound, res.value, res.upper_bound)
            except Exception as err:  # noqa
                rec.violation('%s: %r' % (where, Raised(err)), replay)
                continue
            rec.trace()
            rec.outcome(repr(got))
            if not all(same(g, e) for g, e in zip(got, exp)):
                rec.violation('%s: got %r, expected %r' % (where, got, exp), replay)
                continue
            if got[0] is not None:
                if got[0] > got[2]:
                    rec.violation('%s: lower bound above the upper' % where, replay)
                # levels grow: intervals are nested
                if last and not (last[0] <= got[0] + 1e-9 and got[2] <= last[1] + 1e-9):
                    rec.violation('%s: wider than at a smaller level' % where, replay)
                last = (got[0], got[2])
        rec.sample({'replicates': dist, 'value': value, 'method': method})


def curves(rec, part):
    """Bounds of every point of a curve."""
    for columns, values, method in part:
        members = list(zip(*columns))
        dist = [None if None in m else {'cl': np.array([0.2, 0.5][:len(m)]), 'V': np.array(m, dtype=float)} for m in members]
        stat = None if values is None else {'cl': np.array([0.2, 0.5][:len(columns)]), 'V': np.array(values, dtype=float)}
        for level in (0, 0.1, 0.5, 1):
            rec.state(('curve', columns, values, method, level), depth=len(members))
            rec.transition()
            replay = {'replicates': members, 'value': values, 'method': method, 'level': level}
            where = 'curve replicates %r, values %r, %s, level %r' % (members, values, method, level)
            try:
                res = run(dist, stat, level, method, eclv=True)
                low, high = res.lower_bound, res.upper_bound
                low = [None] * len(columns) if low is None else list(low)
                high = [None] * len(columns) if high is None else list(high)
            except Exception as err:  # noqa
                rec.violation('%s: %r' % (where, Raised(err)), replay)
                continue
            rec.trace()
            rec.outcome((repr(low), repr(high)))
            live = [m for m in members if None not in m]
            for k in range(len(columns)):
                exp = interval([m[k] for m in live], values and values[k], level, method)
                if not (same(low[k], exp[0]) and same(high[k], exp[2])):
                    rec.violation('%s: bounds %r %r at point %d, expected %r' % (where, low[k], high[k], k, exp), replay)
            if (res.value is None) != (values is None):
                rec.violation('%s: value %r' % (where, res.value), replay)


# -------------------------------------------------------------- levels requested from jobs
COLS = ['model', 'fcst_lead', 'fcst_valid_beg', 'fcst_init_beg', 'fcst_var', 'stat_name', 'total', 'fy_oy', 'fy_on', 'fn_oy', 'fn_on']
DAYS = ['2020-01-%02d 00:00:00' % d for d in range(1, 15)]


def ctc_job(dirname, level, method, seed, iterations):
    inp, out = os.path.join(dirname, 'in.data'), os.path.join(dirname, 'out.data')
    write_table(inp, COLS, [[m, '0', DAYS[i], DAYS[i], 'V', 'CTC_TOTAL', k * 4 ** i + 3, k * 4 ** i, 1, 1, 1]
                            for i in range(4) for k, m in ((1, 'A'), (2, 'B'))])
    params = base_params(inp, out, alpha=level, num_iterations=iterations, method=method, random_seed=seed,
                         series_val_1={'model': ['A', 'B']}, indy_vals=['0'], list_stat_1=['CTC_TOTAL'],
                         fcst_var_val_1={'V': ['CTC_TOTAL']}, derived_series_1=[['A V CTC_TOTAL', 'B V CTC_TOTAL', 'DIFF']])
    if level == 'default':
        del params['alpha']
    _, rows = run_aggstat(params)
    return {r['model']: [(number(r['stat_btcl']), number(r['stat_value']), number(r['stat_btcu']))] for r in rows}


def eclv_job(dirname, level, method, seed, iterations):
    from metcalcpy.agg_eclv import AggEclv
    inp, out = os.path.join(dirname, 'in.data'), os.path.join(dirname, 'out.data')
    write_table(inp, COLS, [['A', '0', DAYS[i], DAYS[i], 'V', 'ECLV', 10 + i, 4 + 3 * (i == 1), 1 + i, 3 - 3 * (i == 1), 2]
                            for i in range(4)])
    params = base_params(inp, out, alpha=level, num_iterations=iterations, method=method, random_seed=seed, cl_step=0.25,
                         series_val_1={'model': ['A']}, list_stat_1=['ECLV'])
    if level == 'default':
        del params['alpha']
    with quiet():
        AggEclv(params).calculate_stats_and_ci()
    _, rows = read_table(out)
    return {'A': [(number(r['stat_btcl']), number(r['y_pnt_i']), number(r['stat_btcu'])) for r in rows]}


def mode_job(dirname, level, method, seed, iterations):
    from metcalcpy.agg_stat_bootstrap import AggStatBootstrap
    inp, out = os.path.join(dirname, 'in.data'), os.path.join(dirname, 'out.data')
    cols = ['model', 'fcst_lead', 'fcst_valid', 'fcst_var', 'object_id', 'object_type', 'fcst_flag', 'simple_flag',
            'matched_flag', 'area']
    write_table(inp, cols, [[m, '0', DAYS[i], 'V', 'O%d' % i, '2d', 0, 1, 0, k * 4 ** i] for i in range(4) for k, m in ((1, 'A'), (3, 'B'))])
    params = base_params(inp, out, alpha=level, num_iterations=iterations, method=method, random_seed=seed,
                         series_val_1={'model': ['A', 'B']}, indy_vals=['0'], list_stat_1=['OBJAMISSES'],
                         fcst_var_val_1={'V': ['OBJAMISSES']})
    if level == 'default':
        del params['alpha']
    with quiet():
        AggStatBootstrap(params).calculate_values()
    _, rows = read_table(out)
    return {r['model']: [(number(r['stat_btcl']), number(r['stat_value']), number(r['stat_btcu']))] for r in rows}


JOBS = {'aggregation': ctc_job, 'economic value': eclv_job, 'objects': mode_job}


def levels(rec, item):
    """A job with the same seed draws the same replicates, so its intervals differ by the level only."""
    kind, method, seed = item
    got = {}
    asked = [0, 1e-9, 0.02, 0.05, 'default', 0.2, 0.5, 0.9, 1]
    for level in asked:
        rec.state(('job', kind, method, seed, level), depth=1)
        rec.transition()
        try:
            got[level] = JOBS[kind](rec.dir, level, method, seed, 400)
        except Exception as err:  # noqa
            rec.violation('%s job, %s, level %r: %r' % (kind, method, level, Raised(err)), {'job': item, 'level': level})
            return
        rec.trace()
        rec.outcome((kind, method, seed, repr(got[level])))
    replay = {'job': item, 'bounds': {str(k): v for k, v in got.items()}}
    for curve in got[0]:
        for k in range(len(got[0][curve])):
            rows = [got[a][curve][k] for a in asked]
            where = '%s job, %s, seed %d, %s point %d' % (kind, method, seed, curve, k)
            if any(None in r for r in rows):
                rec.violation('%s: no bounds %r' % (where, rows), replay)
                continue
            if any(r[0] > r[2] for r in rows) or len({r[1] for r in rows}) != 1:
                rec.violation('%s: %r' % (where, rows), replay)
            if any(not (a[0] <= b[0] <= b[2] <= a[2]) for a, b in zip(rows, rows[1:])):
                rec.violation('%s: intervals are not nested %r' % (where, rows), replay)
            if rows[3] != rows[4]:
                rec.violation('%s: the default level is not 0.05 %r' % (where, rows[3:5]), replay)
            if abs(rows[-1][0] - rows[-1][2]) > 1e-6 or rows[0][2] - rows[0][0] < 1e-3:
                rec.violation('%s: the level has no effect %r' % (where, rows), replay)
            if not rows[0][0] < rows[-3][0] or not rows[-3][2] < rows[0][2]:
                rec.violation('%s: the level has no effect %r' % (where, rows), replay)


def arithmetic(rec, part):
    """A result shifted, scaled or reversed keeps its bounds in order, and is significant when they exclude zero."""
    from metcalcpy.bootstrap import BootstrapResults
    for low, value, high, k in part:
        rec.state(('arithmetic', low, value, high, k), depth=1)
        res = BootstrapResults(low, value, high)
        swapped = BootstrapResults(high, value, low)
        todo = [('itself', res, (low, value, high)), ('bounds swapped', swapped, (low, value, high)),
                ('+', res + k, (low + k, value + k, high + k)), ('number +', k + res, (low + k, value + k, high + k)),
                ('-', res - k, (low - k, value - k, high - k)), ('number -', k - res, (k - high, k - value, k - low)),
                ('*', res * k, (min(low * k, high * k), value * k, max(low * k, high * k))),
                ('number *', k * res, (min(low * k, high * k), value * k, max(low * k, high * k)))]
        for name, got, (a, b, c) in todo:
            rec.transition()
            rec.trace()
            replay = {'bounds': [low, high], 'value': value, 'number': k, 'operation': name}
            if (got.lower_bound, got.value, got.upper_bound) != (a, b, c):
                rec.violation('%s of %r and %r is %r' % (name, res, k, got), replay)
                continue
            sign = 1 if a > 0 else -1 if c < 0 else 0
            rec.outcome((sign, c - a))
            if got.error_width() != c - a or got.get_result() != sign:
                rec.violation('%s of %r and %r: width %r, result %r' % (name, res, k, got.error_width(), got.get_result()), replay)
            elif got.error_fraction() != (float('inf') if b == 0 else (c - a) / b):
                rec.violation('%s of %r and %r: fraction %r' % (name, res, k, got.error_fraction()), replay)
            elif (a > 0 or c < 0) and not got.is_significant() or a < 0 < c and got.is_significant():
                rec.violation('%s of %r and %r: significant %r' % (name, res, k, got.is_significant()), replay)


def explore(check):
    check.preload = ['metcalcpy.agg_stat', 'metcalcpy.agg_stat_bootstrap', 'metcalcpy.agg_eclv']
    alphabet = [None, 0.0, -1.5, 2.0, 7.25]
    work = []
    for n in range(1, 6 if check.thorough else 5):
        for dist in itertools.product(alphabet, repeat=n):
            for value in (2.0, -1.5, None, 0.0) if n <= 3 or check.thorough else (2.0,):
                for method in ('perc', 'pivotal') + (('unknown',) if n <= 2 else ()):
                    work.append((dist, value, method))
    for n in (10, 21, 40):
        for k in (1, 3, 7):
            dist = tuple(float((i * k) % n) ** 2 - 30 for i in range(n))
            for gap in (0, 1, n // 2):
                d = tuple(None if i < gap else x for i, x in enumerate(dist))
                for method in ('perc', 'pivotal'):
                    work += [(d, v, method) for v in (0.0, 50.5)]
    check.run(distributions, batches(work, 60), chunk=1)
    cur = []
    for n in (1, 2, 3):
        for first in itertools.product([None, 0.0, 1.0, -2.0], repeat=n):
            for second in itertools.product([0.5, 3.0, 1.0], repeat=n):
                for method in ('perc', 'pivotal'):
                    cur.append(((first, second), (1.0, 3.0), method))
    cur += [(((0.0, 1.0),), None, m) for m in ('perc', 'pivotal')] + [(((0.0, 1.0, 4.0),), (1.0,), m) for m in ('perc', 'pivotal')]
    check.run(curves, batches(cur, 60), chunk=1)
    numbers = (-3.0, -1.0, 0.0, 0.5, 2.0)
    check.run(arithmetic, batches([(a, b, c, k) for a in numbers for b in numbers for c in numbers for k in numbers if a <= b <= c], 60))
    jobs = [(kind, m, seed) for kind in JOBS for m in ('perc', 'pivotal') for seed in (1, 2, 3)]
    check.run(levels, jobs, chunk=1)
    check.bounds = {'replicates': '1-4 exhaustively, 10-40 structured', 'levels': LEVELS, 'distributions': len(work),
                    'curves': len(cur), 'jobs': len(jobs)}
