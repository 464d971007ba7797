"""U03: standard errors, lag one coefficient, autocorrelation, correlation and the runs test."""
import itertools
import math

import numpy as np
from scipy.stats import t as tdist

from mc import serial
from mc.aggdrv import quiet
from mc.spaces import batches

NAN = float('nan')


def observe(f, *args, **kw):
    with quiet():
        try:
            return f(*args, **kw)
        except SystemExit:
            return 'SystemExit'
        except Exception as ex:  # noqa
            return '%s: %s' % (type(ex).__name__, ex)


def near(got, want, tol=1e-7):
    """want None: no value; otherwise a number."""
    if want is None:
        return got is None or (isinstance(got, float) and math.isnan(got))
    return isinstance(got, (int, float, np.generic)) and abs(float(got) - float(want)) <= tol * max(1.0, abs(float(want)))


def series(thorough):
    for n in range(0, 6):
        for v in itertools.product((0, 1, 3, None, NAN), repeat=n):
            yield v
    for n in (6, 7, 8) if thorough else (6, 7):
        for v in itertools.product((0, 1, 3), repeat=n):
            yield v
    for n in range(1, 5):
        for v in itertools.product((-1.5, 0.25, 2.0), repeat=n):
            yield v
    if thorough:
        for v in itertools.product((0, 1, 3, None), repeat=6):
            yield v


def variants(name, v):
    """The ways the same series can be handed over."""
    yield 'list', list(v)
    yield 'array', np.array([NAN if x is None else x for x in v], dtype=float)


def errors(rec, part):
    from metcalcpy.util import utils
    root = math.sqrt(math.pi / 2) / 1.349
    for v in part:
        rec.state(('series', repr(v)), depth=len(v))
        rec.transition()
        good = serial.clean(v)
        n = len(good)
        ar = serial.lag_one(v)
        iqr = serial.iqr(good) if n else 0
        var = serial.variance(good) if n > 2 else 0
        for how, data in variants('x', v):
            got = observe(utils.autocor_coef, data)
            rec.trace()
            rec.outcome(('ar', repr(got)))
            if not near(got, ar):
                rec.violation('lag one coefficient of %r (%s): %r, expected %s' % (v, how, got, ar),
                              {'series': repr(v), 'via': how, 'function': 'lag one'})
            for label, f, spread, factor in (
                    ('mean', utils.compute_std_err_from_mean, math.sqrt(var), 1.0),
                    ('sum', utils.compute_std_err_from_sum, math.sqrt(var), float(n)),
                    ('median', utils.compute_std_err_from_median_variance_inflation_factor,
                     float(iqr) * root, 1.0),
                    ('median without inflation',
                     utils.compute_std_err_from_median_no_variance_inflation_factor, float(iqr) * root, 1.0)):
                got = observe(f, data)
                rec.trace()
                rec.outcome((label, repr(got)))
                if n > 2 and spread > 0:
                    plain = label == 'median without inflation'
                    options = {(1.0, 0)} if plain else serial.inflation(ar)
                    ar_exp = 0 if plain or ar is None else ar
                    expect = [(k * spread / math.sqrt(n) * factor, flag, ar_exp, n) for k, flag in options]
                else:
                    expect = [(0.0, 0, 0, n)]
                if not (isinstance(got, tuple) and len(got) == 4 and
                        any(all(near(g, e) for g, e in zip(got, ex)) for ex in expect)):
                    rec.violation('standard error of the %s of %r (%s): %r, expected %r'
                                  % (label, v, how, got, expect[0]),
                                  {'series': repr(v), 'via': how, 'function': label})


def serial_stats(rec, part):
    from metcalcpy.util.correlation import acf
    from metcalcpy.util.wald_wolfowitz_runs_test import runs_test
    for v in part:
        if not v:
            continue
        rec.state(('acf', repr(v)), depth=len(v))
        rec.transition()
        for kind in ('correlation', 'covariance'):
            for lag in (None, 0, 1, len(v) + 2):
                want = serial.acf(v, kind, lag)
                got = observe(acf, list(v), kind, lag)
                rec.trace()
                rec.outcome(repr(got))
                if want is None:
                    bad = not (got is None or (isinstance(got, list) and all(near(g, None) for g in got)))
                else:
                    bad = not (isinstance(got, list) and len(got) == len(want)
                               and all(near(g, w) for g, w in zip(got, want)))
                if bad:
                    rec.violation('auto%s of %r up to lag %r: %r, expected %r'
                                  % (kind, v, lag, got, want and [float(w) for w in want]),
                                  {'series': repr(v), 'kind': kind, 'lag': lag})
        for threshold in ('median', 'mean'):
            for side in ('two.sided', 'left.sided', 'right.sided'):
                want = serial.runs(v, threshold, side)
                got = observe(runs_test, list(v), side, threshold)
                rec.trace()
                if isinstance(got, dict):
                    rec.outcome(repr(got.get('p_value')))
                keys = ('statistic', 'p_value', 'runs', 'mean_value', 'variance')
                if want is None:
                    bad = not (isinstance(got, dict) and near(got['p_value'], None) and near(got['statistic'], None))
                else:
                    bad = not (isinstance(got, dict) and all(near(got.get(k), want[k]) for k in keys))
                if bad:
                    # where the number of runs is not random the test is known to fail
                    fails = isinstance(got, str) and got.split(':')[0] in ('ZeroDivisionError', 'StatisticsError')
                    rec.violation('runs test (%s, %s) of %r: %r, expected %r' % (threshold, side, v, got, want),
                                  {'series': repr(v), 'threshold': threshold, 'side': side},
                                  key='runs-not-random' if want is None and fails else None,
                                  known_behaviour=want is None and fails)


def ranks(v):
    s = sorted(v)
    return [(2 * s.index(x) + s.count(x) - 1) / 2 + 1 for x in v]


def pearson(a, b):
    n = len(a)
    ma, mb = serial.mean(a), serial.mean(b)
    sab = sum((x - ma) * (y - mb) for x, y in zip(a, b))
    saa, sbb = sum((x - ma) ** 2 for x in a), sum((y - mb) ** 2 for y in b)
    if saa == 0 or sbb == 0:
        return None
    return float(sab) / math.sqrt(saa * sbb)


def kendall(a, b):
    c = ta = tb = 0
    for i in range(len(a)):
        for j in range(i):
            x = (a[i] > a[j]) - (a[i] < a[j])
            y = (b[i] > b[j]) - (b[i] < b[j])
            c += x * y
            ta += x != 0
            tb += y != 0
    return c / math.sqrt(ta * tb) if ta and tb else None


def correlations(rec, part):
    from metcalcpy.util.correlation import corr
    for a, b in part:
        pairs = [(x, y) for x, y in zip(a, b) if x == x and y == y]
        if len(pairs) < 2:
            continue
        rec.state(('corr', repr(a), repr(b)), depth=len(a))
        rec.transition()
        pa, pb = [p[0] for p in pairs], [p[1] for p in pairs]
        n = len(pa)
        for method in ('pearson', 'spearman', 'kendall'):
            r = {'pearson': lambda: pearson(pa, pb), 'spearman': lambda: pearson(ranks(pa), ranks(pb)),
                 'kendall': lambda: kendall(pa, pb)}[method]()
            for tail in ('two-sided', 'one-sided'):
                got = observe(corr, list(a), list(b), tail, method)
                rec.trace()
                if isinstance(got, str):
                    rec.violation('%s correlation of %r and %r: %s' % (method, a, b, got),
                                  {'a': repr(a), 'b': repr(b), 'method': method})
                    continue
                row = got.iloc[0]
                rec.outcome((method, repr(row['r'])))
                bad = row['n'] != n or not near(row['r'], r)
                if not bad and r is not None:
                    bad = not near(row['r2'], r * r)
                    if method == 'pearson' and n > 2:
                        if abs(r) < 1 - 1e-9:
                            p = 2 * tdist.sf(abs(r) * math.sqrt((n - 2) / (1 - r * r)), n - 2)
                        else:
                            p = 0.0
                        bad = bad or not near(row['p-val'], p if tail == 'two-sided' else p / 2, 1e-6)
                    if n > 3:
                        bad = bad or not near(row['adj_r2'], 1 - (1 - r * r) * (n - 1) / (n - 3))
                if bad:
                    rec.violation('%s correlation (%s) of %r and %r: %r, expected r=%r'
                                  % (method, tail, a, b, dict(row), r),
                                  {'a': repr(a), 'b': repr(b), 'method': method, 'tail': tail})


def pairs_of_series(thorough):
    for n in (2, 3):
        for v in itertools.product((0.0, 1.0, 3.0, NAN), repeat=2 * n):
            if sum(1 for x in v if x != x) <= 2:
                yield v[:n], v[n:]
    letters = (0.0, 1.0, 3.0) if thorough else (0.0, 1.0)
    for v in itertools.product(letters, repeat=8):
        yield v[:4], v[4:]
    # four and five pairs in every order of the second series
    for n in (4, 5):
        for p in itertools.permutations((0.0, 1.0, 2.5, 4.0, -3.0)[:n]):
            yield (0.0, 1.0, 2.5, 4.0, -3.0)[:n], p


def explore(check):
    check.preload = ['metcalcpy.util.utils']
    check.bounds = {'series': 'length 0..5 over {0,1,3,None,NaN}, 6..7 over {0,1,3} (thorough 8)',
                    'pairs of series': 'length 2..3 over {0,1,3,NaN}, 4 over {0,1}, all orders of 4 and 5 values'}
    check.assumptions = ['coefficients within 1e-9 of 0.3, 0.99, 1 and -1 may fall on either side']
    allseries = list(series(check.thorough))
    check.run(errors, batches(allseries, 60))
    check.run(serial_stats, batches(allseries, 60))
    check.run(correlations, batches(pairs_of_series(check.thorough), 40))
