"""U01: the equivalence test against the paired differences, for all small paired samples."""
import itertools
import math

from scipy.stats import t as tdist

from mc.aggdrv import quiet
from mc.spaces import batches

BOUNDS = [(-0.001, 0.001), (-0.5, 0.5), (-0.3, 1.2), (0.2, 2.0), (-2.0, -0.4)]
ALPHAS = [None, 0.05, 0.01, 0.3, 0.001]
TOL = 2e-5


def ordered(thorough):
    """Every pair of series of the given length."""
    sizes = {2: (0, 1, 3.5, -2), 3: (0, 1, 3.5, -2), 4: (0, 1, 3.5), 5: (0, 1)}
    if thorough:
        sizes[6] = (0, 1)
    for n, letters in sizes.items():
        for v in itertools.product(letters, repeat=2 * n):
            yield v[:n], v[n:]


def unordered(thorough):
    """Every multiset of pairs; the order of the pairs does not enter the summaries."""
    sizes = {2: (0, 1, 3.5, -2), 3: (0, 1, 3.5, -2), 4: (0, 1, 3.5), 5: (0, 1, 3.5), 8: (0, 1)}
    if thorough:
        sizes.update({4: (0, 1, 3.5, -2), 6: (0, 1, 3.5), 14: (0, 1)})
    for n, letters in sizes.items():
        pairs = list(itertools.product(letters, repeat=2))
        for v in itertools.combinations_with_replacement(pairs, n):
            yield tuple(p[0] for p in v), tuple(p[1] for p in v)


def moments(a, b):
    n = len(a)
    ma, mb = math.fsum(a) / n, math.fsum(b) / n
    sa = math.sqrt(math.fsum((x - ma) ** 2 for x in a) / (n - 1))
    sb = math.sqrt(math.fsum((x - mb) ** 2 for x in b) / (n - 1))
    r = None
    if sa and sb:
        r = math.fsum((x - ma) * (y - mb) for x, y in zip(a, b)) / (n - 1) / sa / sb
        r = max(-1.0, min(1.0, r))
    return ma, mb, sa, sb, r


def model(a, b, low, high, alpha):
    """Everything from the differences; None when all differences are the same."""
    alpha = alpha or 0.05
    n = len(a)
    d = [x - y for x, y in zip(a, b)]
    mean = math.fsum(d) / n
    sd = math.sqrt(math.fsum((x - mean) ** 2 for x in d) / (n - 1))
    if len(set(d)) == 1:
        return None
    se = sd / math.sqrt(n)
    df = n - 1
    t0 = mean / se
    t1, t2 = (mean - low * sd) / se, (mean - high * sd) / se
    pt = 2 * tdist.sf(abs(t0), df)
    p1, p2 = tdist.sf(t1, df), tdist.cdf(t2, df)
    q1, q2 = tdist.ppf(1 - alpha, df) * se, tdist.ppf(1 - alpha / 2, df) * se
    pair = {'dif': (mean,), 'degrees_of_freedom': (df,), 't': (t1, t2), 'p': (p1, p2),
            'ci_tost': (mean - q1, mean + q1), 'ci_ttest': (mean - q2, mean + q2),
            'eqbound': (low * sd, high * sd)}
    margin = max(2 * q1, (high - low) * sd) / 10
    pair['xlim'] = (min(mean - q1, low * sd) - margin, max(mean + q1, high * sd) + margin)
    return pair, pt, max(p1, p2), alpha


def sides(p, alpha):
    """Which sides of the level p can be on, given rounding."""
    if abs(p - alpha) < 1e-9:
        return (True, False)
    return (p < alpha,)


NAMES = {(True, True): 'diff_eqv', (True, False): 'diff_no_eqv', (False, True): 'no_diff_eqv',
         (False, False): 'no_diff_no_eqv'}


def problem(got, exp):
    if not isinstance(got, dict):
        return 'result %r' % (got,)
    if exp is None:
        return None if got['combined_outcome'] in list(NAMES.values()) + ['none'] else 'no conclusion'
    values, pt, ptost, alpha = exp
    for key, want in values.items():
        have = got[key]
        have = have if isinstance(have, tuple) else (have,)
        if len(have) != len(want):
            return '%s=%r' % (key, have)
        for h, w in zip(have, want):
            if h is None or not abs(h - w) <= TOL * max(1.0, abs(w)):
                return '%s=%r, expected %r' % (key, have, want)
    ds, es = sides(pt, alpha), sides(ptost, alpha)
    if got['combined_outcome'] not in [NAMES[(d, e)] for d in ds for e in es]:
        return 'conclusion %r with p values %r and %r at %r' % (got['combined_outcome'], pt, ptost, alpha)
    word = {True: 'significant', False: 'non-significant'}
    if got['test_outcome'] not in [word[d] for d in ds]:
        return 'test outcome %r with p value %r' % (got['test_outcome'], pt)
    if got['tost_outcome'] not in [word[e] for e in es]:
        return 'equivalence outcome %r with p value %r' % (got['tost_outcome'], ptost)
    return None


def observe(f, *args):
    with quiet():
        try:
            return f(*args)
        except SystemExit:
            return 'refused'
        except Exception as ex:  # noqa
            return '%s: %s' % (type(ex).__name__, ex)


def curve(rec, part):
    from metcalcpy.util import utils
    for a, b in part:
        rec.state((a, b), depth=len(a))
        rec.transition()
        ma, mb, sa, sb, r = moments(a, b)
        if r is None:
            # a constant sample has no correlation and is refused
            got = observe(utils.calc_derived_curve_value, list(a), list(b), 'ETB')
            rec.trace()
            rec.count('refused')
            rec.outcome('constant')
            if not (got == 'refused' or got is None or isinstance(got, dict)):
                rec.violation('constant sample %r %r: %r' % (a, b, got), {'a': a, 'b': b})
            continue
        got = observe(utils.calc_derived_curve_value, list(a), list(b), 'ETB')
        rec.trace()
        bad = problem(got, model(a, b, -0.001, 0.001, None))
        rec.outcome(repr(got))
        rec.sample({'a': a, 'b': b, 'result': repr(got)})
        if bad:
            rec.violation('equivalence curve of %r and %r: %s' % (a, b, bad), {'a': a, 'b': b, 'via': 'curve'})


def summaries(rec, part):
    from metcalcpy.util import utils, tost_paired as module
    for a, b in part:
        ma, mb, sa, sb, r = moments(a, b)
        if r is None:
            continue
        rec.state(('summary', a, b), depth=len(a))
        for low, high in BOUNDS:
            for alpha in ALPHAS:
                exp = model(a, b, low, high, alpha)
                rec.transition()
                for name, f in (('utils', utils.tost_paired), ('tost_paired', module.tost_paired)):
                    got = observe(f, len(a), ma, mb, sa, sb, r, low, high, alpha)
                    rec.trace()
                    bad = problem(got, exp)
                    if isinstance(got, dict):
                        rec.outcome(got['combined_outcome'])
                        rec.count(got['combined_outcome'])
                    if bad:
                        rec.violation('%s test of %r and %r, bounds %r, level %r: %s'
                                      % (name, a, b, (low, high), alpha, bad),
                                      {'a': a, 'b': b, 'bounds': (low, high), 'alpha': alpha, 'via': name})


def missing(rec, item):
    """Pairs with missing values or unequal lengths have no result."""
    from metcalcpy.util import utils
    for a, b in item:
        rec.state(('missing', a, b))
        rec.transition()
        got = observe(utils.calc_derived_curve_value, None if a is None else list(a),
                      None if b is None else list(b), 'ETB')
        rec.trace()
        rec.outcome(repr(got))
        if got is not None:
            rec.violation('missing values %r %r: %r' % (a, b, got), {'a': a, 'b': b})


def gaps():
    out = []
    for n in (2, 3):
        for v in itertools.product((0, 1, 3.5, None), repeat=2 * n):
            if None in v:
                out.append((v[:n], v[n:]))
    for n, m in itertools.product((2, 3, 4), repeat=2):
        if n != m:
            out.append(((0, 1, 3.5, 2)[:n], (1, 0, 2, 5)[:m]))
    out += [(None, (0, 1)), ((0, 1), None), (None, None)]
    return out


def explore(check):
    check.preload = ['metcalcpy.util.utils', 'metcalcpy.util.tost_paired']
    check.bounds = {'pairs in order': '2..5 (thorough 6)', 'pairs in any order': '2..5, 8 (thorough 6, 14)', 'values': [0, 1, 3.5, -2], 'bounds': BOUNDS,
                    'levels': ALPHAS}
    check.assumptions = ['p values within 1e-9 of the level may fall on either side',
                         'equal differences: any conclusion, or none']
    check.run(curve, batches(ordered(check.thorough), 40))
    check.run(summaries, batches(unordered(check.thorough), 40))
    check.run(missing, batches(gaps(), 200))
