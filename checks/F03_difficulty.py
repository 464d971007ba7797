"""F03: decision difficulty index and its piecewise linear weights on all small fields."""
import itertools
from fractions import Fraction

import numpy as np

from checks.U03_serial import observe
from mc.spaces import batches

KNOTS = [(3, 0), (9, Fraction(3, 2)), (12, Fraction(3, 2)), (21, 0)]
OTHER = [(0, 1), (4, 0), (10, 2)]


def taper(x, knots, left, right):
    if x < knots[0][0]:
        return left
    if x > knots[-1][0]:
        return right
    for (x0, y0), (x1, y1) in zip(knots, knots[1:]):
        if x0 <= x <= x1:
            return y0 + Fraction(x - x0) * (y1 - y0) / (x1 - x0)


def index(sigma, mu, threshold, members, ref, knots=KNOTS, left=0, right=0):
    """Lists of points in, list of exact values out."""
    ratio = [Fraction(s) / Fraction(m) for s, m in zip(sigma, mu)]
    top = max([Fraction(ref)] + ratio)
    out = []
    for r, m, mem in zip(ratio, mu, members):
        below = Fraction(sum(1 for x in mem if x < threshold), len(mem))
        out.append(Fraction(1, 2) * taper(Fraction(m), knots, left, right)
                   * (r / top + 1 - abs(Fraction(1, 2) - below)))
    return out


SIGMAS = (0.5, 2.0, 4.0)
MEANS = (1.0, 3.0, 6.0, 9.0, 10.5, 12.0, 15.0, 21.0, 30.0)
THRESHOLDS = (0, 5, 9.0)
REFS = (None, 0.25, 4.0)


def two_points():
    """Two grid points: a full product of spreads and means, all ensembles of up to three members."""
    ensembles = [e for n in (1, 2, 3) for e in itertools.combinations_with_replacement((2.0, 5.0, 9.0), n)]
    spots = list(itertools.product(SIGMAS, MEANS))
    for a in spots:
        for b in spots:
            yield a, b, ensembles


def compare(rec, got, want, what, replay):
    rec.trace()
    rec.outcome(repr(got))
    if isinstance(got, str):
        rec.violation('%s: %s' % (what, got), replay)
        return
    flat = np.asarray(got, dtype=float).ravel()
    bad = flat.size != len(want) or any(not abs(g - float(w)) <= 1e-9 for g, w in zip(flat, want))
    if bad:
        rec.violation('%s: %r, expected %r' % (what, flat.tolist(), [float(w) for w in want]), replay)
    elif any(g < 0 or g > 1.5 + 1e-9 for g in flat):
        rec.violation('%s: %r leaves the range' % (what, flat.tolist()), replay)


def worker(rec, part):
    from metcalcpy.calc_difficulty_index import forecast_difficulty
    for a, b, ensembles in part:
        rec.state((a, b))
        sigma = np.array([[a[0], b[0]]])
        mu = np.array([[a[1], b[1]]])
        for e in ensembles:
            f = tuple(11.0 - x for x in e)
            field = np.array([[e, f]])
            for thr in THRESHOLDS:
                rec.transition()
                for ref in REFS:
                    args = () if ref is None else (ref,)
                    base = float(np.finfo(np.float32).eps) if ref is None else ref
                    got = observe(forecast_difficulty, sigma, mu, thr, field, None, *args)
                    want = index(sigma.ravel(), mu.ravel(), thr, (e, f), base)
                    compare(rec, got, want, 'spread %r, mean %r, members %r, threshold %r, reference %r'
                            % (sigma.tolist(), mu.tolist(), (e, f), thr, ref),
                            {'sigma': sigma.tolist(), 'mu': mu.tolist(), 'members': (e, f), 'threshold': thr,
                             'reference': ref})


def layouts(rec, item):
    """Every arrangement of four points on a grid, one mean for all points, own envelopes."""
    from metcalcpy.calc_difficulty_index import forecast_difficulty
    from metcalcpy.piecewise_linear import PiecewiseLinear
    points = [(0.5, 5.0, (2.0, 9.0)), (2.0, 10.0, (9.0, 9.0)), (4.0, 14.0, (2.0, 2.0)), (1.0, 20.0, (5.0, 9.0))]
    for order in itertools.permutations(range(4)):
        for shape in ((1, 4), (4, 1), (2, 2)):
            p = [points[i] for i in order]
            sigma = np.array([x[0] for x in p]).reshape(shape)
            mu = np.array([x[1] for x in p]).reshape(shape)
            field = np.array([x[2] for x in p]).reshape(shape + (2,))
            rec.state((order, shape))
            rec.transition()
            for scalar in (False, 5.0, 12.0):
                m = mu if scalar is False else scalar
                ms = [x[1] for x in p] if scalar is False else [scalar] * 4
                got = observe(forecast_difficulty, sigma, m, 5, field, None)
                want = index([x[0] for x in p], ms, 5, [x[2] for x in p], 1e-7)
                compare(rec, got, want, 'layout %r %r mean %r' % (order, shape, scalar),
                        {'order': order, 'shape': shape, 'mean': scalar})
                if not isinstance(got, str) and np.shape(got) != shape:
                    rec.violation('layout %r changed to %r' % (shape, np.shape(got)), {'shape': shape})
                lin = PiecewiseLinear([k[0] for k in OTHER], [float(k[1]) for k in OTHER], left=1.0, right=0.5)
                got = observe(forecast_difficulty, sigma, m, 5, field, lin, 1.0)
                want = index([x[0] for x in p], ms, 5, [x[2] for x in p], 1, OTHER, 1, Fraction(1, 2))
                rec.trace()
                flat = [] if isinstance(got, str) else np.asarray(got).ravel()
                if len(flat) != 4 or any(abs(g - float(w)) > 1e-9 for g, w in zip(flat, want)):
                    rec.violation('own envelope %r %r: %r' % (order, shape, got), {'order': order, 'shape': shape})


def envelopes(rec, part):
    """Piecewise linear functions: values at, between and outside the knots; refused definitions."""
    from metcalcpy.piecewise_linear import PiecewiseLinear
    probes = [x / 2 for x in range(-4, 15)]
    for xs, ys in part:
        rec.state((xs, ys))
        rec.transition()
        made = observe(PiecewiseLinear, list(xs), list(ys), left=-7.0, right=8.0)
        rec.trace()
        legal = len(xs) >= 2 and len(xs) == len(ys) and all(a <= b for a, b in zip(xs, xs[1:]))
        if not legal:
            rec.outcome('refused')
            if not isinstance(made, str):
                rec.violation('knots %r %r are accepted' % (xs, ys), {'x': xs, 'y': ys})
            continue
        if isinstance(made, str):
            rec.violation('knots %r %r: %s' % (xs, ys, made), {'x': xs, 'y': ys})
            continue
        if made.get_ymax() != max(ys):
            rec.violation('maximum of %r' % (ys,), {'x': xs, 'y': ys})
        if len(set(xs)) < len(xs):
            continue        # a jump has no single value
        knots = list(zip(xs, ys))
        for shape in ((len(probes),), (1, len(probes))):
            got = observe(made.values, np.array(probes).reshape(shape))
            rec.trace()
            want = [taper(Fraction(x), knots, -7, 8) for x in probes]
            rec.outcome(repr(got))
            if isinstance(got, str) or np.shape(got) != shape \
                    or any(abs(g - float(w)) > 1e-9 for g, w in zip(np.ravel(got), want)):
                rec.violation('envelope %r: %r' % (knots, got), {'x': xs, 'y': ys})
        got = observe(made.values, list(probes))
        rec.trace()
        if isinstance(got, str) or any(abs(g - float(w)) > 1e-9 for g, w in zip(got, want)):
            rec.violation('envelope %r of a list: %r' % (knots, got), {'x': xs, 'y': ys})


def refused(rec, item):
    """Spreads that are not positive are refused at every place."""
    from metcalcpy.calc_difficulty_index import forecast_difficulty
    for values in itertools.product((1.0, 0.0, -1.0), repeat=4):
        if all(v > 0 for v in values):
            continue
        rec.state(('refused', values))
        rec.transition()
        got = observe(forecast_difficulty, np.array(values).reshape(2, 2), np.full((2, 2), 5.0), 5,
                      np.ones((2, 2, 3)), None)
        rec.trace()
        rec.outcome('refused' if isinstance(got, str) else repr(got))
        if not isinstance(got, str):
            rec.violation('spreads %r are accepted' % (values,), {'sigma': values})


def explore(check):
    check.preload = ['metcalcpy.calc_difficulty_index']
    check.bounds = {'points': 2, 'spreads': SIGMAS, 'means': MEANS, 'thresholds': THRESHOLDS,
                    'references': REFS, 'members': '1..3 out of 3 values', 'knots': '2..4'}
    check.assumptions = ['means are positive', 'fields have two dimensions']
    check.run(worker, batches(two_points(), 8))
    check.run(layouts, [None])
    check.run(refused, [None])
    xs = [x for k in (1, 2, 3, 4) for x in itertools.product((0, 1, 2, 5), repeat=k)]
    pairs = []
    for x in xs:
        for n in (len(x), len(x) + 1):
            pairs += [(x, y) for y in itertools.product((0, 1.5), repeat=n)]
    check.run(envelopes, batches(pairs, 100))
