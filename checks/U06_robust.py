"""U06: robust correlations, their intervals, power and Bayes factor, and the removal of missing pairs."""
import itertools
import math

import numpy as np
from scipy.stats import norm
from scipy.stats import t as tdist

from checks.U03_serial import kendall, near, observe, pearson, ranks
from mc.spaces import batches

NAN = float('nan')
TAILS = ('two-sided', 'one-sided')


def median(v):
    s = sorted(v)
    n = len(s)
    return (s[(n - 1) // 2] + s[n // 2]) / 2.0


def bicor(a, b, c=9.0):
    sides = []
    for v in (a, b):
        mid = median(v)
        mad = median([abs(x - mid) for x in v])
        if mad == 0:
            return None
        sides.append([(x - mid) * (1 - ((x - mid) / (c * mad)) ** 2) ** 2 if abs(x - mid) < c * mad else 0.0 for x in v])
    p, q = sides
    return sum(x * y for x, y in zip(p, q)) / math.sqrt(sum(x * x for x in p) * sum(y * y for y in q))


def percbend(a, b, cut):
    sides = []
    for v in (a, b):
        mid = median(v)
        away = sorted(abs(x - mid) for x in v)
        omega = away[cut - 1]
        if omega == 0:
            return None
        below = [x for x in v if x - mid < -omega]
        above = [x for x in v if x - mid > omega]
        inside = [x for x in v if abs(x - mid) <= omega]
        centre = (sum(inside) + omega * (len(above) - len(below))) / len(inside)
        sides.append([max(-1.0, min(1.0, (x - centre) / omega)) for x in v])
    p, q = sides
    den = sum(x * x for x in p) * sum(y * y for y in q)
    return sum(x * y for x, y in zip(p, q)) / math.sqrt(den) if den > 0 else None


def tprob(r, n):
    if abs(r) >= 1 - 1e-12:
        return 0.0
    return 2 * tdist.sf(abs(r) * math.sqrt((n - 2) / (1 - r * r)), n - 2)


def interval(r, n, confidence=0.95):
    if abs(r) >= 1 - 1e-9:
        return [r, r]
    half = -norm.ppf((1 - confidence) / 2) / math.sqrt(n - 3)
    return [math.tanh(math.atanh(r) - half), math.tanh(math.atanh(r) + half)]


def power(r, n, alpha, tail):
    r = abs(r)
    if r >= 1 - 1e-12:
        return 1.0
    t = tdist.ppf(1 - (alpha / 2 if tail == 'two-sided' else alpha), n - 2)
    limit = math.atanh(t / math.sqrt(t * t + n - 2))
    z = math.atanh(r) + r / (2 * (n - 1))
    out = norm.cdf((z - limit) * math.sqrt(n - 3))
    if tail == 'two-sided':
        out += norm.cdf((-z - limit) * math.sqrt(n - 3))
    return out


def hyper(a, b, c, z):
    """The hypergeometric series, term by term."""
    total = term = 1.0
    for k in range(20000):
        term *= (a + k) * (b + k) / ((c + k) * (k + 1)) * z
        total += term
        if term < total * 1e-14:
            break
    return total


def bayes(r, n, kappa=1.0):
    beta = 2 * math.lgamma(1 / kappa) - math.lgamma(2 / kappa)
    return math.exp((1 - 2 / kappa) * math.log(2) + 0.5 * math.log(math.pi) - beta + math.lgamma((n + 2 / kappa - 1) / 2)
                    - math.lgamma((n + 2 / kappa) / 2)) * hyper((n - 1) / 2, (n - 1) / 2, (n + 2 / kappa) / 2, r * r)


def wetzels(r, n):
    """The integral over the auxiliary variable g = exp(s), by the trapezoidal rule."""
    step, total = 0.01, 0.0
    for i in range(-1200, 2500):
        s = i * step
        g = math.exp(s)
        total += step * math.exp((n - 2) / 2 * math.log1p(g) - (n - 1) / 2 * math.log1p((1 - r * r) * g) - 1.5 * s
                                 - n / (2 * g) + s)
    return math.sqrt(n / 2) / math.sqrt(math.pi) * total


def written(got, want):
    """The Bayes factor is given as text with three decimals."""
    return isinstance(got, str) and abs(float(got) - want) <= (6e-4 if 1e-4 < want < 1e4 else 6e-4 * want)


def whole_row(row, method, tail, r, p, n):
    """What is wrong with a row of results."""
    if row['n'] != n:
        return 'n'
    if r is None:
        return None if all(near(row[k], None) for k in ('r', 'r2', 'adj_r2', 'p-val', 'power')) else 'undefined'
    if not near(row['r'], r, 1e-7) or abs(row['r']) > 1:
        return 'r'
    if not near(row['r2'], r * r):
        return 'r2'
    if n != 3 and not near(row['adj_r2'], 1 - (1 - r * r) * (n - 1) / (n - 3)):
        return 'adj_r2'
    if p is not None and not near(row['p-val'], p if tail == 'two-sided' else p / 2, 1e-6):
        return 'p-val'
    if n > 3:
        low, high = interval(r, n)
        ci = row['CI95%']
        if len(ci) != 2 or abs(ci[0] - low) > 0.00501 or abs(ci[1] - high) > 0.00501:
            return 'CI95%'
    if n > 4 and not near(row['power'], power(r, n, 0.05, tail), 1e-6):
        return 'power'
    if n <= 4 and not near(row['power'], None):
        return 'power'
    if method == 'pearson' and abs(r) < 0.999 and not written(row['BF10'], bayes(r, n)):
        return 'BF10'
    return None


def coefficients(rec, part):
    from metcalcpy.util.correlation import corr
    for a, b in part:
        pairs = [(x, y) for x, y in zip(a, b) if x == x and y == y]
        n = len(pairs)
        if n < 4:
            continue
        pa, pb = [p[0] for p in pairs], [p[1] for p in pairs]
        rec.state((repr(a), repr(b)), depth=len(a))
        rec.transition()
        wanted = [('bicor', {}, bicor(pa, pb)), ('bicor', {'c': 3}, bicor(pa, pb, 3.0)),
                  ('percbend', {}, percbend(pa, pb, 4 * n // 5)), ('percbend', {'beta': 0.5}, percbend(pa, pb, n // 2)),
                  ('pearson', {}, pearson(pa, pb)), ('spearman', {}, pearson(ranks(pa), ranks(pb))), ('kendall', {}, kendall(pa, pb))]
        for method, extra, r in wanted:
            if r is None and method == 'percbend':
                rec.count('no spread to bend by')
                continue
            for tail in TAILS if method in ('pearson', 'bicor') and not extra else TAILS[:1]:
                got = observe(corr, np.array(a), np.array(b), tail, method, **extra)
                rec.trace()
                where = {'a': repr(a), 'b': repr(b), 'method': method, 'tail': tail, 'options': extra}
                if isinstance(got, str):
                    rec.violation('%s correlation of %r and %r: %s' % (method, a, b, got), where)
                    continue
                row = got.iloc[0]
                rec.outcome((method, repr(row['r'])))
                p = tprob(r, n) if r is not None and method != 'kendall' else None
                wrong = whole_row(row, method, tail, r, p, n)
                if wrong:
                    rec.violation('%s correlation (%s) of %r and %r has %s %r, r should be %r' % (method, tail, a, b, wrong, row.get(wrong), r), where)


def far(points, mu, cov):
    (sxx, sxy), (_, syy) = cov
    det = sxx * syy - sxy * sxy
    out = []
    for x, y in points:
        dx, dy = x - mu[0], y - mu[1]
        out.append((syy * dx * dx - 2 * sxy * dx * dy + sxx * dy * dy) / det)
    return out


def without_outliers(rec, item):
    """Points far from the others take no part in Shepherd's pi; points in the middle do."""
    from metcalcpy.util.correlation import corr, shepherd
    turn, away, where_far, missing = item
    base = [(0, 0), (1, 2), (2, 1), (3, 4), (4, 3), (5, 5), (1, 0), (0, 2), (2, 3), (4, 5), (5, 3), (3, 2), (2, 4), (4, 1), (1, 3), (3, 0)]
    points = [(x, y if turn > 0 else -y) for x, y in base]
    spots = {'none': [], 'right': [(away, 2)], 'corner': [(-away, away)], 'two': [(away, 1), (-1, -away)]}[where_far]
    for k, spot in enumerate(spots):
        points.insert(3 + 5 * k, spot)
    data = list(points)
    if missing is not None:
        data.insert(missing, (NAN, 3.0) if missing % 2 else (1.0, NAN))
    a, b = [np.array([float(p[i]) for p in data]) for i in (0, 1)]
    rec.state(repr(item), depth=len(spots))
    rec.transition()
    rec.trace(2)
    info = {'points': repr(data)}
    np.random.seed(5)
    got = observe(corr, a, b, method='shepherd')
    clean = [np.array([float(p[i]) for p in points]) for i in (0, 1)]
    flags = observe(shepherd, clean[0], clean[1])
    if isinstance(got, str) or isinstance(flags, str):
        rec.violation("Shepherd's pi of %r: %s" % (data, got if isinstance(got, str) else flags), info)
        return
    kept = [p for p in points if p not in spots]
    xs, ys = [p[0] for p in kept], [p[1] for p in kept]
    r = pearson(ranks(xs), ranks(ys))
    p = tprob(r, len(kept))
    rec.outcome(repr(r))
    row = got.iloc[0]
    if not (near(row['r'], r) and near(row['p-val'], p, 1e-6) and row['n'] == len(points)):
        rec.violation("Shepherd's pi of %r is %r (p %r, n %r), not %r" % (data, row['r'], row['p-val'], row['n'], r), info)
    elif 'outliers' not in row or row['outliers'] != len(spots):
        rec.violation("Shepherd's pi of %r reports %r outliers, not %d" % (data, row.get('outliers'), len(spots)), info)
    elif [bool(f) for f in flags[2]] != [p in spots for p in points] or not near(flags[0], r):
        rec.violation('outliers of %r are %r' % (data, [bool(f) for f in flags[2]]), info)


def solving(rec, item):
    """Each of coefficient, size, power and level follows from the three others."""
    from metcalcpy.util.correlation import power_corr
    r, n, alpha, tail = item
    rec.state(repr(item), depth=1)
    info = {'r': r, 'n': n, 'alpha': alpha, 'tail': tail}
    if n <= 4:
        rec.transition()
        rec.trace()
        if not near(observe(power_corr, r=r, n=n, alpha=alpha, tail=tail), None):
            rec.violation('power of %d pairs' % n, info)
        return
    want = power(r, n, alpha, tail)
    rec.outcome(round(want, 9))
    got = observe(power_corr, r=r, n=n, alpha=alpha, tail=tail)
    rec.transition(4)
    rec.trace()
    if not near(got, want, 1e-9):
        rec.violation('power of %r is %r, not %r' % (item, got, want), info)
        return
    if not 1e-4 < want < 1 - 1e-4 or r in (0.0, 1.0, -1.0):
        return
    for name, value in (('n', n), ('r', abs(r)), ('alpha', alpha)):
        args = {'r': r, 'n': n, 'alpha': alpha, 'power': want, 'tail': tail}
        args[name] = None
        back = observe(power_corr, **args)
        rec.trace()
        if not near(back, value, 1e-4):
            # another solution of the same equation; of few pairs a size cannot be found where fewer have more power
            ok = not isinstance(back, str) and back == back
            if name == 'n' and near(back, None) and power(r, 4 + 1e-9, alpha, tail) >= want - 1e-9:
                rec.count('fewer pairs have more power')
                ok = True
            elif ok:
                rest = {'r': r, 'n': n, 'alpha': alpha}
                rest[name] = float(back)
                ok = near(power(rest['r'], rest['n'], rest['alpha'], tail), want, 1e-6)
            if not ok:
                rec.violation('%s for power %r of %r is %r' % (name, want, item, back), info)
    for missing in ((), ('r', 'n'), ('alpha', 'power')):
        args = {'r': r, 'n': n, 'alpha': alpha, 'power': want, 'tail': tail}
        args.update({k: None for k in missing})
        answer = observe(power_corr, **args)
        rec.trace()
        if not (isinstance(answer, str) and answer.startswith('ValueError')):
            rec.violation('%d unknowns give %r' % (len(missing), answer), info)


def intervals(rec, item):
    from metcalcpy.util.correlation import bayesfactor_pearson, compute_esci
    stat, nx, ny = item
    rec.state(repr(item), depth=1)
    info = {'statistic': stat, 'sizes': [nx, ny]}
    for confidence in (0.5, 0.9, 0.95, 0.99):
        todo = []
        if abs(stat) < 1 and nx > 3:
            for name in ('r', 'pearson', 'spearman'):
                todo.append((name, {}, interval(stat, nx, confidence)))
        alone = tdist.ppf((1 + confidence) / 2, nx - 1) * math.sqrt(1 / nx + stat ** 2 / (2 * nx))
        both = tdist.ppf((1 + confidence) / 2, nx + ny - 2) * math.sqrt((nx + ny) / (nx * ny) + stat ** 2 / (2 * (nx + ny)))
        for name in ('cohen', 'd', 'g', 'hedges'):
            todo.append((name, {'paired': True}, [stat - alone, stat + alone]))
            half = alone if ny == 1 else both
            todo.append((name, {}, [stat - half, stat + half]))
        for name, extra, want in todo:
            for decimals in (2, 5):
                got = observe(compute_esci, stat=stat, nx=nx, ny=ny, eftype=name, confidence=confidence, decimals=decimals, **extra)
                rec.transition()
                rec.trace()
                if isinstance(got, str) or len(got) != 2 or any(abs(g - w) > 0.501 * 10 ** -decimals for g, w in zip(got, want)):
                    rec.violation('%g interval of %s %r of %d and %d %r: %r, not %r' % (confidence, name, stat, nx, ny, extra, got, want), info)
                    return
    if abs(stat) < 1 and ny == 4:
        rec.outcome(round(bayes(stat, nx), 6))
        for kappa in (1.0, 0.5, 2.0):
            got = observe(bayesfactor_pearson, stat, nx, kappa=kappa)
            rec.transition()
            rec.trace()
            if not near(got, bayes(stat, nx, kappa), 1e-7):
                rec.violation('Bayes factor of r %r, n %d, kappa %r is %r, not %r' % (stat, nx, kappa, got, bayes(stat, nx, kappa)), info)
        got = observe(bayesfactor_pearson, stat, nx, method='wetzels')
        rec.trace()
        if nx > 2 and not near(got, wetzels(stat, nx), 1e-3):
            rec.violation('Wetzels factor of r %r, n %d is %r, not %r' % (stat, nx, got, wetzels(stat, nx)), info)


def removal(rec, part):
    """Only what is missing is removed, and pairs stay pairs."""
    from metcalcpy.util.correlation import remove_na, remove_none
    for holes in part:
        n = len(holes) // 2
        x = [NAN if holes[i] else 1.0 + i for i in range(n)]
        y = [NAN if holes[n + i] else 10.0 + i for i in range(n)]
        rec.state(('removal', repr(holes)), depth=n)
        fx, fy = [v for v in x if v == v], [v for v in y if v == v]
        both = [(p, q) for p, q in zip(x, y) if p == p and q == q]
        todo = [('alone', (x,), {}, fx), ('independent', (x, y), {}, (fx, fy)),
                ('paired', (x, y), {'paired': True}, ([p for p, _ in both], [q for _, q in both])),
                ('with a number', (x, 7), {'paired': True}, (fx, 7)), ('with one value', (x, [7.0]), {'paired': True}, (fx, [7.0]))]
        for axis in ('rows', 'columns'):
            for shape in ((n, 1), (1, n), (2, n // 2), (n // 2, 2)):
                if shape[0] * shape[1] != n:
                    continue
                gx, gy = (np.array(v).reshape(shape) for v in (x, y))
                lines = lambda g: list(map(list, g if axis == 'rows' else g.T))  # noqa: E731
                back = lambda rows, k: np.array(rows).reshape(-1, k) if axis == 'rows' else np.array(rows).reshape(-1, k).T  # noqa: E731
                k = shape[1] if axis == 'rows' else shape[0]
                whole = lambda row: all(v == v for v in row)  # noqa: E731
                lx, ly = lines(gx), lines(gy)
                todo.append(('table %r %s' % (shape, axis), (gx,), {'axis': axis}, back([r for r in lx if whole(r)], k)))
                keep = [i for i in range(len(lx)) if whole(lx[i]) and whole(ly[i])]
                todo.append(('paired tables %r %s' % (shape, axis), (gx, gy), {'axis': axis, 'paired': True},
                             (back([lx[i] for i in keep], k), back([ly[i] for i in keep], k))))
                todo.append(('independent tables %r %s' % (shape, axis), (gx, gy), {'axis': axis},
                             (back([r for r in lx if whole(r)], k), back([r for r in ly if whole(r)], k))))
        for name, args, extra, want in todo:
            got = observe(remove_na, *args, **extra)
            rec.transition()
            rec.trace()
            parts = list(zip(got, want)) if isinstance(want, tuple) and isinstance(got, tuple) else [(got, want)]
            for g, w in parts:
                if isinstance(g, (str, tuple)) or np.shape(g) != np.shape(w) or not np.array_equal(g, w):
                    rec.violation('%s: %r without missing values is %r, not %r' % (name, args, got, want), {'holes': repr(holes)})
                    break
        rec.outcome((len(fx), len(fy), len(both)))
        mixed = [None if h and i % 2 else v for i, (h, v) in enumerate(zip(holes, x))]
        if observe(remove_none, mixed) != fx:
            rec.violation('values without None of %r' % mixed, {'holes': repr(holes)})


def pairs(thorough):
    """The first series in order, the second in every order."""
    for n, letters in ((4, (0.0, 1.0, 3.0, 40.0)), (5, (0.0, 1.0, 4.0)), (6, (0.0, 1.0))) + (((6, (0.0, 1.0, 4.0)),) if thorough else ()):
        for a in itertools.combinations_with_replacement(letters, n):
            if len(set(a)) > 1:
                for b in itertools.product(letters, repeat=n):
                    yield a, b
    long = (0.0, 1.0, 2.0, 3.5, 5.0, 30.0)
    for b in itertools.permutations(long):
        yield long, b
    for i in range(7):
        for b in itertools.permutations((0.5, 1.0, 2.0, 7.0, 50.0)):
            a = (0.0, 1.0, 2.0, 3.5, 5.0)
            yield a[:i] + (NAN,) + a[i:], b[:i] + (9.0,) + b[i:]
            yield a[:i] + (9.0,) + a[i:], b[:i] + (NAN,) + b[i:]
    ten = (0.0, 1.0, 1.5, 2.0, 3.0, 4.0, 4.5, 6.0, 7.0, 9.0)
    for i, j in itertools.combinations(range(10), 2):
        for value in (-60.0, 0.25, 5.0, 60.0):
            b = list(ten)
            b[i], b[j] = value, ten[i]
            yield ten, tuple(b)


def explore(check):
    check.preload = ['metcalcpy.util.correlation']
    check.bounds = {'pairs': '4-6 pairs over 2-4 values, the second series in every order; 10 pairs with every two changed',
                    'outliers': '16 points with up to two far ones', 'power': 'grids of coefficients, sizes, levels and tails',
                    'missing': 'every set of missing values of two series of up to 4'}
    check.assumptions = ['a series most of whose values are the median has no percentage bend and is not judged',
                         'which of the points in between are outliers depends on the draws, so outliers are far away',
                         'p values of the rank correlations of Kendall and the one-sided Bayes factor are not judged']
    check.run(coefficients, batches(pairs(check.thorough), 40))
    check.run(without_outliers, list(itertools.product((1, -1), (60.0, 100.0, 400.0), ('none', 'right', 'corner', 'two'), (None, 0, 3, 8))), chunk=4)
    rs = (-1.0, -0.9, -0.5, -0.1, 0.0, 0.05, 0.2, 0.5, 0.6, 0.8, 0.95, 1.0)
    check.run(solving, list(itertools.product(rs, (3, 4, 5, 6, 8, 10, 20, 50, 200), (0.001, 0.01, 0.05, 0.1, 0.3, 0.7), TAILS)), chunk=12)
    check.run(intervals, list(itertools.product((-0.95, -0.5, -0.1, 0.0, 0.3, 0.7, 0.99, 1.5), (2, 3, 4, 5, 8, 20, 60), (1, 2, 4, 9, 30))), chunk=8)
    check.run(removal, batches([h for n in (2, 3, 4) for h in itertools.product((0, 1), repeat=2 * n)], 12))
