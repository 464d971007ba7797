"""Reference definitions of serial statistics, in exact arithmetic where that is possible."""
import math
from fractions import Fraction

from scipy.stats import norm


def clean(series):
    return [x for x in series if x is not None and x == x]


def mean(values):
    return sum((Fraction(x) for x in values), Fraction(0)) / len(values)


def lag_one(series):
    """Slope of the regression of a value on the value before it, None when there is none."""
    v = [Fraction(x) for x in clean(series)]
    if len(v) < 2:
        return None
    x, y = v[:-1], v[1:]
    if len(set(x)) == 1:
        return None
    mx, my = mean(x), mean(y)
    return sum((a - mx) * (b - my) for a, b in zip(x, y)) / sum((a - mx) ** 2 for a in x)


def quantile(values, q):
    s = sorted(values)
    pos = (len(s) - 1) * Fraction(q)
    i = int(pos)
    if i + 1 >= len(s):
        return Fraction(s[-1])
    return Fraction(s[i]) + (pos - i) * (Fraction(s[i + 1]) - Fraction(s[i]))


def iqr(values):
    return quantile(values, Fraction(3, 4)) - quantile(values, Fraction(1, 4))


def variance(values):
    m = mean(values)
    return sum((Fraction(x) - m) ** 2 for x in values) / (len(values) - 1)


def inflation(ar1):
    """All (factor, flag) that rounding of the coefficient allows."""
    if ar1 is None:
        return {(1.0, 0)}
    out = set()
    for a in (float(ar1) - 1e-9, float(ar1), float(ar1) + 1e-9):
        if a == 1:
            out.add((1.0, 0))
            continue
        ratio = (1 + a) / (1 - a)
        flag = 1 if ratio < 0 else 0
        factor = 1.0 if ratio < 0 or a < 0.3 or a >= 0.99 else math.sqrt(ratio)
        out.add((factor, flag))
    return out


def acov(series, lag, centre):
    total, count = Fraction(0), 0
    for i in range(len(series) - lag):
        a, b = series[i], series[i + lag]
        if a is None or b is None or a != a or b != b:
            continue
        total += (Fraction(a) - centre) * (Fraction(b) - centre)
        count += 1
    return total / (count + lag)


def default_lag(n):
    return math.floor(10 * math.log10(n))


def acf(series, kind, lag_max):
    v = clean(series)
    if not v:
        return None
    centre = mean(v)
    n = len(series)
    lags = min(default_lag(n) if lag_max is None else lag_max, n - 1)
    base = acov(series, 0, centre)
    if kind == 'correlation' and base == 0:
        return None
    out = [acov(series, k, centre) for k in range(lags + 1)]
    return [c / base for c in out] if kind == 'correlation' else out


def runs(series, threshold, alternative):
    """statistic, p value, number of runs, mean and variance; None when the number of runs is not random."""
    v = [Fraction(x) for x in clean(series)]
    if not v:
        return None
    if threshold == 'mean':
        cut = mean(v)
    else:
        s = sorted(v)
        h = len(s) // 2
        cut = s[h] if len(s) % 2 else (s[h - 1] + s[h]) / 2
    signs = [x > cut for x in v if x != cut]
    up, down = sum(signs), len(signs) - sum(signs)
    n = up + down
    if up == 0 or down == 0 or n == 2:
        return None
    count = 1 + sum(1 for a, b in zip(signs, signs[1:]) if a != b)
    m = 1 + Fraction(2 * up * down, n)
    var = Fraction(2 * up * down * (2 * up * down - n), n * n * (n - 1))
    z = float(count - m) / math.sqrt(var)
    p = norm.cdf(z)
    p = {'left.sided': p, 'right.sided': norm.sf(z), 'two.sided': 2 * min(p, norm.sf(z))}[alternative]
    return {'statistic': z, 'p_value': p, 'runs': count, 'mean_value': float(m), 'variance': float(var)}
