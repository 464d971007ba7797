"""What a statistic may return: a number, no value, either, or anything (numerically undecidable)."""
import math
from fractions import Fraction


class Exp:
    __slots__ = ('value', 'none_ok', 'any_value', 'tol')

    def __init__(self, value=None, none_ok=False, any_value=False, tol=None):
        self.value = value          # float or None (= no value expected)
        self.none_ok = none_ok
        self.any_value = any_value
        self.tol = tol

    def __repr__(self):
        if self.any_value:
            return 'anything'
        if self.value is None:
            return 'no value'
        return '%r%s' % (self.value, ' or no value' if self.none_ok else '')


NONE = Exp()
ANY = Exp(any_value=True)
ABS, REL = 1.5e-6, 2e-6


def val(x, tol=None):
    return Exp(float(x), tol=tol)


def maybe(x, tol=None):
    return Exp(float(x), none_ok=True, tol=tol)


def is_none(got):
    if got is None:
        return True
    try:
        return math.isnan(got)
    except TypeError:
        return False


def agrees(got, exp):
    if exp.any_value:
        return True
    if is_none(got):
        return exp.value is None or exp.none_ok
    if exp.value is None:
        return False
    try:
        g = float(got)
    except (TypeError, ValueError):
        return False
    if math.isinf(g):
        return False
    tol = exp.tol if exp.tol is not None else ABS + REL * abs(exp.value)
    return abs(g - exp.value) <= tol


def div(a, b):
    """a/b for expectations built from exact fractions."""
    return NONE if b == 0 else val(Fraction(a) / Fraction(b))


def exact_floats(xs):
    """True when every number is a float without rounding (so that singular points are hit exactly)."""
    for x in xs:
        f = Fraction(x)
        d = f.denominator
        if d & (d - 1) or d > 1 << 20 or abs(f.numerator) > 1 << 40:
            return False
    return True
