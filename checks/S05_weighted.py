"""S05: gradient, neighborhood continuous and ranked probability lines as total-weighted scores."""
import itertools
from fractions import Fraction as Fr

from mc import stats
from mc.pairchecks import LineType, premultiply
from mc.spaces import long_tables

TOTALS = (1, 2, 5)


def grad_lines():
    vals = [(0, 0, 0, 0), (1, 2, 3, 1), (2.5, 0, 2.5, 0.5), (0, 1.25, 1.25, 4), (3, 3, 3, 0)]
    return [(t,) + v for t in TOTALS for v in vals]


def nbr_lines():
    # total, fbs, reference fbs, f_rate, o_rate
    vals = [(Fr(1, 4), Fr(1, 2), 0.5, 0.25), (0, Fr(1, 2), 0.25, 0.25), (Fr(1, 2), Fr(1, 2), 0, 0.75),
            (Fr(1, 8), Fr(5, 8), 1, 0), (Fr(1, 16), Fr(1, 4), 0, 0)]
    return [(t,) + v for t in TOTALS for v in vals]


def rps_lines():
    # total, rps, climatological rps, rps_comp
    vals = [(Fr(1, 4), Fr(1, 2), 0.75), (0, Fr(1, 8), 1), (Fr(3, 4), Fr(1, 4), 0.25), (Fr(1, 16), 1, 0.9375)]
    return [(t,) + v for t in TOTALS for v in vals]


def space(lines, k3):
    tables = [(l,) for l in lines] + list(itertools.combinations_with_replacement(lines, 2))
    tables += list(itertools.combinations_with_replacement(lines[:k3], 3))
    return tables + long_tables(lines, (6, 25, 60))


def explore(check):
    grad = LineType('grad', stats.GRAD_COLUMNS, lambda l: l, stats.grad_oracle)

    def nbr_direct(rows):
        cols = stats.NBRCNT_COLUMNS
        table = premultiply(cols, rows, keep=('total', 'fss', 'afss', 'ufss'))
        i, j = cols.index('fss'), cols.index('fbs')
        # the skill score column carries its denominator
        for r, src in zip(table, rows):
            r[i] = src[j] / (1 - src[i]) * src[0] if src[i] != 1 else None
        return cols, table
    nbr = LineType('nbr_cnt', stats.NBRCNT_COLUMNS, lambda l: stats.nbrcnt_line(*l), stats.nbrcnt_oracle, nbr_direct)
    nbr.single_ok = False

    def rps_direct(rows):
        cols = stats.RPS_COLUMNS + ['rps_climo']
        return cols, [[r[0], r[1] * r[0], r[2], r[3] * r[0], r[1] / (1 - r[2]) * r[0] if r[2] != 1 else None]
                      for r in rows]
    rps = LineType('rps', stats.RPS_COLUMNS, lambda l: stats.rps_line(*l), stats.rps_oracle, rps_direct)
    rps.single_ok = False
    k3 = 15 if check.thorough else 7
    nbr_space = [t for t in space(nbr_lines(), k3)]
    rps_space = [t for t in space(rps_lines(), k3)]
    # a perfect line does not carry its reference score, which makes an aggregate of it undecidable
    nbr_space = [t for t in nbr_space if all(l[1] != 0 for l in t)] + [(l,) for l in nbr_lines() if l[1] == 0]
    rps_space = [t for t in rps_space if all(l[1] != 0 for l in t)] + [(l,) for l in rps_lines() if l[1] == 0]
    check.bounds = {'totals': TOTALS, 'lines': {'grad': len(grad_lines()), 'nbr_cnt': len(nbr_lines()),
                                                'rps': len(rps_lines())}, 'lines per table': '1-3, and 6-60'}
    for lt, tables in ((grad, space(grad_lines(), k3)), (nbr, nbr_space), (rps, rps_space)):
        if lt is not grad:
            lt.oracle = perfect_aware(lt.oracle)
        lt.explore(check, [t for t in tables if lt is grad or all(l[1] != 0 for l in t)], tables)


def perfect_aware(oracle):
    from mc.expect import ANY

    def wrapped(t):
        e = dict(oracle(t))
        if any(l[1] == 0 for l in t):
            for s in ('nbr_fss', 'rpss'):
                if s in e:
                    e[s] = ANY
        return e
    return wrapped
