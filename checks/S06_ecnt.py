"""S06: ensemble continuous lines as total-weighted scores, variances and conditional means."""
import itertools

from mc import stats
from mc.pairchecks import LineType
from mc.spaces import long_tables

COLS = stats.ECNT_COLUMNS


def line(total, k, nge, nlt, zero=()):
    """A line whose columns all differ from each other, shifted by k."""
    row = []
    for i, c in enumerate(COLS):
        v = (i + 1) / 4 + k * (1 + (i % 3)) / 2
        if c == 'total':
            v = total
        elif c == 'n_ge_obs':
            v = nge
        elif c == 'n_lt_obs':
            v = nlt
        elif c == 'me_lt_obs':
            v = -v
        elif c in ('me', 'me_oerr') and k % 2:
            v = -v
        if c in zero:
            v = 0.0
        row.append(v)
    return tuple(row)


def lines():
    out = []
    for t, (k, nge, nlt) in itertools.product((1, 3, 10), ((0, 2, 3), (1, 7, 1), (2, 0, 4), (3, 5, 0))):
        out.append(line(t, k, nge, nlt))
    out.append(line(2, 1, 0, 0))
    out.append(line(4, 2, 3, 3, zero=('crpscl', 'crpscl_emp')))
    out.append(line(4, 2, 3, 3, zero=('crps', 'spread', 'rmse', 'me_lt_obs')))
    out.append(line(6, 0, 1, 1, zero=('spread_oerr',)))
    out.append(line(6, 0, 1, 1, zero=('spread_plus_oerr', 'rmse_oerr', 'me_ge_obs')))
    return out


def direct(rows):
    cols = COLS + ['mse', 'mse_oerr', 'variance', 'variance_oerr', 'variance_plus_oerr']
    ix = {c: i for i, c in enumerate(COLS)}
    table = []
    for r in rows:
        new = []
        for c, x in zip(COLS, r):
            if c in ('total', 'n_ge_obs', 'n_lt_obs'):
                new.append(x)
            elif c == 'me_ge_obs':
                new.append(x * r[ix['n_ge_obs']])
            elif c == 'me_lt_obs':
                new.append(x * r[ix['n_lt_obs']])
            else:
                new.append(x * r[0])
        for c in ('rmse', 'rmse_oerr', 'spread', 'spread_oerr', 'spread_plus_oerr'):
            new.append(r[ix[c]] ** 2 * r[0])
        table.append(new)
    return cols, table


def explore(check):
    lt = LineType('ecnt', COLS, lambda l: l, stats.ecnt_oracle, direct)
    lt.single_ok = False
    ls = lines()
    tables = [(l,) for l in ls] + list(itertools.combinations_with_replacement(ls, 2))
    tables += list(itertools.combinations_with_replacement(ls[:9] + ls[12:], 3)) + long_tables(ls, (7, 30, 90))
    jobs = [(l,) for l in ls] + list(itertools.combinations_with_replacement(ls, 2)) + long_tables(ls, (7, 30))
    if check.thorough:
        jobs += list(itertools.combinations_with_replacement(ls, 3))
    check.bounds = {'lines': len(ls), 'lines per table': '1-3, and 7-90', 'tables': len(tables),
                    'tables through jobs': len(jobs)}
    lt.explore(check, tables, jobs)
