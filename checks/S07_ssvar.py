"""S07: spread/skill bins against the pooled pairs of the bins."""
import itertools

from mc import stats
from mc.pairchecks import LineType
from mc.spaces import long_tables, multisets

PAIRS = [(0, 0), (1, 2), (3, 1), (-2, -1), (0.5, -3)]
LINE_TOTAL = 7


def direct(rows):
    cols = ['total_orig', 'total'] + stats.SSVAR_COLUMNS[2:]
    return cols, [[r[0], r[1]] + [x * r[1] for x in r[2:]] for r in rows]


def explore(check):
    lt = LineType('ssvar', stats.SSVAR_COLUMNS, lambda g: stats.ssvar_line(g, LINE_TOTAL),
                  lambda t: stats.ssvar_oracle(t, [LINE_TOTAL] * len(t)), direct)
    lt.single_ok = False
    groups = multisets(PAIRS, (1, 2, 3))
    bins = [(g, v) for g, v in zip(groups, itertools.cycle((0, 0.25, 1.5, 4)))]
    k = 2 if check.thorough else 1
    tables = [(b,) for b in bins] + list(itertools.combinations_with_replacement(bins[:25 * k], 2))
    tables += list(itertools.combinations_with_replacement(bins[3:3 + 9 * k], 3)) + long_tables(bins, (7, 30))
    jobs = [(b,) for b in bins] + list(itertools.combinations_with_replacement(bins[3:3 + 16 * k], 2)) + long_tables(bins, (7, 30))
    check.bounds = {'pairs': PAIRS, 'pairs per bin': '1-3', 'bins per table': '1-3, and 7-30',
                    'tables': len(tables), 'tables through jobs': len(jobs)}
    lt.explore(check, tables, jobs)
