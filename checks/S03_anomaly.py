"""S03: scalar and vector anomaly partial sums against the pooled anomaly pairs."""
from mc import stats
from mc.pairchecks import LineType
from mc.spaces import long_tables, multisets, pair_tables

PAIRS = [(0, 0), (1, 2), (3, 1), (-2, -1), (2, -2), (0.5, -3)]
WINDS = [(0, 0, 0, 0), (1, 2, 3, 1), (-2, 1, 0, 4), (3, -1, -1, -1), (2, 2, 2, 2), (0.5, 0, -3, 1)]


def explore(check):
    sal = LineType('sal1l2', stats.SAL1L2_COLUMNS, stats.sal1l2_line, stats.sal1l2_oracle)
    val = LineType('val1l2', stats.VAL1L2_COLUMNS, stats.val1l2_line, stats.val1l2_oracle)
    k = 2 if check.thorough else 1
    for lt, alphabet in ((sal, PAIRS), (val, WINDS)):
        lines = multisets(alphabet, (1, 2, 3))
        tables = pair_tables(alphabet, (1, 2, 3, 4), 200, 60 * k, 20 * k) + long_tables(lines[:20], (5, 16, 40))
        jobs = pair_tables(alphabet, (1, 2, 3), 80, 24 * k, 6 * k) + long_tables(lines[:20], (5, 16))
        lt.explore(check, tables, jobs)
    check.bounds = {'pairs': PAIRS, 'vector pairs': WINDS, 'pairs per line': '1-4',
                    'lines per table': '1-3, and 5-40 in long tables'}
