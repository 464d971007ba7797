"""S04: vector partial sums and vector continuous statistics against the pooled wind pairs."""
import itertools

from mc import stats
from mc.pairchecks import LineType
from mc.spaces import long_tables, multisets, pair_tables

# forecast and observed winds in every quadrant and on the axes
WINDS = [(1, 2, 3, 1), (-2, 1, 0, 4), (3, -1, -1, -1), (-2, -3, 2, 2), (0, 0, 1, 0), (2, 2, 0, 0), (0.5, 0, -3, 1)]


def explore(check):
    k = 2 if check.thorough else 1
    axis = [(x, y) for x in (-2, 0, 1) for y in (-1, 0, 3)]
    singles = [(((f + o),),) for f, o in itertools.product(axis, repeat=2)]
    vl = LineType('vl1l2', stats.VL1L2_COLUMNS, stats.vl1l2_line, stats.vl1l2_oracle)
    vc = LineType('vcnt', stats.VCNT_COLUMNS, stats.vcnt_line, stats.vcnt_oracle)
    lines = multisets(WINDS, (1, 2, 3))
    for lt in (vl, vc):
        tables = singles + pair_tables(WINDS, (1, 2, 3), 200, 40 * k, 12 * k) + long_tables(lines[:20], (5, 16, 40))
        jobs = singles + pair_tables(WINDS, (1, 2, 3), 50, 15 * k, 5 * k) + long_tables(lines[:20], (5, 16))
        lt.explore(check, tables, jobs)
    check.bounds = {'vector pairs': WINDS, 'single pairs': 'both winds over %r' % (axis,), 'pairs per line': '1-3',
                    'lines per table': '1-3, and 5-40 in long tables'}
