"""S02: scalar partial sums against the statistics of the pooled pairs."""
from mc import stats
from mc.pairchecks import LineType
from mc.spaces import long_tables, multisets, pair_tables

NEAR = [(20 / 3, 0), (20 / 3 + 2, 2), (2 / 3, 1 / 3), (101325.3, 101325.3), (100000.7, 99999.9), (1e-3, 2e-3)]
PAIRS = [(0, 0), (1, 2), (3, 1), (-2, -1), (4, 4), (0.5, -3)]


def explore(check):
    lt = LineType('sl1l2', stats.SL1L2_COLUMNS, stats.sl1l2_line, stats.continuous_oracle)
    lines = multisets(PAIRS, (1, 2, 3))
    big = [((250, 300),), ((270.25, 270), (300, 299.5)), ((280.1, 279.9),) * 5, ((-40, 33), (12.25, 12))]
    tables = pair_tables(PAIRS, (1, 2, 3, 4), 200, 60, 15)
    tables += [(a, b) for a in big for b in big] + long_tables(lines[:20], (5, 16, 40))
    jobs = pair_tables(PAIRS, (1, 2, 3), 60, 20, 5) + [(a, b) for a in big for b in big] \
        + long_tables(lines[:20], (5, 16))
    tables += pair_tables(NEAR, (1, 2, 3), 60, 30, 12)
    jobs += pair_tables(NEAR, (1, 2), 27, 10, 4)
    if check.thorough:
        tables = pair_tables(PAIRS, (1, 2, 3, 4), 400, 120, 27) + tables
        jobs = pair_tables(PAIRS, (1, 2, 3, 4), 100, 40, 10) + jobs
    check.bounds = {'pairs': PAIRS, 'nearly singular pairs': NEAR, 'pairs per line': '1-4', 'lines per table': '1-3, and 5-40 in long tables',
                    'tables': len(tables), 'tables through jobs': len(jobs)}
    lt.explore(check, tables, jobs)
