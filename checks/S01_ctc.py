"""S01: categorical statistics against exact arithmetic on the summed 2x2 table."""
import itertools

from mc import stats
from mc.statrun import check_job, check_table

WIDE = (0, 1, 2, 3, 7, 50, 1000)
PAIR = (0, 1, 3)
BIG = (0, 1, 999999)


def nbr_stats(lines):
    return stats.nbr_ctc_oracle(lines)


def direct(rec, item):
    kind, tables = item
    for lines in tables:
        rows = [stats.ctc_line(*l) for l in lines]
        if not rec.state(('t', tuple(sorted(rows))), depth=len(rows)):
            continue
        rec.transition()
        exp = stats.ctc_oracle(rows)
        check_table(rec, 'ctc', stats.CTC_COLUMNS, rows, exp, (), 'CTC lines %r' % (lines,), dtype=kind)
        check_table(rec, 'nbr_ctc', stats.CTC_COLUMNS, rows, nbr_stats(rows), (), 'NBRCTC lines %r' % (lines,),
                    dtype=kind)
        rec.sample({'lines': lines, 'hss': repr(exp['hss'])})


def layouts(rec, item):
    """Other column orders, foreign columns and number types describe the same table."""
    lines = item
    rows = [stats.ctc_line(*l) for l in lines]
    exp = stats.ctc_oracle(rows)
    for order in itertools.permutations(range(5)):
        cols = [stats.CTC_COLUMNS[i] for i in order]
        table = [[r[i] for i in order] for r in rows]
        rec.transition()
        rec.state(('layout', order, tuple(rows)), depth=len(rows))
        check_table(rec, 'ctc', cols, table, exp, (), 'CTC lines %r in column order %r' % (lines, cols))
    cols = ['model', 'fcst_lead', 'total', 'vx_mask', 'fy_oy', 'fy_on', 'fn_oy', 'fn_on', 'stat_value', 'ec_value']
    table = [['M%d' % k, 12 * k, r[0], 'FULL', r[1], r[2], r[3], r[4], float('nan'), 0.5] for k, r in enumerate(rows)]
    rec.transition()
    check_table(rec, 'ctc', cols, table, exp, (), 'CTC lines %r with unrelated columns' % (lines,))
    check_table(rec, 'ctc', stats.CTC_COLUMNS, [[float(x) for x in r] for r in rows], exp, (),
                'CTC lines %r as floats in an object table' % (lines,))


def jobs(rec, item):
    line_type, tables = item
    rows = [[stats.ctc_line(*l) for l in lines] for lines in tables]
    for r in rows:
        rec.state(('job', line_type, tuple(sorted(r))), depth=len(r))
        rec.transition()
    oracle = stats.nbr_ctc_oracle if line_type == 'nbr_ctc' else stats.ctc_oracle
    check_job(rec, line_type, stats.CTC_COLUMNS, rows, [oracle(r) for r in rows],
              ['%s lines %r' % (line_type, l) for l in tables])


def batches(seq, n):
    seq = list(seq)
    return [seq[i:i + n] for i in range(0, len(seq), n)]


def explore(check):
    cells = list(itertools.product(PAIR, repeat=4))
    bits = list(itertools.product((0, 1), repeat=4))
    single = [(l,) for l in itertools.product(WIDE, repeat=4)]
    single += [(l,) for l in itertools.product(BIG, repeat=4)]
    pairs = list(itertools.combinations_with_replacement(cells, 2))
    triples = list(itertools.combinations_with_replacement(bits, 3))
    base = [(0, 0, 0, 0), (1, 0, 0, 0), (0, 2, 0, 1), (3, 1, 2, 4), (0, 0, 5, 0), (1, 1, 1, 1)]
    long = [tuple(base[(i * k) % len(base)] for i in range(n)) for n in (5, 17, 64, 200) for k in range(1, 6)]
    long += [(b,) * n for b in base for n in (4, 33)]
    tables = single + pairs + triples + long
    if check.thorough:
        tables += list(itertools.combinations_with_replacement(list(itertools.product((0, 1, 2), repeat=4)), 3))
    check.bounds = {'single line cells': WIDE, 'large cells': BIG, 'pairs of lines, cells': PAIR,
                    'triples of lines, cells': (0, 1), 'long tables': '5 to 200 lines',
                    'statistics': len(stats.ctc_oracle([stats.ctc_line(1, 1, 1, 1)])) + 14,
                    'number types': 'int, float, object'}
    work = [(object, t) for t in batches(tables, 50)]
    check.run(direct, work)
    # the same exploration with plain numeric arrays, on the small single lines
    small = [(l,) for l in itertools.product((0, 1, 2, 5), repeat=4)]
    check.run(_direct_int, batches(small, 16))
    check.run(_direct_float, batches(small, 16))
    check.run(layouts, [((3, 1, 2, 4),), ((0, 5, 1, 0), (2, 2, 0, 9)), ((1, 0, 0, 0),), ((4, 3, 2, 1), (0, 0, 0, 0), (7, 1, 1, 3))])
    job_tables = [(l,) for l in itertools.product((0, 1, 5), repeat=4)]
    job_tables += list(itertools.combinations_with_replacement(bits, 2)) + long[:10]
    job_tables += [((3, 1, 2, 4), l, (50, 7, 9, 300)) for l in bits]
    check.run(jobs, [(lt, t) for lt in ('ctc', 'cts', 'nbr_ctc') for t in batches(job_tables, 16)])


def _direct_int(rec, tables):
    _typed(rec, tables, int)


def _direct_float(rec, tables):
    _typed(rec, tables, float)


def _typed(rec, tables, dtype):
    for lines in tables:
        rows = [stats.ctc_line(*l) for l in lines]
        rec.state((dtype.__name__, tuple(rows)), depth=1)
        rec.transition()
        check_table(rec, 'ctc', stats.CTC_COLUMNS, rows, stats.ctc_oracle(rows), (),
                    'CTC lines %r (%s array)' % (lines, dtype.__name__), dtype=dtype)
