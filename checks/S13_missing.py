"""S13: missing cells and missing lines in every line type."""
import itertools

from mc.aggdrv import quiet
from mc.expect import NONE, is_none, val
from mc.registry import entries
from mc.spaces import batches
from mc.statrun import Raised, call, ok, through_job, to_array

NAN = float('nan')
# columns that say how the line is laid out, not what was measured
LAYOUT = ('n_cat', 'ec_value', 'i_value_', 'j_value_', 'thresh_i', 'n_thresh')


def layout(col):
    return col.startswith(LAYOUT)


def blank(e):
    return [x if layout(c) else None for c, x in zip(e.columns, e.rows[0])]


def compute(e, rows):
    return summed(e, *e.direct(rows))


def summed(e, cols, table):
    """The statistics of a table whose columns are ready to be summed."""
    data, c = to_array([[NAN if x is None else x for x in r] for r in table], cols)
    with quiet():
        return {s: call(e.line_type, s, data, c, *e.args_of(s)) for s in e.names}


def padded(e):
    """(number of ordinary lines, rows) with one or two missing lines at every position."""
    for n in (1, 2, 3):
        rows = e.rows[:n]
        for i in range(n + 1):
            yield n, rows[:i] + [blank(e)] + rows[i:]
            for j in range(i, n + 1):
                yield n, rows[:i] + [blank(e)] + rows[i:j] + [blank(e)] + rows[j:]


def holes(e, thorough):
    """Tables of one and two lines with every set of one or two missing cells, and with missing columns."""
    cells = [i for i, c in enumerate(e.columns) if not layout(c)]
    for n in (1, 2):
        spots = [(r, c) for r in range(n) for c in cells]
        sets = [(s,) for s in spots]
        if n == 1 or thorough or len(spots) <= 24:
            sets += list(itertools.combinations(spots, 2))
        if n == 2:
            sets += [tuple((r, c) for r in range(n)) for c in cells]
            sets += [tuple((r, c) for r in range(n) for c in pair) for pair in zip(cells, cells[1:])]
            # a line with only one cell left
            sets += [tuple((0, c) for c in cells if c != keep) for keep in cells]
        if n == 1:
            sets += [tuple((0, c) for c in cells if c != keep) for keep in cells]
        for s in sets:
            rows = [list(r) for r in e.rows[:n]]
            for r, c in s:
                rows[r][c] = None
            yield s, rows


def report(rec, e, stat, got, exp, rows, what, via):
    rec.violation('%s with %s (%s): got %r, expected %s' % (stat, what, via, got, exp),
                  {'line_type': e.line_type, 'stat': stat, 'columns': e.columns, 'rows': rows, 'via': via,
                   'got': repr(got), 'expected': str(exp)})


def expectation(value):
    return NONE if is_none(value) else val(value)


def check_lines(rec, item):
    name, part = item
    e = ENTRIES[name]
    base = {n: compute(e, e.rows[:n]) for n in (1, 2, 3)}
    for n, rows in part:
        rec.state((name, 'lines', repr(rows)), depth=len(rows))
        rec.transition()
        got = compute(e, rows)
        for s in e.names:
            rec.trace()
            rec.outcome((s, repr(got[s])))
            exp = expectation(base[n][s])
            if not ok(got[s], exp):
                report(rec, e, s, got[s], exp, rows, 'missing lines added to %d %s lines' % (n, name), 'direct')
    rec.sample({'line_type': name, 'rows': part[0][1]})


def check_empty(rec, name):
    e = ENTRIES[name]
    for n in (1, 2, 3):
        rows = [blank(e)] * n
        rec.state((name, 'empty', n), depth=n)
        rec.transition()
        for s, got in compute(e, rows).items():
            rec.trace()
            rec.outcome((s, repr(got)))
            if not ok(got, NONE):
                report(rec, e, s, got, NONE, rows, '%d %s lines without any value' % (n, name), 'direct')


def check_holes(rec, item):
    name, part = item
    e = ENTRIES[name]
    for cells, rows in part:
        rec.state((name, cells, len(rows)), depth=len(cells))
        rec.transition()
        for s, got in compute(e, rows).items():
            rec.trace()
            rec.outcome((s, repr(got)))
            if isinstance(got, Raised):
                report(rec, e, s, got, 'no exception', rows, 'missing cells %r in %s lines' % (cells, name), 'direct')


CHANGES = (lambda x, r: x * 2 + 1, lambda x, r: x + 3 + r, lambda x, r: x * (r + 0.5))


def check_needed(rec, item):
    """A statistic that changes with the values of a column has no value when none of them is known."""
    name, col, ready = item
    e = ENTRIES[name]
    for n in (1, 2, 3):
        cols, plain = e.direct(e.rows[:n]) if ready else (e.columns, e.rows[:n])
        values = (lambda rows: summed(e, cols, rows)) if ready else (lambda rows: compute(e, rows))
        base = values(plain)
        needing = set()
        for k, change in enumerate(CHANGES):
            rows = [list(row) for row in plain]
            for r, row in enumerate(rows):
                row[col] = type(row[col])(change(row[col], r))
            rec.state((name, ready, 'changed', n, col, k), depth=n)
            got = values(rows)
            needing |= {s for s in e.names if repr(got[s]) != repr(base[s])}
        rows = [list(row) for row in plain]
        for row in rows:
            row[col] = None
        rec.state((name, ready, 'column', n, col), depth=n)
        rec.transition(len(CHANGES) + 1)
        got = values(rows)
        for s in sorted(needing):
            rec.trace()
            rec.count('statistics_without_a_column')
            if not ok(got[s], NONE):
                report(rec, e, s, got[s], NONE, rows, 'no value of %s in %d %s lines' % (cols[col], n, name),
                       'prepared' if ready else 'direct')


def check_jobs(rec, item):
    name, tables = item
    e = ENTRIES[name]
    plain = [e.rows[:n] for n in (1, 2, 3)]
    res = through_job(rec, name, e.columns, plain + [rows for _, rows in tables], e.names)
    for i, (n, rows) in enumerate(tables):
        rec.state((name, 'job', repr(rows)), depth=len(rows))
        rec.transition()
        for s in e.names:
            if (i + 3, s) not in res or (n and (n - 1, s) not in res):
                continue
            got = res[(i + 3, s)]
            rec.trace()
            rec.count('points_through_jobs')
            if n is None:
                if isinstance(got, Raised):
                    report(rec, e, s, got, 'no exception', rows, 'missing cells in %s lines' % name, 'AggStat')
                continue
            exp = expectation(res[(n - 1, s)]) if n else NONE
            if not ok(got, exp):
                report(rec, e, s, got, exp, rows, 'missing lines added to %d %s lines' % (n, name), 'AggStat')


ENTRIES = {}


def explore(check):
    ENTRIES.update({e.line_type: e for e in entries()})
    lines, cells, jobs = [], [], []
    for name, e in ENTRIES.items():
        p = list(padded(e))
        lines += [(name, b) for b in batches(p, 8)]
        h = list(holes(e, check.thorough))
        cells += [(name, b) for b in batches(h, 15 if name != 'pct' else 3)]
        job = p + [(0, [blank(e)] * n) for n in (1, 2)]
        few = [x for x in h if len(x[1]) == 1 and len(x[0]) == 1] + [x for x in h if len(x[1]) == 2 and len(x[0]) == 1]
        job += [(None, rows) for _, rows in (h if check.thorough else few)]
        jobs += [(name, b) for b in batches(job, 12)]
    check.bounds = {'line types': len(ENTRIES), 'statistics': sum(len(e.names) for e in ENTRIES.values()),
                    'missing lines': '1-2 at every position', 'missing cells': 'every set of 1-2 in 1 line, of 1 (2 where the '
                    'table has at most 24 cells) in 2 lines, whole columns, lines with one cell left'}
    check.run(check_lines, lines, chunk=1)
    check.run(check_empty, list(ENTRIES), chunk=1)
    check.run(check_holes, cells, chunk=1)
    # a bin of a probability table without counts is left out, other columns are needed
    need = []
    for name, e in ENTRIES.items():
        if name != 'pct':
            need += [(name, i, False) for i, c in enumerate(e.columns) if not layout(c)]
            need += [(name, i, True) for i, c in enumerate(e.direct(e.rows[:1])[0]) if not layout(c)]
    check.run(check_needed, need, chunk=1)
    check.run(check_jobs, jobs, chunk=1)
