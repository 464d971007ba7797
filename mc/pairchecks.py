"""Exploration shared by the line types that summarise matched pairs or weighted scores."""
from mc.spaces import batches
from mc.statrun import check_job, check_table


def premultiply(columns, rows, keep=('total',), weight='total'):
    """Columns times the line's weight: the documented input of the aggregating statistic functions."""
    w = columns.index(weight)
    out = []
    for r in rows:
        out.append([x if c in keep else x * r[w] for c, x in zip(columns, r)])
    return out


class LineType:
    """name, columns, line(description)->row, oracle(descriptions)->expectations, direct(rows)->table."""

    def __init__(self, name, columns, line, oracle, direct=None, job_columns=None):
        self.name, self.columns, self.line, self.oracle = name, columns, line, oracle
        self.direct = direct or (lambda rows: (columns, premultiply(columns, rows)))
        self.no_flag = ()

    def explore(self, check, tables, job_tables, chunk=40, job_chunk=12):
        def direct(rec, part):
            for t in part:
                rows = [self.line(g) for g in t]
                rec.state((self.name, tuple(map(repr, sorted(rows, key=repr)))), depth=len(rows))
                rec.transition()
                exp = self.oracle(t)
                cols, table = self.direct(rows)
                flagged = {s: e for s, e in exp.items() if not s.endswith('_total')}
                totals = {s: e for s, e in exp.items() if s.endswith('_total')}
                what = '%s lines %r' % (self.name, t)
                check_table(rec, self.name, cols, table, flagged, (True,), what)
                check_table(rec, self.name, cols, table, totals, (), what)
                if len(rows) == 1 and self.single_ok:
                    check_table(rec, self.name, *self.single(rows), flagged, (), what + ' (one line, unweighted)')
                rec.sample({'lines': t})

        def jobs(rec, part):
            rows = [[self.line(g) for g in t] for t in part]
            for r in rows:
                rec.state((self.name, 'job', tuple(map(repr, sorted(r, key=repr)))), depth=len(r))
                rec.transition()
            check_job(rec, self.name, self.columns, rows, [self.oracle(t) for t in part],
                      ['%s lines %r' % (self.name, t) for t in part])

        check.run(direct, batches(tables, chunk), chunk=1)
        check.run(jobs, batches(job_tables, job_chunk), chunk=1)

    single_ok = True

    def single(self, rows):
        return self.columns, rows
