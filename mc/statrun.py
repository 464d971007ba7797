"""Run the statistic functions of /repo on a table, directly or through a whole aggregation job."""
import importlib

import numpy as np

from mc.aggdrv import agg_tables, number, quiet
from mc.expect import agrees

MODULES = {'ctc': 'ctc_statistics', 'cts': 'ctc_statistics', 'nbr_ctc': 'nbrctc_statistics',
           'sl1l2': 'sl1l2_statistics', 'sal1l2': 'sal1l2_statistics', 'vl1l2': 'vl1l2_statistics',
           'val1l2': 'val1l2_statistics', 'vcnt': 'vcnt_statistics', 'grad': 'grad_statistics',
           'nbr_cnt': 'nbrcnt_statistics', 'rps': 'rps_statistics', 'ecnt': 'ecnt_statistics',
           'ssvar': 'ssvar_statistics', 'mctc': 'mcts_statistics', 'pct': 'pstd_statistics'}


class Raised:
    """An exception that escaped from the implementation."""

    def __init__(self, err):
        self.text = '%s: %s' % (type(err).__name__, str(err)[:200])

    def __repr__(self):
        return 'raised ' + self.text


def ok(got, exp):
    if isinstance(got, Raised):
        return False
    if hasattr(exp, 'ok'):
        return exp.ok(got)
    return agrees(got, exp)


def function(line_type, stat):
    mod = importlib.import_module('metcalcpy.util.' + MODULES[line_type])
    fn = getattr(mod, 'calculate_' + stat, None)
    if fn is None:
        # re-exported from the module the aggregation jobs use
        fn = getattr(importlib.import_module('metcalcpy.agg_stat'), 'calculate_' + stat)
    return fn


def call(line_type, stat, data, columns, *args):
    """Value of one statistic function; exceptions are returned as Raised."""
    try:
        return function(line_type, stat)(data, columns, *args)
    except Exception as err:  # noqa: any escaping exception is an observation
        return Raised(err)


def to_array(rows, columns, dtype=object):
    return np.array([list(r) for r in rows], dtype=dtype).reshape(len(rows), len(columns)), \
        np.array(list(columns), dtype=object)


def through_job(rec, line_type, columns, tables, stats, chunk=60, **over):
    """{(table index, stat): value} from AggStat runs over chunks of tables; Raised values on failure."""
    out = {}
    for start in range(0, len(tables), chunk):
        part = tables[start:start + chunk]
        names = [s.upper() for s in stats]
        try:
            res, nrows = agg_tables(rec.dir, line_type, columns, part, names, **over)
            if nrows != len(part) * len(names):
                raise AssertionError('job wrote %d rows for %d points' % (nrows, len(part) * len(names)))
            for (i, s), row in res.items():
                out[(start + i, s.lower())] = number(row['stat_value'])
        except Exception as err:  # noqa
            # find out which point fails, so that the others are still judged
            if len(part) == 1 and len(stats) == 1:
                out[(start, stats[0])] = Raised(err)
            elif len(stats) > 1:
                for s in stats:
                    sub = through_job(rec, line_type, columns, part, [s], chunk, **over)
                    out.update({(start + i, t): v for (i, t), v in sub.items()})
            else:
                for i in range(len(part)):
                    sub = through_job(rec, line_type, columns, part[i:i + 1], stats, chunk, **over)
                    v = sub[(0, stats[0])]
                    out[(start + i, stats[0])] = v
                    if isinstance(v, Raised):
                        break
    return out


def check_table(rec, line_type, columns, rows, expected, args, describe, dtype=object):
    """Direct calls of every statistic in expected on one table."""
    data, cols = to_array(rows, columns, dtype)
    with quiet():
        for stat, exp in expected.items():
            got = call(line_type, stat, data, cols, *args)
            rec.trace()
            rec.outcome((stat, got if isinstance(got, (int, float, type(None))) else repr(got)))
            if not ok(got, exp):
                rec.violation('%s of %s: got %r, expected %r' % (stat, describe, got, exp),
                              {'line_type': line_type, 'stat': stat, 'columns': list(columns),
                               'rows': [list(r) for r in rows], 'args': list(args), 'got': repr(got),
                               'expected': repr(exp)})


def check_job(rec, line_type, columns, tables, expecteds, describes, **over):
    """The same statistics through whole aggregation jobs."""
    stats = list(expecteds[0])
    res = through_job(rec, line_type, columns, tables, stats, **over)
    for i, exp in enumerate(expecteds):
        for stat in stats:
            if (i, stat) not in res:
                continue
            got = res[(i, stat)]
            rec.trace()
            rec.count('points_through_jobs')
            if not ok(got, exp[stat]):
                rec.violation('job value of %s for %s: got %r, expected %r' % (
                    stat.upper(), describes[i], got, exp[stat]),
                    {'line_type': line_type, 'stat': stat, 'columns': list(columns),
                     'rows': [list(r) for r in tables[i]], 'via': 'AggStat', 'got': repr(got),
                     'expected': repr(exp[stat])})
