"""S14: line order, column order, unrelated columns and call history never change a statistic."""
import itertools
import os
import pickle

from mc.aggdrv import quiet
from mc.expect import NONE, is_none, val
from mc.registry import entries
from mc.statrun import Raised, call, ok, through_job, to_array

NAN = float('nan')
LAYOUT = ('n_cat', 'ec_value', 'i_value_', 'j_value_', 'thresh_i', 'n_thresh')
ENTRIES = {}


def variants(e):
    """Tables that take a statistic through its different ways of ending."""
    cols, rows = e.direct()
    keep = [c.startswith(LAYOUT) for c in cols]
    return {
        'plain': rows,
        'zeros': [[x if k else 0.0 for k, x in zip(keep, r)] for r in rows],
        'ones': [[x if k else 1.0 for k, x in zip(keep, r)] for r in rows],
        'negative': [[x if k else -1.0 - i - j for j, (k, x) in enumerate(zip(keep, r))] for i, r in enumerate(rows)],
        'missing': [[x if k else NAN for k, x in zip(keep, r)] for r in rows],
        'one line': rows[:1],
    }


def calls(successor):
    kinds = ('plain', 'zeros') if successor else ('plain', 'zeros', 'ones', 'negative', 'missing', 'one line')
    return [(name, s, kind) for name, e in ENTRIES.items() for s in e.names for kind in kinds]


TABLES = {}


def do(what):
    name, s, kind = what
    if (name, kind) not in TABLES:
        e = ENTRIES[name]
        TABLES[name, kind] = to_array(variants(e)[kind], e.direct()[0])
    data, cols = TABLES[name, kind]
    return call(name, s, data, cols, *ENTRIES[name].args_of(s))


def in_child(fn):
    """fn() in a forked child of this process; the child ends there."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(fn(), f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError('child failed')
    return pickle.loads(data)


def same(a, b):
    if isinstance(a, Raised) or isinstance(b, Raised):
        return repr(a) == repr(b)
    return ok(a, NONE if is_none(b) else val(b))


def splits_bin(cols, k):
    """The columns of a probability bin are repeated groups, told apart by their order in the line."""
    return any(cols[i].startswith(('thresh_i', 'oy_i', 'on_i')) for i in (k - 1, k)) and not cols[k].startswith('thresh_i') \
        and not cols[k - 1].startswith('on_i')


# ------------------------------------------------------------------ order, columns, modification
def check_layout(rec, name):
    e = ENTRIES[name]
    cols, rows = e.direct()
    n, m = len(rows), len(cols)
    base = {}
    with quiet():
        for kind, table in variants(e).items():
            for s in e.names:
                base[kind, s] = do((name, s, kind))
    arrangements = []
    for p in itertools.permutations(range(n)):
        arrangements.append(('lines %r' % (p,), p, list(range(m)), 0))
    for k in range(1, m):
        if not splits_bin(cols, k):
            arrangements.append(('columns rotated by %d' % k, range(n), list(range(k, m)) + list(range(k)), 0))
        swapped = list(range(m))
        swapped[k - 1], swapped[k] = swapped[k], swapped[k - 1]
        arrangements.append(('columns %d and %d exchanged' % (k - 1, k), range(n), swapped, 0))
    arrangements.append(('columns reversed', range(n), list(range(m))[::-1], 0))
    for at in range(m + 1):
        arrangements.append(('unrelated columns at %d' % at, range(n), list(range(m)), (at,)))
    for kind in ('plain', 'zeros', 'negative') if name != 'pct' else ('plain', 'zeros'):
        table = variants(e)[kind]
        for what, lines, order, extra in arrangements:
            new = [[table[i][j] for j in order] for i in lines]
            names = [cols[j] for j in order]
            if extra:
                for i, row in enumerate(new):
                    row[extra[0]:extra[0]] = ['text %d' % i, 100.5 + i]
                names[extra[0]:extra[0]] = ['vx_mask', 'unrelated']
            data, c = to_array(new, names)
            data0, c0 = data.copy(), c.copy()
            rec.state((name, kind, what), depth=1)
            rec.transition()
            with quiet():
                for s in e.names:
                    got = call(name, s, data, c, *e.args_of(s))
                    rec.trace()
                    rec.outcome((s, repr(got)))
                    if not same(got, base[kind, s]):
                        rec.violation('%s of %s lines (%s) with %s: got %r, otherwise %r' % (
                            s, name, kind, what, got, base[kind, s]),
                            {'line_type': name, 'stat': s, 'columns': names, 'rows': new, 'got': repr(got)})
                    if repr(data) != repr(data0) or list(c) != list(c0):
                        rec.violation('%s of %s lines (%s) modified the data it was given' % (s, name, kind),
                                      {'line_type': name, 'stat': s, 'columns': names, 'rows': new})
                        data, c = to_array(new, names)


def check_job_order(rec, name):
    """Line order and unrelated columns in whole jobs."""
    e = ENTRIES[name]
    n = len(e.rows)
    perms = list(itertools.permutations(range(n)))
    tables = [[e.rows[i] for i in p] for p in perms]
    res = through_job(rec, name, e.columns, tables, e.names)
    for i, p in enumerate(perms):
        rec.state((name, 'job', p), depth=1)
        rec.transition()
        for s in e.names:
            rec.trace()
            got, first = res.get((i, s)), res.get((0, s))
            if not same(got, first):
                rec.violation('job value of %s with %s lines in order %r: got %r, otherwise %r' % (
                    s, name, p, got, first), {'line_type': name, 'stat': s, 'order': p, 'got': repr(got)})


# ------------------------------------------------------------------ histories
# whole jobs that meet divisions by zero before any statistic is computed
JOB_TABLES = {
    'nbr_cnt': {'fss': 1.0, 'fbs': 0.0}, 'rps': {'rpss': 1.0, 'rps': 0.0}, 'pct': {'oy_i': 0, 'on_i': 0},
    'ctc': {}, 'ecnt': {},
}


def job(rec, name):
    e = ENTRIES[name]
    rows = [[JOB_TABLES[name].get(c.rstrip('_0123456789') if c not in JOB_TABLES[name] else c, x)
             for c, x in zip(e.columns, r)] for r in e.rows]
    stats = e.names[:2] if name != 'pct' else e.names[-2:]
    return through_job(rec, name, e.columns, [rows, e.rows], stats)


def check_history(rec, item):
    """Every successor right after one predecessor."""
    for first in item:
        rec.state(('after', first), depth=1)
        successors = SUCC

        def run():
            out = []
            with quiet():
                for nxt in successors:
                    do(first)
                    out.append((nxt, do(nxt)))
            return out
        for nxt, got in in_child(run):
            rec.transition()
            rec.trace()
            rec.outcome((nxt, repr(got)))
            if not same(got, BASE[nxt]):
                rec.violation('%s of %s lines (%s) after %s of %s lines (%s): got %r, in a fresh process %r' % (
                    nxt[1], nxt[0], nxt[2], first[1], first[0], first[2], got, BASE[nxt]),
                    {'before': first, 'call': nxt, 'got': repr(got), 'fresh': repr(BASE[nxt])})


def check_history_jobs(rec, item):
    for first in item:
        rec.state(('job after', first), depth=1)

        def run():
            out = []
            with quiet():
                for name in JOB_TABLES:
                    do(first)
                    out.append((name, job(rec, name)))
            return out
        for name, got in in_child(run):
            rec.transition()
            for k, v in BASE['job', name].items():
                rec.trace()
                if not same(got.get(k), v):
                    rec.violation('job of %s lines, %s, after %s of %s lines (%s): got %r, in a fresh process %r' % (
                        name, k[1], first[1], first[0], first[2], got.get(k), v),
                        {'before': first, 'job': name, 'got': repr(got.get(k)), 'fresh': repr(v)})


BASE = {}
SUCC = []


def explore(check):
    global SUCC
    import importlib
    importlib.import_module('metcalcpy.agg_stat')
    ENTRIES.update({e.line_type: e for e in entries()})

    class Here:
        dir = check.scratch
    for name in ENTRIES:
        BASE.update(in_child(lambda: fresh_values(name)))
    for name in JOB_TABLES:
        with quiet():
            BASE['job', name] = in_child(lambda: job(Here, name))
    SUCC = calls(True)
    first = calls(False)
    # the slow PCT statistics meet every predecessor of their own type and a few of the others
    if not check.thorough:
        SUCC = [c for c in SUCC if c[0] != 'pct' or c[1] in ('pstd_brier', 'pct_total')]
        first = [c for c in first if c[0] != 'pct' or c[1] in ('pstd_brier', 'pstd_roc_auc', 'pct_total')]
    check.bounds = {'statistics': sum(len(e.names) for e in ENTRIES.values()), 'predecessors': len(first),
                    'successors': len(SUCC), 'line orders': 'all of 3 lines',
                    'column orders': 'all rotations, adjacent exchanges and the reversal'}
    check.run(check_layout, list(ENTRIES), chunk=1)
    check.run(check_job_order, list(ENTRIES), chunk=1)
    check.run(check_history, [[c] for c in first], chunk=8)
    check.run(check_history_jobs, [[c] for c in first if check.thorough or c[2] in ('zeros', 'negative', 'missing')], chunk=8)


def fresh_values(name):
    """Each call in its own process that has computed nothing before."""
    out = {}
    with quiet():
        for s in ENTRIES[name].names:
            for kind in ('plain', 'zeros'):
                out[name, s, kind] = in_child(lambda: do((name, s, kind)))
    return out
