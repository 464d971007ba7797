"""U05: statistics of revision series for all small sets of tracked objects."""
import itertools

import pandas as pd

from checks.U03_serial import observe
from mc import serial
from mc.spaces import batches

LAGS = (None, 0, 1, 3)


def gapped(rows):
    """Values of one object after those of another, in order of appearance, with a gap between objects."""
    ids = []
    for i, _ in rows:
        if i not in ids:
            ids.append(i)
    out = []
    for i in ids:
        out += [v for j, v in rows if j == i] + [None]
    return out[:-1]


def rounded(got, want, tol=0.005 + 1e-9):
    if want is None:
        return got is None or got != got
    return isinstance(got, (int, float)) and abs(float(got) - float(want)) <= tol


def worker(rec, part):
    from metcalcpy.util.utils import calculate_mtd_revision_stats
    for rows in part:
        rec.state(('rows', repr(rows)), depth=len(rows))
        rec.transition()
        frame = pd.DataFrame({'revision_id': [r[0] for r in rows], 'stat_value': [r[1] for r in rows]})
        before = frame.copy()
        series = gapped(rows)
        run = serial.runs(series, 'median', 'left.sided')
        filled = bool(serial.clean(series))
        for lag in LAGS:
            acf = serial.acf(series, 'correlation', lag)
            want = {'ww_run': run and run['p_value'], 'auto_cor_r': acf and acf[-1],
                    'auto_cor_p': 0.06270678 / len(series) ** 0.5 if filled else None}
            got = observe(calculate_mtd_revision_stats, frame, lag)
            rec.trace()
            rec.outcome(repr(got))
            rec.sample({'rows': rows, 'lag': lag, 'got': repr(got)})
            if not isinstance(got, dict) or any(not rounded(got.get(k), w) for k, w in want.items()):
                rec.violation('revision statistics of %r up to lag %r: %r, expected %r' % (
                    rows, lag, got, {k: w if w is None else float(w) for k, w in want.items()}),
                    {'rows': rows, 'lag': lag})
        if not frame.equals(before):
            rec.violation('revision statistics changed their data %r' % (rows,), {'rows': rows})


def empty(rec, item):
    from metcalcpy.util.utils import calculate_mtd_revision_stats
    for cols in ([], ['stat_value'], ['revision_id'], ['stat_value', 'revision_id']):
        for n in (0, 1):
            if n and len(cols) == 2:
                continue
            frame = pd.DataFrame({c: [1] * n for c in cols})
            rec.state(('empty', tuple(cols), n))
            rec.transition()
            got = observe(calculate_mtd_revision_stats, frame)
            rec.trace()
            if not isinstance(got, dict) or any(v is not None for v in got.values()):
                rec.violation('no data (%r, %d lines): %r' % (cols, n, got), {'columns': cols, 'lines': n})


def explore(check):
    check.preload = ['metcalcpy.util.utils']
    tables = []
    cells = [(i, v) for i in 'abc' for v in (0, 1, 3)]
    for n in (1, 2, 3, 4):
        tables += list(itertools.product(cells, repeat=n))
    gaps = [(i, v) for i in 'ab' for v in (0, 2.5, None)]
    for n in (1, 2, 3, 4) + ((5,) if check.thorough else ()):
        tables += list(itertools.product(gaps, repeat=n))
    two = [(i, v) for i in 'ab' for v in (0, 1)]
    for n in (5, 6) + ((7,) if check.thorough else ()):
        tables += list(itertools.product(two, repeat=n))
    # one object, longer series
    for n in range(5, 11 if check.thorough else 9):
        tables += [tuple((1, x) for x in v) for v in itertools.product((0, 1), repeat=n)]
    check.bounds = {'lines': '1..4 over 3 objects and 3 values, 5..6 over 2 and 2, one object up to 8', 'lags': LAGS}
    check.run(worker, batches(tables, 50))
    check.run(empty, [None])
