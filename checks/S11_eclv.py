"""S11: relative economic value against the cost/loss definition."""
import itertools
import os
from fractions import Fraction as F

import numpy as np

from mc.aggdrv import base_params, number, quiet, read_table, write_table
from mc.eqz import TIMES, survivors, ungroup
from mc.expect import NONE, val
from mc.spaces import batches
from mc.statrun import Raised, ok

COLS = ['total', 'fy_oy', 'fy_on', 'fn_oy', 'fn_on']
STEPS = {'few': [0.25, 0.5, 0.75], 'fine': [i / 20 for i in range(1, 20)], 'unsorted': [0.9, 0.1, 0.4]}


def value(table, a):
    """Expense of climate, of the forecast and of a perfect forecast, for a cost/loss ratio a."""
    hit, false, miss, none = table
    n = hit + false + miss + none
    a = F(a)
    clim = min(a, F(hit + miss, n))
    fcst = (F(hit + false, n)) * a + F(miss, n)
    perfect = F(hit + miss, n) * a
    return (clim - fcst) / (clim - perfect)


def oracle(table, points, base_rate):
    """None or (points, values, vmax, F, H, s)."""
    hit, false, miss, none = table
    if hit + miss == 0 or false + none == 0:
        return None
    s = F(hit + miss, sum(table))
    pts = sorted([F(p) for p in points] + ([s] if base_rate else []))
    return (pts, [value(table, p) for p in pts], F(hit, hit + miss) - F(false, false + none),
            F(false, false + none), F(hit, hit + miss), s)


def judge(rec, got, exp, what, replay):
    rec.trace()
    rec.outcome(repr(got) if not isinstance(got, dict) else (got['vmax'], got['s'], len(got['V'])))
    good = not isinstance(got, Raised) and (got is None) == (exp is None)
    if good and exp is not None:
        good = len(got['V']) == len(got['cl']) == len(exp[0])
        good = good and all(ok(g, val(e)) for g, e in zip(got['cl'], exp[0]))
        good = good and all(ok(g, val(e)) for g, e in zip(got['V'], exp[1]))
        good = good and all(ok(got[k], val(e)) for k, e in zip(('vmax', 'F', 'H', 's'), exp[2:]))
        good = good and max(got['V']) <= 1 + 1e-9
    if not good:
        rec.violation('%s: got %r, expected %r' % (what, got, exp and [[float(x) for x in e] if isinstance(e, list)
                                                                       else float(e) for e in exp]), replay)


def call(fn, *args):
    try:
        with quiet():
            return fn(*args)
    except Exception as err:  # noqa
        return Raised(err)


def add(tables):
    return tuple(sum(c) for c in zip(*tables))


def direct(rec, part):
    from metcalcpy.util.ctc_statistics import calculate_economic_value
    from metcalcpy.util.eclv_statistics import calculate_eclv
    for tables in part:
        total = add(tables)
        for name, pts in STEPS.items():
            for base in (False, True):
                rec.state((tables, name, base), depth=len(tables))
                rec.transition()
                exp = oracle(total, pts, base)
                replay = {'tables': tables, 'points': pts, 'base_rate': base}
                if len(tables) == 1:
                    judge(rec, call(calculate_economic_value, np.array(total), np.array(pts), base), exp,
                          'economic value of %r at %s points, base rate %r' % (total, name, base), replay)
                rows = np.array([[sum(t)] + list(t) for t in tables], dtype=object)
                judge(rec, call(calculate_eclv, rows, np.array(COLS), 0, 'ctc', pts, int(base)), exp,
                      'ECLV of CTC lines %r at %s points, base rate %r' % (tables, name, base), replay)
        rec.sample({'tables': tables})


def pct_direct(rec, part):
    """PCT lines: one row per probability; a yes forecast is a probability above the threshold."""
    from metcalcpy.util.eclv_statistics import calculate_eclv
    probs = (0.1, 0.5, 0.9)
    cols = np.array(['thresh_i', 'oy_i', 'on_i'])
    for bins in part:
        rows = [[p, y, x] for p, (y, x) in zip(probs, bins)]
        for layout in (rows, rows[::-1], rows + rows):
            data = np.array(layout, dtype=object)
            for thresh in (0.0, 0.1, 0.3, 0.5, 0.9):
                rec.state((bins, len(layout), layout[0][0], thresh), depth=len(layout))
                rec.transition()
                k = len(layout) // 3
                tab = tuple(k * sum(f) for f in (
                    (y for p, (y, _) in zip(probs, bins) if p > thresh),
                    (x for p, (_, x) in zip(probs, bins) if p > thresh),
                    (y for p, (y, _) in zip(probs, bins) if p <= thresh),
                    (x for p, (_, x) in zip(probs, bins) if p <= thresh)))
                pts = STEPS['few']
                judge(rec, call(calculate_eclv, data, cols, thresh, 'pct', pts, 0), oracle(tab, pts, False),
                      'ECLV of PCT rows %r above %r' % (layout, thresh), {'rows': layout, 'thresh': thresh})


HEAD = ['model', 'fcst_lead', 'fcst_valid_beg', 'fcst_init_beg', 'stat_name']


def run_job(rec, columns, rows, line_type, models, step, head=HEAD, series=None, **over):
    from metcalcpy.agg_eclv import AggEclv
    inp, out = os.path.join(rec.dir, 'eclv_in.data'), os.path.join(rec.dir, 'eclv_out.data')
    write_table(inp, head + columns, rows)
    series = {'model': models} if series is None else series
    params = base_params(inp, out, line_type=line_type, series_val_1=series, indy_var='',
                         cl_step=step, equalize_by_indep='True', **over)
    try:
        with quiet():
            AggEclv(params).calculate_stats_and_ci()
        res = {}
        for r in read_table(out)[1] if os.path.getsize(out) > 5 else []:
            name = r['model'] if models else tuple(r[f] for f in series)
            res.setdefault((name, float(r['thresh_i'])), []).append(
                (number(r['x_pnt_i']), number(r['y_pnt_i']), float(r['nstats'])))
        return res
    except Exception as err:  # noqa
        return Raised(err)


def judge_curve(rec, got, exp, pts, nstats, what, replay):
    rec.trace()
    rec.outcome(repr(got))
    good = isinstance(got, list) and len(got) == len(pts) and all(n == nstats for _, _, n in got) and \
        all(ok(g[0], val(p)) for g, p in zip(got, pts))
    if good:
        want = [val(v) for v in exp[1]] if exp else [NONE] * len(pts)
        good = all(ok(g[1], w) for g, w in zip(got, want))
    if not good:
        rec.violation('%s: got %r, expected %r with %d records' % (
            what, got, exp and [float(x) for x in exp[1]], nstats), replay)


def jobs(rec, part):
    """Whole jobs, one model per table; the last model of the request has no records."""
    pts = [0.25, 0.5, 0.75]
    rows = []
    names = ['M%d' % i for i in range(len(part))]
    for name, tables in zip(names, part):
        for k, t in enumerate(tables):
            v = '2020-01-%02d 00:00:00' % (k + 1)
            rows.append([name, 12, v, v, 'ECLV', sum(t)] + list(t))
    for base in (0, 1):
        res = run_job(rec, COLS, rows, 'ctc', names + ['absent'], 0.25, add_base_rate=base)
        for name, tables in list(zip(names, part)) + [('absent', ())]:
            rec.state(('job', base, tables), depth=len(tables))
            rec.transition()
            got = res if isinstance(res, Raised) else res.get((name, 0.0))
            exp = oracle(add(tables), pts, False) if tables else None
            what = 'ECLV job, CTC lines %r, add_base_rate=%d' % (tables, base)
            replay = {'tables': tables, 'add_base_rate': base, 'via': 'AggEclv'}
            if base:
                rec.trace()
                full = oracle(add(tables), pts, True) if tables else None
                if full is None or (got is not None and not isinstance(got, Raised) and len(got) == 4):
                    continue
                plain = not isinstance(got, Raised) and [g[0] for g in got] == pts and \
                    all(ok(g[1], val(v)) for g, v in zip(got, exp[1]))
                rec.violation(what + ': no base rate point, got %r' % (got,), replay, key='job-base-rate',
                              known_behaviour=plain)
                continue
            judge_curve(rec, got, exp, pts, len(tables), what, replay)


def pct_jobs(rec, part):
    probs = (0.1, 0.5, 0.9)
    pts = [0.25, 0.5, 0.75]
    for bins in part:
        rec.state(('pct job', bins), depth=2)
        rec.transition()
        rows = []
        for k in range(2):
            v = '2020-01-%02d 00:00:00' % (k + 1)
            rows += [['M', 12, v, v, 'ECLV', p, y, x] for p, (y, x) in zip(probs, bins)]
        res = run_job(rec, ['thresh_i', 'oy_i', 'on_i'], rows, 'pct', ['M'], 0.25)
        for thresh in probs:
            tab = tuple(2 * sum(f) for f in (
                (y for p, (y, _) in zip(probs, bins) if p > thresh), (x for p, (_, x) in zip(probs, bins) if p > thresh),
                (y for p, (y, _) in zip(probs, bins) if p <= thresh), (x for p, (_, x) in zip(probs, bins) if p <= thresh)))
            got = res if isinstance(res, Raised) else res.get(('M', thresh))
            judge_curve(rec, got, oracle(tab, pts, False), pts, 6, 'ECLV job, PCT rows %r above %r' % (bins, thresh),
                        {'bins': bins, 'thresh': thresh, 'via': 'AggEclv'})


AB, MN = ['A', 'B'], ['M', 'N']
CELLS = [(m, k, t) for m in AB for k in MN for t in TIMES[:2]]
REQUESTS = {
    'models': ({'model': AB}, {}),
    'models and masks': ({'vx_mask': MN, 'model': AB}, {}),
    'group': ({'model': ['A:B'], 'vx_mask': MN}, {}),
    'summed group': ({'model': ['B;A']}, {}),
    'fixed mask': ({'model': AB}, {'vx_mask': {'vx_mask_1': ['N']}}),
    'numbers': ({'model': ['7', '1.5']}, {}),
    'number and name': ({'model': ['7', 'B'], 'vx_mask': ['0.5']}, {}),
    'no series': ({}, {}),
}
RENAMED = {'numbers': {'A': '7', 'B': '1.5'}, 'number and name': {'A': '7', 'M': '0.5'}}


def selections(rec, item):
    """Jobs with several series, groups and event equalization: which records are used."""
    label, equal, part = item
    series, fixed = REQUESTS[label]
    pts = [0.25, 0.5, 0.75]
    new = RENAMED.get(label, {})
    for picks in part:
        recs = []
        for i, ((m, k, t), n) in enumerate(zip(CELLS, picks)):
            if n:
                recs.append(dict(model=new.get(m, m), vx_mask=new.get(k, k), fcst_valid_beg=t, fcst_lead='12',
                                 table=(1 + i, 8 - i, 2, 3 + i * i)))
        rows = [[r['model'], r['fcst_lead'], r['fcst_valid_beg'], r['fcst_valid_beg'], 'ECLV', r['vx_mask'], sum(r['table'])]
                + list(r['table']) for r in recs]
        rec.state((label, equal, picks), depth=sum(picks))
        rec.transition()
        res = run_job(rec, COLS, rows, 'ctc', None, 0.25, HEAD + ['vx_mask'], {k: list(v) for k, v in series.items()},
                      event_equal=str(equal), fixed_vars_vals_input={k: dict(v) for k, v in fixed.items()})
        used = recs
        if equal and series:
            used = survivors(recs, 'stat_name', series, {k: [x for v in d.values() for x in v] for k, d in fixed.items()}, False)
        for combo in itertools.product(*series.values()):
            mine = [r for r in used if all(r[f] in ungroup(v) for f, v in zip(series, combo))]
            exp = oracle(add([r['table'] for r in mine]), pts, False) if mine else None
            got = res if isinstance(res, Raised) else res.get((combo, 0.0))
            if got is None and not used:
                rec.trace()
                continue    # no record is left at all: the file is empty
            judge_curve(rec, got, exp, pts, len(mine), 'ECLV job, %s at %r, equalization %s' % (label, combo, equal),
                        {'series': series, 'fixed': fixed, 'records': recs, 'equalized': equal})


def explore(check):
    check.preload = ['metcalcpy.agg_eclv']
    small = list(itertools.product((0, 1, 2, 5) if check.thorough else (0, 1, 3), repeat=4))
    wide = list(itertools.product((0, 1, 40, 1000), repeat=4))
    few = list(itertools.product((0, 2), repeat=4))
    cases = [(t,) for t in small + wide] + list(itertools.combinations_with_replacement(few, 2))
    bins = list(itertools.product(itertools.product((0, 1, 3), repeat=2), repeat=3))
    few_bins = list(itertools.product(itertools.product((0, 2), repeat=2), repeat=3))
    check.bounds = {'tables': len(cases), 'probability tables': len(bins), 'cost/loss sets': len(STEPS),
                    'requests': list(REQUESTS), 'cells': len(CELLS)}
    check.run(direct, batches(cases, 20), chunk=1)
    check.run(pct_direct, batches(bins, 10), chunk=1)
    check.run(jobs, batches(cases, 15), chunk=1)
    check.run(pct_jobs, batches(bins if check.thorough else few_bins, 5), chunk=1)
    picks = [p for p in itertools.product((0, 1), repeat=len(CELLS)) if any(p)]
    check.run(selections, [(label, equal, b) for label in REQUESTS for equal in (False, True) for b in batches(picks, 20)
                           if not (label == 'no series' and equal)], chunk=1)
