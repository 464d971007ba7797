"""A09: scorecard rows compare the two models they name."""
import itertools
import math
import os

from scipy.stats import t as student

from mc.aggdrv import number, quiet, read_table, write_table
from mc.spaces import batches
from mc.statrun import Raised

DAYS = ['2020-01-%02d 00:00:00' % d for d in range(1, 25)]
LEADS = ['120000', '240000', '360000']
GROUPED = ['120000', '240000:360000']
MASKS = ['EAST', 'WEST']
OPS = ['DIFF', 'DIFF_SIG', 'SINGLE']
# statistics by the value of a perfect forecast
ZERO = ('POFD FAR ESTDEV MAE MSE BCMSE RMSE BCRMSE E10 E25 E50 E75 E90 EIQR MAD ME2 ME VL1L2_MSE VL1L2_RMSE VL1L2_RMSVE '
        'VL1L2_SPEED_ERR PSTD_BRIER PSTD_RELIABILITY NBR_FBS NBR_POFD NBR_FAR ECNT_ME ECNT_RMSE CRPS ECNT_CRPS ECNT_MAE').split()
ONE = ('ACC FBIAS PODY PODN CSI GSS HK HSS ORSS EDS SEDS EDI SEDI BAGSS PR_CORR SP_CORR KT_CORR MBIAS ANOM_CORR ANOM_CORR_RAW '
       'VL1L2_BIAS VL1L2_CORR VAL1L2_ANOM_CORR PSTD_BSS PSTD_BSS_SMPL PSTD_ROC_AUC NBR_FSS NBR_AFSS NBR_ACC NBR_FBIAS NBR_PODY '
       'NBR_PODN NBR_CSI NBR_GSS NBR_HK NBR_HSS').split()
NONE = ('BASER FMEAN FBAR FSTDEV OBAR OSTDEV FRANK_TIES ORANK_TIES VL1L2_FBAR VL1L2_OBAR VL1L2_FSTDEV VL1L2_OSTDEV PSTD_BASER '
        'PSTD_RESOLUTION PSTD_UNCERTAINTY NBR_UFSS NBR_F_RATE NBR_O_RATE NBR_BASER NBR_FMEAN').split()
# days of the two models in one cell
CELLS = [((), ()), ((0, 1, 2), (0, 1, 2)), ((0, 2), (0, 2)), ((0,), (0,)), ((0, 1), ()), ((), (0, 1)), ((0, 1), (0,))]


def value(model, lead, mask, day, stat, spread):
    """Different for every record."""
    k = LEADS.index(lead) * 7 + MASKS.index(mask) * 3 + len(stat)
    base = 1.5 + k * 0.25 + day * (0.5 if spread else 0)
    return base + (0.11 * ((day * 5 + k) % 7 - (2 if k % 2 else 4)) if model == 'A' else 0.02 * day)


def mean(xs):
    return sum(xs) / len(xs)


def compare(op, flag, stat, xs, ys, ndays):
    """Value of a row, or None for 'no value'."""
    if op == 'SINGLE':
        return mean(xs)
    if len(xs) != len(ys):
        return None
    diffs = [x - y for x, y in zip(xs, ys)]
    if op == 'DIFF':
        return mean(diffs)
    n = len(diffs)
    if n < 2:
        return None
    if flag == 'NCAR':
        if stat in NONE:
            return None
        m = mean(diffs)
        sd = math.sqrt(sum((d - m) ** 2 for d in diffs) / (n - 1))
        p = 1 - 2 * student.sf(abs(m / (sd / math.sqrt(n))), n - 1)
        perfect = 1 if stat in ONE else 0
        return -p if abs(mean(xs) - perfect) > abs(mean(ys) - perfect) else p
    # the EMC significance classes
    m = -sum(diffs) / ndays
    half = round(1.96 * math.sqrt(sum((-d - m) ** 2 for d in diffs) / ndays) / math.sqrt(n - 1), 6)
    a, b = round(mean(xs), 6), round(mean(ys), 6)
    if stat == 'ME':
        ds = abs(b - a) / half * (-1 if abs(b) < abs(a) else 1)
    elif stat == 'RMSE':
        ds = (b - a) / half
    else:
        ds = (a - b) / half
    crit = [(80, 1.96, 2.576, 3.291), (40, 2.0, 2.66, 3.46), (20, 2.042, 2.75, 3.646), (-1, 2.228, 3.169, 4.587)]
    c95, c99, c999 = next(c[1:] for c in crit if ndays >= c[0])
    classes = []
    # either side of a class limit is possible when it is met within rounding
    for size in (abs(ds) * 0.999 - 1e-3, abs(ds), abs(ds) * 1.001 + 1e-3):
        level = 1 if size * c95 / c999 >= 1 else 0.99 if size * c95 / c99 >= 1 else 0.95 if size >= 1 else 0
        classes.append(level if ds >= 0 else -level)
    return set(classes)


def request(label):
    spec = {
        'lead': ({'fcst_lead': GROUPED, 'model': ['A', 'B-1.2']}, 'fcst_lead model'.split(), ['BCMSE']),
        'component order': ({'fcst_lead': GROUPED, 'fcst_lev': ['P200'], 'model': ['A', 'B-1.2']},
                            'fcst_lev model fcst_lead'.split(), ['PODY']),
        'two statistics': ({'fcst_lead': GROUPED, 'model': ['B-1.2', 'A']}, 'model fcst_lead'.split(), ['ANOM_CORR', 'RMSE']),
        'no perfect score': ({'fcst_lead': GROUPED, 'model': ['A', 'B-1.2']}, 'fcst_lead model'.split(), ['FBAR']),
        'mean error': ({'model': ['A', 'B-1.2'], 'fcst_lead': GROUPED}, 'model fcst_lead'.split(), ['ME', 'ACC']),
        'summed group': ({'fcst_lead': ['360000;120000', '240000'], 'model': ['A', 'B-1.2']}, 'fcst_lead model'.split(), ['RMSE']),
        'numbers': ({'fcst_lead': GROUPED, 'fcst_lev': ['0.5'], 'model': ['7', '2.5']}, 'fcst_lev fcst_lead model'.split(), ['MAE']),
        'numbers among names': ({'model': ['7', 'B-1.2'], 'fcst_lev': ['0.5'], 'fcst_lead': GROUPED},
                                'model fcst_lead fcst_lev'.split(), ['BCMSE']),
        'valid time': ({'fcst_lead': GROUPED, 'model': ['A', 'B-1.2']}, 'fcst_lead model'.split(), ['ANOM_CORR'], ['fcst_valid']),
        'init time': ({'fcst_lead': GROUPED, 'model': ['A', 'B-1.2']}, 'fcst_lead model'.split(), ['PODY'], ['fcst_init_beg']),
        'init': ({'fcst_lead': GROUPED, 'model': ['A', 'B-1.2']}, 'fcst_lead model'.split(), ['PODY'], ['fcst_init']),
    }[label]
    return spec if len(spec) == 4 else spec + (['fcst_valid_beg', 'fcst_init_beg'],)


LABELS = ['lead', 'component order', 'two statistics', 'no perfect score', 'mean error', 'summed group', 'numbers',
          'numbers among names', 'valid time', 'init time', 'init']


def names(order, model, lead, stat, lev):
    return ' '.join([{'model': model, 'fcst_lead': lead, 'fcst_lev': lev}[f] for f in order] + ['HGT', stat])


def ungroup(value):
    return value.split(':' if ':' in value else ';')


def worker(rec, item):
    from metcalcpy.scorecard import Scorecard
    label, flag, spread, ndays, part = item
    series, order, stats, times = request(label)
    models = sorted(series['model'], key='A7'.find, reverse=True)
    leads = series['fcst_lead']
    lev = series.get('fcst_lev', ['P200'])[0]
    cols = ['model', 'fcst_lev', 'fcst_lead', 'vx_mask', 'fcst_var'] + times + ['stat_name', 'stat_value']
    inp, out = os.path.join(rec.dir, 'in.data'), os.path.join(rec.dir, 'out.data')
    for east, west in part:
        recs = []
        for mask, cells in (('EAST', east), ('WEST', west)):
            for lead, cell in zip(LEADS, cells):
                for model, days in zip(models, CELLS[cell] if isinstance(cell, int) else cell):
                    for d in days:
                        for s in stats:
                            recs.append([model, lev, lead, mask, 'HGT', DAYS[d], DAYS[d], s,
                                         value('A' if model == models[0] else 'B', lead, mask, d, s, spread)])
        recs = recs[::2][::-1] + recs[1::2]
        if not recs:
            continue
        write_table(inp, cols, [r[:5] + r[5:5 + len(times)] + r[7:] for r in recs])
        derived = [[names(order, m, lead, s, lev) for m in models] + [op] for op in OPS for s in stats for lead in leads]
        derived += [[names(order, m, lead, s, lev) for m in models[::-1]] + ['DIFF_SIG'] for s in stats for lead in leads[:1]]
        exp = {}
        for first, second, op in derived:
            for mask in MASKS:
                sides = []
                for side in (first, second):
                    parts = side.split(' ')
                    f = dict(zip(order, parts))
                    rows = sorted((r for r in recs if r[0] == f['model'] and r[2] in ungroup(f['fcst_lead'])
                                   and r[3] == mask and r[7] == parts[-1]), key=lambda r: (r[5], int(r[2])))
                    sides.append(([r[8] for r in rows], [(r[5], r[2]) for r in rows]))
                (xs, xcases), (ys, ycases) = sides
                if xs and ys:
                    key = '%s(%s-%s)' % (op, first, second), f['fcst_lead'], mask, parts[-1]
                    exp[key] = compare(op, flag, parts[-1], xs, ys, ndays)
                    if op != 'SINGLE' and len(xs) == len(ys) and xcases != ycases:
                        # scorecard data is equalized, anything may be said of different cases
                        exp[key] = 'any'
        params = {'append_to_file': False, 'derived_series_1': [list(d) for d in derived], 'event_equal': False,
                  'fcst_var_val_1': {'HGT': list(stats)}, 'indy_vals': list(MASKS), 'indy_var': 'vx_mask', 'line_type': 'sl1l2',
                  'list_stat_1': list(stats), 'ndays': ndays, 'series_val_1': {k: list(v) for k, v in series.items()},
                  'stat_flag': flag, 'sum_stat_input': inp, 'sum_stat_output': out}
        replay = {'request': label, 'method': flag, 'ndays': ndays, 'days of each model per lead': {'EAST': east, 'WEST': west}}
        rec.state((label, flag, spread, ndays, east, west), depth=len(recs))
        rec.transition()
        rec.trace(len(exp))
        try:
            if os.path.exists(out):
                os.unlink(out)
            with quiet():
                Scorecard(params).calculate_scorecard_data()
            rows = read_table(out)[1] if os.path.exists(out) else []
            got = {(r['model'], r['fcst_lead'], r['vx_mask'], r['stat_name']): number(r['stat_value']) for r in rows}
        except Exception as err:  # noqa
            rec.violation('%s %s with days %r %r: %r' % (label, flag, east, west, Raised(err)), replay)
            continue
        rec.outcome((label, flag, repr(sorted(got.items()))))
        rec.sample(replay)
        if len(rows) != len(got) or set(got) != set(exp):
            rec.violation('%s %s with days %r %r: rows %r, expected %r' % (
                label, flag, east, west, sorted(set(got) - set(exp))[:3], sorted(set(exp) - set(got))[:3]), replay)
            continue
        for k, e in exp.items():
            g = got[k]
            good = True if e == 'any' else g in e if isinstance(e, set) else (g is None) == (e is None) and (e is None or abs(g - e) <= 2e-5)
            if not good:
                rec.violation('%s %s, %r with days %r %r: got %r, expected %r' % (label, flag, k, east, west, g, e), replay)


def signs(rec, stats):
    """The significance is negative where the first model is farther from a perfect forecast."""
    from metcalcpy.scorecard import Scorecard
    inp, out = os.path.join(rec.dir, 'in.data'), os.path.join(rec.dir, 'out.data')
    cols = ['model', 'fcst_lead', 'vx_mask', 'fcst_var', 'fcst_valid_beg', 'stat_name', 'stat_value']
    levels = (-1.5, -0.25, 0.25, 0.75, 1.5)
    for stat, (x, y) in itertools.product(stats, itertools.permutations(levels, 2)):
        sides = [[x, x + 0.1, x - 0.05], [y - 0.03, y, y + 0.06]]
        write_table(inp, cols, [[m, '0', 'EAST', 'HGT', DAYS[d], stat, v] for m, vs in zip('AB', sides) for d, v in enumerate(vs)])
        params = {'append_to_file': False, 'derived_series_1': [['A 0 HGT ' + stat, 'B 0 HGT ' + stat, 'DIFF_SIG']], 'event_equal': False,
                  'fcst_var_val_1': {'HGT': [stat]}, 'indy_vals': ['EAST'], 'indy_var': 'vx_mask', 'line_type': 'sl1l2',
                  'list_stat_1': [stat], 'ndays': 10, 'stat_flag': 'NCAR', 'series_val_1': {'model': ['A', 'B'], 'fcst_lead': ['0']},
                  'sum_stat_input': inp, 'sum_stat_output': out}
        rec.state(('sign', stat, x, y), depth=6)
        rec.transition()
        rec.trace()
        exp = compare('DIFF_SIG', 'NCAR', stat, *sides, 10)
        try:
            with quiet():
                Scorecard(params).calculate_scorecard_data()
            got = [number(r['stat_value']) for r in read_table(out)[1]]
        except Exception as err:  # noqa
            got = Raised(err)
        rec.outcome((stat, repr(got)))
        good = isinstance(got, list) and len(got) == 1 and (got[0] is None) == (exp is None) and (exp is None or abs(got[0] - exp) <= 2e-5)
        if not good:
            rec.violation('significance of %s of %r and %r: got %r, expected %r' % (stat, *sides, got, exp),
                          {'stat': stat, 'values': sides, 'got': repr(got), 'expected': exp})


def repeated(rec, item):
    """A difference of values that are not one per date and lead is refused or has no value."""
    from metcalcpy.scorecard import Scorecard
    op, first, lead, extra = item
    inp, out = os.path.join(rec.dir, 'in.data'), os.path.join(rec.dir, 'out.data')
    cols = ['model', 'fcst_lead', 'vx_mask', 'fcst_var', 'fcst_valid_beg', 'stat_name', 'stat_value']
    recs = [[m, h, k, 'HGT', DAYS[d], 'RMSE', value(m[0], h, k, d, 'RMSE', False)]
            for m in ('A', 'B-1.2') for h in LEADS for k in MASKS for d in range(3)]
    second = 'B-1.2' if first == 'A' else 'A'
    for i in range(len(recs)):
        for drop in (None, 0, 1, 2):
            r = recs[i]
            rows = recs + [r[:6] + [r[6] + extra]]
            if drop is not None:
                # as many values as the other model has, but not of the same dates
                rows = [x for x in rows if (x[:3], x[4]) != (r[:3], DAYS[drop])]
                if r[4] == DAYS[drop]:
                    continue
            write_table(inp, cols, rows)
            params = {'append_to_file': False, 'derived_series_1': [['%s %s HGT RMSE' % (lead, m) for m in (first, second)] + [op]],
                      'event_equal': False, 'fcst_var_val_1': {'HGT': ['RMSE']}, 'indy_vals': list(MASKS), 'indy_var': 'vx_mask',
                      'line_type': 'sl1l2', 'list_stat_1': ['RMSE'], 'ndays': 10, 'stat_flag': 'NCAR',
                      'series_val_1': {'fcst_lead': list(GROUPED), 'model': ['A', 'B-1.2']}, 'sum_stat_input': inp, 'sum_stat_output': out}
            touched = r[1] in ungroup(lead) and r[2]
            rec.state((item, i, drop), depth=len(rows))
            rec.transition()
            rec.trace()
            try:
                if os.path.exists(out):
                    os.unlink(out)
                with quiet():
                    Scorecard(params).calculate_scorecard_data()
                got = {x['vx_mask']: number(x['stat_value']) for x in read_table(out)[1]}
            except Exception as err:  # noqa
                got = Raised(err)
            rec.outcome((item, repr(got)))
            replay = {'comparison': op, 'models': [first, second], 'lead': lead, 'repeated': r, 'without': drop, 'got': repr(got)}
            if isinstance(got, Raised):
                if not touched:
                    rec.violation('%s at %s with %r repeated elsewhere: %r' % (op, lead, r, got), replay)
                continue
            for mask in MASKS:
                side = [sorted(x for x in rows if x[0] == m and x[1] in ungroup(lead) and x[2] == mask) for m in (first, second)]
                side = [sorted(s, key=lambda x: (x[4], int(x[1]))) for s in side]
                exp = compare(op, 'NCAR', 'RMSE', *[[x[6] for x in s] for s in side], 10)
                if mask == touched and drop is not None and r[0] == second:
                    # scorecard data is equalized, anything may be said of different cases
                    continue
                if (got.get(mask) is not None) if mask == touched else (got.get(mask) is None or abs(got[mask] - exp) > 2e-5):
                    rec.violation('%s at %s, %s, with %r repeated: got %r' % (op, lead, mask, r, got.get(mask)), replay)


def explore(check):
    check.preload = ['metcalcpy.scorecard']
    cells = list(itertools.product(range(len(CELLS)), repeat=3))
    items = []
    # every pair of cells of the grouped leads, every cell of the other one
    few = [c for c in cells if c[0] == 1 or c[1:] == (2, 2)]
    for label in LABELS:
        for flag in ('NCAR', 'EMC'):
            full = cells if check.thorough or (label, flag) == ('lead', 'NCAR') else few
            work = [(c, (1, 2, 1)) for c in full] + [((2, 1, 2), c) for c in few]
            items += [(label, flag, False, 10, b) for b in batches(work, 40)]
            items += [(label, flag, True, 10, b) for b in batches([(c, (1, 2, 1)) for c in few], 40)]
    long = [tuple(range(k)) for k in (5, 12, 24)]
    for label in LABELS:
        for ndays in (10, 20, 39, 40, 79, 80, 100):
            items.append((label, 'EMC', ndays % 2 == 0, ndays, [(((d, d),) * 3, ((d, d),) * 3) for d in long]))
    check.bounds = {'cells': len(cells), 'cells of the other requests': len(few), 'requests': len(LABELS), 'significance methods': 2, 'days per cell': '0-3 and 5, 12, 24'}
    check.run(worker, items, chunk=1)
    check.run(repeated, list(itertools.product(('DIFF', 'DIFF_SIG'), ('A', 'B-1.2'), GROUPED, (0, 0.5))), chunk=1)
    check.run(signs, batches(ZERO + ONE + NONE, 4), chunk=1)
