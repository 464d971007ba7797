"""E01: event equalization keeps exactly the cases shared by every series."""
import itertools

from mc.aggdrv import quiet
from mc.eqz import CLOSE_LEADS, CLOSE_TIMES, TIMES, subsets, survivors
from mc.spaces import batches
from mc.statrun import Raised


def cell(i, **over):
    d = {'model': 'A', 'vx_mask': 'M', 'fcst_thresh': '>0', 'interp_pnts': 1, 'fcst_lev': 'P500',
         'fcst_valid_beg': TIMES[0], 'fcst_init_beg': '2019-12-31 00:00:00', 'fcst_lead': 0}
    d.update(over)
    return d


def grid(**axes):
    names = list(axes)
    return [cell(0, **dict(zip(names, c))) for c in itertools.product(*axes.values())]


M2 = ['A', 'B']
SPACES = {
    # name: (cells, most records per cell, [(series, fixed, indy, by_indep, multi)])
    'two models': (grid(model=M2, fcst_valid_beg=TIMES[:2], fcst_lead=[0, 60000]), 1, [
        ({'model': M2}, {}, 'fcst_lead', True, False),
        ({'model': M2}, {}, 'fcst_valid_beg', True, False),
        ({'model': ['A:B']}, {}, 'fcst_lead', True, False),
        ({'model': ['B', 'A']}, {}, 'fcst_init_beg', False, False),
        ({'model': ['A']}, {}, 'fcst_lead', True, False),
        ({'model': 'B'}, {}, 'fcst_lead', True, False),
        ({'model': ['A', 'C']}, {}, 'fcst_lead', True, False),
        ({}, {}, 'fcst_lead', True, False),
        (None, None, 'fcst_lead', True, False),
        ({'model': M2, 'fcst_valid_beg': [TIMES[0] + ':' + TIMES[1]]}, {}, 'fcst_lead', True, False),
        ({'model': M2, 'fcst_lead': ['0', '60000']}, {}, 'fcst_valid_beg', True, False),
        ({'model': M2}, {'fcst_lead': ['0']}, 'fcst_valid_beg', True, False),
        ({'model': M2}, {'fcst_thresh': ['>0']}, 'fcst_lead', True, False),
        ({'model': M2}, {'fcst_thresh': '>0'}, 'fcst_lead', True, False),
        ({'model': M2}, {'fcst_thresh': ['>0', '>1']}, 'fcst_lead', True, False),
        ({'model': M2}, {}, 'vx_mask', True, False)]),
    'close times': (grid(model=M2, fcst_valid_beg=CLOSE_TIMES), 1, [
        ({'model': M2}, {}, 'fcst_lead', True, False),
        ({'model': M2}, {}, 'fcst_valid_beg', True, True)]),
    'close leads': (grid(model=M2, fcst_lead=CLOSE_LEADS), 1, [
        ({'model': M2}, {}, 'fcst_lead', True, False),
        ({'model': M2}, {}, 'vx_mask', True, True)]),
    'repeated records': (grid(model=M2, fcst_valid_beg=TIMES[:3]), 2, [
        ({'model': M2}, {}, 'fcst_lead', True, False),
        ({'model': M2}, {}, 'fcst_lead', True, True),
        ({'model': ['A:B']}, {}, 'fcst_valid_beg', True, True)]),
    'three models': (grid(model=['A', 'B', 'C'], fcst_valid_beg=TIMES[:3]), 1, [
        ({'model': ['A', 'B', 'C']}, {}, 'fcst_lead', True, False),
        ({'model': ['A:B', 'C']}, {}, 'fcst_lead', True, False),
        ({'model': ['C', 'A']}, {}, 'fcst_lead', True, False)]),
    'model and mask': (grid(model=M2, vx_mask=['M', 'N'], fcst_valid_beg=TIMES[:2]), 1, [
        ({'model': M2, 'vx_mask': ['M', 'N']}, {}, 'fcst_lead', True, False),
        ({'vx_mask': ['N:M'], 'model': ['A:B']}, {}, 'fcst_lead', True, False),
        ({'model': M2, 'vx_mask': ['N']}, {}, 'fcst_lead', True, False),
        ({'model': M2}, {'vx_mask': ['M', 'N']}, 'fcst_lead', True, False),
        ({'model': M2}, {'vx_mask': ['N']}, 'fcst_lead', True, False),
        ({'model': M2}, {'fcst_thresh': ['>0'], 'vx_mask': ['M', 'N']}, 'fcst_lead', True, False),
        ({'model': M2}, {'fcst_valid_beg': [TIMES[0]], 'vx_mask': ['N']}, 'fcst_lead', True, False),
        ({'model': M2}, {}, 'vx_mask', True, False),
        ({'model': M2}, {}, 'vx_mask', False, False),
        ({'model': M2, 'vx_mask': ['M', 'N']}, {}, 'vx_mask', True, False),
        ({}, {'model': M2}, 'vx_mask', True, False)]),
    'numbers': (grid(interp_pnts=[1, 25], fcst_lead=[0, 60000], vx_mask=['M', 'N']), 1, [
        ({'interp_pnts': ['1', '25']}, {}, 'fcst_lead', True, False),
        ({'interp_pnts': ['1:25']}, {}, 'vx_mask', True, False),
        ({'vx_mask': ['M', 'N']}, {'interp_pnts': ['25']}, 'fcst_lead', True, False),
        ({'vx_mask': ['M', 'N']}, {}, 'interp_pnts', True, False)]),
    'decimals': (grid(fcst_thresh=[0.5, 1.5], fcst_lead=[0, 60000], vx_mask=['M', 'N']), 1, [
        ({'fcst_thresh': ['0.5', '1.5']}, {}, 'fcst_lead', True, False),
        ({'vx_mask': ['M', 'N']}, {'fcst_thresh': ['1.5']}, 'fcst_lead', True, False)]),
    'numbers among names': (grid(model=['7', 'A'], fcst_thresh=['0.5', '>0'], fcst_lead=[0, 60000]), 1, [
        ({'model': ['7', 'A']}, {}, 'fcst_lead', True, False),
        ({'model': ['A'], 'fcst_thresh': ['0.5', '>0']}, {}, 'fcst_lead', True, False),
        ({'model': ['A:7']}, {'fcst_thresh': ['0.5']}, 'fcst_lead', True, False)]),
    'missing values': (grid(model=M2, fcst_thresh=[None, '>0'], fcst_valid_beg=TIMES[:2]), 1, [
        ({'model': M2}, {'fcst_thresh': ['NA']}, 'fcst_lead', True, False),
        ({'model': M2}, {'fcst_thresh': ['NA', '>0']}, 'fcst_lead', True, False),
        ({'model': M2, 'fcst_thresh': ['NA', '>0']}, {}, 'fcst_lead', True, False)]),
}


def build(cells, counts):
    recs = []
    for c, n in zip(cells, counts):
        recs += [c] * n
    return [dict(r, rid=i, stat_value=i * 0.5 + 0.25) for i, r in enumerate(recs)]


def order(recs, how):
    return recs if how == 0 else recs[::-1] if how == 1 else recs[1::2] + recs[::2]


def check_one(rec, space, counts, config, how, valid):
    import numpy as np
    import pandas as pd
    from metcalcpy.event_equalize import event_equalize
    series, fixed, indy, by_indep, multi = config
    recs = order(build(SPACES[space][0], counts), how)
    if valid != 'fcst_valid_beg':
        recs = [{valid if k == 'fcst_valid_beg' else k: v for k, v in r.items()} for r in recs]
        series = None if series is None else {valid if k == 'fcst_valid_beg' else k: v for k, v in series.items()}
        fixed = None if fixed is None else {valid if k == 'fcst_valid_beg' else k: v for k, v in fixed.items()}
        indy = valid if indy == 'fcst_valid_beg' else indy
    columns = [valid if k == 'fcst_valid_beg' else k for k in cell(0)] + ['rid', 'stat_value']
    # labels of the frame are not the positions: callers pass filtered frames
    frame = pd.DataFrame(recs, columns=columns, index=[7 + 3 * i for i in range(len(recs))])
    exp = survivors(recs, indy, series, fixed, by_indep, valid)
    fix_vars = list(fixed or {})
    fix_vals = list((fixed or {}).values())
    try:
        with quiet():
            res = event_equalize(frame.copy(), indy, series, fix_vars, fix_vals, by_indep, multi)
        got = [{k: (None if isinstance(v, float) and np.isnan(v) else v) for k, v in row.items()}
               for row in res[[c for c in columns if c in res.columns]].to_dict('records')]
    except Exception as err:  # noqa
        got = Raised(err)
    rec.trace()
    rec.outcome((space, [r['rid'] for r in exp]))
    if isinstance(got, Raised) or [dict(r) for r in got] != exp:
        rec.violation('event equalization (%s, series %r, fixed %r, by %s%s): kept %s, expected records %r' % (
            space, series, fixed, indy, '' if by_indep else ' (not equalized)',
            got if isinstance(got, Raised) else [r.get('rid') for r in got], [r['rid'] for r in exp]),
            {'records': recs, 'series': series, 'fixed': fixed, 'indy': indy, 'by_indep': by_indep, 'multi': multi,
             'got': repr(got), 'expected': exp})


def worker(rec, item):
    space, part = item
    for counts, ci, how, valid in part:
        rec.state((space, counts, how, valid), depth=sum(counts))
        rec.transition()
        check_one(rec, space, counts, SPACES[space][2][ci], how, valid)
    rec.sample({'space': space, 'records': build(SPACES[space][0], part[0][0])[:3]})


def explore(check):
    import pandas as pd
    # the implementation sets this option on its first call
    pd.options.mode.chained_assignment = None
    items = []
    for name, (cells, most, configs) in SPACES.items():
        work = []
        for counts in subsets(len(cells), most):
            if sum(counts) == 0:
                continue
            for ci in range(len(configs)):
                full = check.thorough or (ci == 0 and most == 1)
                for how in (0, 1, 2) if full else (0, ):
                    work.append((counts, ci, how, 'fcst_valid_beg'))
                if ci < 2 or check.thorough:
                    work.append((counts, ci, 0, 'fcst_valid'))
        items += [(name, b) for b in batches(work, 60)]
    check.bounds = {'spaces': {k: '%d cells, up to %d records each, %d configurations' % (len(v[0]), v[1], len(v[2]))
                               for k, v in SPACES.items()}}
    check.preload = ['metcalcpy.event_equalize']
    check.run(worker, items, chunk=2)
