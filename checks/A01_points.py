"""A01: an aggregation job outputs every requested point once, from exactly the matching records."""
import itertools
import os

from mc.aggdrv import base_params, number, run_aggstat, write_table
from mc.eqz import TIMES, subsets
from mc.spaces import batches
from mc.statrun import Raised

T, H, M = 'CTC_TOTAL', 'CTC_FY_OY', 'CTC_FN_OY'
COLUMN = {T: 'total', H: 'fy_oy', M: 'fn_oy'}
FIELDS = ['model', 'vx_mask', 'fcst_lev', 'fcst_thresh', 'fcst_var', 'stat_name', 'fcst_valid_beg', 'fcst_init_beg', 'fcst_lead']
NUMBERS = ['total', 'fy_oy', 'fy_on', 'fn_oy', 'fn_on']


def grid(**axes):
    base = {'model': 'A', 'vx_mask': 'M', 'fcst_lev': 'P500', 'fcst_thresh': '>0', 'fcst_var': 'V', 'stat_name': None,
            'fcst_valid_beg': TIMES[0], 'fcst_init_beg': TIMES[0], 'fcst_lead': 0}
    return [dict(base, **dict(zip(axes, c))) for c in itertools.product(*axes.values())]


def req(s1=None, stats=(T,), indy='fcst_lead', vals=(), var='V', s2=None, stats2=(), var2=None, **more):
    return dict({'series_val_1': s1 if s1 is not None else {'model': ['A']}, 'list_stat_1': list(stats), 'indy_var': indy,
                 'indy_vals': list(vals), 'fcst_var_val_1': {var: list(stats)} if var else {}, 'series_val_2': s2 or {},
                 'list_stat_2': list(stats2), 'fcst_var_val_2': {var2: list(stats2)} if var2 else {}}, **more)


AB, MN = ['A', 'B'], ['M', 'N']
LEADS = ['0', '120000']
SPACES = {
    'model and lead': (grid(model=AB, fcst_lead=[0, 120000], fcst_valid_beg=TIMES[:2]), {
        'one point': req(vals=['0']),
        'two models, two leads': req({'model': AB}, vals=LEADS),
        'leads out of order': req({'model': ['B', 'A']}, vals=['120000', '0']),
        'no independent values': req({'model': AB}),
        'absent values': req({'model': ['B', 'C']}, vals=['0', '60000']),
        'independent dates': req({'model': AB}, indy='fcst_valid_beg', vals=TIMES[:2]),
        'independent init': req({'model': AB}, indy='fcst_init_beg', vals=TIMES[:1]),
        'independent model': req({'fcst_lead': LEADS}, indy='model', vals=AB),
        'two series variables': req({'model': AB, 'fcst_valid_beg': TIMES[:2]}, vals=LEADS),
        'no series': req({}, vals=LEADS),
        'two statistics': req({'model': AB}, stats=(H, T), vals=['0']),
        'two axes': req({'model': ['A']}, vals=LEADS, s2={'model': ['B', 'A']}, stats2=(M, H), var2='V'),
        'other fields on axis 2': req({'model': AB}, vals=['0'], s2={'fcst_valid_beg': TIMES[:2]}, stats2=(T,), var2='V'),
        'no variable': req({'model': AB}, vals=LEADS, var=None),
        'absent variable': req({'model': AB}, vals=['0'], var='W'),
    }),
    'variable': (grid(fcst_var=['V', 'W'], model=AB, vx_mask=MN), {
        'first variable': req({'model': AB}, vals=['0']),
        'second variable': req({'model': AB, 'vx_mask': MN}, vals=['0'], var='W'),
        'one variable per axis': req({'model': AB}, indy='vx_mask', vals=MN, s2={'model': ['B']}, stats2=(T,), var2='W'),
        'independent mask': req({'model': ['B']}, stats=(T, M), indy='vx_mask', vals=['N', 'M']),
    }),
    'statistic': (grid(stat_name=[T, H], model=AB, fcst_lead=[0, 120000]), {
        'both': req({'model': AB}, stats=(T, H), vals=LEADS),
        'one': req({'model': AB}, stats=(H,), vals=LEADS),
        'one per axis': req({'model': AB}, vals=['0'], s2={'model': AB}, stats2=(H,), var2='V'),
        'absent': req({'model': AB}, stats=(M,), vals=['0']),
    }),
    'numbers as names': (grid(model=['1', '22'], vx_mask=['0.5', '1.5'], fcst_lead=[0, 120000]), {
        'series': req({'model': ['1', '22'], 'vx_mask': ['0.5', '1.5']}, vals=LEADS),
        'independent': req({'model': ['22', '1']}, indy='vx_mask', vals=['1.5', '0.5']),
    }),
    'numbers among names': (grid(model=['7', 'A'], vx_mask=['0.5', 'N'], fcst_lead=[0, 120000]), {
        'series': req({'model': ['7', 'A'], 'vx_mask': ['N', '0.5']}, vals=LEADS),
        'independent': req({'model': ['A', '7']}, indy='vx_mask', vals=['0.5', 'N']),
    }),
    'names of statistics': (grid(model=[T, H], vx_mask=[M, 'N'], stat_name=[T, H]), {
        'series': req({'model': [T, H]}, stats=(T, H), vals=['0']),
        'series and independent': req({'model': [H, T]}, stats=(H, T), indy='vx_mask', vals=[M, 'N']),
    }),
    'thresholds': (grid(fcst_thresh=['>0', '>=0', '>0&&<5', '==1'], fcst_lev=['P500', 'P500-400']), {
        'series': req({'fcst_thresh': ['>0', '>=0', '>0&&<5', '==1']}, vals=['0']),
        'independent': req({'fcst_lev': ['P500-400', 'P500']}, indy='fcst_thresh', vals=['==1', '>=0', '>0']),
    }),
}


def build(space, picks):
    out = []
    for i, (c, n) in enumerate(zip(SPACES[space][0], picks)):
        for k in range(n):
            w = 4 ** i
            out.append(dict(c, total=3 * w, fy_oy=w, fy_on=0, fn_oy=2 * w, fn_on=0))
    return out


def wanted_points(space, recs, r):
    """Multiset of the rows the request stands for."""
    out = []
    for axis in '12':
        series = r['series_val_' + axis]
        if axis == '2' and not series:
            continue
        fields = list(series) + ([r['indy_var']] if r['indy_vals'] else [])
        values = list(series.values()) + ([r['indy_vals']] if r['indy_vals'] else [])
        var = next(iter(r['fcst_var_val_' + axis]), None)
        for combo in itertools.product(*values, r['list_stat_' + axis]):
            stat = combo[-1]
            used = [x for x in recs if all(str(x[f]) == v for f, v in zip(fields, combo))
                    and (var is None or x['fcst_var'] == var)
                    and (x['stat_name'] is None or x['stat_name'] == stat)]
            row = dict(zip(fields, combo), stat_name=stat)
            if var is not None:
                row['fcst_var'] = var
            out.append((tuple(sorted(row.items())), sum(x[COLUMN[stat]] for x in used) if used else None, len(used)))
    return sorted(out, key=repr)


def seen_points(rows):
    out = []
    for row in rows:
        keys = {k: v for k, v in row.items() if k not in ('stat_value', 'stat_btcl', 'stat_btcu', 'nstats')
                and v not in ('', 'NA')}
        n = number(row['nstats'])
        out.append((tuple(sorted(keys.items())), number(row['stat_value']), None if n is None else int(n)))
    return sorted(out, key=repr)


def worker(rec, item):
    space, label, part = item
    request = SPACES[space][1][label]
    inp, out = os.path.join(rec.dir, 'in.data'), os.path.join(rec.dir, 'out.data')
    for picks, how in part:
        recs = build(space, picks)
        recs = recs[::-1] if how else recs
        fields = [f for f in FIELDS if not (f == 'stat_name' and not SPACES[space][0][0]['stat_name'])]
        write_table(inp, fields + NUMBERS, [[x[c] for c in fields + NUMBERS] for x in recs])
        exp = wanted_points(space, recs, request)
        rec.state((space, label, picks, how), depth=sum(picks))
        rec.transition()
        rec.trace(len(exp))
        rec.outcome((space, label, repr(exp)))
        try:
            _, rows = run_aggstat(base_params(inp, out, **dict({k: (dict(v) if isinstance(v, dict) else list(v) if
                                                                    isinstance(v, list) else v) for k, v in request.items()})))
            got = seen_points(rows)
        except Exception as err:  # noqa
            got = Raised(err)
        if got != exp:
            lost = got if isinstance(got, Raised) else [e for e in exp if e not in got]
            rec.violation('job %s / %s: missing or wrong %r, instead %r' % (
                space, label, lost, '' if isinstance(got, Raised) else [g for g in got if g not in exp]),
                {'request': request, 'records': recs, 'got': repr(got), 'expected': exp})
    rec.sample({'space': space, 'request': request, 'records': build(space, part[-1][0])[:2]})


def explore(check):
    items = []
    for space, (cells, requests) in SPACES.items():
        for label in requests:
            work = [(p, 0) for p in subsets(len(cells)) if sum(p)]
            if check.thorough:
                work += [(p, 1) for p in subsets(len(cells)) if sum(p)]
            else:
                work += [(p, 1) for p in subsets(len(cells)) if sum(p) in (2, 8)]
            # two lines of one cell
            work += [(tuple(2 if i == j else 1 for i in range(len(cells))), 0) for j in range(len(cells))]
            items += [(space, label, b) for b in batches(work, 40)]
    check.bounds = {'cells per space': 8, 'spaces': len(SPACES), 'requests': sum(len(v[1]) for v in SPACES.values())}
    check.run(worker, items, chunk=1)
