"""A10: an object job gives every requested point the statistic of exactly the (equalized) objects it selects."""
import itertools
import os

from mc.aggdrv import base_params, number, quiet, read_table, write_table
from mc.eqz import TIMES, subsets, ungroup
from mc.spaces import batches
from mc.statrun import Raised

FIELDS = ['model', 'vx_mask', 'fcst_lead', 'fcst_valid', 'fcst_var', 'object_id', 'object_type', 'fcst_flag', 'simple_flag',
          'matched_flag', 'area']
AREA, COUNT = 'OBJAMISSES', 'OBJMISSES'


def grid(**axes):
    base = {'model': 'A', 'vx_mask': 'M', 'fcst_lead': 0, 'fcst_valid': TIMES[0], 'fcst_var': 'V'}
    return [dict(base, **dict(zip(axes, c))) for c in itertools.product(*axes.values())]


def req(s1=None, stats=(AREA,), indy='fcst_lead', vals=('0',), var='V', s2=None, stats2=(), var2='V'):
    return {'series_val_1': {'model': ['A', 'B']} if s1 is None else s1, 'list_stat_1': list(stats), 'indy_var': indy,
            'indy_vals': list(vals), 'fcst_var_val_1': {var: list(stats)} if var else {}, 'series_val_2': s2 or {},
            'list_stat_2': list(stats2), 'fcst_var_val_2': {var2: list(stats2)} if s2 else {}}


AB, MN, LEADS = ['A', 'B'], ['M', 'N'], ['0', '120000']
SPACES = {
    'model, lead and day': (grid(model=AB, fcst_lead=[0, 120000], fcst_valid=TIMES[:2]), {
        'two models, two leads': req(vals=LEADS),
        'out of order': req({'model': ['B', 'A']}, vals=LEADS[::-1]),
        'two statistics': req(stats=(COUNT, AREA), vals=LEADS),
        'absent values': req({'model': ['C', 'B']}, vals=['60000', '0']),
        'group': req({'model': ['A:B', 'A']}),
        'summed group': req({'model': ['B', 'B;A']}),
        'dates': req(indy='fcst_valid', vals=TIMES[:2]),
        'model': req({'fcst_lead': LEADS}, indy='model', vals=AB),
        'two axes': req({'model': ['A']}, vals=LEADS, s2={'model': ['B', 'A']}, stats2=(COUNT, AREA)),
        'other fields on axis 2': req(s2={'fcst_valid': TIMES[:2]}, stats2=(AREA,)),
        'two fields': req({'model': AB, 'fcst_valid': TIMES[1::-1]}, vals=LEADS),
        'group of days': req({'fcst_valid': [TIMES[0] + ':' + TIMES[1], TIMES[1]], 'model': ['B']}, vals=LEADS),
    }),
    'variable': (grid(fcst_var=['V', 'W'], model=AB, vx_mask=MN), {
        'first variable': req(),
        'second variable': req({'model': AB, 'vx_mask': MN}, var='W'),
        'one variable per axis': req(indy='vx_mask', vals=MN, s2={'model': ['B']}, stats2=(AREA,), var2='W'),
        'two fields with groups': req({'model': ['A:B', 'B'], 'vx_mask': ['N', 'N;M']}),
        'no variable': req(var=None),
    }),
    'numbers': (grid(model=['1', '22'], vx_mask=['0.5', '1.5'], fcst_valid=TIMES[:2]), {
        'series': req({'model': ['22', '1'], 'vx_mask': ['0.5', '1.5']}),
        'group': req({'model': ['1:22', '1'], 'vx_mask': ['1.5;0.5']}),
        'independent': req({'model': ['1', '22']}, indy='vx_mask', vals=['1.5', '0.5']),
    }),
    'numbers among names': (grid(model=['7', 'A'], vx_mask=['0.5', 'N'], fcst_valid=TIMES[:2]), {
        'series': req({'model': ['7', 'A'], 'vx_mask': ['N', '0.5']}),
        'group': req({'model': ['A:7']}, indy='vx_mask', vals=['N', '0.5']),
    }),
}
# reference cases a job equalizes against: (variable, day, lead)
REFERENCE = {'model, lead and day': [('V', 0, 0), ('V', 1, 0), ('V', 0, 120000), ('W', 1, 120000)],
             'variable': [('V', 0, 0), ('W', 0, 0), ('V', 1, 0)]}


def table(space, picks):
    out = []
    for i, (c, n) in enumerate(zip(SPACES[space][0], picks)):
        for k in range(n):
            # numbers of objects start anew in every case
            out.append(dict(c, key=(i, k), object_id='F%03d' % (k + 1), object_type='2d', fcst_flag=0, simple_flag=1, matched_flag=0,
                            area=4 ** i))
    return out


def chosen(x, wanted):
    return all(str(x[f]) in ungroup(v) for f, v in wanted.items())


def kept(objs, refs, request):
    """What equalization against the reference cases leaves."""
    ids = set()
    for axis in '12':
        series = request['series_val_' + axis]
        if not series:
            continue
        for var in request['fcst_var_val_' + axis]:
            fits = lambda x: x['fcst_var'] == var and all(any(chosen(x, {f: v}) for v in vs) for f, vs in series.items())  # noqa
            cases = {(r['fcst_valid'], r['fcst_lead']) for r in refs if fits(r)}
            ids |= {x['key'] for x in objs if fits(x) and (x['fcst_valid'], x['fcst_lead']) in cases}
    return [x for x in objs if x['key'] in ids]


def points(objs, request):
    out = []
    for axis in '12':
        series = request['series_val_' + axis]
        if not series:
            continue
        var = next(iter(request['fcst_var_val_' + axis]), None)
        for combo in itertools.product(*series.values(), request['indy_vals'], request['list_stat_' + axis]):
            wanted = dict(zip(list(series) + [request['indy_var']], combo))
            used = [x for x in objs if chosen(x, {f: v for f, v in wanted.items() if f != request['indy_var']})
                    and str(x[request['indy_var']]) == wanted[request['indy_var']]
                    and (var is None or x['fcst_var'] == var)]
            value = len(used) if combo[-1] == COUNT else sum(x['area'] for x in used)
            row = dict(wanted, stat_name=combo[-1])
            if var is not None:
                row['fcst_var'] = var
            out.append((tuple(sorted(row.items())), value, len(used)))
    return sorted(out)


def seen(rows):
    out = []
    for row in rows:
        keys = {k: v for k, v in row.items() if k not in ('stat_value', 'stat_btcl', 'stat_btcu', 'nstats')
                and v not in ('', 'NA')}
        # the total over no objects may be zero or no value
        out.append((tuple(sorted(keys.items())), number(row['stat_value']) or 0, int(number(row['nstats']) or 0)))
    return sorted(out)


def worker(rec, item):
    from metcalcpy.agg_stat_bootstrap import AggStatBootstrap
    space, label, part = item
    request = SPACES[space][1][label]
    inp, ee, out = (os.path.join(rec.dir, n) for n in ('in.data', 'ee.data', 'out.data'))
    for picks, refs, iterations in part:
        objs = table(space, picks)
        write_table(inp, FIELDS, [[x[c] for c in FIELDS] for x in objs])
        left, more = objs, {}
        if refs is not None:
            cases = [dict(c, fcst_var=v, fcst_valid=TIMES[d], fcst_lead=lead) for c in (
                {'model': 'A', 'vx_mask': 'M'}, {'model': 'B', 'vx_mask': 'N'}) for (v, d, lead), n in zip(REFERENCE[space], refs) if n]
            names = ['model', 'vx_mask', 'fcst_lead', 'fcst_valid', 'fcst_var']
            write_table(ee, names + ['equalize'], [[c[n] for n in names] + ['%s %s' % (c['fcst_valid'], c['fcst_lead'])] for c in cases])
            left = kept(objs, cases, request)
            more = {'event_equal': 'True', 'agg_stat_input_ee': ee}
        exp = points(left, request)
        rec.state((space, label, picks, refs, iterations), depth=sum(picks))
        rec.transition()
        rec.trace(len(exp))
        rec.outcome((space, label, repr(exp)))
        params = base_params(inp, out, num_iterations=iterations, **dict({k: (
            dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in request.items()}, **more))
        try:
            if os.path.exists(out):
                os.unlink(out)
            with quiet():
                AggStatBootstrap(params).calculate_values()
            got = seen(read_table(out)[1])
        except Exception as err:  # noqa
            got = Raised(err)
        if refs is not None and not left and got == []:
            continue
        if got != exp:
            rec.violation('object job %s / %s, %d iterations, reference cases %r: missing or wrong %r, instead %r' % (
                space, label, iterations, refs, got if isinstance(got, Raised) else [e for e in exp if e not in got],
                '' if isinstance(got, Raised) else [g for g in got if g not in exp]),
                {'request': request, 'objects': objs, 'reference': refs, 'iterations': iterations, 'got': repr(got), 'expected': exp})
    rec.sample({'space': space, 'request': request, 'objects': table(space, part[-1][0])[:2]})


def explore(check):
    items = []
    for space, (cells, requests) in SPACES.items():
        for label, request in requests.items():
            work = [(p, None, it) for p in subsets(len(cells)) if sum(p) for it in ((1, 2) if sum(p) < 4 or check.thorough else (1,))]
            work += [(tuple(3 if i == j else 1 for i in range(len(cells))), None, it) for j in range(len(cells)) for it in (1, 2)]
            if space in REFERENCE and request['fcst_var_val_1']:
                for refs in itertools.product((0, 1), repeat=len(REFERENCE[space])):
                    work += [(p, refs, 1) for p in subsets(len(cells)) if sum(p) and (sum(p) < 3 or sum(p) > 6 or check.thorough)]
            items += [(space, label, b) for b in batches(work, 40)]
    check.bounds = {'cells per space': 8, 'spaces': len(SPACES), 'requests': sum(len(v[1]) for v in SPACES.values())}
    check.preload = ['metcalcpy.agg_stat_bootstrap']
    check.run(worker, items, chunk=1)
