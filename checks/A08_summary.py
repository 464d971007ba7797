"""A08: the summary job gives every line, and every ';' group of lines of one case, its statistic."""
import itertools
import os

from mc.aggdrv import base_params, number, quiet, read_table, write_table
from mc.eqz import TIMES
from mc.expect import NONE, is_none, val
from mc.registry import entries
from mc.spaces import batches
from mc.statrun import Raised, ok, through_job

FIELDS = ['model', 'vx_mask', 'fcst_lead', 'fcst_valid_beg', 'fcst_init_beg', 'fcst_var', 'stat_name', 'stat_value']
NAMES = {'nbr_cnt': 'nbrcnt', 'nbr_ctc': 'nbrctc'}
TYPES = ('ctc', 'nbr_ctc', 'sl1l2', 'sal1l2', 'vl1l2', 'val1l2', 'grad', 'nbr_cnt', 'rps', 'ecnt', 'pct')
SUMMED = TYPES[:-1]
MASKS = ('M', 'N', '7')
LEADS = ('0', '120000')
REQUESTS = {
    'no group': ({'model': ['A'], 'vx_mask': list(MASKS)}, 'fcst_lead', list(LEADS)),
    'no independent values': ({'model': ['A'], 'vx_mask': ['M;N']}, 'fcst_lead', []),
    'group': ({'vx_mask': ['M;N']}, 'fcst_lead', list(LEADS)),
    'group and the rest': ({'model': ['A'], 'vx_mask': ['N;M', '7']}, 'fcst_lead', list(LEADS)),
    'group and its member': ({'vx_mask': ['M', 'M;N'], 'model': ['A']}, 'fcst_lead', list(LEADS)),
    'overlapping groups': ({'vx_mask': ['M;N', 'N;7']}, 'fcst_lead', list(LEADS)),
    'group with an absent member': ({'vx_mask': ['M;Q', 'N']}, 'fcst_lead', list(LEADS)),
    'everything': ({'vx_mask': ['7;N;M']}, 'fcst_lead', list(LEADS)),
    'independent group': ({'model': ['A']}, 'vx_mask', ['M;N', '7']),
    'group with dates': ({'vx_mask': ['M;N']}, 'fcst_valid_beg', TIMES[:2]),
    'group of leads': ({'model': ['A'], 'vx_mask': list(MASKS)}, 'fcst_lead', ['0;120000']),
    'series groups of leads': ({'fcst_lead': ['0;120000'], 'model': ['A']}, 'vx_mask', list(MASKS)),
    'group on axis 2': ({'vx_mask': ['7']}, 'fcst_lead', list(LEADS), {'vx_mask': ['M;N']}),
    'groups on both axes': ({'vx_mask': ['M;N']}, 'fcst_lead', list(LEADS), {'vx_mask': ['M;N', '7']}),
    'overlapping groups of the axes': ({'vx_mask': ['M;N']}, 'fcst_lead', list(LEADS), {'vx_mask': ['N;7']}),
    'group on axis 1, member on axis 2': ({'vx_mask': ['M;N']}, 'fcst_lead', list(LEADS), {'vx_mask': ['M', '7']}),
    'member on axis 1, group on axis 2': ({'vx_mask': ['N', 'M']}, 'fcst_lead', list(LEADS), {'vx_mask': ['7', 'N;M']}),
    'only axis 2': ({}, 'fcst_lead', list(LEADS), {'vx_mask': ['M;N', '7']}),
    'independent group of both axes': ({'fcst_lead': ['0']}, 'vx_mask', ['M;N'], {'fcst_lead': ['120000']}),
}
CELLS = [dict(model='A', vx_mask=m, fcst_lead=l, fcst_valid_beg=t, fcst_init_beg=t, fcst_var='V')
         for m in MASKS for l in LEADS for t in TIMES[:2]]
# the same for another variable
CELLS += [dict(c, fcst_var='W') for c in CELLS]
ENTRIES, SINGLE = {}, {}


def points(request):
    """The different combinations of values the axes ask for."""
    indy, vals = request[1:3]
    out = []
    for series in (request[0],) + request[3:]:
        asked = dict(series)
        if asked and vals:
            asked[indy] = vals
        if asked:
            out += [want for want in (dict(zip(asked, c)) for c in itertools.product(*asked.values())) if want not in out]
    return out


def expected(request, placed, stats):
    """Multiset of (mask, lead, time and variable, stat, line indexes) the request stands for."""
    out, single = [], set()
    for want in points(request):
        here = [(i, c) for i, c in enumerate(placed) if all(c[f] in v.split(';') for f, v in want.items())]
        groups = {f: v for f, v in want.items() if ';' in v}
        cases = {}
        for i, c in here:
            key = tuple((f, groups.get(f, c[f])) for f in ('vx_mask', 'fcst_lead', 'fcst_valid_beg', 'fcst_var'))
            if not groups:
                if i in single:
                    continue
                single.add(i)
                key += (i,)
            cases.setdefault(key, []).append(i)
        for key, members in cases.items():
            d = dict(key[:4])
            # the lead of a group is named after its first member
            out += [(d['vx_mask'], d['fcst_lead'].split(';')[0], d['fcst_valid_beg'] + ' ' + d['fcst_var'], s, tuple(members))
                    for s in stats]
    return out


def place(row):
    return row['vx_mask'], row['fcst_lead'].split('.')[0], row['fcst_valid_beg'] + ' ' + row['fcst_var']


def matches(row, request):
    """Lines asked for, and lines that their groups replace; others are left alone."""
    return any(all(row[f] == v or row[f] in v.split(';') for f, v in want.items()) for want in points(request))


def worker(rec, item):
    name, label, part = item
    from metcalcpy.sum_stat import SumStat
    e, request = ENTRIES[name], REQUESTS[label]
    inp, out = os.path.join(rec.dir, 'in.data'), os.path.join(rec.dir, 'out.data')
    for cells, lines, stats in part:
        placed = [CELLS[c] for c in cells]
        rows = [[c[f] for f in FIELDS[:6]] + [s.upper(), 0.5] + list(e.rows[i]) for s in stats for c, i in zip(placed, lines)]
        write_table(inp, FIELDS + e.columns, rows)
        before = open(inp).read()
        exp = expected(request, placed, stats)
        exp = [x[:4] + (tuple(lines[i] for i in x[4]),) for x in exp]
        series, indy, vals = request[:3]
        second = request[3] if len(request) > 3 else {}
        params = base_params(inp, out, line_type=NAMES.get(name, name), sum_stat_input=inp, sum_stat_output=out,
                             series_val_1={k: list(v) for k, v in series.items()}, series_val_2={k: list(v) for k, v in second.items()},
                             indy_var=indy, indy_vals=list(vals),
                             list_stat_1=[s.upper() for s in stats])
        rec.state((name, label, cells, lines, stats), depth=len(cells))
        rec.transition()
        try:
            with quiet():
                SumStat(params).calculate_stats()
            got = [r for r in read_table(out)[1] if matches(r, request)]
        except Exception as err:  # noqa
            got = Raised(err)
        shape = sorted(x[:4] for x in exp)
        if isinstance(got, Raised) or sorted(place(r) + (r['stat_name'].lower(),) for r in got) != shape:
            rec.trace()
            rec.violation('summary of %s lines, %s: got %r, expected the lines %r' % (name, label, got, shape),
                          {'line_type': name, 'request': request, 'rows': rows, 'got': repr(got), 'expected': shape})
            continue
        for want in set(x[:4] for x in exp):
            values = [number(r['stat_value']) for r in got if place(r) + (r['stat_name'].lower(),) == want]
            sets = [x[4] for x in exp if x[:4] == want]
            rec.trace(len(sets))
            for ix in sets:
                x = value_of(name, ix, want[3])
                rec.outcome((name, want[3], repr(x)))
                hit = [v for v in values if ok(v, x)]
                if hit:
                    values.remove(hit[0])
                else:
                    rec.violation('summary of %s lines, %s: %s of %s is %r, expected %r of lines %r' % (
                        name, label, want[3], want[:3], values, x, ix),
                        {'line_type': name, 'request': request, 'rows': rows, 'got': repr(values), 'expected': repr(x)})
        if open(inp).read() != before:
            rec.violation('the summary job changed its input', {'request': request})
    rec.sample({'line_type': name, 'request': request, 'cells': part[-1][0], 'statistics': part[-1][2]})


EQ_REQUESTS = {
    'models': ({'model': ['A', 'B']}, 'fcst_lead', ['0']),
    'models of a mask': ({'model': ['B', 'A'], 'vx_mask': ['M']}, 'fcst_lead', ['0']),
    'group': ({'vx_mask': ['M;N']}, 'fcst_lead', ['0']),
    'groups of models': ({'model': ['A', 'B'], 'vx_mask': ['M;N']}, 'fcst_lead', ['0']),
    'mask on each axis': ({'model': ['A', 'B'], 'vx_mask': ['M']}, 'fcst_lead', ['0'], {'model': ['A', 'B'], 'vx_mask': ['N']}),
}
EQ_CELLS = [dict(model=a, vx_mask=m, fcst_lead='0', fcst_valid_beg=t, fcst_init_beg=t, fcst_var='V')
            for a in 'AB' for m in 'MN' for t in TIMES[:2]]


def equalized(rec, item):
    """With event equalization only the lines of times that every series has are summarized."""
    label, part = item
    from metcalcpy.sum_stat import SumStat
    e, request = ENTRIES['ctc'], EQ_REQUESTS[label]
    inp, out = os.path.join(rec.dir, 'in.data'), os.path.join(rec.dir, 'out.data')
    for picks in part:
        placed = [c for c, n in zip(EQ_CELLS, picks) if n]
        lines = [i % len(e.rows) for i in range(len(placed))]
        kept = None
        for series in (request[0],) + request[3:]:
            asked = [[x for v in vals for x in v.split(';')] for vals in series.values()]
            for combo in itertools.product(*asked):
                times = {c['fcst_valid_beg'] for c in placed if all(c[f] == v for f, v in zip(series, combo))}
                kept = times if kept is None else kept & times
        used = [i for i, c in enumerate(placed) if c['fcst_valid_beg'] in kept]
        exp = [x[:3] + (value_of('ctc', tuple(lines[used[k]] for k in x[4]), 'baser').value,)
               for x in expected(request, [placed[i] for i in used], ('baser',))]
        write_table(inp, FIELDS + e.columns, [[c[f] for f in FIELDS[:6]] + ['BASER', 0.5] + list(e.rows[i])
                                              for c, i in zip(placed, lines)])
        second = request[3] if len(request) > 3 else {}
        params = base_params(inp, out, sum_stat_input=inp, sum_stat_output=out, line_type='ctc', event_equal='True',
                             series_val_1={k: list(v) for k, v in request[0].items()},
                             series_val_2={k: list(v) for k, v in second.items()},
                             indy_var=request[1], indy_vals=list(request[2]), list_stat_1=['BASER'],
                             fcst_var_val_1={'V': ['BASER']}, fcst_var_val_2={'V': ['BASER']} if second else {})
        rec.state(('equalized', label, picks), depth=sum(picks))
        rec.transition()
        rec.trace()
        try:
            with quiet():
                SumStat(params).calculate_stats()
            got = sorted(place(r) + (round(number(r['stat_value']), 5),)
                         for r in (read_table(out)[1] if os.path.getsize(out) > 5 else []) if matches(r, request))
        except Exception as err:  # noqa
            got = Raised(err)
        exp = sorted(x[:3] + (round(x[3], 5),) for x in exp)
        rec.outcome((label, exp))
        if isinstance(got, Raised) or got != exp:
            rec.violation('equalized summary, %s: got %r, expected %r' % (label, got, exp),
                          {'request': request, 'lines': placed, 'got': repr(got), 'expected': exp})


def value_of(name, ix, stat):
    e = ENTRIES[name]
    if e.oracle:
        return e.oracle(ix)[stat]
    return SINGLE[name, ix[0], stat]


def explore(check):
    ENTRIES.update({e.line_type: e for e in entries() if e.line_type in TYPES})
    check.preload = ['metcalcpy.agg_stat', 'metcalcpy.sum_stat']

    class Here:
        dir = check.scratch
    # lines that cannot be summed: what the aggregation job makes of the single line
    e = ENTRIES['pct']
    for (i, s), v in through_job(Here, 'pct', e.columns, [[r] for r in e.rows], e.names).items():
        SINGLE['pct', i, s] = v if isinstance(v, Raised) else NONE if is_none(v) else val(v)
    items = []
    n = len(CELLS) // 2
    for name, e in ENTRIES.items():
        few = (e.names[0], e.names[-1]) if name != 'ctc' else ('ctc_fy_oy', 'far')
        for label in REQUESTS:
            if name not in SUMMED and label != 'no group':
                continue
            work = [((i,), (0,), few) for i in range(n)]
            work += [(p, (0, 1), few) for p in itertools.product(range(n), repeat=2)
                     if check.thorough or name == 'ctc' or p[0] == 0]
            if name == 'ctc' or check.thorough:
                work += [(p, (0, 1, 2), few) for p in itertools.combinations_with_replacement(range(n), 3)]
            # one statistic, and lines of two variables
            work += [((0,), (0,), few[:1])] + [((0, i), (0, 1), few[:1]) for i in range(2 * n)]
            work += [((0, 4, n) + p, (0, 1, 2, 0)[:3 + len(p)], few[:1]) for p in ((), (n + 4,), (n + 8,))]
            # three masks of one case, two of one case and another, and all cells
            for p in ((0, 4, 8), (0, 4, 5), (0, 5, 8), (0, 1, 2)):
                work += [(p, o, tuple(e.names)) for o in ((0, 1, 2), (2, 0, 1))]
            work.append((tuple(range(n)), tuple(i % 3 for i in range(n)), few))
            items += [(name, label, b) for b in batches(work, 40)]
    check.bounds = {'cells': n, 'lines': 'up to 3, and one in every cell', 'requests': len(REQUESTS), 'line types': len(TYPES)}
    check.run(worker, items, chunk=1)
    picks = list(itertools.product((0, 1), repeat=len(EQ_CELLS)))[1:]
    check.run(equalized, [(label, b) for label in EQ_REQUESTS for b in batches(picks, 20)], chunk=1)
