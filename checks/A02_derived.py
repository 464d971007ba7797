"""A02: derived curves combine exactly the two curves they name."""
import itertools
import math
import os

import numpy as np
from scipy import stats as dist

from checks.A03_replicates import Draws
from mc.aggdrv import base_params, number, run_aggstat, write_table
from mc.eqz import TIMES, subsets, ungroup
from mc.registry import entries
from mc.spaces import batches
from mc.statrun import Raised

T, H, M, F = 'CTC_TOTAL', 'CTC_FY_OY', 'CTC_FN_OY', 'FAR'
FIELDS = ['model', 'vx_mask', 'fcst_lev', 'obtype', 'fcst_lead', 'fcst_valid_beg', 'fcst_init_beg', 'fcst_var', 'stat_name']
NUMBERS = ['total', 'fy_oy', 'fy_on', 'fn_oy', 'fn_on']
SIGN = {'DIFF': '-', 'RATIO': '/', 'SS': ' and ', 'SINGLE': '-'}
LEADS = ['0', '120000']
ENTRIES = {}


def grid(**axes):
    base = {'model': 'A', 'vx_mask': 'M', 'fcst_lev': 'L', 'obtype': 'O', 'fcst_lead': '0', 'fcst_valid_beg': TIMES[0], 'fcst_init_beg': TIMES[0],
            'fcst_var': 'V'}
    return [dict(base, **dict(zip(axes, c))) for c in itertools.product(*axes.values())]


def req(series, derived, stats=(T, H), indy='fcst_lead', vals=('0',), **more):
    return dict({'series_val_1': series, 'derived_series_1': [list(d) for d in derived], 'list_stat_1': list(stats),
                 'indy_var': indy, 'indy_vals': list(vals), 'fcst_var_val_1': {'V': list(stats)}}, **more)


def each(a, b):
    return [(a, b, op) for op in SIGN]


AB, MN = ['A', 'B-1.2'], ['M', 'N']
SPACES = {
    'model': (grid(model=AB, fcst_lead=LEADS, fcst_valid_beg=TIMES[:2]), {
        'total': req({'model': AB}, each('A V ' + T, 'B-1.2 V ' + T), vals=LEADS),
        'reversed': req({'model': AB}, each('B-1.2 V ' + H, 'A V ' + H), vals=LEADS[::-1]),
        'false alarms': req({'model': AB}, each('A V ' + F, 'B-1.2 V ' + F), stats=(F,)),
        'two statistics': req({'model': AB}, each('A V ' + T, 'A V ' + H) + each('B-1.2 V ' + T, 'A V ' + H), vals=LEADS[:1]),
        'no independent values': req({'model': AB}, each('A V ' + T, 'B-1.2 V ' + T), vals=()),
        'itself': req({'model': AB}, each('A V ' + T, 'A V ' + T)),
        'second axis': req({'model': AB}, [('A V ' + T, 'B-1.2 V ' + T, 'DIFF')], series_val_2={'model': AB[::-1]},
                           list_stat_2=[H], fcst_var_val_2={'V': [H]}, derived_series_2=[['B-1.2 V ' + H, 'A V ' + H, 'RATIO']],
                           vals=LEADS),
        'dates': req({'model': AB}, each('A V ' + T, 'B-1.2 V ' + T), indy='fcst_valid_beg', vals=TIMES[:2]),
    }),
    'model and mask': (grid(model=AB, vx_mask=MN, fcst_lead=LEADS), {
        'models': req({'model': AB, 'vx_mask': MN}, each('A M V ' + T, 'B-1.2 M V ' + T) + each('A N V ' + T, 'B-1.2 N V ' + T)),
        'masks': req({'model': AB, 'vx_mask': MN}, each('A M V ' + H, 'A N V ' + H)),
        'both': req({'model': AB, 'vx_mask': MN}, each('A M V ' + T, 'B-1.2 N V ' + T), vals=LEADS),
        'both, masks first': req({'vx_mask': MN, 'model': AB}, each('N A V ' + T, 'M B-1.2 V ' + T), vals=LEADS),
        'three curves': req({'model': AB, 'vx_mask': MN}, [('A M V ' + T, 'A N V ' + T, 'DIFF'), ('B-1.2 M V ' + T, 'A N V ' + T, 'SS'),
                                                           ('B-1.2 N V ' + T, 'A M V ' + T, 'RATIO')], vals=LEADS),
    }),
    # the members of a group have the same cases
    'groups': (grid(model=['A', 'B', 'C'], fcst_valid_beg=TIMES[:2], fcst_lead=LEADS), {
        'group first': req({'model': ['A:B', 'C']}, each('Group_y1_1 V ' + T, 'C V ' + T)),
        'group second': req({'model': ['C', 'A:B']}, each('C V ' + H, 'Group_y1_1 V ' + H)),
        'leads': req({'model': ['A', 'C']}, each('A V ' + H, 'C V ' + H), vals=('0:120000', '0')),
        'two groups': req({'model': ['A:B', 'C:A']}, each('Group_y1_2 V ' + H, 'Group_y1_1 V ' + H), vals=('120000:0',)),
        'groups on both axes': req({'model': ['A:B', 'C']}, [('C V ' + T, 'Group_y1_1 V ' + T, 'DIFF')],
                                   series_val_2={'model': ['B:C', 'A', 'C:A']}, list_stat_2=[H], fcst_var_val_2={'V': [H]},
                                   derived_series_2=[['Group_y2_1 V ' + H, 'A V ' + H, 'RATIO'],
                                                     ['Group_y2_2 V ' + H, 'Group_y2_1 V ' + H, 'DIFF']]),
    }),
    **{'groups of ' + field: (grid(**{'model': ['A', 'B'], field: ['P', 'Q'], 'fcst_valid_beg': TIMES[:2]}), {
        'two models': req({'model': ['A', 'B'], field: ['P:Q']}, each('A Group_y1_1 V ' + T, 'B Group_y1_1 V ' + T)),
        'group and member': req({'model': ['A'], field: ['Q', 'Q:P']}, each('A Group_y1_1 V ' + H, 'A Q V ' + H)),
        'group in front': req({field: ['P:Q', 'Q'], 'model': ['A', 'B']}, each('Group_y1_1 B V ' + T, 'Q B V ' + T)),
        'independent': req({'model': ['A', 'B']}, each('A V ' + H, 'B V ' + H), indy=field, vals=('P:Q', 'Q')),
    }) for field in ('vx_mask', 'fcst_lev', 'obtype')},
    'one name in two fields': (grid(model=['X', 'Y'], vx_mask=['X', 'Y'], fcst_valid_beg=TIMES[:2]), {
        'models': req({'model': ['X', 'Y'], 'vx_mask': ['X']}, each('X X V ' + T, 'Y X V ' + T)),
        'masks': req({'model': ['Y'], 'vx_mask': ['X', 'Y']}, each('Y X V ' + T, 'Y Y V ' + T)),
    }),
}


def build(space, picks, zero):
    out = []
    for i, (c, n) in enumerate(zip(SPACES[space][0], picks)):
        if n:
            w = 4 ** i
            hits = 0 if zero == i else w
            alarms = 0 if zero == i else i + 1
            out.append(dict(c, total=3 * w + hits, fy_oy=hits, fy_on=alarms, fn_oy=2 * w, fn_on=1))
    return out


def stat_of(recs, stat):
    if not recs:
        return None
    if stat == F:
        yes = sum(r['fy_oy'] + r['fy_on'] for r in recs)
        return sum(r['fy_on'] for r in recs) / yes if yes else None
    return sum(r[{T: 'total', H: 'fy_oy', M: 'fn_oy'}[stat]] for r in recs)


def bounds(op, a, b):
    """Smallest and largest result for operands rounded to 7 decimals, or None."""
    exact = combine(op, a, b)
    if exact is None:
        return None
    ends = [combine(op, a + da, b + db) for da in (-1e-7, 1e-7) for db in (-1e-7, 1e-7)]
    return min(ends) - 1e-5, max(ends) + 1e-5


def combine(op, a, b):
    if a is None or b is None:
        return None
    if op == 'DIFF':
        return a - b
    if op == 'RATIO':
        return a / b if b else None
    if op == 'SS':
        return (a - b) / a if a else None
    return a


def wanted(recs, r):
    """Rows of the derived curves: {(fields...): value}."""
    out = {}
    for axis in '12':
        series = r.get('series_val_' + axis, {})
        groups = [v for vals in series.values() for v in vals if ':' in v]
        for first, second, op in r.get('derived_series_' + axis, []):
            for iv in r['indy_vals'] or [None]:
                ends = []
                for side in (first, second):
                    parts = side.split(' ')
                    parts = [groups[int(p[-1]) - 1] if p.startswith('Group_') else p for p in parts]
                    want = dict(zip(series, parts))
                    here = [x for x in recs if all(x[f] in v.split(':') for f, v in want.items())
                            and (iv is None or x[r['indy_var']] in ungroup(iv))]
                    ends.append(stat_of(here, parts[-1]))
                out['%s(%s%s%s)' % (op, first, SIGN[op], second), iv, axis] = bounds(op, *ends)
    return out


def worker(rec, item):
    space, label, part = item
    r = SPACES[space][1][label]
    inp, out = os.path.join(rec.dir, 'in.data'), os.path.join(rec.dir, 'out.data')
    for picks, zero, iterations in part:
        recs = build(space, picks, zero)
        stats = sorted(set(r['list_stat_1']) | set(r.get('list_stat_2', [])))
        write_table(inp, FIELDS + NUMBERS, [[dict(x, stat_name=s)[c] for c in FIELDS + NUMBERS] for x in recs for s in stats])
        exp = wanted(recs, r)
        rec.state((space, label, picks, zero, iterations), depth=sum(picks))
        rec.transition()
        rec.trace(len(exp))
        rec.outcome((space, label, repr(exp)))
        try:
            over = {k: (dict(v) if isinstance(v, dict) else [list(d) if isinstance(d, list) else d for d in v]
                        if isinstance(v, list) else v) for k, v in r.items()}
            _, rows = run_aggstat(base_params(inp, out, num_iterations=iterations, **over))
            got = {}
            for row in rows:
                name = [v for v in row.values() if v.split('(')[0] in SIGN and '(' in v]
                if name:
                    axis = '2' if name[0] not in {k[0] for k in exp if k[2] == '1'} else '1'
                    key = (name[0], row[r['indy_var']] if r['indy_vals'] else None, axis)
                    got[key] = 'twice' if key in got else number(row['stat_value'])
        except Exception as err:  # noqa
            got = Raised(err)
        for key, want in exp.items():
            v = got if isinstance(got, Raised) else got.get(key, 'no row')
            good = v is None if want is None else isinstance(v, float) and want[0] <= v <= want[1]
            if not good:
                rec.violation('%s / %s at %s: got %r, expected %r' % (space, key[0], key[1], v, want),
                              {'request': r, 'records': recs, 'iterations': iterations, 'got': repr(v), 'expected': want})
        if not isinstance(got, Raised) and set(got) - set(exp):
            rec.violation('%s / %s: unrequested rows %r' % (space, label, set(got) - set(exp)), {'request': r})
    rec.sample({'space': space, 'request': r, 'records': build(space, part[-1][0], None)[:2]})


def every_statistic(rec, item):
    """Each statistic of each line type: the derived row against the rows of its two curves."""
    name, order, iterations = item
    e = ENTRIES[name]
    inp, out = os.path.join(rec.dir, 'in.data'), os.path.join(rec.dir, 'out.data')
    lines = {'A': e.rows[:2], 'B': [e.rows[i] for i in order]}
    stats = [s.upper() for s in e.names]
    rows = []
    for s in stats:
        for m, ls in lines.items():
            rows += [[m, 'M', 'L', 'O', '0', TIMES[k], TIMES[k], 'V', s] + list(line) for k, line in enumerate(ls)]
    write_table(inp, FIELDS + e.columns, rows)
    for s in stats:
        rec.state((name, order, iterations, s), depth=4)
        rec.transition()
        derived = [['A V ' + s, 'B V ' + s, op] for op in SIGN]
        try:
            _, got = run_aggstat(base_params(inp, out, line_type=name, num_iterations=iterations, series_val_1={'model': ['A', 'B']},
                                             list_stat_1=[s], indy_vals=['0'], fcst_var_val_1={'V': [s]},
                                             derived_series_1=derived))
            got = {r['model']: number(r['stat_value']) for r in got}
        except Exception as err:  # noqa
            rec.trace()
            rec.violation('derived curves of %s: %r' % (s, Raised(err)), {'line_type': name, 'stat': s, 'rows': rows})
            continue
        for op in SIGN:
            v = got.get('%s(A V %s%sB V %s)' % (op, s, SIGN[op], s), 'no row')
            want = bounds(op, got['A'], got['B'])
            rec.trace()
            rec.outcome((s, op, repr(want)))
            good = v is None if want is None else isinstance(v, float) and want[0] <= v <= want[1]
            # a denominator that is zero up to rounding may or may not give a value
            if op in ('RATIO', 'SS') and got['A' if op == 'SS' else 'B'] is not None \
                    and abs(got['A' if op == 'SS' else 'B']) < 1e-5:
                good = True
            if not good:
                rec.violation('%s of %s from %r and %r: got %r' % (op, s, got['A'], got['B'], v),
                              {'line_type': name, 'stat': s, 'lines': lines, 'iterations': iterations, 'got': repr(v)})


# hits, false alarms, misses, correct rejections
TABLES = ((6, 1, 2, 11), (3, 3, 4, 10), (8, 2, 0, 10))
PERFECT = {'FAR': 0, 'POFD': 0, 'CSI': 1, 'FBIAS': 1, 'ACC': 1, 'BASER': None, 'CTC_FY_OY': 'any'}


def score(stat, tables):
    hits, alarms, misses, rest = (sum(t[k] for t in tables) for k in range(4))
    n = hits + alarms + misses + rest
    return {'FAR': alarms / (hits + alarms), 'POFD': alarms / (alarms + rest), 'CSI': hits / (hits + alarms + misses),
            'FBIAS': (hits + alarms) / (hits + misses), 'ACC': (hits + rest) / n, 'BASER': (hits + misses) / n,
            'CTC_FY_OY': float(hits)}[stat]


def derived_row(rec, a, b, stat, op, iterations, times=None, fields=FIELDS, draws=None):
    """The row of one derived curve of the models A and B, or the exception."""
    inp, out = os.path.join(rec.dir, 'in.data'), os.path.join(rec.dir, 'out.data')
    rows = []
    for m, tables in (('A', a), ('B', b)):
        for k, (h, f, x, c) in enumerate(tables):
            t = times[k] if times else '2020-01-%02d 00:00:00' % (k + 1)
            r = dict(model=m, vx_mask='M', fcst_lev='L', obtype='O', fcst_lead='0', fcst_var='V', stat_name=stat, total=h + f + x + c,
                     fcst_valid_beg=t, fcst_init_beg=t, fcst_valid=t, fcst_init=t, fy_oy=h, fy_on=f, fn_oy=x, fn_on=c)
            rows.append([r[c] for c in fields + NUMBERS])
    write_table(inp, fields + NUMBERS, rows)
    params = base_params(inp, out, series_val_1={'model': ['A', 'B']}, indy_vals=['0'], list_stat_1=[stat],
                         fcst_var_val_1={'V': [stat]}, derived_series_1=[['A V ' + stat, 'B V ' + stat, op]],
                         num_iterations=iterations)
    try:
        if draws:
            with draws:
                _, got = run_aggstat(params)
        else:
            _, got = run_aggstat(params)
        got = [r for r in got if r['model'].startswith(op + '(')]
    except (Exception, SystemExit) as err:  # noqa
        return Raised(err)
    return tuple(number(got[0][c]) for c in ('stat_value', 'stat_btcl', 'stat_btcu')) if len(got) == 1 else got


def significance(rec, item):
    """DIFF_SIG: the share of replicates within the difference of the mean, signed by the distance to a perfect score."""
    stat, n, pairs = item
    tuples = list(itertools.product(range(n), repeat=n))
    for a, b in pairs:
        a, b = [TABLES[i] for i in a], [TABLES[i] for i in b]
        draws = Draws(n)
        got = derived_row(rec, a, b, stat, 'DIFF_SIG', len(tuples), draws=draws)
        rec.state((stat, a, b), depth=n)
        rec.transition(len(tuples))
        rec.trace()
        first, second = score(stat, a), score(stat, b)
        reps = np.array([score(stat, [a[i] for i in t]) - score(stat, [b[i] for i in t]) for t in tuples])
        off = np.abs(reps - reps.mean())
        sign, perfect = 1, PERFECT[stat]
        if perfect in (0, 1):
            near = abs(abs(first - perfect) - abs(second - perfect)) < 1e-9
            sign = (1, -1) if near else -1 if abs(first - perfect) > abs(second - perfect) else 1
        signs = sign if isinstance(sign, tuple) else (sign,)
        if perfect is None:
            want, good = 'no value', not isinstance(got, (Raised, list)) and got[0] is None
        else:
            # differences that are equal up to rounding may be on either side
            low, high = (off < abs(first - second) - 1e-5).mean(), (off <= abs(first - second) + 1e-5).mean()
            if a == b:
                # no rounding: the curves and all their replicates are the same
                low = high = 1
            elif not draws.whole:
                low, high = 0, 1
                rec.count('draws_not_owned')
            want = (signs, low, high)
            good = not isinstance(got, (Raised, list)) and got[0] is not None and low - 1e-5 <= abs(got[0]) <= high + 1e-5 \
                and (got[0] == 0 or math.copysign(1, got[0]) in signs)
        rec.outcome((stat, repr(want)))
        if not good:
            rec.violation('significance of the difference of %s of %r and %r: got %r, expected %r' % (stat, a, b, got, want),
                          {'stat': stat, 'first': a, 'second': b, 'got': repr(got), 'expected': repr(want)})


def equivalence(rec, item):
    """ETB: mean difference of the paired statistics with the confidence limits of the equivalence test."""
    stat, pairs = item
    for a, b in pairs:
        n = len(a)
        tables = [[TABLES[i] for i in x] for x in (a, b)]
        got = derived_row(rec, tables[0], tables[1], stat, 'ETB', 3)
        x, y = ([score(stat, [t]) for t in ts] for ts in tables)
        rec.state((stat, 'ETB', a, b), depth=n)
        rec.transition()
        rec.trace()
        if len(set(x)) < 2 or len(set(y)) < 2:
            want = (None, None, None)
        else:
            d = np.array(x) - np.array(y)
            half = dist.t.ppf(0.95, n - 1) * d.std(ddof=1) / math.sqrt(n)
            want = (d.mean(), d.mean() - half, d.mean() + half)
        rec.outcome(repr(want))
        good = not isinstance(got, (Raised, list)) and all(
            (w is None and g is None) or (w is not None and g is not None and abs(g - w) < 2e-6) for g, w in zip(got, want))
        if not good:
            rec.violation('equivalence of %s of %r and %r: got %r, expected %r' % (stat, x, y, got, want),
                          {'stat': stat, 'first': x, 'second': y, 'got': repr(got), 'expected': repr(want)})


TIME_FIELDS = [[c for c in ('fcst_valid_beg', 'fcst_init_beg') if c not in gone] + extra
               for gone in ((), ('fcst_valid_beg',), ('fcst_init_beg',), ('fcst_valid_beg', 'fcst_init_beg'))
               for extra in ([], ['fcst_valid'], ['fcst_init'], ['fcst_valid', 'fcst_init'])]


def repeated(rec, item):
    """Two values of a curve at one time and lead are refused, in whichever column the time is."""
    columns, n = item
    fields = ['model', 'vx_mask', 'fcst_lead'] + columns + ['fcst_var', 'stat_name']
    for ix in itertools.product(range(3), repeat=n):
        times = [TIMES[i] for i in ix]
        for op in SIGN:
            got = derived_row(rec, [TABLES[i] for i in range(n)], [TABLES[-1 - i] for i in range(n)], 'CSI', op, 1, times, fields)
            rec.state((tuple(columns), ix, op), depth=n)
            rec.transition()
            rec.trace()
            if len(set(times)) < n and op != 'SINGLE':
                want, good = 'refused', isinstance(got, Raised)
            else:
                want = bounds(op, score('CSI', TABLES[:n]), score('CSI', TABLES[::-1][:n]))
                good = not isinstance(got, (Raised, list)) and got[0] is not None and want[0] <= got[0] <= want[1]
            rec.outcome((op, repr(want)))
            if not good:
                rec.violation('%s of records of the times %r (columns %r): got %r, expected %r' % (op, times, columns, got, want),
                              {'columns': columns, 'times': times, 'got': repr(got)})


def balanced(space, picks):
    """Every model, mask, level and kind of observations has the same cases, as the bootstrap of a pair of curves needs."""
    cells = SPACES[space][0]
    have = [c for c, n in zip(cells, picks) if n]
    cases = {(c['fcst_lead'], c['fcst_valid_beg']) for c in have}
    return len(have) == len({(c['model'], c['vx_mask'], c['fcst_lev'], c['obtype']) for c in cells}) * len(cases)


def explore(check):
    items = []
    for space, (cells, requests) in SPACES.items():
        n = len(cells)
        for label in requests:
            work = [(p, None, 1) for p in subsets(n) if sum(p) and (not space.startswith('groups') or balanced(space, p))]
            work += [((1,) * n, z, 1) for z in range(n)]
            if not space.startswith('groups'):
                work += [(tuple(int(i in (z, z ^ 4)) for i in range(n)), z, 1) for z in range(n)]
                work += [(p, None, 3) for p in subsets(n) if sum(p) and balanced(space, p)]
                work += [((1,) * n, z, 3) for z in range(n)]
            items += [(space, label, b) for b in batches(work, 12)]
    ENTRIES.update({e.line_type: e for e in entries()})
    many = [(name, order, n) for name in ENTRIES for order in ((1, 2), (2, 0)) for n in (1, 3)]
    check.run(every_statistic, many, chunk=1)
    check.bounds = {'cells per space': 8, 'spaces': len(SPACES), 'requests': sum(len(v[1]) for v in SPACES.values()),
                    'operations': list(SIGN)}
    check.run(worker, items, chunk=1)
    three = range(len(TABLES))
    work = []
    for stat in PERFECT:
        for n in (2, 3) if stat in ('FAR', 'CSI') or check.thorough else (2,):
            pairs = list(itertools.product(itertools.product(three, repeat=n), repeat=2))
            work += [(stat, n, b) for b in batches(pairs, 27)]
    check.run(significance, work, chunk=1)
    pairs = [p for n in (1, 2, 3) for p in itertools.product(itertools.product(three, repeat=n), repeat=2)]
    check.run(equivalence, [(stat, b) for stat in ('FAR', 'CTC_FY_OY') for b in batches(pairs, 40)], chunk=1)
    check.run(repeated, [(c, n) for c in TIME_FIELDS if c for n in (1, 2, 3)], chunk=1)
