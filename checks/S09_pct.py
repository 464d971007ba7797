"""S09: probability statistics against their definition on the pooled probability table."""
import itertools
import os
from fractions import Fraction as F

from mc.aggdrv import base_params, number, run_aggstat, write_table
from mc.expect import NONE, div, val
from mc.spaces import batches
from mc.statrun import check_job, check_table, Raised, ok

PROBS = {2: (0.25, 0.75), 3: (0.1, 0.5, 0.9), 4: (0.0, 0.35, 0.65, 1.0)}
# the second set has thresholds that are close to each other
RELIABILITY = [PROBS[3], (0.025, 0.0254, 1.0)]


def oracle(probs, lines):
    """lines: tuples of (events, non-events) per probability."""
    p = [F(x) for x in probs]
    oy = [sum(l[i][0] for l in lines) for i in range(len(p))]
    on = [sum(l[i][1] for l in lines) for i in range(len(p))]
    yes, no = sum(oy), sum(on)
    n = yes + no
    out = {'pct_total': val(n)}
    if n == 0:
        out.update({'pstd_' + s: NONE for s in ('brier', 'bss_smpl', 'baser', 'reliability', 'resolution',
                                                'uncertainty', 'roc_auc')})
        return out
    base = F(yes, n)
    brier = sum(y * (1 - q) ** 2 + x * q ** 2 for q, y, x in zip(p, oy, on)) / n
    unc = base * (1 - base)
    rel = sum((y + x) * (q - F(y, y + x)) ** 2 for q, y, x in zip(p, oy, on) if y + x) / n
    res = sum((y + x) * (F(y, y + x) - base) ** 2 for y, x in zip(oy, on) if y + x) / n
    assert brier == rel - res + unc
    out['pstd_brier'] = val(brier)
    out['pstd_bss_smpl'] = NONE if unc == 0 else val(1 - brier / unc)
    out['pstd_baser'] = val(base)
    out['pstd_reliability'] = val(rel)
    out['pstd_resolution'] = val(res)
    out['pstd_uncertainty'] = val(unc)
    # area = chance that a random event had a higher forecast than a random non-event
    wins = sum(y * x * (1 if q > r else F(1, 2) if q == r else 0)
               for q, y in zip(p, oy) for r, x in zip(p, on))
    out['pstd_roc_auc'] = div(wins, yes * no)
    return out


def columns(style, n):
    cols = ['total', 'n_thresh']
    for i in range(n):
        if style == 'database':
            cols += ['FORMAT((ldt%d.thresh_i + ldt%d.thresh_i)/2, 3)' % (i + 1, i + 2),
                     'oy_i' + ('.%d' % i if i else ''), 'on_i' + ('.%d' % i if i else '')]
        else:
            cols += ['thresh_i_%d' % i, 'oy_i_%d' % i, 'on_i_%d' % i]
    return cols


def rows(order, probs, lines):
    out = []
    for l in lines:
        r = [sum(y + x for y, x in l), len(probs) + 1]
        for i in order:
            r += [probs[i], l[i][0], l[i][1]]
        out.append(r)
    return out


def holding(n, most):
    """Every line of at most so many cases."""
    out = []
    for k in range(most + 1):
        for places in itertools.combinations_with_replacement(range(2 * n), k):
            out.append(tuple((places.count(2 * i), places.count(2 * i + 1)) for i in range(n)))
    return out


def space(thorough):
    for n in (2, 3, 4):
        probs = PROBS[n]
        counts = (0, 1, 2) if n == 2 else (0, 1)
        cells = list(itertools.product(counts, repeat=2))
        if n < 4 or thorough:
            singles = list(itertools.product(cells, repeat=n))
        else:
            singles = []
            for a, b, c in itertools.combinations_with_replacement(range(2 * n), 3):
                t = [0] * (2 * n)
                t[a] += 1
                t[b] += 1
                t[c] += 3
                singles.append(tuple((t[2 * i], t[2 * i + 1]) for i in range(n)))
        for t in singles:
            yield n, probs, (t,)
        for pair in itertools.combinations_with_replacement(holding(n, 4 if n == 2 or thorough else 2), 2):
            yield n, probs, pair
        for trio in itertools.combinations_with_replacement(holding(n, 2 if n == 2 else 1), 3):
            yield n, probs, trio
        yield n, probs, tuple(singles)
        big = tuple((100 * (i + 1), 37 * (n - i)) for i in range(n))
        yield n, probs, (big, singles[-1])


def direct(rec, part):
    for n, probs, lines in part:
        exp = oracle(probs, lines)
        total = sum(y + x for l in lines for y, x in l)
        o_bar = sum(y for l in lines for y, _ in l) / total if total else float('nan')
        for style, order in (('database', range(n)), ('plain', range(n - 1, -1, -1))):
            rec.state((n, lines, style), depth=len(lines))
            rec.transition()
            cols = columns(style, n) + ['T', 'oy_total', 'o_bar']
            table = [r + [total, total * (0 if total == 0 else o_bar), o_bar] for r in rows(order, probs, lines)]
            check_table(rec, 'pct', cols, table, exp, (), 'PCT probabilities %r lines %r (%s columns)' % (
                probs, lines, style))
        rec.sample({'probabilities': probs, 'lines': lines, 'brier': repr(exp['pstd_brier'])})


def jobs(rec, item):
    style, part = item
    n, probs = part[0][:2]
    cols = columns(style, n)
    for p in part:
        rec.state(('job', style, p), depth=len(p[2]))
        rec.transition()
    check_job(rec, 'pct', cols, [rows(range(n), probs, p[2]) for p in part], [oracle(probs, p[2]) for p in part],
              ['PCT %r' % (p,) for p in part])


def reliability(rec, part):
    """One line per threshold, as for reliability diagrams: the threshold is the independent variable."""
    for probs, lines in itertools.product(RELIABILITY, part):
        rec.state(('rel', probs, lines), depth=len(lines))
        rec.transition()
        inp, out = os.path.join(rec.dir, 'rel_in.data'), os.path.join(rec.dir, 'rel_out.data')
        data = []
        for k, l in enumerate(lines):
            v = '2020-01-%02d 00:00:00' % (k + 1)
            for p, (y, x) in zip(probs, l):
                data.append(['M', 12, v, v, p, y, x, sum(a + b for a, b in l)])
        write_table(inp, ['model', 'fcst_lead', 'fcst_valid_beg', 'fcst_init_beg', 'thresh_i', 'oy_i', 'on_i', 'total'], data)
        stats = ['PSTD_CALIBRATION', 'PSTD_NI', 'PSTD_BASER', 'PSTD_RELIABILITY', 'PSTD_RESOLUTION']
        events, pairs = sum(y for l in lines for y, _ in l), sum(y + x for l in lines for y, x in l)
        try:
            _, res = run_aggstat(base_params(inp, out, line_type='pct', indy_var='thresh_i',
                                             indy_vals=[str(p) for p in probs], list_stat_1=stats))
            got = {(float(r['thresh_i']), r['stat_name']): number(r['stat_value']) for r in res}
            nrows = len(res)
        except Exception as err:  # noqa
            got, nrows = Raised(err), 15
        for i, p in enumerate(probs):
            y, x = sum(l[i][0] for l in lines), sum(l[i][1] for l in lines)
            # a threshold contributes to the resolution with its distance from the rate of all of them
            parts = [val((p - y / (y + x)) ** 2), val((y / (y + x) - events / pairs) ** 2)] if y + x else [NONE, NONE]
            for s, e in zip(stats, [div(y, y + x), val(y + x), div(y, y + x)] + parts):
                g = got if isinstance(got, Raised) else got.get((p, s), Raised(KeyError('no output row')))
                rec.trace()
                rec.outcome((s, repr(g)))
                if not ok(g, e) or nrows != 15:
                    rec.violation('%s at probability %r of lines %r: got %r, expected %r (%d rows)' % (
                        s, p, lines, g, e, nrows), {'lines': lines, 'stat': s, 'prob': p, 'got': repr(g),
                                                    'expected': repr(e), 'via': 'AggStat, independent thresh_i'})


def explore(check):
    cases = list(space(check.thorough))
    check.bounds = {'probabilities': '2-4', 'lines per table': '1-3 and all single ones', 'cases': len(cases)}
    check.run(direct, batches(cases, 10), chunk=1)
    items = []
    for n in (2, 3, 4):
        small = holding(n, 1)
        own = [c for c in cases if c[0] == n and (check.thorough or len(c[2]) == 1 and c[2][0] in holding(n, 2)
                                                  or len(c[2]) == 2 and all(l in small for l in c[2]))]
        items += [(style, b) for style in ('database', 'plain') for b in batches(own, 10)]
    check.run(jobs, items, chunk=1)
    rel = [(a,) for a in holding(3, 3)] + list(itertools.combinations(holding(3, 1), 2))
    check.run(reliability, batches(rel, 5), chunk=1)
