"""S10: ROC curves from categorical lines."""
import itertools

from mc.aggdrv import quiet
from mc.expect import div
from mc.spaces import batches
from mc.statrun import Raised, ok

OPS = ('<', '<=', '==', '>=', '>')
NUMBERS = ('-10', '-2.5', '0', '0.5', '2', '10', '100')
# several shapes of contingency tables, including ones without events or without non-events
TABLES = ((3, 1, 2, 4), (0, 5, 7, 1), (6, 0, 0, 6), (0, 0, 3, 2), (2, 3, 0, 0), (0, 4, 0, 9), (0, 0, 0, 0), (1, 8, 5, 0))
COLS = ['model', 'fcst_lead', 'fcst_valid_beg', 'fcst_thresh', 'total', 'fy_oy', 'fy_on', 'fn_oy', 'fn_on']


def key(thresh):
    if thresh[0] not in '<>=':
        return float(thresh), 2
    op = thresh[:2] if thresh[1] == '=' else thresh[:1]
    return float(thresh[len(op):]), OPS.index(op)


def frame(lines):
    import pandas as pd
    rows = [['M', 12, '2020-01-01 00:00:00', t, sum(c)] + list(c) for t, c in lines]
    return pd.DataFrame(rows, columns=COLS)


def arrangements(threshs, shift):
    """The lines of the thresholds in several orders; shift varies which tables they carry."""
    one = [(t, TABLES[(i + shift) % len(TABLES)]) for i, t in enumerate(threshs)]
    two = [(t, TABLES[(3 * i + 2 + shift) % len(TABLES)]) for i, t in enumerate(threshs)]
    yield one
    yield one[::-1] + two
    if len(one) > 1:
        yield [x for pair in zip(two, one) for x in pair][1:] + two[1:2]


def check_lines(rec, lines, ascending, ordered=True):
    from metcalcpy.util import ctc_statistics as ctc
    rec.transition()
    rec.state((tuple(lines), ascending), depth=len(lines))
    data = {}
    for t, c in lines:
        data.setdefault(t, []).append(c)
    exp = []
    for t in sorted(data, key=key, reverse=not ascending) if ordered else data:
        a, b, c, d = (sum(x) for x in zip(*data[t]))
        exp.append((t, div(a, a + c), div(b, b + d)))
    try:
        with quiet():
            got = ctc.calculate_ctc_roc(frame(lines), ascending)
        got = list(zip(got['thresh'].tolist(), got['pody'].tolist(), got['pofd'].tolist()))
    except Exception as err:  # noqa
        got = Raised(err)
    rec.trace()
    rec.outcome((repr(got)))
    good = not isinstance(got, Raised) and len(got) == len(exp)
    if good and not ordered:
        got = sorted(got, key=lambda g: g[0])
        exp.sort(key=lambda g: g[0])
    good = good and all(g[0] == e[0] and ok(g[1], e[1]) and ok(g[2], e[2]) for g, e in zip(got, exp))
    if not good:
        rec.violation('ROC points of %r (ascending=%r): got %r, expected %r' % (lines, ascending, got, exp),
                      {'lines': lines, 'ascending': ascending, 'got': repr(got), 'expected': repr(exp)})


def sorting(rec, lines, ascending):
    from metcalcpy.util import ctc_statistics as ctc
    rec.transition()
    try:
        with quiet():
            df = ctc.sort_by_thresh(frame(lines), ascending=ascending)
        got = [(r['fcst_thresh'], (r['fy_oy'], r['fy_on'], r['fn_oy'], r['fn_on'])) for _, r in df.iterrows()]
    except Exception as err:  # noqa
        got = Raised(err)
    rec.trace()
    good = not isinstance(got, Raised) and sorted(got) == sorted(lines) and \
        [key(t) for t, _ in got] == sorted((key(t) for t, _ in lines), reverse=not ascending)
    if not good:
        rec.violation('sorting of %r (ascending=%r): got %r' % (lines, ascending, got),
                      {'lines': lines, 'ascending': ascending, 'got': repr(got)})


def worker(rec, part):
    for i, threshs in part:
        for k, lines in enumerate(arrangements(threshs, i)):
            for ascending in (True, False):
                check_lines(rec, lines, ascending)
                if k == 1:
                    sorting(rec, lines, ascending)
        rec.sample({'thresholds': threshs})


def texts(rec, threshs):
    for lines in arrangements(threshs, 0):
        for ascending in (True, False):
            check_lines(rec, lines, ascending, ordered=False)


def probabilities(rec, part):
    """The curve of probability lines, whatever the order of the probabilities, and the area under it."""
    import numpy as np
    import pandas as pd
    from metcalcpy.util import pstd_statistics as pstd
    curve = getattr(pstd, '_calc_pct_roc', None)
    for counts, order in part:
        n = len(counts)
        at = [(2 * i + 1) / (2 * n) for i in range(n)]
        lines = [(at[i],) + counts[i] for i in order]
        rec.state(('probabilities', tuple(lines)), depth=n)
        rec.transition()
        yes, no = sum(c[0] for c in counts), sum(c[1] for c in counts)
        # forecasts of an event: those of a higher probability
        exp = [(p, div(sum(c[0] for c in counts[i + 1:]), yes), div(sum(c[1] for c in counts[i + 1:]), no))
               for i, p in enumerate(at)]
        if curve is not None and yes and no:
            try:
                with quiet():
                    got = curve(pd.DataFrame(lines, columns=['thresh_i', 'oy_i', 'on_i']))
                got = list(zip(got['thresh'].tolist(), got['pody'].tolist(), got['pofd'].tolist()))
            except Exception as err:  # noqa
                got = Raised(err)
            rec.trace()
            rec.outcome(repr(got))
            if isinstance(got, Raised) or len(got) != n or not all(
                    g[0] == e[0] and ok(g[1], e[1]) and ok(g[2], e[2]) for g, e in zip(got, exp)):
                rec.violation('ROC points of probabilities %r: got %r, expected %r' % (lines, got, exp), {'lines': lines})
        wins = sum(a[0] * b[1] * (2 if i > j else 1 if i == j else 0)
                   for i, a in enumerate(counts) for j, b in enumerate(counts))
        cols, row = [], []
        for k, l in enumerate(lines):
            cols += ['thresh_i_%d' % k, 'oy_i_%d' % k, 'on_i_%d' % k]
            row += list(l)
        try:
            with quiet():
                got = pstd.calculate_pstd_roc_auc(np.array([row]), np.array(cols))
        except Exception as err:  # noqa
            got = Raised(err)
        rec.trace()
        if not ok(got, div(wins, 2 * yes * no)):
            rec.violation('area under the ROC curve of probabilities %r: got %r, expected %r' % (
                lines, got, div(wins, 2 * yes * no)), {'lines': lines})


def explore(check):
    # a number on its own stands for an equality
    alphabet = [o + n for n in NUMBERS for o in OPS + ('',)] + ['5']
    few = [o + n for n in ('-10', '2', '10', '100') for o in ('<', '>=', '>')] + ['==0.5', '<=-2.5', '5', '2']
    full = [o + n for n in NUMBERS for o in OPS] + ['5']
    cases = [(t,) for t in alphabet] + list(itertools.combinations(alphabet, 2))
    cases += list(itertools.combinations(few, 3)) + [tuple(full[::-1]), tuple(t.replace('==', '') for t in full)]
    if check.thorough:
        cases += list(itertools.combinations(alphabet, 3)) + list(itertools.combinations(few, 4))
    # the order of two texts for the same threshold is not defined
    cases = [c for c in cases if len({key(t) for t in c}) == len(c)]
    check.bounds = {'thresholds': len(alphabet), 'per curve': '1-3 and 36', 'line arrangements': 3,
                    'orders': 2}
    check.run(worker, batches(list(enumerate(cases)), 12), chunk=1)
    text = ['>SFP30', '>SFP50', '<CDP10', '>=SFP5']
    check.run(texts, [c for k in (1, 2, 3) for c in itertools.combinations(text, k)], chunk=2)
    cells = list(itertools.product((0, 1, 3), repeat=2))
    counts = [((c, o)) for n in (1, 2, 3) for c in itertools.product(cells, repeat=n)
              for o in itertools.permutations(range(n)) if n < 3 or check.thorough or all(x[0] != x[1] for x in c)]
    check.run(probabilities, batches(counts, 60), chunk=1)
