"""S08: the multi-category Heidke score on the summed n x n table."""
import itertools
from fractions import Fraction

from mc.expect import NONE, val
from mc.spaces import batches
from mc.aggdrv import agg_tables, number
from mc.statrun import Raised, check_job, check_table, ok

ECS = {2: (0.5, 0.25, 0.0, 1.0), 3: (1 / 3, 0.125), 4: (0.25, 0.0)}


def orders(n):
    """Cell orders: forecast-major, observation-major, reversed, and a rotation that mixes both."""
    cells = [(i, j) for i in range(1, n + 1) for j in range(1, n + 1)]
    yield cells
    yield [(j, i) for i, j in cells]
    yield cells[::-1]
    k = n + 1
    yield [cells[(a * k + 1) % (n * n)] for a in range(n * n)] if (n * n) % k else cells[1:] + cells[:1]


def columns(n):
    cols = ['total', 'n_cat', 'ec_value']
    for k in range(n * n):
        cols += ['i_value_%d' % k, 'j_value_%d' % k, 'fi_oj_%d' % k]
    return cols


def row(n, ec, table, order):
    r = [sum(table), n, ec]
    for i, j in order:
        r += [i, j, table[(i - 1) * n + j - 1]]
    return r


def oracle(n, ec, tables):
    total = [sum(c) for c in zip(*tables)]
    hits = sum(total[i * n + i] for i in range(n))
    num, e = sum(total), Fraction(ec)
    hss = NONE if num == 0 or e == 1 else val((hits - e * num) / (num - e * num))
    return {'mcts_hss_ec': hss}


def alphabet(n):
    """Single tables, simplest first."""
    if n == 2:
        return list(itertools.product((0, 1, 2), repeat=4)) + list(itertools.product((0, 7, 1000), repeat=4))
    if n == 3:
        return list(itertools.product((0, 1), repeat=9))
    out = []
    for a, b in itertools.combinations_with_replacement(range(n * n), 2):
        t = [0] * (n * n)
        t[a] += 1
        t[b] += 2
        out.append(tuple(t))
    out.append(tuple(range(n * n)))
    out.append(tuple(range(n * n, 0, -1)))
    out.append((0,) * (n * n))
    return out


def holding(n, most):
    """Every table of at most so many cases."""
    out = []
    for k in range(most + 1):
        for places in itertools.combinations_with_replacement(range(n * n), k):
            out.append(tuple(places.count(i) for i in range(n * n)))
    return out


def space(n):
    single = alphabet(n)
    for ec in ECS[n]:
        for t in single:
            yield (n, ec, (t,))
    few = holding(n, {2: 3, 3: 2, 4: 1}[n]) + single[-2:]
    for ec in ECS[n][:2]:
        for pair in itertools.combinations_with_replacement(few, 2):
            yield (n, ec, pair)
    for trio in itertools.combinations_with_replacement(holding(n, 1) + single[-2:], 3):
        yield (n, ECS[n][0], trio)
    yield (n, ECS[n][0], tuple(few))


def direct(rec, part):
    for n, ec, tables in part:
        exp = oracle(n, ec, tables)
        for k, order in enumerate(orders(n)):
            rec.state((n, ec, tables, k), depth=len(tables))
            rec.transition()
            rows = [row(n, ec, t, order) for t in tables]
            check_table(rec, 'mctc', columns(n), rows, exp, (), 'MCTC n=%d ec=%r tables %r order %d' % (
                n, ec, tables, k))
        rec.sample({'n': n, 'ec': ec, 'tables': tables, 'expected': repr(exp['mcts_hss_ec'])})


def jobs(rec, item):
    (n, k), part = item
    order = list(orders(n))[k]
    rows = [[row(n, ec, t, order) for t in tables] for _, ec, tables in part]
    for p in part:
        rec.state(('job', k, p), depth=len(p[2]))
        rec.transition()
    check_job(rec, 'mctc', columns(n), rows, [oracle(*p) for p in part], ['MCTC %r order %d' % (p, k) for p in part])


def disagreeing(rec, item):
    """Jobs over lines whose expected fractions agree within each point give a value, the others are refused."""
    line_type, points = item
    if line_type == 'mctc':
        cols, stat, tables = columns(2), 'MCTS_HSS_EC', [(1, 2, 3, 4), (5, 0, 1, 2), (2, 2, 1, 0)]
        rows = [[row(2, ec, t, next(orders(2))) for ec, t in zip(ecs, tables)] for ecs in points]
        exp = [oracle(2, ecs[0], tables[:len(ecs)])['mcts_hss_ec'] for ecs in points]
    else:
        cols, stat = ['total', 'fy_oy', 'fy_on', 'fn_oy', 'fn_on', 'ec_value'], 'CTC_TOTAL'
        rows = [[[10, 1, 2, 3, 4, ec] for ec in ecs] for ecs in points]
        exp = [val(10 * len(ecs)) for ecs in points]
    refused = any(len(set(ecs)) > 1 for ecs in points)
    rec.state(('agree', line_type, points), depth=sum(map(len, points)))
    rec.transition()
    rec.trace()
    rec.count('jobs refused' if refused else 'jobs not refused')
    try:
        got = [number(r['stat_value']) for _, r in sorted(agg_tables(rec.dir, line_type, cols, rows, [stat])[0].items())]
    except Exception as err:  # noqa
        got = Raised(err)
    bad = not isinstance(got, Raised) if refused else \
        isinstance(got, Raised) or len(got) != len(exp) or not all(map(ok, got, exp))
    if bad:
        rec.violation('%s job over points with the expected fractions %r: got %r, expected %s' % (
            line_type, points, got, 'an error' if refused else repr(exp)),
            {'line_type': line_type, 'columns': cols, 'rows': rows, 'got': repr(got)})


def explore(check):
    cases = [c for n in (2, 3, 4) for c in space(n)]
    check.bounds = {'categories': '2-4', 'cell orders': 4, 'lines per table': '1-3 and 30', 'cases': len(cases)}
    check.run(direct, batches(cases, 60), chunk=1)
    items = []
    for n in (2, 3, 4):
        own = [c for c in cases if c[0] == n]
        # single tables of the first two expected values, and all of three lines
        own = own if check.thorough else [c for c in own if len(c[2]) == 3 or len(c[2]) == 1 and c[1] in ECS[n][:2]]
        for k in range(4):
            items += [((n, k), b) for b in batches(own, 40)]
    check.run(jobs, items, chunk=1)
    lists = [e for k in (1, 2, 3) for e in itertools.product((0.5, 0.25, 0.2501), repeat=k)]
    work = [(lt, (e,)) for lt in ('mctc', 'ctc', 'cts') for e in lists]
    work += [(lt, pair) for lt in ('mctc', 'ctc', 'cts') for pair in itertools.product(lists[:12], repeat=2)]
    check.run(disagreeing, work)
