"""A03: bootstrap replicates are exactly the circular block resamples of the input."""
import itertools
import math
import os
from contextlib import nullcontext

import numpy as np

from checks.S11_eclv import add, oracle as eclv_oracle
from mc.aggdrv import base_params, number, quiet, read_table, run_aggstat, write_table
from mc.eqz import TIMES
from mc.spaces import batches
from mc.statrun import Raised


def resamples(n, block):
    """Every tuple of n record numbers made of consecutive circular blocks, as often as block starts give it."""
    out = {}
    for starts in itertools.product(range(n), repeat=math.ceil(n / block)):
        r = tuple((s + k) % n for s in starts for k in range(block))[:n]
        out[r] = out.get(r, 0) + 1
    return out


class Draws:
    """Owns the random draws: hands out every tuple of n record numbers in turn, instead of random ones.

    `whole` tells whether a whole number of rounds through all tuples was asked for. Draws out of `aside` records
    are left alone.
    """

    def __init__(self, n, tuples=None, aside=()):
        self.n, self.given, self.passed, self.aside = n, {}, False, aside
        self.tuples = list(itertools.product(range(n), repeat=n)) if tuples is None else tuples
        self.rounds = {n: np.array(self.tuples).ravel()}

    def take(self, n, size):
        if n in self.aside or n < 1 or n > 9:
            self.passed = self.passed or n not in self.aside
            return None
        if n not in self.rounds:
            self.rounds[n] = np.array(list(itertools.islice(itertools.product(range(n), repeat=self.n), 50000))).ravel()
        count = int(np.prod(size)) if size is not None else 1
        at = np.arange(self.given.get(n, 0), self.given.get(n, 0) + count) % len(self.rounds[n])
        self.given[n] = self.given.get(n, 0) + count
        out = self.rounds[n][at]
        return out.reshape(size) if size is not None else int(out[0])

    def __enter__(self):
        self.kept = np.random.choice, np.random.randint
        choice, randint = self.kept

        def next_choice(a, size=None, replace=True, p=None):
            got = self.take(int(a), size) if np.ndim(a) == 0 and replace and p is None else None
            return choice(a, size, replace, p) if got is None else got

        def next_randint(low, high=None, size=None, dtype=int):
            got = self.take(low if high is None else high, size) if high is None or low == 0 else None
            return randint(low, high, size, dtype) if got is None else got
        np.random.choice, np.random.randint = next_choice, next_randint
        return self

    def __exit__(self, *exc):
        np.random.choice, np.random.randint = self.kept

    @property
    def used(self):
        return self.given.get(self.n, 0)

    @property
    def whole(self):
        return not self.passed and list(self.given) == [self.n] and self.used % len(self.rounds[self.n]) == 0

    @property
    def complete(self):
        """Whether each sequence of the draws that were asked for came at least once."""
        return not self.passed and len(self.given) == 1 and all(c >= len(self.rounds[k]) for k, c in self.given.items())


def code(values):
    """Identifies the record numbers, in order, of one table or of each table of a stack."""
    n = values.shape[-2]
    weights = 10.0 ** np.arange(n)
    ids = values[..., 0].astype(float)
    # a record stays whole
    whole = (values[..., 1].astype(float) == ids * 7 + 3).all(axis=-1)
    got = (ids * weights).sum(axis=-1) * np.where(whole, 1, -1)
    return [got] if values.ndim == 2 else [[g] for g in got]


def decode(x, n):
    x = int(round(x))
    return tuple(x // 10 ** k % 10 for k in range(n)) if x >= 0 else None


def replicates(rec, item):
    from metcalcpy.bootstrap import bootstrap_and_value
    n, block, batch, threads = item
    model = resamples(n, block)
    total = sum(model.values())
    rows = iterations = n ** n
    data = np.array([[i, i * 7 + 3] for i in range(n)])
    if batch == 'objects':
        data = data.astype(object)
    size = {'one': 1, 'some': iterations // 3 + 1}.get(batch)
    np.random.seed(4242 + n * 100 + block)
    try:
        with quiet(), Draws(n) if threads == 1 else nullcontext() as draws:
            res = bootstrap_and_value(data, stat_func=code, num_iterations=iterations, iteration_batch_size=size,
                                      num_threads=threads, block_length=block, save_data=True, save_distributions=True)
        dist = [float(x) for x in np.asarray(res.distributions).ravel()]
        value = decode(res.value, n)
    except Exception as err:  # noqa
        rec.violation('bootstrap of %d records in blocks of %d: %r' % (n, block, Raised(err)), {'case': item})
        return
    seen = {}
    for x in dist:
        r = decode(x, n)
        seen[r] = seen.get(r, 0) + 1
    for r in model:
        rec.state((item, r), depth=n)
    rec.transition(len(dist))
    rec.trace(len(seen))
    rec.outcome((n, block, tuple(sorted(map(repr, seen)))))
    rec.sample({'records': n, 'block': block, 'batch': batch, 'threads': threads, 'replicates': len(dist),
                'distinct': len(seen)})
    replay = {'records': n, 'block': block, 'batch': batch, 'threads': threads, 'iterations': iterations}
    where = '%d records, blocks of %d, batch %s, %d threads' % (n, block, batch, threads)
    if value != tuple(range(n)):
        rec.violation('%s: the estimate comes from records %r' % (where, value), replay)
    if not np.array_equal(res.values, data):
        rec.violation('%s: the saved data differs from the input' % where, replay)
    if not iterations <= len(dist) < iterations + threads:
        rec.violation('%s: %d replicates instead of %d' % (where, len(dist), iterations), replay)
    odd = [r for r in seen if r not in model]
    if odd:
        rec.violation('%s: %r is not a resample' % (where, odd[0]), dict(replay, resample=odd[0]))
    if draws and draws.whole and draws.used == n * rows:
        # every sequence of draws was used exactly once, so the numbers of resamples are known exactly
        rec.count('sequences of draws', rows)
        for r, weight in model.items():
            if seen.get(r, 0) * total != weight * rows:
                rec.violation('%s: %r comes from %d of %d sequences of draws, expected %d'
                              % (where, r, seen.get(r, 0), rows, weight * rows // total), dict(replay, resample=r))
                break
    elif draws and draws.complete:
        never = [r for r in model if r not in seen]
        if never:
            rec.violation('%s: %r comes from no sequence of draws' % (where, never[0]), dict(replay, resample=never[0]))
    elif draws:
        rec.count('sets of draws from another source')
    if threads > 1:
        step = math.ceil(iterations / threads)
        parts = [tuple(dist[i:i + step]) for i in range(0, len(dist), step)]
        if len(set(parts)) != len(parts):
            rec.violation('%s: two threads draw the same resamples' % where, replay)


# ------------------------------------------------------------------ whole jobs
def owned(rec, draws, run):
    """Result of a job that takes its draws from `draws`, and whether it used each sequence."""
    with draws:
        # a single iteration would ask for no intervals
        got = run(max(2, len(draws.tuples)))
    rec.count('jobs over every sequence of draws' if draws.complete else 'jobs with draws from another source')
    return got, draws.complete


def block_draws(n, block):
    """Draws that reach every choice of blocks, whether the starts are taken one after the other or where the blocks start."""
    if n ** n <= 3125:
        return Draws(n)
    starts = list(itertools.product(range(n), repeat=math.ceil(n / block)))
    return Draws(n, [tuple(s[i // block] for i in range(n)) for s in starts] + [tuple(s[i % len(s)] for i in range(n)) for s in starts])


def judge(rec, where, replay, row, exp_value, replicas, method, whole, tol=1e-6, inexact=False):
    """The level 0 interval spans the replicates, or lies within them where only some were drawn."""
    rec.trace()
    got = tuple(number(row[c]) for c in ('stat_btcl', 'stat_value', 'stat_btcu')) if row else None
    replicas = [r for r in replicas if r is not None]
    ends = (None, None)
    if exp_value is not None and replicas:
        if method == 'pivotal':
            ends = (2 * exp_value - max(replicas), 2 * exp_value - min(replicas))
        elif min(replicas) != max(replicas):
            ends = (min(replicas), max(replicas))
    exp = (ends[0], exp_value, ends[1])
    rec.outcome((where, got))
    if inexact and got and ends == (None, None) and replicas and got[0] is not None:
        # equal replicates of an inexact statistic may differ in the last digit
        exp = (min(replicas), exp_value, max(replicas))
    if not whole and got and got[1] is not None and exp_value is not None and abs(got[1] - float(exp_value)) <= tol * max(1, abs(exp_value)):
        ends = [e for e in ends if e is not None] or [exp_value]
        if all(g is None or min(ends) - tol <= g <= max(ends) + tol for g in (got[0], got[2])):
            return
    good = got is not None and all((g is None) == (e is None) and (g is None or abs(g - float(e)) <= tol * max(1, abs(e)))
                                   for g, e in zip(got, exp))
    if not good:
        rec.violation('%s: got %r, expected %r' % (where, got, exp), replay)


def job_line(model, lead, valid, n):
    return [model, lead, valid, valid, 'V', 'CTC_TOTAL', n, n - 1, 1, 0, 0]


JOB_COLS = ['model', 'fcst_lead', 'fcst_valid_beg', 'fcst_init_beg', 'fcst_var', 'stat_name', 'total', 'fy_oy', 'fy_on',
            'fn_oy', 'fn_on']
DAYS = ['2020-01-%02d 00:00:00' % d for d in range(1, 15)]


def jobs(rec, part):
    """Points and differences of aggregation jobs: the input is ordered by time, both curves are resampled together."""
    inp, out = os.path.join(rec.dir, 'in.data'), os.path.join(rec.dir, 'out.data')
    for values, others, order, circular, method in part:
        n = len(values)
        block = int(math.sqrt(n)) if circular else 1
        model = resamples(n, block)
        lines = [[job_line('A', '0', DAYS[i], values[i]), job_line('B', '0', DAYS[i], others[i])] for i in order]
        write_table(inp, JOB_COLS, [ln for pair in lines for ln in pair])
        replay = {'A': values, 'B': others, 'line order': order, 'circular': circular, 'method': method}
        rec.state((values, others, order, circular, method), depth=n)
        rec.transition()
        rec.sample(replay)
        params = base_params(inp, out, alpha=0, method=method,
                             circular_block_bootstrap=str(circular), series_val_1={'model': ['A', 'B']},
                             indy_vals=['0'], list_stat_1=['CTC_TOTAL'], fcst_var_val_1={'V': ['CTC_TOTAL']},
                             derived_series_1=[['A V CTC_TOTAL', 'B V CTC_TOTAL', 'DIFF']])
        if circular:
            # the default
            del params['circular_block_bootstrap']
        try:
            (_, rows), whole = owned(rec, block_draws(n, block), lambda k: run_aggstat(dict(params, num_iterations=k)))
        except Exception as err:  # noqa
            rec.violation('job with records %r: %r' % (replay, Raised(err)), replay)
            continue
        for name, vals in (('A', values), ('B', others), ('DIFF(A V CTC_TOTAL-B V CTC_TOTAL)',
                                                           [a - b for a, b in zip(values, others)])):
            row = [r for r in rows if r['model'] == name]
            judge(rec, '%s of A=%r B=%r in order %r, circular %r, %s' % (name, values, others, order, circular, method),
                  replay, row[0] if len(row) == 1 else None, sum(vals), [sum(vals[i] for i in r) for r in model], method, whole)


def economic(rec, part):
    from metcalcpy.agg_eclv import AggEclv
    inp, out = os.path.join(rec.dir, 'in.data'), os.path.join(rec.dir, 'out.data')
    for tables, method in part:
        n = len(tables)
        model = resamples(n, 1)
        points = [0.25, 0.5, 0.75]
        write_table(inp, JOB_COLS, [['A', '0', DAYS[i], DAYS[i], 'V', 'ECLV', sum(t)] + list(t) for i, t in enumerate(tables)])
        replay = {'tables': tables, 'method': method}
        rec.state((tables, method), depth=n)
        rec.transition()
        try:
            if os.path.exists(out):
                os.unlink(out)
            params = base_params(inp, out, alpha=0, method=method, cl_step=0.25, series_val_1={'model': ['A']}, list_stat_1=['ECLV'])
            with quiet():
                _, whole = owned(rec, Draws(n), lambda k: AggEclv(dict(params, num_iterations=k)).calculate_stats_and_ci())
            _, rows = read_table(out)
        except Exception as err:  # noqa
            rec.violation('economic value job with tables %r: %r' % (tables, Raised(err)), replay)
            continue
        curve = eclv_oracle(add(tables), points, False)
        parts = [eclv_oracle(add([tables[i] for i in r]), points, False) for r in model]
        for k, p in enumerate(points):
            row = [dict(r, stat_value=r['y_pnt_i']) for r in rows if abs(float(r['x_pnt_i']) - p) < 1e-6]
            judge(rec, 'economic value of %r at %r, %s' % (tables, p, method), replay, row[0] if len(row) == 1 else None,
                  curve and curve[1][k], [x and x[1][k] for x in parts], method, whole, tol=1e-5, inexact=True)


MODE_COLS = ['model', 'fcst_lead', 'fcst_valid', 'fcst_var', 'object_id', 'object_type', 'fcst_flag', 'simple_flag',
             'matched_flag', 'area']


def objects(rec, part):
    """Object statistics resample whole cases."""
    from metcalcpy.agg_stat_bootstrap import AggStatBootstrap
    inp, out = os.path.join(rec.dir, 'in.data'), os.path.join(rec.dir, 'out.data')
    for cases, method in part:
        rows = [['A', '0', DAYS[i], 'V', 'O%d_%d' % (i, k), '2d', 0, 1, 0, 4 ** i + k] for i, n in enumerate(cases) for k in range(n)]
        # a second lead and variable that must not matter
        rows += [['A', '120000', d, 'V', 'X', '2d', 0, 1, 0, 1000] for d in DAYS[:6]] + [['A', '0', DAYS[0], 'W', 'X', '2d', 0, 1, 0, 500]]
        write_table(inp, MODE_COLS, rows)
        replay = {'objects per case': cases, 'method': method}
        rec.state((cases, method), depth=len(cases))
        rec.transition()
        try:
            params = base_params(inp, out, alpha=0, method=method, series_val_1={'model': ['A']}, indy_vals=['120000', '0'],
                                 list_stat_1=['OBJAMISSES', 'OBJMISSES'], fcst_var_val_1={'V': ['OBJMISSES', 'OBJAMISSES']})
            with quiet():
                _, whole = owned(rec, Draws(len([n for n in cases if n]), aside=(6,)),
                                 lambda k: AggStatBootstrap(dict(params, num_iterations=k)).calculate_values())
            _, got = read_table(out)
        except Exception as err:  # noqa
            rec.violation('object job with %r objects per case: %r' % (cases, Raised(err)), replay)
            continue
        areas = [sum(4 ** i + k for k in range(n)) for i, n in enumerate(cases)]
        for stat, per_case in (('OBJAMISSES', areas), ('OBJMISSES', cases)):
            row = [r for r in got if r['fcst_lead'] == '0' and r['stat_name'] == stat]
            # only cases that have objects can be drawn
            live = [v for v, n in zip(per_case, cases) if n]
            sums = [sum(live[i] for i in r) for r in resamples(len(live), 1)]
            judge(rec, '%s with %r objects per case, %s' % (stat, cases, method), replay, row[0] if len(row) == 1 else None,
                  sum(live), sums, method, whole)


def explore(check):
    check.preload = ['metcalcpy.agg_stat', 'metcalcpy.agg_stat_bootstrap', 'metcalcpy.agg_eclv']
    shapes = [(n, b) for n in range(1, 7) for b in range(1, n + 1)]
    items = [(n, b, batch, 1) for n, b in shapes for batch in ('all', 'some', 'objects', 'one') if n < (6 if batch == 'one' else 7)]
    items.sort(key=lambda i: -i[0] ** math.ceil(i[0] / i[1]))
    check.run(replicates, items, chunk=1)
    for item in [(n, b, batch, t) for n, b in ((3, 1), (4, 2), (5, 3)) for batch in ('all', 'some') for t in (2, 3)]:
        # in this process: workers may not start threads of their own
        check.run(replicates, [item])

    work = []
    base = (1, 5, 40, 300)
    others = (7, 2, 90, 100)
    orders = [(0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1)]
    for perm in itertools.permutations(base):
        for order in orders if perm[0] == 1 or check.thorough else orders[2:]:
            work.append((perm, others, order, True, 'perc'))
    for n in (1, 2, 3):
        for perm in itertools.permutations(base[:n]):
            for order in itertools.permutations(range(n)):
                for circular in (True, False):
                    for method in ('perc', 'pivotal'):
                        work.append((perm, others[:n], order, circular, method))
    for method in ('perc', 'pivotal'):
        work += [(base, others, orders[2], False, method), (base[::-1], others, orders[1], True, method),
                 ((5, 5, 5), (5, 5, 5), (0, 1, 2), True, method),
                 ((1, 40, 5, 300, 20), (9, 9, 1, 2, 60), (4, 0, 3, 1, 2), True, method),
                 ((1, 40, 5, 300, 20, 11, 200, 3, 77), (9, 9, 1, 2, 60, 9, 9, 1, 5), (8, 0, 7, 1, 6, 2, 5, 3, 4), True, method)]
    check.run(jobs, batches(work, 6), chunk=1)

    cells = [(3, 1, 1, 3), (1, 2, 0, 5), (0, 0, 2, 2), (2, 0, 0, 0), (0, 1, 0, 4)]
    tables = [t for n in (1, 2, 3) for t in itertools.combinations_with_replacement(cells, n)]
    check.run(economic, batches([(t, m) for t in tables for m in ('perc', 'pivotal')], 8), chunk=1)
    counts = [c for n in (1, 2, 3) for c in itertools.product((0, 1, 2), repeat=n) if sum(c)] + [(1, 2, 1, 0)]
    check.run(objects, batches([(c, m) for c in counts for m in ('perc', 'pivotal')], 6), chunk=1)
    check.bounds = {'records': '1-6', 'block lengths': '1 to the number of records', 'batches': 'one, some, all', 'threads': '1-3',
                    'replicate sets': len(items), 'jobs': len(work), 'economic tables': len(tables), 'object sets': len(counts)}
