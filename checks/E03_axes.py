"""E03: event equalization inside jobs: several variables, statistics, series and both axes."""
import itertools
import os

from mc.aggdrv import base_params, number, quiet, read_table, run_aggstat, write_table
from mc.eqz import CLOSE_LEADS, CLOSE_TIMES, TIMES, case_of, common_cases, subsets, ungroup
from mc.spaces import batches
from mc.statrun import Raised

TOTAL, HITS = 'CTC_TOTAL', 'CTC_FY_OY'
COLS = ['model', 'vx_mask', 'fcst_var', 'stat_name', 'fcst_thresh', 'fcst_valid_beg', 'fcst_init_beg', 'fcst_lead',
        'total', 'fy_oy', 'fy_on', 'fn_oy', 'fn_on']


def grid(**axes):
    base = {'model': 'A', 'vx_mask': 'M', 'fcst_var': 'V', 'stat_name': TOTAL, 'fcst_thresh': '>0',
            'fcst_valid_beg': TIMES[0], 'fcst_init_beg': TIMES[0], 'fcst_lead': 0}
    names = list(axes)
    return [dict(base, **dict(zip(names, c))) for c in itertools.product(*axes.values())]


def conf(s1, s2=None, v1=None, v2=None, indy='fcst_lead', indy_vals=('0',), fixed=None):
    v1 = v1 or {'V': [TOTAL]}
    v2 = v2 or ({'V': [HITS]} if s2 else {})
    return {'series_val_1': s1, 'series_val_2': s2 or {}, 'fcst_var_val_1': v1, 'fcst_var_val_2': v2,
            'list_stat_1': list(v1.values())[0], 'list_stat_2': list(v2.values())[0] if v2 else [],
            'indy_var': indy, 'indy_vals': list(indy_vals), 'fixed_vars_vals_input': fixed or {}}


AB = ['A', 'B']
MN = ['M', 'N']
SPACES = {
    'statistics': (grid(stat_name=[TOTAL, HITS], model=AB, fcst_valid_beg=TIMES[:2]), {
        'same series on both axes': conf({'model': AB}, {'model': AB}),
        'one series per axis': conf({'model': ['A']}, {'model': ['B']}),
        'overlapping series': conf({'model': ['B']}, {'model': ['B', 'A']}),
        'groups': conf({'model': ['A:B']}, {'model': ['A']}),
        'summed groups': conf({'model': ['A;B']}, {'model': ['B']}),
        'two statistics on one axis': conf({'model': AB}, v1={'V': [TOTAL, HITS]}),
        'one axis': conf({'model': AB}),
    }),
    'variables': (grid(fcst_var=['V', 'W'], model=AB, fcst_valid_beg=TIMES[:2]), {
        'one variable per axis': conf({'model': ['A']}, {'model': ['B']}, v2={'W': [TOTAL]}),
        'same series, other variable': conf({'model': AB}, {'model': AB}, v2={'W': [TOTAL]}),
    }),
    'lines without a statistic': (grid(model=AB, fcst_lead=[0, 60000], fcst_valid_beg=TIMES[:2]), {
        'two statistics on one axis': conf({'model': AB}, v1={'V': [TOTAL, HITS]}, indy_vals=('0', '60000')),
        'same records on both axes': conf({'model': AB}, {'model': AB}, indy_vals=('0', '60000')),
        'shared series': conf({'model': AB}, {'model': ['A']}, indy_vals=('0', '60000')),
        'one axis': conf({'model': AB}, indy_vals=('0', '60000')),
    }),
    'close times': (grid(model=AB, fcst_valid_beg=CLOSE_TIMES), {
        'one axis': conf({'model': AB}),
        'one series per axis': conf({'model': ['A']}, {'model': ['B']}),
    }),
    'close leads': (grid(model=AB, fcst_lead=CLOSE_LEADS[1:]), {
        'one axis': conf({'model': AB}, indy_vals=('30000', '300000')),
        'one series per axis': conf({'model': ['A']}, {'model': ['B']}, indy_vals=('30000', '3')),
    }),
    'two series variables': (grid(model=AB, vx_mask=MN, fcst_valid_beg=TIMES[:2]), {
        'one axis': conf({'model': AB, 'vx_mask': MN}),
        'one mask': conf({'vx_mask': ['N'], 'model': AB}),
        'one mask per axis': conf({'model': AB, 'vx_mask': ['M']}, {'model': AB, 'vx_mask': ['N']}),
        'one pair per axis': conf({'model': ['A'], 'vx_mask': ['M']}, {'model': ['B'], 'vx_mask': ['N']}),
        'different variables per axis': conf({'model': AB}, {'vx_mask': ['M']}),
        'independent mask': conf({'model': AB}, indy='vx_mask', indy_vals=MN),
        'independent mask, two axes': conf({'model': ['A']}, {'model': ['B']}, indy='vx_mask', indy_vals=MN),
        'summed group': conf({'model': ['B;A'], 'vx_mask': MN}),
        'dates as series': conf({'fcst_valid_beg': TIMES[:2], 'model': AB}),
        'group of dates': conf({'fcst_valid_beg': [TIMES[1] + ':' + TIMES[0]], 'vx_mask': ['M:N']}),
        'fixed mask': conf({'model': AB}, fixed={'vx_mask': {'vx_mask_0': MN}}),
        'fixed mask as a list': conf({'model': AB}, fixed={'vx_mask': ['N']}),
        'fixed mask and threshold': conf({'model': AB}, fixed={'fcst_thresh': {'fcst_thresh_0': ['>0']},
                                                               'vx_mask': {'vx_mask_0': ['N'], 'vx_mask_1': ['M']}}),
        'fixed mask, two axes': conf({'model': ['A']}, {'model': ['B']}, fixed={'vx_mask': {'vx_mask_0': MN}}),
    }),
    'numbers as names': (grid(model=['1', '22'], vx_mask=['0.5', '1.5'], fcst_valid_beg=TIMES[:2]), {
        'one axis': conf({'model': ['1', '22']}),
        'two series variables': conf({'model': ['22', '1'], 'vx_mask': ['1.5', '0.5']}),
        'fixed': conf({'model': ['1', '22']}, fixed={'vx_mask': {'vx_mask_0': ['1.5']}}),
        'two axes': conf({'vx_mask': ['0.5']}, {'vx_mask': ['1.5']}),
    }),
    'numbers among names': (grid(model=['7', 'A'], vx_mask=['0.5', 'N'], fcst_valid_beg=TIMES[:2]), {
        'two series variables': conf({'model': ['7', 'A'], 'vx_mask': ['0.5', 'N']}),
        'fixed': conf({'model': ['A:7']}, fixed={'vx_mask': {'vx_mask_0': ['0.5']}}),
    }),
}
NO_STAT = ('lines without a statistic', 'close times', 'close leads', 'two series variables', 'numbers as names', 'numbers among names')


def build(space, picks):
    recs = []
    for i, (c, n) in enumerate(zip(SPACES[space][0], picks)):
        for k in range(n):
            w = 4 ** i * (k + 1)
            recs.append(dict(c, rid=len(recs), total=3 * w, fy_oy=w, fy_on=w, fn_oy=w, fn_on=0))
    return recs


def columns(space):
    return [c for c in COLS if not (c == 'stat_name' and space in NO_STAT)]


def fixed_of(cfg):
    out = {}
    for k, v in cfg['fixed_vars_vals_input'].items():
        out[k] = [x for vals in v.values() for x in vals] if isinstance(v, dict) else v
    return out


def in_series(r, series):
    return all(r[s] in [u for v in vals for u in ungroup(v)] for s, vals in series.items())


def model(space, recs, cfg):
    """Per axis and statistic the records that survive."""
    fixed = fixed_of(cfg)
    axes = ['1'] + (['2'] if cfg['series_val_2'] else [])
    kept = {}
    for a in axes:
        series = cfg['series_val_' + a]
        for var, stats in cfg['fcst_var_val_' + a].items():
            for s in stats:
                mine = [r for r in recs if r['fcst_var'] == var and in_series(r, series)
                        and (space in NO_STAT or r['stat_name'] == s)]
                cases = common_cases(mine, cfg['indy_var'], series, fixed, True)
                kept[a, s] = [r for r in mine if case_of(r, cfg['indy_var'], True) in cases]
    if len(axes) == 2:
        both = None
        for a in axes:
            here = {case_of(r, cfg['indy_var'], True) for k, v in kept.items() if k[0] == a for r in v}
            both = here if both is None else both & here
        kept = {k: [r for r in v if case_of(r, cfg['indy_var'], True) in both] for k, v in kept.items()}
    return kept


def worker(rec, item):
    from metcalcpy.util.utils import perform_event_equalization
    import pandas as pd
    space, label, part = item
    cfg = SPACES[space][1][label]
    cols = columns(space)
    for picks in part:
        recs = build(space, picks)
        kept = model(space, recs, cfg)
        rec.state((space, label, picks), depth=sum(picks))
        rec.transition()
        rec.outcome((space, label, [(k, [r['rid'] for r in v]) for k, v in sorted(kept.items())]))
        replay = {'space': space, 'configuration': cfg, 'records': recs}
        # the function used by all jobs
        inp, out = os.path.join(rec.dir, 'in.data'), os.path.join(rec.dir, 'out.data')
        write_table(inp, cols + ['rid'], [[r[c] for c in cols + ['rid']] for r in recs])
        frame = pd.read_csv(inp, sep='\t')
        params = dict(cfg, line_type='ctc')
        rec.trace()
        try:
            with quiet():
                res = perform_event_equalization(params, frame)
            ids = [int(i) for i in res['rid']] if 'rid' in res.columns else []
            got = {}
            for a, s in kept:
                var = list(cfg['fcst_var_val_' + a])[0]
                got[a, s] = sorted(i for i in ids if recs[i]['fcst_var'] == var and in_series(recs[i], cfg['series_val_' + a])
                                   and (space in NO_STAT or recs[i]['stat_name'] == s))
            exp = {k: sorted(r['rid'] for r in v) for k, v in kept.items()}
            bad = got != exp
        except Exception as err:  # noqa
            got, exp, bad = Raised(err), {k: sorted(r['rid'] for r in v) for k, v in kept.items()}, True
        if bad:
            rec.violation('event equalization of %s, %s: kept %r, expected %r' % (space, label, got, exp),
                          dict(replay, got=repr(got), expected=repr(exp)))
            continue
        # and a whole job: total counts identify the records that were used
        write_table(inp, cols, [[r[c] for c in cols] for r in recs])
        rec.trace()
        rec.count('jobs')
        try:
            _, rows = run_aggstat(base_params(inp, out, **dict(cfg, event_equal='True', line_type='ctc')))
        except Exception as err:  # noqa
            rec.violation('job with event equalization of %s, %s: %r' % (space, label, Raised(err)), replay)
            continue
        expect_rows = points(cfg, kept)
        seen = [(tuple(r.get(k) for k in key), number(r['stat_value']), number(r['nstats'])) for r, (key, _, _) in
                zip(rows, expect_rows)] if len(rows) == len(expect_rows) or not rows else None
        want = [(v, t, n) for (_, v, (t, n)) in expect_rows]
        if not any(kept.values()) and not rows:
            continue
        if seen != want:
            rec.violation('job with event equalization of %s, %s: rows %r, expected %r' % (space, label, seen, want),
                          dict(replay, got=repr(rows), expected=repr(want)))


def check_file_job(rec, item):
    """The job that writes the equalized records themselves."""
    from metcalcpy.agg_stat_event_equalize import AggStatEventEqualize
    space, label, part = item
    cfg = SPACES[space][1][label]
    cols = columns(space) + ['rid']
    inp, out = os.path.join(rec.dir, 'in.data'), os.path.join(rec.dir, 'out.data')
    for picks in part:
        recs = build(space, picks)
        exp = sorted({r['rid'] for v in model(space, recs, cfg).values() for r in v})
        rec.state(('file', space, label, picks), depth=sum(picks))
        rec.transition()
        rec.trace()
        rec.count('file_jobs')
        write_table(inp, cols, [[r[c] for c in cols] for r in recs])
        params = dict(cfg, agg_stat_input=inp, agg_stat_output=out, line_type='ctc')
        if os.path.exists(out):
            os.unlink(out)
        try:
            with quiet():
                AggStatEventEqualize(params).calculate_values()
            rows = read_table(out)[1] if os.path.getsize(out) > 5 else []
            got = sorted(int(r['rid']) for r in rows)
            changed = any(str(recs[int(r['rid'])][c]) != r[c] for r in rows for c in cols)
        except Exception as err:  # noqa
            got, changed = Raised(err), False
        if isinstance(got, Raised) or got != exp or changed:
            rec.violation('equalization job of %s, %s: wrote records %r, expected %r%s' % (
                space, label, got, exp, ', values changed' if changed else ''),
                {'space': space, 'configuration': cfg, 'records': recs, 'got': repr(got), 'expected': exp})


def points(cfg, kept):
    """(fields, values, (statistic, number of records)) of every row of the job."""
    out = []
    for a in ('1', '2'):
        series = cfg['series_val_' + a]
        if not series:
            continue
        fields = list(series) + [cfg['indy_var'], 'stat_name']
        for combo in itertools.product(*series.values(), cfg['indy_vals'], cfg['list_stat_' + a]):
            stat = combo[-1]
            used = [r for r in kept[a, stat] if all(str(r[f]) in ungroup(v) for f, v in zip(fields[:-1], combo))]
            col = 'total' if stat == TOTAL else 'fy_oy'
            # the records of a summed group count once per case
            n = len({(r['fcst_valid_beg'], r['fcst_lead']) for r in used}) if any(';' in v for v in combo) else len(used)
            out.append((fields, combo, (sum(r[col] for r in used) if used else None, n)))
    return out


def explore(check):
    import pandas as pd
    pd.options.mode.chained_assignment = None
    items = []
    for space, (cells, configs) in SPACES.items():
        for label in configs:
            picks = [p for p in subsets(len(cells)) if sum(p)]
            items += [(space, label, b) for b in batches(picks, 40)]
    files = []
    for space in NO_STAT:
        cells, configs = SPACES[space]
        for label, cfg in configs.items():
            if any(not isinstance(v, dict) for v in cfg['fixed_vars_vals_input'].values()):
                continue    # this job documents fixed values by name only
            picks = [p for p in subsets(len(cells)) if sum(p)]
            files += [(space, label, b) for b in batches(picks, 60)]
    check.bounds = {'cells per space': 8, 'configurations': sum(len(v[1]) for v in SPACES.values())}
    check.run(worker, items, chunk=1)
    check.run(check_file_job, files, chunk=1)
