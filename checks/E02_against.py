"""E02: equalization against a list of reference cases, as a function and as a job."""
import itertools
import os

from mc.aggdrv import quiet, read_table, write_table
from mc.eqz import CLOSE_LEADS, CLOSE_TIMES, TIMES, subsets, ungroup
from mc.spaces import batches
from mc.statrun import Raised

CASES = [(t, l) for t in TIMES[:2] for l in (30000, 120000)]
CLOSE = {'times': [(t, 30000) for t in CLOSE_TIMES], 'leads': [(TIMES[0], l) for l in CLOSE_LEADS[1:]]}


def name(case):
    return '%s %s' % case


# ------------------------------------------------------------------ the function
def check_function(rec, part):
    import pandas as pd
    from metcalcpy.event_equalize_against_values import event_equalize_against_values
    for counts, refs, how in part:
        cases = CLOSE.get(how, CASES)
        recs = []
        for (m, c), n in zip(itertools.product('AB', cases), counts):
            recs += [{'model': m, 'fcst_valid': c[0], 'fcst_lead': c[1]}] * n
        recs = [dict(r, rid=i, area=i * 1.5) for i, r in enumerate(recs)]
        recs = recs[::-1] if how == 1 else recs
        wanted = [name(c) for c, r in zip(cases + [(TIMES[2], 30000)], refs) if r]
        # a reference that is almost a case
        wanted += ['%s %s' % (TIMES[0], 3000)]
        exp = [r for r in recs if name((r['fcst_valid'], r['fcst_lead'])) in wanted]
        frame = pd.DataFrame(recs, columns=['model', 'fcst_valid', 'fcst_lead', 'rid', 'area'],
                             index=[5 + 2 * i for i in range(len(recs))])
        rec.state((counts, refs, how), depth=sum(counts))
        rec.transition()
        rec.trace()
        rec.outcome(tuple(r['rid'] for r in exp))
        try:
            with quiet():
                got = event_equalize_against_values(frame, wanted)
            got = got.to_dict('records')
        except Exception as err:  # noqa
            got = Raised(err)
        if isinstance(got, Raised) or got != exp:
            rec.violation('equalization of %d records against %r: kept %r, expected %r' % (
                len(recs), wanted, got if isinstance(got, Raised) else [r['rid'] for r in got], [r['rid'] for r in exp]),
                {'records': recs, 'reference': wanted, 'got': repr(got), 'expected': exp})


# ------------------------------------------------------------------ the job
COLS = ['model', 'vx_mask', 'fcst_var', 'fcst_valid', 'fcst_lead', 'rid']
CONFIGS = {
    'one axis': {'fcst_var_val_1': {'V': ['RATIO']}, 'series_val_1': {'model': ['A', 'B']}, 'series_val_2': {}},
    'one series': {'fcst_var_val_1': {'V': ['RATIO']}, 'series_val_1': {'model': ['B']}, 'series_val_2': {}},
    'groups': {'fcst_var_val_1': {'V': ['RATIO']}, 'series_val_1': {'model': ['A:B']}, 'series_val_2': {}},
    'summed groups': {'fcst_var_val_1': {'V': ['RATIO']}, 'series_val_1': {'model': ['B;A']}, 'series_val_2': {}},
    'two variables': {'fcst_var_val_1': {'V': ['RATIO'], 'W': ['RATIO']}, 'series_val_1': {'model': ['A', 'B']},
                      'series_val_2': {}},
    'two axes': {'fcst_var_val_1': {'V': ['RATIO']}, 'series_val_1': {'model': ['A', 'B']},
                 'fcst_var_val_2': {'W': ['RATIO']}, 'series_val_2': {'model': ['A']}},
    'same data on both axes': {'fcst_var_val_1': {'V': ['RATIO']}, 'series_val_1': {'model': ['A']},
                               'fcst_var_val_2': {'V': ['AREA']}, 'series_val_2': {'model': ['A', 'B']}},
    'two series variables': {'fcst_var_val_1': {'V': ['RATIO']}, 'series_val_1': {'model': ['A', 'B'], 'vx_mask': ['M', 'N']},
                             'series_val_2': {}},
    'filtering series variables': {'fcst_var_val_1': {'V': ['RATIO']}, 'series_val_1': {'vx_mask': ['N'], 'model': ['A']},
                                   'series_val_2': {}},
    'numbers': {'fcst_var_val_1': {'V': ['RATIO']}, 'series_val_1': {'model': ['1', '22'], 'vx_mask': ['0.5']},
                'series_val_2': {}},
    'numbers among names': {'fcst_var_val_1': {'V': ['RATIO']}, 'series_val_1': {'model': ['1', 'A'], 'vx_mask': ['0.5', 'N']},
                            'series_val_2': {}},
    'off': {'event_equal': 'False', 'fcst_var_val_1': {'V': ['RATIO']}, 'series_val_1': {'model': ['A']}, 'series_val_2': {}},
}
WHERE = {
    # cells of (model, mask, variable, case) that may hold an input record and a reference record
    'model': ([(m, 'M', v, c) for m in 'AB' for v in 'VW' for c in (0, 3)],
              [('A', 'M', 'V', 0), ('A', 'M', 'V', 3), ('B', 'M', 'V', 0), ('A', 'M', 'W', 3), ('C', 'M', 'V', 3)]),
    'mask': ([(m, k, 'V', c) for m in 'AB' for k in 'MN' for c in (0, 3)],
             [('A', 'N', 'V', 0), ('A', 'M', 'V', 3), ('B', 'N', 'V', 0), ('B', 'M', 'V', 3)]),
}
NAMES = {'numbers': {'A': '1', 'B': '22', 'M': '0.5', 'N': '1.5'}, 'numbers among names': {'A': '1', 'B': 'A', 'M': '0.5'}}
SPACE = {c: 'mask' if c in NAMES or 'series variables' in c else 'model' for c in CONFIGS}


def rows(cells, picks, label):
    n_ = NAMES.get(label, {})
    return [[n_.get(m, m), n_.get(k, k), v, CASES[c][0], CASES[c][1], i] for i, ((m, k, v, c), n) in enumerate(zip(cells, picks)) if n]


def selected(row, var, series):
    d = dict(zip(COLS, row))
    return d['fcst_var'] == var and all(d[s] in [u for x in vals for u in ungroup(x)] for s, vals in series.items())


def expected(data, refs, conf):
    keep = []
    for axis in '12':
        series = conf['series_val_' + axis]
        for var in conf.get('fcst_var_val_' + axis, {}):
            if axis == '2' and not series:
                continue
            cases = {(r[3], r[4]) for r in refs if selected(r, var, series)}
            keep += [r[5] for r in data if selected(r, var, series) and (r[3], r[4]) in cases]
    return sorted(set(keep))


def check_job(rec, item):
    from metcalcpy.agg_stat_eqz import AggStatEventEqz
    for label, picks, ref_picks in item:
        conf = dict(CONFIGS[label])
        cells, ref_cells = WHERE[SPACE[label]]
        data, refs = rows(cells, picks, label), rows(ref_cells, ref_picks, label)
        inp, ee, out = (os.path.join(rec.dir, n) for n in ('in.data', 'ee.data', 'out.data'))
        write_table(inp, COLS, data)
        write_table(ee, COLS + ['equalize'], [r + [name((r[3], r[4]))] for r in refs])
        params = dict({'event_equal': 'True', 'agg_stat_input': inp, 'agg_stat_input_ee': ee, 'agg_stat_output': out,
                       'fcst_var_val_2': {}}, **conf)
        exp = sorted(r[5] for r in data) if label == 'off' else expected(data, refs, conf)
        rec.state((label, picks, ref_picks), depth=sum(picks))
        rec.transition()
        rec.trace()
        rec.count('jobs')
        rec.outcome((label, tuple(exp)))
        try:
            if os.path.exists(out):
                os.unlink(out)
            with quiet():
                AggStatEventEqz(params).calculate_values()
            if os.path.getsize(out) < 5:
                got, full = [], []
            else:
                full = read_table(out)[1]
                got = sorted(int(r['rid']) for r in full)
        except Exception as err:  # noqa
            got, full = Raised(err), []
        bad = isinstance(got, Raised) or got != exp
        if not bad:
            by_id = {r[5]: dict(zip(COLS, map(str, r))) for r in data}
            bad = any({c: r.get(c) for c in COLS} != by_id[int(r['rid'])] for r in full)
        if bad:
            rec.violation('equalization job (%s): kept records %r, expected %r' % (label, got, exp),
                          {'params': conf, 'columns': COLS, 'records': data, 'reference': refs, 'got': repr(got),
                           'expected': exp})


def explore(check):
    import pandas as pd
    fn = []
    for counts in subsets(8):
        for refs in itertools.product((0, 1), repeat=5):
            fn.append((counts, refs, 0))
            if not refs[-1]:
                fn += [(counts, refs, close) for close in CLOSE]
    for counts in subsets(4, 2):
        for refs in itertools.product((0, 1), repeat=5):
            fn.append((counts + (0,) * 4, refs, 1))
    jobs = []
    for label in CONFIGS:
        cells, ref_cells = WHERE[SPACE[label]]
        for picks in subsets(len(cells)):
            if not sum(picks) or (not check.thorough and label in ('groups', 'off', 'one series', 'one axis') and sum(picks) > 4):
                continue
            for refs in subsets(len(ref_cells)):
                if label == 'off' and sum(refs) > 1:
                    continue
                jobs.append((label, picks, refs))
    if not check.thorough:
        jobs = [j for j in jobs if sum(j[1]) <= 4]
    check.bounds = {'function': '%d (records, reference) pairs' % len(fn), 'jobs': '%d over %d configurations' % (
        len(jobs), len(CONFIGS))}
    check.preload = ['metcalcpy.agg_stat_eqz', 'metcalcpy.event_equalize_against_values']
    check.run(check_function, batches(fn, 200), chunk=1)
    check.run(check_job, batches(jobs, 100), chunk=1)
