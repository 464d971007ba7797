"""A catalogue of small jobs, one or more for every driver of the package."""
import os

from mc.aggdrv import base_params, write_table
from mc.eqz import TIMES
from mc.registry import entries

FIELDS = ['model', 'vx_mask', 'fcst_lead', 'fcst_valid_beg', 'fcst_init_beg', 'fcst_var', 'stat_name']
DAYS = ['2020-01-%02d 00:00:00' % d for d in range(1, 8)]


def _agg(params):
    from metcalcpy.agg_stat import AggStat
    AggStat(params).calculate_stats_and_ci()


def _sum(params):
    from metcalcpy.sum_stat import SumStat
    SumStat(params).calculate_stats()


def _eclv(params):
    from metcalcpy.agg_eclv import AggEclv
    AggEclv(params).calculate_stats_and_ci()


def _mode(params):
    from metcalcpy.agg_stat_bootstrap import AggStatBootstrap
    AggStatBootstrap(params).calculate_values()


def _eqz(params):
    from metcalcpy.agg_stat_eqz import AggStatEventEqz
    AggStatEventEqz(params).calculate_values()


def _equalize(params):
    from metcalcpy.agg_stat_event_equalize import AggStatEventEqualize
    AggStatEventEqualize(params).calculate_values()


def _card(params):
    from metcalcpy.scorecard import Scorecard
    Scorecard(params).calculate_scorecard_data()


def _lines(entry, stats, models=('A', 'B'), leads=('0', '120000'), masks=('M', 'N'), days=3):
    rows, k = [], 0
    for d in range(days):
        for m in models:
            for lead in leads:
                for mask in masks:
                    k += 1
                    for s in stats:
                        rows.append([m, mask, lead, DAYS[d], DAYS[d], 'V', s] + list(entry.rows[(k * k + d) % len(entry.rows)]))
    return rows


MODE = ['model', 'fcst_lead', 'fcst_valid', 'fcst_var', 'object_id', 'object_type', 'fcst_flag', 'simple_flag',
        'matched_flag', 'area']
CARD = ['model', 'fcst_lead', 'vx_mask', 'fcst_var', 'fcst_valid_beg', 'fcst_init_beg', 'stat_name', 'stat_value']
CTC = ['total', 'fy_oy', 'fy_on', 'fn_oy', 'fn_on']


def catalogue():
    """{name: (columns, rows, extra tables, parameters, driver, bootstrapped)}; parameters get the paths later."""
    jobs = {}
    by_name = {e.line_type: e for e in entries()}
    for name, e in by_name.items():
        stats = [n.upper() for n in e.names]
        # the statistics most and least alike
        stats = stats[:6] + stats[6:][-4:]
        few = stats[:2]
        base = dict(line_type=name, series_val_1={'model': ['A', 'B']}, indy_vals=['0', '120000'], list_stat_1=stats,
                    fcst_var_val_1={'V': stats})
        rows = _lines(e, stats, masks=('M',))
        jobs[name] = (FIELDS + e.columns, rows, {}, base, _agg, False)
        jobs[name + ' intervals'] = (FIELDS + e.columns, rows, {}, dict(base, num_iterations=5, list_stat_1=stats[:3],
                                                                       fcst_var_val_1={'V': stats[:3]}), _agg, True)
        if name != 'mctc':
            jobs[name + ' groups'] = (FIELDS + e.columns, _lines(e, few, days=2), {}, dict(
                base, series_val_1={'model': ['A:B', 'A'], 'vx_mask': ['M;N', 'N']}, indy_vals=['0:120000', '0'],
                list_stat_1=few, fcst_var_val_1={'V': few}), _agg, False)
        kind = {'nbr_cnt': 'nbrcnt', 'nbr_ctc': 'nbrctc'}.get(name, name)
        if name not in ('mctc', 'ssvar', 'vcnt'):
            jobs[name + ' summary'] = ([c for c in FIELDS] + ['stat_value'] + e.columns,
                                       [r[:7] + [None] + r[7:] for r in _lines(e, few, days=2)], {}, {
                'line_type': kind, 'series_val_1': {'model': ['A', 'B'], 'vx_mask': ['M;N', 'M']}, 'indy_vals': ['0', '120000'],
                'indy_var': 'fcst_lead', 'list_stat_1': few, 'fcst_var_val_1': {'V': few}, 'series_val_2': {},
                'list_stat_2': [], 'fcst_var_val_2': {}, 'event_equal': 'False', 'fixed_vars_vals_input': {},
                'paths': ('sum_stat_input', 'sum_stat_output')}, _sum, False)
    e = by_name['ctc']
    stats = ['FAR', 'PODY', 'CTC_TOTAL']
    rows = _lines(e, stats, days=4, masks=('M',))
    base = dict(line_type='ctc', series_val_1={'model': ['A', 'B']}, indy_vals=['0', '120000'], list_stat_1=stats,
                fcst_var_val_1={'V': stats})
    ops = ['DIFF', 'RATIO', 'SS', 'SINGLE', 'DIFF_SIG']
    for n in (1, 6):
        jobs['derived curves %d' % n] = (FIELDS + e.columns, rows, {}, dict(
            base, num_iterations=n, derived_series_1=[['A V ' + s, 'B V ' + s, op] for s in stats[:2] for op in ops
                                                      if n > 1 or op != 'DIFF_SIG']), _agg, n > 1)
    jobs['two axes'] = (FIELDS + e.columns, rows, {}, dict(
        base, series_val_2={'model': ['B']}, list_stat_2=['FAR'], fcst_var_val_2={'V': ['FAR']}, num_iterations=4,
        derived_series_1=[['A V FAR', 'B V FAR', 'DIFF']]), _agg, True)
    gappy = [r for i, r in enumerate(rows) if i % 5]
    jobs['equalized'] = (FIELDS + e.columns, gappy, {}, dict(
        base, event_equal='True', series_val_2={'model': ['A']}, list_stat_2=['FAR'], fcst_var_val_2={'V': ['FAR']}), _agg, False)
    ctc = [[m, '0', DAYS[i], DAYS[i], 'V', 'ECLV', 10 + i, 4 - i + (m == 'B'), 1 + i, 2, 3] for i in range(3) for m in 'AB']
    cols = ['model', 'fcst_lead', 'fcst_valid_beg', 'fcst_init_beg', 'fcst_var', 'stat_name'] + CTC
    for n in (1, 6):
        jobs['economic value %d' % n] = (cols, ctc, {}, dict(cl_step=0.25, series_val_1={'model': ['A', 'B']}, list_stat_1=['ECLV'],
                                                             num_iterations=n), _eclv, n > 1)
    objects = [[m, lead, DAYS[i], 'V', 'O%d%d' % (i, k), '2d', k % 2, 1, (i + k) % 2, 4.5 + 2 * i + k + (m == 'B')]
               for m in 'AB' for lead in ('0', '120000') for i in range(3) for k in range(3)]
    stats = ['OBJHITS', 'RATIO_FSA_ASA', 'OBJCSI']
    base = dict(series_val_1={'model': ['A', 'B']}, indy_vals=['0', '120000'], list_stat_1=stats, fcst_var_val_1={'V': stats})
    for n in (1, 6):
        jobs['objects %d' % n] = (MODE, objects, {}, dict(base, num_iterations=n), _mode, n > 1)
    prev = [['V', 'A', '%s %s' % (DAYS[i], '0')] for i in range(2)]
    plain = ['model', 'fcst_lead', 'fcst_valid_beg', 'fcst_init_beg', 'fcst_var', 'stat_name', 'stat_value']
    some = [[m, lead, DAYS[i], DAYS[i], 'V', 'S', i + 1] for m in 'AB' for lead in ('0', '120000') for i in range(3)
            if (m, lead, i) != ('A', '0', 1)]
    eq = dict(series_val_1={'model': ['A', 'B']}, series_val_2={'model': ['B']}, indy_vals=['0', '120000'], list_stat_1=['S'],
              fcst_var_val_1={'V': ['S']}, fcst_var_val_2={'V': ['S']}, event_equal='True', equalize_by_indep=True)
    jobs['equalize cases'] = ([c.replace('_beg', '') for c in plain], some, {'agg_stat_input_ee': (['fcst_var', 'model', 'equalize'], prev)}, dict(eq), _eqz, False)
    jobs['equalize attributes'] = (plain, some, {}, dict(eq), _equalize, False)
    card = [[m, lead, mask, 'HGT', DAYS[i], DAYS[i], 'RMSE', 1.5 + i * 0.25 + k * 0.5 * i] for i in range(3) for k, m in enumerate('AB')
            for lead in ('120000', '240000') for mask in ('EAST', 'WEST')]
    for flag in ('NCAR', 'EMC'):
        jobs['scorecard ' + flag] = (CARD, card, {}, {
            'derived_series_1': [['A %s HGT RMSE' % lead, 'B %s HGT RMSE' % lead, op] for lead in ('120000:240000', '120000')
                                 for op in ('DIFF', 'DIFF_SIG', 'SINGLE')],
            'event_equal': False, 'fcst_var_val_1': {'HGT': ['RMSE']}, 'indy_vals': ['EAST', 'WEST'], 'indy_var': 'vx_mask',
            'line_type': 'sl1l2', 'list_stat_1': ['RMSE'], 'ndays': 10,
            'series_val_1': {'model': ['A', 'B'], 'fcst_lead': ['120000:240000', '120000']}, 'stat_flag': flag,
            'append_to_file': False, 'paths': ('sum_stat_input', 'sum_stat_output')}, _card, False)
    return jobs


def prepare(job, dirname, **over):
    """Write the tables of a job; returns (parameters, input paths, output path)."""
    columns, rows, extra, params, _, _ = job
    inp, out = os.path.join(dirname, 'table.data'), os.path.join(dirname, 'result.data')
    write_table(inp, columns, rows)
    inputs = [inp]
    params = _copy(params)
    names = params.pop('paths', None)
    if names:
        params.update({names[0]: inp, names[1]: out})
    else:
        params = base_params(inp, out, **params)
    for key, (cols, lines) in extra.items():
        path = os.path.join(dirname, key + '.data')
        write_table(path, cols, lines)
        inputs.append(path)
        params[key] = path
    params.update(over)
    return params, inputs, out


def _copy(x):
    if isinstance(x, dict):
        return {k: _copy(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(_copy(v) for v in x)
    return x
