"""Drive AggStat end to end: write the input table, run, read the output table back."""
import contextlib
import csv
import io
import math
import os
import warnings


def write_table(path, columns, rows):
    with open(path, 'w', newline='') as f:
        w = csv.writer(f, delimiter='\t', lineterminator='\n')
        w.writerow(columns)
        for r in rows:
            w.writerow(['NA' if v is None or (isinstance(v, float) and math.isnan(v)) else
                        (repr(float(v)) if isinstance(v, float) else v) for v in r])


def read_table(path):
    with open(path, newline='') as f:
        rd = csv.reader(f, delimiter='\t')
        head = next(rd, [])
        return head, [dict(zip(head, r)) for r in rd]


def number(cell):
    """A cell of an output table as float, or None when it says 'no value'."""
    if cell is None or cell.strip().lower() in ('', 'na', 'none', 'nan'):
        return None
    return float(cell)


def base_params(inp, out, **over):
    p = {
        'agg_stat_input': inp, 'agg_stat_output': out, 'append_to_file': False,
        'random_seed': 1, 'event_equal': 'False', 'line_type': 'ctc',
        'series_val_1': {'model': ['M']}, 'series_val_2': {}, 'indy_var': 'fcst_lead', 'indy_vals': [],
        'list_stat_1': [], 'list_stat_2': [], 'fcst_var_val_1': {}, 'fcst_var_val_2': {},
        'derived_series_1': [], 'derived_series_2': [], 'num_iterations': 1, 'num_threads': 1,
        'method': 'perc', 'alpha': 0.05, 'circular_block_bootstrap': 'False',
        'fixed_vars_vals_input': {}, 'add_base_rate': 0,
    }
    p.update(over)
    return p


@contextlib.contextmanager
def quiet():
    """Silence the implementation's prints; warnings filters are restored afterwards."""
    with warnings.catch_warnings():
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield


def run_aggstat(params):
    from metcalcpy.agg_stat import AggStat
    if not params.get('append_to_file') and os.path.exists(params['agg_stat_output']):
        os.unlink(params['agg_stat_output'])
    with quiet():
        AggStat(params).calculate_stats_and_ci()
    return read_table(params['agg_stat_output'])


def agg_tables(workdir, line_type, columns, tables, stats, **over):
    """One AggStat run over many independent tables, one per forecast lead.

    Returns {(table index, stat): output row}.
    """
    inp = os.path.join(workdir, 'agg_in.data')
    out = os.path.join(workdir, 'agg_out.data')
    rows = []
    for i, table in enumerate(tables):
        for k, r in enumerate(table):
            valid = '2020-01-%02d %02d:00:00' % (1 + k // 24 % 28, k % 24)
            rows.append(['M', i + 1, valid, valid] + list(r))
    write_table(inp, ['model', 'fcst_lead', 'fcst_valid_beg', 'fcst_init_beg'] + list(columns), rows)
    params = base_params(inp, out, line_type=line_type,
                         indy_vals=[str(i + 1) for i in range(len(tables))],
                         list_stat_1=list(stats), **over)
    _, res = run_aggstat(params)
    return {(int(r['fcst_lead']) - 1, r['stat_name']): r for r in res}, len(res)
