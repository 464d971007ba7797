"""A07: appending keeps the earlier rows and one header."""
import itertools
import os

from mc.aggdrv import base_params, quiet, write_table
from mc.spaces import batches
from mc.statrun import Raised

DAYS = ['2020-01-%02d 00:00:00' % d for d in range(1, 4)]
CTC = ['model', 'fcst_lead', 'fcst_valid_beg', 'fcst_init_beg', 'fcst_var', 'stat_name', 'total', 'fy_oy', 'fy_on', 'fn_oy', 'fn_on']
CARD = ['model', 'fcst_lead', 'vx_mask', 'fcst_var', 'fcst_valid_beg', 'fcst_init_beg', 'stat_name', 'stat_value']
ABSENT = object()
MODES = {'no': False, 'no text': 'False', 'not given': ABSENT, 'yes': True, 'yes text': 'True'}


def aggregation(dirname, inp, out, n):
    from metcalcpy.agg_stat import AggStat
    write_table(inp, CTC, [['A', '0', DAYS[i], DAYS[i], 'V', 'FAR', 10 * n, n, 3 + i, 2, 1] for i in range(n)])
    return base_params(inp, out, indy_vals=['0', '120000'][:n], list_stat_1=['FAR', 'CTC_TOTAL'], series_val_1={'model': ['A']}), \
        lambda p: AggStat(p).calculate_stats_and_ci()


def economic(dirname, inp, out, n):
    from metcalcpy.agg_eclv import AggEclv
    write_table(inp, CTC, [['A', '0', DAYS[i], DAYS[i], 'V', 'ECLV', 7 + i + n, n, 3 + i, 2, 2] for i in range(n)])
    return base_params(inp, out, cl_step=0.25, list_stat_1=['ECLV'], series_val_1={'model': ['A']}), \
        lambda p: AggEclv(p).calculate_stats_and_ci()


def scorecard(dirname, inp, out, n):
    from metcalcpy.scorecard import Scorecard
    write_table(inp, CARD, [[m, '120000', 'EAST', 'HGT', DAYS[i], DAYS[i], 'RMSE', n + i + k * 0.5 * i]
                            for i in range(n) for k, m in enumerate('AB')])
    return {'derived_series_1': [['A 120000 HGT RMSE', 'B 120000 HGT RMSE', 'DIFF']], 'event_equal': False,
            'fcst_var_val_1': {'HGT': ['RMSE']}, 'indy_vals': ['EAST'], 'indy_var': 'vx_mask', 'line_type': 'sl1l2',
            'list_stat_1': ['RMSE'], 'ndays': 10, 'series_val_1': {'model': ['A', 'B'], 'fcst_lead': ['120000']},
            'stat_flag': 'NCAR', 'sum_stat_input': inp, 'sum_stat_output': out}, lambda p: Scorecard(p).calculate_scorecard_data()


KINDS = {'aggregation': aggregation, 'economic value': economic, 'scorecard': scorecard}


def execute(kind, dirname, out, n, mode):
    params, run = KINDS[kind](dirname, os.path.join(dirname, 'in%d.data' % n), out, n)
    params.pop('append_to_file', None)
    if MODES[mode] is not ABSENT:
        params['append_to_file'] = MODES[mode]
    with quiet():
        run(params)


def read(path):
    with open(path) as f:
        return f.read()


def worker(rec, item):
    kind, part = item
    out = os.path.join(rec.dir, 'out.data')
    alone = {}
    for start, seq in part:
        for path in (out,):
            if os.path.exists(path):
                os.unlink(path)
        if start == 'foreign':
            with open(out, 'w') as f:
                f.write('something\telse\n1\t2\n' * 40)
        model = None
        for step, (n, mode) in enumerate(seq):
            replay = {'job': kind, 'start': start, 'sequence': seq[:step + 1]}
            try:
                if n not in alone:
                    own = os.path.join(rec.dir, 'own.data')
                    if os.path.exists(own):
                        os.unlink(own)
                    execute(kind, rec.dir, own, n, 'no')
                    alone[n] = read(own).splitlines(True)
                execute(kind, rec.dir, out, n, mode)
                got = read(out)
            except Exception as err:  # noqa
                rec.violation('%s jobs %r from %s: %r' % (kind, seq[:step + 1], start, Raised(err)), replay)
                break
            if mode.startswith('yes'):
                model = model + ''.join(alone[n][1:])
            else:
                model = ''.join(alone[n])
            rec.state((kind, start, seq[:step + 1]), depth=step + 1)
            rec.transition()
            rec.trace()
            rec.outcome((kind, got))
            if got != model:
                rec.violation('%s jobs %r from %s: the output is %r, expected %r' % (kind, seq[:step + 1], start, got, model), replay)
                break
        rec.sample({'job': kind, 'start': start, 'sequence': seq})
        # the job alone has something to write
        for n, lines in alone.items():
            if len(lines) < 2:
                rec.violation('%s job %d writes no rows' % (kind, n), {'job': kind, 'input': n})


def explore(check):
    check.preload = ['metcalcpy.agg_stat', 'metcalcpy.agg_eclv', 'metcalcpy.scorecard']
    items = []
    first = [(n, m) for n in (1, 2) for m in MODES if m.startswith('no')]
    later = [(n, m) for n in (1, 2) for m in MODES]
    short = [(n, m) for n in (1, 2) for m in ('no', 'yes text', 'yes')]
    for kind in KINDS:
        seqs = []
        for f in first:
            for length in (2, 3) if not check.thorough else (2, 3, 4):
                seqs += [(f,) + rest for rest in itertools.product(later if length < 3 else short, repeat=length - 1)]
            seqs += [(f, (1, 'yes'), (2, 'yes text'), x) for x in later]
        work = [(start, s) for s in seqs for start in ('absent', 'foreign')]
        items += [(kind, b) for b in batches(work, 40)]
    check.bounds = {'jobs': len(KINDS), 'modes': list(MODES), 'sequence length': '2-4', 'starts': ['absent', 'foreign']}
    check.run(worker, items, chunk=1)
