"""One ordinary example table per line type, for checks that range over all statistics.

Each entry has rows as they stand in an input file, and the table and arguments of the direct call.
"""
from mc import stats
from mc.pairchecks import premultiply


class Entry:
    def __init__(self, line_type, columns, rows, names, direct=None, args=(True,), oracle=None):
        self.line_type, self.columns, self.rows, self.names = line_type, list(columns), [list(r) for r in rows], names
        self._direct = direct or (lambda rs: (self.columns, premultiply(self.columns, rs)))
        self.args = args
        # expected statistics of the lines with the given indexes, where a definition is at hand
        self.oracle = oracle

    def direct(self, rows=None):
        return self._direct(self.rows if rows is None else rows)

    def args_of(self, stat):
        return () if stat.endswith('_total') else self.args


def _same(columns):
    return lambda rows: (list(columns), [list(r) for r in rows])


def _mul(a, b):
    return None if a is None or b is None else a * b


def nbr_direct(rows):
    cols = stats.NBRCNT_COLUMNS
    out = []
    for r in rows:
        d = dict(zip(cols, r))
        new = [x if c in ('total', 'afss', 'ufss') else _mul(x, d['total']) for c, x in zip(cols, r)]
        fss = None
        if d['fss'] is not None and d['fbs'] is not None and d['fss'] != 1:
            fss = _mul(d['fbs'] / (1 - d['fss']), d['total'])
        new[cols.index('fss')] = fss
        out.append(new)
    return cols, out


def rps_direct(rows):
    cols = stats.RPS_COLUMNS + ['rps_climo']
    out = []
    for t, rps, rpss, comp in rows:
        climo = None if rps is None or rpss is None or rpss == 1 else _mul(rps / (1 - rpss), t)
        out.append([t, _mul(rps, t), rpss, _mul(comp, t), climo])
    return cols, out


def ecnt_direct(rows):
    cols = stats.ECNT_COLUMNS
    out = []
    for r in rows:
        d = dict(zip(cols, r))
        new = []
        for c in cols:
            if c in ('total', 'n_ge_obs', 'n_lt_obs'):
                new.append(d[c])
            elif c in ('me_ge_obs', 'me_lt_obs'):
                new.append(_mul(d[c], d['n' + c[2:]]))
            else:
                new.append(_mul(d[c], d['total']))
        for c in ('rmse', 'rmse_oerr', 'spread', 'spread_oerr', 'spread_plus_oerr'):
            new.append(_mul(_mul(d[c], d[c]), d['total']))
        out.append(new)
    return cols + ['mse', 'mse_oerr', 'variance', 'variance_oerr', 'variance_plus_oerr'], out


def ssvar_direct(rows):
    return ['total_orig', 'total'] + stats.SSVAR_COLUMNS[2:], \
        [[r[0], r[1]] + [_mul(x, r[1]) for x in r[2:]] for r in rows]


def weighted(columns, rows):
    """premultiply that lets missing cells through."""
    t = columns.index('total')
    return columns, [[x if c == 'total' else _mul(x, r[t]) for c, x in zip(columns, r)] for r in rows]


def entries():
    out = []
    ctc = [stats.ctc_line(*l) for l in ((5, 2, 3, 10), (1, 4, 6, 2), (7, 1, 2, 9))]
    out.append(Entry('ctc', stats.CTC_COLUMNS, ctc, list(stats.ctc_oracle(ctc)), _same(stats.CTC_COLUMNS), (),
                     lambda ix: stats.ctc_oracle([ctc[i] for i in ix])))
    out.append(Entry('nbr_ctc', stats.CTC_COLUMNS, ctc, list(stats.nbr_ctc_oracle(ctc)), _same(stats.CTC_COLUMNS), (),
                     lambda ix: stats.nbr_ctc_oracle([ctc[i] for i in ix])))
    pairs = (((1, 2), (3, 1), (4, 5)), ((-2, -1), (0.5, -3)), ((2, 7), (6, 4), (1, 1), (9, 6)))
    winds = (((1, 2, 3, 1), (-2, 1, 0, 4)), ((3, -1, -1, -1), (0.5, 0, -3, 1), (2, 2, 1, 5)), ((4, 1, 2, 2), (1, 6, 0, 3)))

    def add(name, columns, line, oracle, groups, direct=None):
        rows = [line(g) for g in groups]
        out.append(Entry(name, columns, rows, list(oracle(groups)),
                         direct or (lambda rs: weighted(list(columns), rs)),
                         oracle=lambda ix: oracle([groups[i] for i in ix])))
    add('sl1l2', stats.SL1L2_COLUMNS, stats.sl1l2_line, stats.continuous_oracle, pairs)
    add('sal1l2', stats.SAL1L2_COLUMNS, stats.sal1l2_line, stats.sal1l2_oracle, pairs)
    add('vl1l2', stats.VL1L2_COLUMNS, stats.vl1l2_line, stats.vl1l2_oracle, winds)
    add('val1l2', stats.VAL1L2_COLUMNS, stats.val1l2_line, stats.val1l2_oracle, winds)
    add('vcnt', stats.VCNT_COLUMNS, stats.vcnt_line, stats.vcnt_oracle, winds)
    grad = [(2, 1, 2, 3, 1), (5, 2.5, 0, 2.5, 0.5), (1, 0.25, 1.25, 1.25, 4)]
    add('grad', stats.GRAD_COLUMNS, lambda l: l, stats.grad_oracle, grad)
    from fractions import Fraction as Fr
    nbr = [(1, Fr(1, 4), Fr(1, 2), 0.5, 0.25), (5, Fr(1, 8), Fr(5, 8), 1, 0.5), (2, Fr(1, 16), Fr(1, 4), 0.25, 0.125)]
    add('nbr_cnt', stats.NBRCNT_COLUMNS, lambda l: stats.nbrcnt_line(*l), stats.nbrcnt_oracle, nbr, nbr_direct)
    rps = [(1, Fr(1, 4), Fr(1, 2), 0.75), (5, Fr(3, 4), Fr(1, 4), 0.25), (2, Fr(1, 16), 1, 0.9375)]
    add('rps', stats.RPS_COLUMNS, lambda l: stats.rps_line(*l), stats.rps_oracle, rps, rps_direct)
    from checks.S06_ecnt import line as ecnt_line
    add('ecnt', stats.ECNT_COLUMNS, lambda l: l, stats.ecnt_oracle,
        [ecnt_line(3, 0, 2, 3), ecnt_line(10, 1, 7, 1), ecnt_line(4, 2, 3, 4)], ecnt_direct)
    bins = [(g, v) for g, v in zip(pairs, (0.25, 1.5, 4))]
    add('ssvar', stats.SSVAR_COLUMNS, lambda g: stats.ssvar_line(g, 7), lambda t: stats.ssvar_oracle(t, [7] * len(t)),
        bins, ssvar_direct)
    from checks.S08_mctc import columns as mcols, orders, row
    order = list(orders(3))[0]
    mrows = [row(3, 0.125, t, order) for t in ((5, 1, 0, 2, 7, 1, 0, 3, 4), (1, 2, 3, 4, 5, 6, 7, 8, 9), (9, 0, 1, 0, 9, 0, 2, 0, 9))]
    out.append(Entry('mctc', mcols(3), mrows, ['mcts_hss_ec'], _same(mcols(3)), ()))
    from checks.S09_pct import PROBS, columns as pcols, rows as prow
    bins = (((1, 2), (2, 2), (3, 1)), ((0, 4), (1, 0), (5, 2)), ((2, 2), (0, 1), (1, 6)))
    names = ['pct_total'] + ['pstd_' + s for s in 'brier bss_smpl baser reliability resolution uncertainty roc_auc'.split()]

    def pct_direct(rows):
        cols = pcols('plain', 3)
        oy = sum(r[cols.index('oy_i_%d' % i)] or 0 for r in rows for i in range(3))
        on = sum(r[cols.index('on_i_%d' % i)] or 0 for r in rows for i in range(3))
        o_bar = oy / (oy + on) if oy + on else None
        return cols + ['o_bar'], [list(r) + [o_bar] for r in rows]
    out.append(Entry('pct', pcols('plain', 3), prow(range(3), PROBS[3], bins), names, pct_direct, ()))
    return out
