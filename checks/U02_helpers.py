"""U02: permutations, names, value parsing, selections and ordering helpers over all small arguments."""
import itertools
import math
import re
from fractions import Fraction

import numpy as np
import pandas as pd

from checks.U03_serial import observe
from mc.spaces import batches


def judge(rec, what, got, want, replay):
    rec.trace()
    rec.outcome(repr(got))
    if not (type(got) is type(want) and got == want):
        rec.violation('%s: %r, expected %r' % (what, got, want), replay)


def listings(rec, part):
    from metcalcpy.util.utils import create_permutations, create_permutations_mv
    for sizes in part:
        fields = [['f%dv%d' % (i, j) for j in range(k)] for i, k in enumerate(sizes)]
        rec.state(('fields', sizes), depth=sum(sizes))
        rec.transition()
        want = list(itertools.product(*fields))
        judge(rec, 'combinations of %r' % fields, observe(create_permutations, fields), want, {'fields': fields})
        # with names: a field without values takes no part, the first field changes fastest
        used = [f for f in fields if f]
        mv = [list(reversed(c)) for c in itertools.product(*reversed(used))] if used else []
        if len(used) == 1:
            mv = used[0]
        named = {'n%d' % i: list(f) for i, f in enumerate(fields)}
        before = repr(named)
        judge(rec, 'named combinations of %r' % named, observe(create_permutations_mv, named, 0), mv,
              {'fields': named})
        if repr(named) != before:
            rec.violation('named combinations changed their argument', {'fields': before})
        if all(sizes):
            judge(rec, 'listed combinations of %r' % fields, observe(create_permutations_mv, fields, 0), mv,
                  {'fields': fields})


OPS = [None, 'DIFF', 'RATIO', 'SS', 'SINGLE', 'ETB', 'DIFF_SIG']
NAMES = ['A', 'B', 'A B', 'DIFF', 'SS', 'RATIO_1', 'model TMP RMSE', 'A-B', '']


def names(rec, item):
    from metcalcpy.util.utils import OPERATION_TO_SIGN, get_derived_curve_name, is_derived_point
    seen = {}
    for a, b, op in itertools.product(NAMES, NAMES, [o for o in OPS if o is None or o in OPERATION_TO_SIGN]):
        rec.state(('name', a, b, op))
        rec.transition()
        parts = [a, b] + ([op] if op else [])
        got = observe(get_derived_curve_name, parts)
        rec.trace()
        rec.outcome(got)
        oper = op or 'DIFF'
        if not (isinstance(got, str) and got.startswith(oper + '(') and got.endswith(')')
                and got[len(oper) + 1:].startswith(a) and got[:-1].endswith(b)):
            rec.violation('name of %r: %r' % (parts, got), {'parts': parts})
            continue
        # names without the operator's own characters can be told apart
        if '-' not in a and '-' not in b:
            key = (a, b, oper)
            if seen.setdefault(got, key) != key:
                rec.violation('%r and %r have the same name %r' % (seen[got], key, got), {'parts': parts})
        # a derived name marks the point as derived at every place
        for place in range(3):
            point = ['0', 'A', 'TMP']
            point[place] = got
            for p in (point, tuple(point)):
                judge(rec, 'derived point %r' % (p,), observe(is_derived_point, p), True, {'point': list(p)})
    for parts in ([], ['A']):
        judge(rec, 'name of %r' % parts, observe(get_derived_curve_name, parts), '', {'parts': parts})
    judge(rec, 'no point', observe(is_derived_point, None), False, {'point': None})
    plain = [n for n in NAMES] + ['DIFFERENCE(A)', 'xDIFF(A-B)', 'SSA', 'A(B)', '(DIFF)', 'DIFF_', 'ETBA(']
    for k in (1, 2, 3):
        for p in itertools.product(plain, repeat=k):
            rec.state(('plain', p))
            rec.transition()
            judge(rec, 'plain point %r' % (p,), observe(is_derived_point, p), False, {'point': p})


def texts(rec, part):
    from metcalcpy.util.utils import is_string_integer, is_string_strictly_float, parse_bool
    for s in part:
        rec.state(('text', s), depth=len(s))
        rec.transition()
        if not re.search(r'[ +_]', s):
            judge(rec, 'integer %r' % s, observe(is_string_integer, s), bool(re.fullmatch(r'-?[0-9]+', s)),
                  {'text': s})
        judge(rec, 'float %r' % s, observe(is_string_strictly_float, s),
              bool(re.fullmatch(r'-?([0-9]+\.[0-9]*|\.[0-9]+)', s)), {'text': s})
        judge(rec, 'boolean %r' % s, observe(parse_bool, s), {'True': True, 'False': False}.get(s, s), {'text': s})


def lists(rec, part):
    from metcalcpy.util.utils import intersection, unique
    for a in part:
        rec.state(('list', a), depth=len(a))
        got = observe(unique, list(a))
        rec.trace()
        rec.transition()
        if not a:
            ok = got is None
        else:
            ok = isinstance(got, list) and sorted(got) == sorted(set(a))
        if not ok:
            rec.violation('unique values of %r: %r' % (a, got), {'list': a})
        for n in range(4):
            for b in itertools.product('abc', repeat=n):
                judge(rec, 'common values of %r and %r' % (a, b), observe(intersection, list(a), list(b)),
                      [x for x in a if x in b], {'a': a, 'b': b})


def rounding(rec, part):
    from metcalcpy.util.utils import round_half_up
    for k in part:
        # eighths are exact in binary, so ties are real ties
        for den in (1, 2, 4, 8):
            x = k / den
            for dec in (0, 1, 2, 5):
                rec.state(('round', x, dec))
                rec.transition()
                got = observe(round_half_up, x, dec)
                rec.trace()
                rec.outcome(repr(got))
                want = Fraction(math.floor(Fraction(x) * 10 ** dec + Fraction(1, 2)), 10 ** dec)
                if not (isinstance(got, (int, float)) and abs(got - float(want)) <= 1e-12 * max(1, abs(x))):
                    rec.violation('%r rounded to %d decimals: %r, expected %s' % (x, dec, got, want),
                                  {'x': x, 'decimals': dec})


def selections(rec, part):
    """Filtering rows of a table by column values; ordering a table by time, lead and statistic."""
    from metcalcpy.util.utils import column_data_by_name, column_data_by_name_value, \
        nrow_column_data_by_name_value, sum_column_data_by_name
    cols = np.array(['m', 'k', 'x'])
    for rows in part:
        rec.state(('rows', rows), depth=len(rows))
        rec.transition()
        table = np.array([list(r) for r in rows], dtype=object).reshape(len(rows), 3)
        for flt in ({'m': 'a'}, {'k': 1}, {'m': 'b', 'k': 2}, {}):
            want = [r for r in rows if all(r[['m', 'k', 'x'].index(c)] == v for c, v in flt.items())]
            got = observe(column_data_by_name_value, table, cols, flt)
            rec.trace()
            if isinstance(got, str) or [tuple(r) for r in got] != want:
                rec.violation('rows of %r with %r: %r' % (rows, flt, got), {'rows': rows, 'filter': flt})
            judge(rec, 'number of rows of %r with %r' % (rows, flt),
                  observe(nrow_column_data_by_name_value, table, cols, flt), len(want), {'rows': rows, 'filter': flt})
        values = [r[2] for r in rows]
        real = [v for v in values if v is not None]
        got = observe(sum_column_data_by_name, table, cols, 'x')
        rec.trace()
        rec.outcome(repr(got))
        if (got is None) != (not real and bool(values)) or (got is not None and got != sum(real)):
            rec.violation('sum of %r: %r' % (values, got), {'rows': rows})
        got = observe(sum_column_data_by_name, table, cols, 'x', rm_none=False)
        rec.trace()
        strict = sum(real) if len(real) == len(values) else None
        if got != strict:
            rec.violation('strict sum of %r: %r' % (values, got), {'rows': rows})
        got = observe(column_data_by_name, table, cols, 'x', rm_none=True)
        rec.trace()
        if isinstance(got, str) or [float(g) for g in got] != [float(v) for v in real]:
            rec.violation('values of %r: %r' % (values, got), {'rows': rows})
        for absent in (column_data_by_name, sum_column_data_by_name):
            got = observe(absent, table, cols, 'nocolumn')
            rec.trace()
            if got is not None:
                rec.violation('values of an absent column: %r' % (got,), {'rows': rows})


def orders(rec, part):
    from metcalcpy.util.utils import sort_data
    for rows, time, stat in part:
        rec.state(('order', rows, time, stat), depth=len(rows))
        rec.transition()
        frame = pd.DataFrame({time: [r[0] for r in rows], 'fcst_lead': [r[1] for r in rows],
                              'id': range(len(rows))})
        if stat:
            frame['stat_name'] = [r[2] for r in rows]
        before = frame.copy()
        got = observe(sort_data, frame)
        rec.trace()
        if isinstance(got, str):
            rec.violation('ordering of %r: %s' % (rows, got), {'rows': rows, 'time': time})
            continue
        keys = [time, 'fcst_lead'] + (['stat_name'] if stat else [])
        seq = [tuple(r) for r in got[keys].itertuples(index=False)]
        rec.outcome(repr(list(got['id'])))
        whole = sorted(map(tuple, got.itertuples(index=True)))
        if seq != sorted(seq) or whole != sorted(map(tuple, before.itertuples(index=True))) \
                or not frame.equals(before):
            rec.violation('ordering of %r by %s: %r' % (rows, keys, seq), {'rows': rows, 'time': time, 'stat': stat})


def explore(check):
    check.preload = ['metcalcpy.util.utils']
    deep = check.thorough
    sizes = [s for k in range(1, 5 + deep) for s in itertools.product(range(4), repeat=k)]
    check.run(listings, batches(sizes, 20))
    check.run(names, [None])
    chars = '01.-a+_ '
    words = [''.join(w) for k in range(0, 5 + deep) for w in itertools.product(chars, repeat=k)]
    words += ['True', 'False', 'true', 'NONE', 'NaN', 'inf', '1e5', '1.0e5', '2020-01-01 00:00:00', '120000']
    check.run(texts, batches(words, 300))
    check.run(lists, batches([a for k in range(5) for a in itertools.product('abc', repeat=k)], 10))
    check.run(rounding, batches(range(-60, 61), 10))
    rows = [(m, k, x) for m in 'ab' for k in (1, 2) for x in (None, 0, 3)]
    check.run(selections, batches([t for k in range(0, 4) for t in itertools.product(rows, repeat=k)], 60))
    times = ['fcst_valid_beg', 'fcst_valid', 'fcst_init_beg', 'fcst_init']
    cells = list(itertools.product(('2020-01-01', '2020-01-02'), (6, 12), 'AB'))
    tables = [(t, time, stat) for k in (1, 2, 3) for t in itertools.product(cells, repeat=k)
              for time in times for stat in (False, True)]
    check.run(orders, batches(tables, 60))
    check.bounds = {'fields': '1..4 with 0..3 values', 'texts': 'length 0..4 over %r' % chars,
                    'rounding': 'eighths in -60..60', 'tables': 'up to 3 rows', 'names': len(NAMES)}
    check.assumptions = ['texts with blanks, plus signs or underscores are not judged as integers']
