"""A06: a group of values behaves as the union of its members."""
import itertools
import os

from mc.aggdrv import base_params, number, run_aggstat, write_table
from mc.expect import NONE, is_none, val
from mc.registry import entries
from mc.spaces import batches
from mc.statrun import Raised, ok

DATES = ['2020-01-01 00:00:00', '2020-01-02 00:00:00', '2020-01-03 06:00:00']
FIELDS = ['model', 'vx_mask', 'fcst_lead', 'fcst_valid_beg', 'fcst_init_beg']
MEMBERS = {'model': ['A', 'B_2', 'C-1'], 'vx_mask': ['M', 'N', 'P'], 'fcst_lead': ['0', '120000', '240000'],
           'fcst_valid_beg': DATES, 'fcst_init_beg': DATES}
ABSENT = {'model': 'D', 'vx_mask': 'Q', 'fcst_lead': '360000', 'fcst_valid_beg': '2021-05-05 00:00:00',
          'fcst_init_beg': '2021-05-05 00:00:00'}
# members of the requested groups, by position; 3 is a value no record has
GROUPS = [(0, 1), (0, 1, 2), (2, 0), (1, 2), (0, 3), (2,), (3, 1, 0), (3, 2, 0, 1)]
PLACES = [(place, field, sep) for field in MEMBERS for place in ('series', 'independent') for sep in ':;'
          if not (place == 'series' and field == 'fcst_lead') and not (sep == ';' and field == 'fcst_init_beg')]
ENTRIES = {}


def single(field, g):
    """A value of this field no record has yet."""
    if field == 'fcst_lead':
        return str(1000 + g)
    if field in ('fcst_valid_beg', 'fcst_init_beg'):
        return '2019-03-%02d 00:00:00' % (1 + g)
    return 'G%d' % g


def group_name(field, group, sep):
    return sep.join((MEMBERS[field] + [ABSENT[field]])[m] for m in group)


def records(e, field, assign, cases):
    out = []
    for k, (row, m) in enumerate(zip(e.rows, assign)):
        r = {'model': 'A', 'vx_mask': 'M', 'fcst_lead': '0', 'fcst_valid_beg': DATES[cases[k]],
             'fcst_init_beg': DATES[cases[k]]}
        r[field] = MEMBERS[field][m]
        out.append((r, row))
    return out


def run(rec, e, recs, place, field, values, stats):
    inp, out = os.path.join(rec.dir, 'in.data'), os.path.join(rec.dir, 'out.data')
    write_table(inp, FIELDS + e.columns, [[r[f] for f in FIELDS] + list(row) for r, row in recs])
    over = {'line_type': e.line_type, 'list_stat_1': [s.upper() for s in stats]}
    other = 'vx_mask' if field == 'model' else 'model'
    if place == 'series':
        over.update(series_val_1={field: list(values)}, indy_var='fcst_lead', indy_vals=['0'])
    else:
        over.update(series_val_1={other: MEMBERS[other][:1]}, indy_var=field, indy_vals=list(values))
    _, rows = run_aggstat(base_params(inp, out, **over))
    if len(rows) != len(values) * len(stats):
        raise AssertionError('job wrote %d rows for %d points' % (len(rows), len(values) * len(stats)))
    return {(r[field], r['stat_name']): (number(r['stat_value']), number(r['nstats'])) for r in rows}


def worker(rec, item):
    name, stats, place, field, sep, part = item
    e = ENTRIES[name]
    for assign, cases in part:
        recs = records(e, field, assign, cases)
        rec.state((name, place, field, sep, assign, cases), depth=len(recs))
        rec.transition()
        groups = [g for g in GROUPS if len(g) > 1 or sep == ':']
        names = [group_name(field, g, sep) for g in groups]
        # the same records with the members of each group under one name
        merged = [(dict(r, **{field: single(field, k)}), row) for k, g in enumerate(groups)
                  for (r, row), m in zip(recs, assign) if m in g]
        merged += recs
        exp = run(rec, e, merged, place, field, [single(field, k) for k in range(len(groups))], stats)
        try:
            got = run(rec, e, recs, place, field, names, stats)
        except Exception as err:  # noqa
            got = Raised(err)
        for k, (g, n) in enumerate(zip(groups, names)):
            for s in stats:
                want, size = exp[single(field, k), s.upper()]
                v, count = (got, None) if isinstance(got, Raised) else got[n, s.upper()]
                rec.trace()
                rec.outcome((s, want))
                if not ok(v, NONE if is_none(want) else val(want)) or (sep == ':' and count != size):
                    rec.violation('%s of %s lines, %s value %r: got %r from %r records, as one value %r from %r' % (
                        s, name, place, n, v, count, want, size),
                        {'line_type': name, 'stat': s, 'field': field, 'place': place, 'group': n, 'records': recs,
                         'got': repr((v, count)), 'expected': (want, size)})
    rec.sample({'line_type': name, 'place': place, 'field': field, 'separator': sep, 'assignment': part[-1]})


def explore(check):
    ENTRIES.update({e.line_type: e for e in entries()})
    patterns = [(0, 0, 0), (0, 1, 2), (0, 0, 1)]
    everything = list(itertools.product(range(3), repeat=3))
    # up to exchanging members, and one of each exchange
    shapes = [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0), (0, 1, 2), (2, 1, 0)]
    items = []
    for name, e in ENTRIES.items():
        few = e.names[:1] + e.names[-1:] if len(e.names) > 1 else e.names
        for place, field, sep in PLACES:
            cases = patterns if 'valid' not in field and 'init' not in field else patterns[:1]
            if check.thorough or name == 'ctc':
                stats, assigns = (e.names if check.thorough else ['ctc_total', 'ctc_fy_oy', 'far']), everything
            else:
                stats, assigns, cases = few, shapes, cases[:2]
            work = [(a, c) for a in assigns for c in cases]
            items += [(name, stats, place, field, sep, b) for b in batches(work, 12)]
            if not check.thorough:
                items.append((name, e.names, place, field, sep, [((0, 1, 2), cases[0])]))
    check.bounds = {'lines': 3, 'members': 3, 'groups': len(GROUPS), 'placements': len(PLACES), 'line types': len(ENTRIES)}
    check.run(worker, items, chunk=1)
