"""S12: MODE object ratios against set counting driven by the statistic's name."""
import importlib
import itertools
from fractions import Fraction as F

import numpy as np

from mc.aggdrv import quiet
from mc.expect import div, val
from mc.spaces import batches
from mc.statrun import Raised, ok

COLS = ['object_id', 'object_type', 'fcst_flag', 'simple_flag', 'matched_flag', 'area', 'volume']
MODULES = {'': ('mode_ratio_statistics', 'mode_arearat_statistics'),
           '2d_': ('mode_2d_ratio_statistics', 'mode_2d_arearat_statistics'),
           '3d_': ('mode_3d_ratio_statistics', 'mode_3d_volrat_statistics')}
RATIOS = ('fsa_asa osa_asa asm_asa asu_asa fsm_fsa fsu_fsa osm_osa osu_osa fsm_asm osm_asm fsu_asu osu_asu fsa_aaa osa_aaa '
          'fsa_faa fca_faa osa_oaa oca_oaa fca_aca oca_aca fsa_osa osa_fsa aca_asa asa_aca fca_fsa fsa_fca oca_osa '
          'osa_oca').split()
# not offered by the package
ABSENT = {'arearat_fsu_asu', '2d_arearat_fsu_asu', '3d_volrat_fsu_asu', '3d_ratio_oca_aca', '3d_ratio_aca_asa'}


def stats():
    """(name, dimension filter, measured quantity, kind)."""
    out = []
    for pre in ('', '2d_', '3d_'):
        size = 'volume' if pre == '3d_' else 'area'
        word, letter = ('volrat', 'v') if pre == '3d_' else ('arearat', 'a')
        for r in RATIOS:
            out.append((pre + 'ratio_' + r, pre[:2], None, r))
            out.append((pre + word + '_' + r, pre[:2], size, r))
        for s in ('hits', 'misses', 'fas', 'csi', 'pody', 'far'):
            out.append((pre + 'obj' + s, pre[:2], None, s))
            out.append((pre + 'obj' + letter + s, pre[:2], size, s))
    return [s for s in out if s[0] not in ABSENT]


STATS = stats()


def measure(objs, size, code):
    """Number or total size of the objects a three letter code selects."""
    total = 0
    for o in objs:
        if code[0] != 'a' and o['fcst_flag'] != (code[0] == 'f'):
            continue
        if code[1] != 'a' and o['simple_flag'] != (code[1] == 's'):
            continue
        if code[2] != 'a' and o['matched_flag'] != (code[2] == 'm'):
            continue
        total += 1 if size is None else F(o[size])
    return total


def oracle(objs, dim, size, kind):
    objs = [o for o in objs if not dim or o['object_type'] == dim]
    m = lambda code: measure(objs, size, code)  # noqa
    if '_' in kind:
        a, b = kind.split('_')
        return div(m(a), m(b))
    hits, misses, fas = F(m('asm'), 2), m('osu'), m('fsu')
    if kind == 'hits':
        return val(hits)
    if kind == 'misses':
        return val(misses)
    if kind == 'fas':
        return val(fas)
    if kind == 'csi':
        return div(hits, hits + misses + fas)
    if kind == 'pody':
        return div(hits, hits + misses)
    return div(fas, fas + hits)


def objects(kinds):
    out = []
    for i, (dim, f, s, m) in enumerate(kinds):
        out.append({'object_id': 'O%d' % i, 'object_type': dim, 'fcst_flag': f, 'simple_flag': s, 'matched_flag': m,
                    'area': float(2 ** (i % 5) + i), 'volume': float(3 ** (i % 4) + 2 * i)})
    return out


def functions():
    fns = {}
    for pre, mods in MODULES.items():
        for mod in mods:
            m = importlib.import_module('metcalcpy.util.' + mod)
            for name, *_ in STATS:
                if name.startswith(pre) and hasattr(m, 'calculate_' + name):
                    fns[name] = getattr(m, 'calculate_' + name)
    return fns


def worker(rec, part):
    fns = functions()
    cols = np.array(COLS, dtype=object)
    vcols = np.array([c for c in COLS if c != 'area'], dtype=object)
    for kinds in part:
        objs = objects(kinds)
        rec.state(tuple(kinds), depth=len(kinds))
        rec.transition()
        data = np.array([[o[c] for c in COLS] for o in objs], dtype=object)
        # 3D object tables have a volume in place of the area
        volumes = np.delete(data, COLS.index('area'), axis=1)
        for name, dim, size, kind in STATS:
            exp = oracle(objs, dim, size, kind)
            try:
                with quiet():
                    got = fns[name](*((volumes, vcols) if size == 'volume' else (data, cols)))
            except Exception as err:  # noqa
                got = Raised(err)
            rec.trace()
            rec.outcome((name, repr(got)))
            if not ok(got, exp):
                rec.violation('%s of objects %r: got %r, expected %r' % (name, kinds, got, exp),
                              {'stat': name, 'objects': objs, 'got': repr(got), 'expected': repr(exp)})
        rec.sample({'objects': kinds})


def explore(check):
    check.preload = ['metcalcpy.agg_stat_bootstrap']
    flags = list(itertools.product((1, 0), repeat=3))
    two = [('2d',) + f for f in flags]
    three = [('3d',) + f for f in flags]
    both = two + three
    lists = [(k,) for k in both] + list(itertools.product(both, repeat=2))
    lists += list(itertools.combinations(two, 3)) + list(itertools.combinations(three[::-1], 3))
    lists += list(itertools.combinations(two, 4)) + list(itertools.combinations(both[::-1], 15)) + [tuple(both)]
    lists += [tuple(both) + (k,) for k in both] + [tuple(both[i::3] * 4) for i in range(3)]
    if check.thorough:
        lists += list(itertools.combinations_with_replacement(both, 3)) + list(itertools.combinations(both, 4))
    check.bounds = {'object kinds': len(both), 'objects per list': '1-4 and 15-24', 'lists': len(lists),
                    'statistics': len(STATS)}
    check.run(worker, batches(lists, 8), chunk=1)
