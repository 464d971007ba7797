"""C08: dispersion curves of equatorial waves solve the shallow water dispersion relation."""
import math

import numpy as np

from mc.aggdrv import quiet

RADIUS, GRAVITY, OMEGA = 6.371008e6, 9.80665, 7.292e-05


def roots(k, n, depth, beta):
    """Positive frequencies of the cubic relation, smallest first."""
    gh = GRAVITY * depth
    r = np.roots([1.0, 0.0, -gh * (k * k + beta * (2 * n + 1) / math.sqrt(gh)), -k * beta * gh])
    return sorted(x.real for x in r if x.real > 0)


def expected(kind, n, wave, depth, latitude):
    """Cycles per day, None where the curve does not exist."""
    cos = math.cos(math.radians(latitude))
    beta, k = 2 * OMEGA * cos / RADIUS, wave / (RADIUS * cos)
    c = math.sqrt(GRAVITY * depth)
    west = kind in ('MRG', 'ER', 'WIG')
    if (wave >= 0 and west) or (wave <= 0 and not west):
        return None
    if kind == 'Kelvin':
        w = k * c
    elif kind == 'MRG' or n == 0:
        # w^2 - k c w - beta c = 0
        w = (k * c + math.sqrt(k * k * c * c + 4 * beta * c)) / 2
    else:
        r = roots(k, n, depth, beta)
        w = r[0] if kind == 'ER' else r[-1]
    return w * 86400 / (2 * math.pi)


def columns(modes, depth):
    out = [('Kelvin', None), ('MRG', None), ('EIG', 0)]
    for n in modes:
        out += [('ER', n), ('EIG', n), ('WIG', n)]
    return out


def worker(rec, item):
    from metcalcpy.contributed.spacetime import matsuno_plot as code
    depths, modes, latitude, top, count = item
    where = {'depths': depths, 'modes': modes, 'latitude': latitude, 'largest wave number': top, 'points': count}
    tables = []
    with quiet(), np.errstate(all='ignore'):
        try:
            several = code.matsuno_modes_wk(list(depths), list(modes), latitude, top, count)
            one = [code.matsuno_dataframe(h, list(modes), latitude, top, count) for h in depths]
        except Exception as ex:  # noqa
            rec.violation('curves: %s: %s' % (type(ex).__name__, ex), where)
            return
    if set(several) != set(depths):
        rec.violation('curves of depths %r, not %r' % (sorted(several), depths), where)
        return
    for h, t in zip(depths, one):
        tables += [(h, t), (h, several[h])]
    waves = [-top + 2.0 * top * i / (count - 1) for i in range(count)]
    for h, t in tables:
        cols = columns(modes, h)
        rec.state((h, modes, latitude, top, count), depth=len(modes))
        rec.transition()
        if t.shape != (count, len(cols)) or not np.allclose(t.index.values, waves, atol=1e-9):
            rec.violation('table of depth %r has shape %r' % (h, t.shape), where)
            return
        for i, (kind, n) in enumerate(cols):
            rec.trace(count)
            name = '%s(%she=%sm)' % (kind, '' if n is None else 'n=%d,' % n, h)
            if t.columns[i] != name:
                rec.violation('column %d is called %r, not %r' % (i, t.columns[i], name), where)
                return
            for wave, have in zip(waves, t.iloc[:, i].values):
                wave = 0.0 if abs(wave) < 1e-12 else wave
                want = expected(kind, n, wave, h, latitude)
                if (want is None) != bool(np.isnan(have)) or want is not None and abs(have - want) > 1e-4 * want:
                    rec.violation('%s of wave number %r at latitude %r is %r, not %r' % (name, wave, latitude, have, want), where)
                    return
            rec.outcome((name, latitude, top))


def explore(check):
    check.preload = ['metcalcpy.contributed.spacetime.matsuno_plot']
    depths = (1, 8, 12.5, 25, 50, 90, 200)
    latitudes = (0.0, 5.0, -15.0, 30.0, -60.0)
    grids = ((1, 3), (5, 11), (7, 2), (10, 4), (20, 41), (50, 101))
    if check.thorough:
        grids += ((20, 500), (50, 500))
    check.bounds = {'depths': depths, 'latitudes': latitudes, 'wave numbers': grids, 'modes': 'every subset order of 1-3, 5'}
    modes = [(1,), (2,), (3,), (5,), (1, 2, 3), (3, 1), (2, 5)]
    items = [((h,), m, l, t, c) for h in depths for m in modes for l in latitudes for t, c in grids]
    items += [((a, b, 25), (1,), 0.0, 20, 41) for a in depths for b in depths if len({a, b, 25}) == 3]
    check.run(worker, items)
