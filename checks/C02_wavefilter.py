"""C02: the equatorial wave filter keeps exactly the waves of the requested region."""
import itertools
import math

import numpy as np

from checks.U03_serial import observe

RADIUS, GRAVITY, OMEGA = 6.371008e6, 9.80665, 7.292e-05
BETA = 2 * OMEGA / RADIUS
OPEN = -9999


def curve(wave, k, depth):
    """Angular frequency of a wave of eastward wave number k (per earth radius), None if there is no curve."""
    c = math.sqrt(GRAVITY * depth)
    k = k / RADIUS
    name = wave.upper()
    if name == 'KELVIN':
        return k * c
    if name == 'ER':
        return -BETA * k / (k * k + 3 * BETA / c)
    if name in ('MRG', 'IG0'):
        if k == 0:
            return math.sqrt(BETA * c)
        root = math.sqrt(1 + 4 * BETA / (k * k * c))
        return k * c * (0.5 + 0.5 * root) if k > 0 else k * c * (0.5 - 0.5 * root)
    if name == 'IG1':
        return math.sqrt(3 * BETA * c + k * k * c * c)
    if name == 'IG2':
        return math.sqrt(5 * BETA * c + k * k * c * c)
    return None


def near(x):
    """The integers x may be rounded to."""
    lo = math.floor(x)
    if abs(x - lo - 0.5) < 1e-9:
        return (lo, lo + 1)
    return (int(round(x)),)


def outward(x, up):
    """The integers x may be rounded outward to."""
    r = round(x)
    if abs(x - r) < 1e-7:
        return (r, r + 1) if up else (r - 1, r)
    return (math.ceil(x),) if up else (math.floor(x),)


def kept(nt, nk, per_day, tmin, tmax, kmin, kmax, hmin, hmax, wave, k, j):
    """Whether wave (k, j) is kept: True, False or None on a limit."""
    votes = []
    lows, highs = near(nt / (tmax * per_day)), near(nt / (tmin * per_day))
    votes.append({lo <= j for lo in lows})
    votes.append({j <= hi for hi in highs})
    votes.append({kmin <= k <= kmax})
    cycles = nt * 86400.0 / (2 * math.pi * per_day)
    if hmin != OPEN:
        f = curve(wave, k, hmin)
        if f is not None:
            votes.append({j >= b for b in outward(f * cycles, False)})
    if hmax != OPEN:
        f = curve(wave, k, hmax)
        if f is not None:
            votes.append({j <= b for b in outward(f * cycles, True)})
    if any(v == {False} for v in votes):
        return False
    return True if all(v == {True} for v in votes) else None


def waves_of(nt, nk):
    """Every wave below the highest wave number and frequency of the grid, as (k, j)."""
    ks = range(-((nk - 1) // 2), (nk - 1) // 2 + 1)
    return [(k, j) for k in ks for j in range(1, (nt - 1) // 2 + 1)]


def amplitude(k, j):
    return 1 + ((3 * k + 5 * j) % 7) / 4.0


def pattern(nt, nk, waves):
    t, x = np.arange(nt)[:, None], np.arange(nk)[None, :]
    out = np.zeros((nt, nk))
    for k, j in waves:
        out += amplitude(k, j) * np.cos(2 * math.pi * (k * x / nk - j * t / nt) + 0.3 * k + j)
    return out


def share(data, k, j):
    """Complex amplitude of the wave cos(kx - jt) of the field."""
    nt, nk = data.shape
    t, x = np.arange(nt)[:, None], np.arange(nk)[None, :]
    return 2 * (data * np.exp(-2j * math.pi * (k * x / nk - j * t / nt))).mean()


_SHARES = {}


def projector(nt, nk):
    """Matrix that gives the amplitudes of all waves of a field."""
    if (nt, nk) not in _SHARES:
        t, x = np.arange(nt)[:, None], np.arange(nk)[None, :]
        ws = waves_of(nt, nk)
        m = np.array([np.exp(-2j * math.pi * (k * x / nk - j * t / nt)).ravel() for k, j in ws]) * 2 / (nt * nk)
        full = pattern(nt, nk, ws)
        _SHARES[nt, nk] = ws, m, full, m @ full.ravel()
    return _SHARES[nt, nk]


def judge(rec, nt, nk, cfg, out, waves, where):
    ws, m, full, _ = projector(nt, nk)
    amps = m @ out.ravel()
    for (k, j), a in zip(ws, amps):
        inside = amplitude(k, j) * np.exp(1j * (0.3 * k + j)) if (k, j) in waves else 0.0
        want = kept(nt, nk, *cfg, k, j)
        if want is None:
            if min(abs(a - inside), abs(a)) > 1e-8:
                rec.violation('wave %d of frequency %d/%d is changed' % (k, j, nt), where)
                return
        elif abs(a - (inside if want else 0.0)) > 1e-8:
            rec.violation('filter %r of %d times, %d longitudes: eastward wave number %d with %d cycles has '
                          'amplitude %r, not %r' % (cfg, nt, nk, k, j, abs(a), abs(inside) if want else 0.0), where)
            return


def worker(rec, item):
    from metcalcpy.contributed.spacetime import spacetime as code
    nt, nk, cfgs = item
    ws, m, full, amps = projector(nt, nk)
    every = set(ws)
    for cfg in cfgs:
        data = full.copy()
        got = observe(code.kf_filter, data, *cfg)
        if not rec.state((nt, nk, cfg), depth=1):
            continue
        rec.transition()
        rec.trace(len(ws))
        where = {'times': nt, 'longitudes': nk, 'filter': cfg}
        if isinstance(got, str) or got.shape != full.shape:
            rec.violation('filter %r of %d times: %s' % (cfg, nt, got if isinstance(got, str) else got.shape), where)
            continue
        if not np.array_equal(data, full):
            rec.violation('the field was changed by the filter', where)
            continue
        rec.outcome((nt, nk, np.round(got, 6).tobytes()))
        judge(rec, nt, nk, cfg, got, every, where)


def single_worker(rec, item):
    """One wave at a time: nothing of it appears anywhere else."""
    from metcalcpy.contributed.spacetime import spacetime as code
    nt, nk, cfg = item
    for w in projector(nt, nk)[0]:
        data = pattern(nt, nk, [w])
        got = observe(code.kf_filter, data.copy(), *cfg)
        rec.state((nt, nk, cfg, w), depth=2)
        rec.transition()
        rec.trace()
        where = {'times': nt, 'longitudes': nk, 'filter': cfg, 'wave': w}
        if isinstance(got, str) or got.shape != data.shape:
            rec.violation('filter %r: %s' % (cfg, got if isinstance(got, str) else got.shape), where)
            continue
        want = kept(nt, nk, *cfg, *w)
        rec.outcome((w, cfg, want))
        if want is not None and not np.allclose(got, data if want else 0.0, atol=1e-8):
            rec.violation('filter %r of %d times, %d longitudes, wave %r is not %s' % (
                cfg, nt, nk, w, 'kept as it is' if want else 'removed'), where)


def explore(check):
    check.preload = ['metcalcpy.contributed.spacetime.spacetime']
    grids = [(30, 8), (31, 8), (40, 7), (41, 9)]
    if check.thorough:
        grids += [(60, 12), (61, 11)]
    waves = ('Kelvin', 'ER', 'MRG', 'IG0', 'IG1', 'IG2', 'kelvin', 'er', 'mrg', 'ig1', 'none')
    check.bounds = {'grids': grids, 'wave numbers': 'every range', 'waves': waves,
                    'depths': 'open and closed on both sides', 'periods': '5 ranges'}
    check.assumptions = ['waves at the highest wave number or frequency of the grid, and the time mean, are not judged',
                         'a wave within 1e-7 of a limit may be kept or removed']
    items, single = [], []
    for nt, nk in grids:
        top = (nk - 1) // 2
        ranges = [(a, b) for a in range(-top, top + 1) for b in range(a, top + 1)] + [(-100, 100), (1, 100), (-100, -1)]
        depths = list(itertools.product((OPEN, 8, 25), (OPEN, 25, 90)))
        cfgs = []
        for per_day in (1, 2):
            for tmin, tmax in ((2.5, 17), (2.5, 30), (5, 20), (3, 96), (10, 10)):
                for kmin, kmax in ranges:
                    cfgs.append((per_day, tmin, tmax, kmin, kmax, OPEN, OPEN, 'none'))
                    cfgs.append((per_day, tmin, tmax, kmin, kmax, 8, 90, 'Kelvin'))
                for kmin, kmax in ((-100, 100), (1, 3), (-3, -1)):
                    for hmin, hmax in depths:
                        for wave in waves:
                            cfgs.append((per_day, tmin, tmax, kmin, kmax, hmin, hmax, wave))
        for i in range(0, len(cfgs), 60):
            items.append((nt, nk, cfgs[i:i + 60]))
        for wave in ('Kelvin', 'ER', 'MRG', 'IG1', 'none'):
            single.append((nt, nk, (1, 2.5, 30, -100, 100, 8, 90, wave)))
            single.append((nt, nk, (1, 2.5, 30, 1, 3, 8, OPEN, wave)))
            single.append((nt, nk, (2, 2.5, 30, -2, -2, OPEN, 90, wave)))
    check.run(worker, items, chunk=1)
    check.run(single_worker, single, chunk=1)
