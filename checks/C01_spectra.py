"""C01: space-time power and cross spectra of all small fields, shapes, segment lengths and overlaps."""
import itertools
import math

import numpy as np
import xarray as xr

from checks.U03_serial import observe

NAMES = ('power of x', 'power of y', 'co-spectrum', 'quadrature spectrum',
         'coherence', 'phase', 'phase component 1', 'phase component 2')


def numbers(n, full):
    """Signed wave or frequency numbers of n points; the highest one of an even n occurs with both signs."""
    top = n // 2
    return list(range(-top, top + 1)) if full else list(range(top + 1))


def transform(field, full_time):
    """Coefficients (frequency, latitude, wave number), eastward wave numbers positive."""
    nt, nm, nl = field.shape
    ft = np.exp(-2j * math.pi * np.outer(numbers(nt, full_time), np.arange(nt)) / nt)
    fl = np.exp(2j * math.pi * np.outer(numbers(nl, True), np.arange(nl)) / nl)
    return np.einsum('ft,tml,kl->fmk', ft, field, fl) / (nt * nl)


def spectra(x, y, full_time):
    a, b = transform(x, full_time), transform(y, full_time)
    cross = a * np.conj(b) if full_time else np.conj(a) * b
    return np.stack([(np.abs(a) ** 2).mean(axis=1), (np.abs(b) ** 2).mean(axis=1),
                     cross.real.mean(axis=1), cross.imag.mean(axis=1)])


def cells(shape):
    return list(itertools.product(*[range(n) for n in shape]))


def delta(shape, points):
    f = np.zeros(shape)
    for p, v in points:
        f[p] += v
    return f


def pairs_of(shape):
    """Pairs of fields: every pair of single points, every pair of points with different values."""
    cs = cells(shape)
    for p in cs:
        for q in cs:
            yield [(p, 1.0)], [(q, -2.0)]
    for p, q in itertools.combinations(cs, 2):
        yield [(p, 1.0), (q, 3.0)], [(q, 1.0)]


def segment_worker(rec, shape):
    from metcalcpy.contributed.spacetime import spacetime as code
    for px, py in pairs_of(shape):
        x, y = delta(shape, px), delta(shape, py)
        if not rec.state((shape, px, py), depth=len(px)):
            continue
        rec.transition(2)
        for name, f, full in (('mjo_cross_segment', code.mjo_cross_segment, True),
                              ('mjo_cross_segment_realfft', code.mjo_cross_segment_realfft, False)):
            got = observe(f, x.copy(), y.copy())
            rec.trace()
            want = spectra(x, y, full)
            where = {'function': name, 'shape': shape, 'x': px, 'y': py}
            if isinstance(got, str):
                rec.violation('%s of shape %r: %s' % (name, shape, got), where)
            elif got.shape != (8,) + want.shape[1:]:
                rec.violation('%s of shape %r has shape %r' % (name, shape, got.shape), where)
            elif not np.allclose(got[:4], want, rtol=1e-9, atol=1e-12):
                i = tuple(v[0] for v in np.where(~np.isclose(got[:4], want, rtol=1e-9, atol=1e-12)))
                rec.violation('%s of shape %r: %s at frequency row %d, wave column %d is %r, not %r' % (
                    name, shape, NAMES[i[0]], i[1], i[2], got[i], want[i]), where)
            rec.outcome((name, np.round(want[0], 6).tobytes()))


def smoothed(column):
    out = []
    for i, v in enumerate(column):
        prev = column[i - 1] if i > 0 else math.nan
        nxt = column[i + 1] if i + 1 < len(column) else math.nan
        if math.isnan(v) or (math.isnan(prev) and math.isnan(nxt)):
            out.append(v)
        else:
            out.append((2 * v + (v if math.isnan(prev) else prev) + (v if math.isnan(nxt) else nxt)) / 4)
    return out


def taper(n, pct):
    m = max(1, int((pct * n + 0.5) / 2))
    w = [1.0] * n
    for i in range(1, m + 1):
        f = 0.5 - 0.5 * math.cos(math.pi / m * (i - 0.5))
        w[i - 1] *= f
        w[-i] *= f
    return w


def helper_worker(rec, item):
    from metcalcpy.contributed.spacetime import spacetime as code
    kind, arg = item
    if kind == 'smooth':
        got = observe(code.smooth121_1D, np.array(arg))
        want = smoothed(arg)
    else:
        got = observe(code.window_cosbell, *arg)
        want = taper(*arg)
    rec.state((kind, repr(arg)), depth=1)
    rec.transition()
    rec.trace()
    rec.outcome((kind, repr(want)))
    if isinstance(got, str) or not np.allclose(got, want, rtol=1e-12, atol=1e-12, equal_nan=True):
        rec.violation('%s of %r is %r, not %r' % (kind, arg, got if isinstance(got, str) else list(got), want),
                      {'kind': kind, 'argument': arg})


def field(shape, seed):
    """Deterministic fields without symmetry."""
    nt, nm, nl = shape
    t, m, l = np.meshgrid(range(nt), range(nm), range(nl), indexing='ij')
    return ((seed * t * t + 5 * l + 3 * t * l + 7 * m * (t + 1) + seed * l * l) % (7 + seed)) - 2.0


def detrended(f):
    t = np.arange(f.shape[0], dtype=float)
    t -= t.mean()
    slope = np.tensordot(t, f, axes=(0, 0)) / (t @ t)
    return f - f.mean(axis=0) - t[:, None, None] * slope


def whole(x, y, length, overlap):
    a, b = detrended(x), detrended(y)
    w = np.array(taper(length, 0.10))[:, None, None]
    total, count, start = 0, 0, 0
    while start + length <= len(x):
        s = spectra(a[start:start + length] * w, b[start:start + length] * w, False)
        s[:, 0, :] = math.nan
        for v in range(4):
            for k in range(s.shape[2]):
                s[v, 1:, k] = smoothed(list(s[v, 1:, k]))
        total = total + s
        count += 1
        start += length + overlap - 1
    s = total / count
    size = s[2] ** 2 + s[3] ** 2
    with np.errstate(all='ignore'):
        more = np.stack([size / (s[0] * s[1]), np.arctan2(s[3], s[2]), -s[3] / np.sqrt(size), s[2] / np.sqrt(size)])
    return np.concatenate([s, more]), count


def cross_worker(rec, item):
    from metcalcpy.contributed.spacetime import spacetime as code
    shape, length, overlap, seeds, wrap = item
    x, y = field(shape, seeds[0]), field(shape, seeds[1])
    if wrap:
        dims = ('time', 'lat', 'lon')
        args = [xr.DataArray(f.copy(), dims=dims) for f in (x, y)]
    else:
        args = [x.copy(), y.copy()]
    got = observe(code.mjo_cross, *args, length, overlap)
    rec.state(repr(item), depth=length)
    rec.transition()
    rec.trace()
    where = {'shape': shape, 'segment length': length, 'overlap': overlap, 'fields': seeds, 'DataArray': wrap}
    if not np.array_equal(args[0], x) or not np.array_equal(args[1], y):
        rec.violation('the input of the cross spectra was changed', where)
    want, count = whole(x, y, length, overlap)
    if isinstance(got, str) or got is None:
        rec.violation('cross spectra: %s' % got, where)
        return
    rec.outcome(np.round(want[0], 5).tobytes())
    nl = shape[2]
    for name, have, exp in (('frequencies', got['freq'], [j / length for j in range(length // 2 + 1)]),
                            ('wave numbers', got['wave'], numbers(nl, True)),
                            ('degrees of freedom', got['dof'], 2.667 * count),
                            ('number of segments', got['nseg'], count),
                            ('coherence levels', got['prob_coh2'],
                             [p ** (0.5 * 2.667 * count - 1) for p in (.80, .85, .90, .925, .95, .99)])):
        if np.shape(have) != np.shape(exp) or not np.allclose(have, exp, rtol=1e-9):
            rec.violation('%s of a series of %d times in segments of %d are %r, not %r' % (
                name, shape[0], length, have, exp), where)
            return
    stc = got['STC']
    if stc.shape != want.shape:
        rec.violation('spectra have shape %r, not %r' % (stc.shape, want.shape), where)
        return
    # where a power vanishes the coherence is rounding noise
    solid = (want[0] * want[1] > 1e-9 * np.nanmax(want[0] * want[1])) & (want[2] ** 2 + want[3] ** 2 > 1e-9 * want[0] * want[1])
    for v in range(8):
        judged = np.ones(want.shape[1:], bool) if v < 4 else solid
        have, exp = stc[v][judged], want[v][judged]
        if v == 1:
            have = np.where(np.isnan(have) & (np.abs(exp) < 1e-12), exp, have)
        if v == 5:
            diff = np.abs(np.exp(1j * have) - np.exp(1j * exp))
            ok = np.all((diff < 1e-6) | (np.isnan(have) & np.isnan(exp)))
        else:
            ok = np.allclose(have, exp, rtol=1e-7, atol=1e-9 * max(1.0, np.nanmax(np.abs(want[:4]))), equal_nan=True)
        if not ok:
            rec.violation('%s of a series of %d times in segments of %d with overlap %d differs' % (
                NAMES[v], shape[0], length, overlap), where)
            return


def size_worker(rec, item):
    """Fields of different size are refused without an exception."""
    from metcalcpy.contributed.spacetime import spacetime as code
    a, b = item
    got = observe(code.mjo_cross, field(a, 3), field(b, 4), 4, -1)
    rec.state(repr(item), depth=1)
    rec.trace()
    rec.transition()
    rec.outcome(repr(item))
    if got is not None:
        rec.violation('fields of size %r and %r: %r' % (a, b, got), {'x': a, 'y': b})


def explore(check):
    check.preload = ['metcalcpy.contributed.spacetime.spacetime']
    big = check.thorough
    times, lons = range(2, 9 if big else 7), range(1, 8 if big else 6)
    nt_max = 16 if big else 13
    check.bounds = {'shapes': 'times %r, longitudes %r, 1-2 latitudes' % (list(times), list(lons)),
                    'fields': 'all pairs of points', 'series': 'times 4..%d, every segment length, every overlap' % nt_max}
    check.assumptions = ['coherence and phase are judged where both powers are above rounding noise']
    check.run(segment_worker, [(nt, nm, nl) for nt in times for nl in lons for nm in (1, 2) if nt * nl * nm <= 40])
    letters = (0.0, 1.0, -4.0, math.nan)
    items = [('smooth', list(s)) for n in range(1, 6) for s in itertools.product(letters, repeat=n)]
    items += [('window', (n, p)) for n in range(2, 61) for p in (0.0, 0.1, 0.2, 0.5, 1.0)]
    check.run(helper_worker, items)
    items = []
    for nt in range(4, nt_max + 1):
        for nm, nl in ((1, 3), (2, 4), (3, 5)):
            for length in range(3, nt + 1):
                for overlap in range(2 - length, 3):
                    for seeds in ((3, 4), (4, 6), (5, 5)):
                        items.append(((nt, nm, nl), length, overlap, seeds, nm == 2 and seeds[0] == 4))
    check.run(cross_worker, items)
    sizes = [(5, 1, 3), (6, 1, 3), (5, 2, 3), (5, 1, 4), (4, 2, 3)]
    check.run(size_worker, [(a, b) for a in sizes for b in sizes if a != b])
