"""Reference model of the line-type statistics.

Every line type has: columns of a line, builders of lines, and an oracle mapping a list of lines to
{statistic: expectation}.  Where a line type summarises matched pairs the oracle works on the pooled
pairs, so it shares nothing with the aggregation formulas of the implementation.
"""
import cmath
import math
from fractions import Fraction as Fr

from mc.expect import NONE, ANY, val, maybe, div, exact_floats

# ------------------------------------------------------------------------------------------ CTC
CTC_COLUMNS = ['total', 'fy_oy', 'fy_on', 'fn_oy', 'fn_on']


def ctc_line(a, b, c, d):
    return (a + b + c + d, a, b, c, d)


def _lambertw(x):
    """Principal branch for x >= 0 (Newton)."""
    w = math.log1p(x) * 0.8
    for _ in range(100):
        e = math.exp(w)
        step = (w * e - x) / (e * (w + 1))
        w -= step
        if abs(step) < 1e-15 * (1 + abs(w)):
            break
    return w


def ctc_oracle(lines):
    n, a, b, c, d = (sum(l[i] for l in lines) for i in range(5))
    oy, on, fy, fn = a + c, b + d, a + b, c + d
    e = {}
    e['baser'] = div(oy, n)
    e['acc'] = div(a + d, n)
    e['fbias'] = div(fy, oy)
    e['fmean'] = div(fy, n)
    e['pody'] = div(a, oy)
    e['pofd'] = div(b, on)
    e['podn'] = div(d, on)
    e['far'] = div(b, fy)
    e['csi'] = div(a, a + b + c)
    if n:
        chance = Fr(fy * oy, n)
        e['gss'] = div(a - chance, a + b + c - chance)
        chance2 = Fr(fy * oy + fn * on, n)
        e['hss'] = div(a + d - chance2, n - chance2)
    else:
        e['gss'] = e['hss'] = NONE
    e['hk'] = val(Fr(a, oy) - Fr(b, on)) if oy and on else NONE

    def odds(extra_zero):
        if not oy or not on or b * c == 0 or extra_zero:
            return NONE
        v = Fr(a * d, b * c)
        eps = 1e-7 * float(Fr(oy, c) + (Fr(oy, a) if a else 0) + Fr(on, b) + (Fr(on, d) if d else 0))
        if eps > 1e-2:
            return ANY
        return val(v, tol=2e-7 + float(v) * eps + (1e-7 * float(Fr(oy * on, b * c))))
    e['odds'] = odds(False)
    e['odds1'] = odds(d == 0)
    e['lodds'] = val(math.log(a) + math.log(d) - math.log(b) - math.log(c)) if a * b * c * d else NONE
    e['orss'] = div(a * d - b * c, a * d + b * c)
    if a and b and c:
        lf = math.log(oy / c)
        ha = oy - b / lf * _lambertw(oy / b * lf)
        num, den = ha - oy ** 2 / n, 2 * oy - ha - oy ** 2 / n
        if abs(den) < 1e-6:
            e['bagss'] = ANY
        else:
            e['bagss'] = val(num / den, tol=2e-6 + 1e-9 * (1 + abs(num / den)) / abs(den))
    else:
        e['bagss'] = NONE

    def ln(x):
        return math.log(x)
    if a and b and c and d:
        f, h = b / on, a / oy
        eps = 2e-7 * (1 / h + 1 / (1 - h))
        num = ln(f) - ln(h) - ln(1 - f) + ln(1 - h)
        den = ln(f) + ln(h) + ln(1 - f) + ln(1 - h)
        e['sedi'] = val(num / den, tol=1e-6 + eps * (1 + abs(num / den)) / abs(den))
    else:
        e['sedi'] = NONE
    if a and b:
        f, h = b / on, a / oy
        num, den = ln(f) - ln(h), ln(f) + ln(h)
        if f == 1 and h == 1:
            e['edi'] = NONE
        elif abs(den) < 1e-4:
            e['edi'] = ANY
        else:
            e['edi'] = val(num / den, tol=1e-6 + 2e-7 / h * (1 + abs(num / den)) / abs(den))
    else:
        e['edi'] = NONE
    if a and a != n:
        den = ln(a / n)
        e['seds'] = val((ln(fy / n) + ln(oy / n)) / den - 1)
        e['eds'] = val(2 * ln(oy / n) / den - 1)
    else:
        e['seds'] = e['eds'] = NONE
    e['ctc_total'] = e['cts_total'] = val(n)
    e['ctc_fy_oy'], e['ctc_fy_on'], e['ctc_fn_oy'], e['ctc_fn_on'] = val(a), val(b), val(c), val(d)
    e['ctc_oy'], e['ctc_on'], e['ctc_fy'], e['ctc_fn'] = val(oy), val(on), val(fy), val(fn)
    return e


NBR_CTC = ['baser', 'acc', 'fbias', 'fmean', 'pody', 'pofd', 'podn', 'far', 'csi', 'gss', 'hk', 'hss', 'odds']


def nbr_ctc_oracle(lines):
    e = ctc_oracle(lines)
    out = {'nbr_' + s: e[s] for s in NBR_CTC}
    out['nbr_ctc_total'] = e['ctc_total']
    return out


# ------------------------------------------------------------------------------------------ pairs
def _mean(xs):
    return sum(xs, Fr(0)) / len(xs)


def sqrt_exp(x, exact=True, slack=0.0):
    """Expectation of the square root of x when x itself is known to within slack.

    The implementation rounds at 7 decimals before taking roots, so slack is at least 1e-7.
    """
    f = float(x)
    slack = max(slack, 1e-7)
    r = math.sqrt(f)
    tol = 1.5e-6 + 2e-6 * r + max(math.sqrt(f + slack) - r, r - math.sqrt(max(0.0, f - slack)))
    if f == 0 and exact and slack <= 1e-7:
        return val(0, tol=1e-6)
    if f - slack <= 0:
        return maybe(r, tol=tol)
    return val(r, tol=tol)


def corr_exp(cov, vx, vy, exact, noise=0.0):
    if vx == 0 or vy == 0:
        return NONE if exact else ANY
    r = float(cov) / math.sqrt(float(vx) * float(vy))
    eps = noise / float(min(vx, vy))
    if eps > 1e-8:
        return ANY
    return val(r, tol=3e-6 + 4 * eps)


SL1L2_COLUMNS = ['total', 'fbar', 'obar', 'fobar', 'ffbar', 'oobar', 'mae']


def sl1l2_line(pairs):
    f = [Fr(p[0]) for p in pairs]
    o = [Fr(p[1]) for p in pairs]
    vals = [_mean(f), _mean(o), _mean([x * y for x, y in zip(f, o)]), _mean([x * x for x in f]),
            _mean([y * y for y in o]), _mean([abs(x - y) for x, y in zip(f, o)])]
    return (len(pairs),) + tuple(float(v) for v in vals)


def continuous_oracle(groups):
    """Statistics of the pooled pairs of all groups (one group = the pairs behind one line)."""
    pairs = [p for g in groups for p in g]
    exact = all(exact_floats([Fr(1, len(g))]) for g in groups) and exact_floats([Fr(1, len(pairs))]) \
        and exact_floats([x for p in pairs for x in p])
    n = len(pairs)
    f = [Fr(p[0]) for p in pairs]
    o = [Fr(p[1]) for p in pairs]
    fb, ob = _mean(f), _mean(o)
    vf = _mean([(x - fb) ** 2 for x in f])
    vo = _mean([(y - ob) ** 2 for y in o])
    cov = _mean([(x - fb) * (y - ob) for x, y in zip(f, o)])
    err = [x - y for x, y in zip(f, o)]
    me = _mean(err)
    mse = _mean([x * x for x in err])
    bc = mse - me * me
    e = {'fbar': val(fb), 'obar': val(ob), 'fobar': val(_mean([x * y for x, y in zip(f, o)])),
         'ffbar': val(_mean([x * x for x in f])), 'oobar': val(_mean([y * y for y in o])),
         'mae': val(_mean([abs(x) for x in err])), 'me': val(me),
         'sl1l2_total': val(n)}
    # rounding noise of sums of squares, and of ME (rounded at 7 decimals) squared
    noise = 0.0 if exact else 4e-16 * float(max([x * x for x in f] + [y * y for y in o])) * (n + 4)
    me_noise = noise + 2e-7 * abs(float(me)) if not exact or n > 1 else 0.0
    e['me2'] = val(me * me, tol=1.5e-6 + 2e-6 * float(me * me))
    e['mse'] = val(mse, tol=1.5e-6 + 2e-6 * float(mse) + noise)
    e['bcmse'] = val(bc, tol=1.5e-6 + 2e-6 * float(bc) + me_noise)
    zero_ob, zero_fb = ob == 0, fb == 0
    e['mbias'] = (NONE if exact else ANY) if zero_ob else val(fb / ob)
    e['fe'] = (NONE if exact else ANY) if zero_fb else val((fb - ob) / fb)
    e['pr_corr'] = corr_exp(cov, vf, vo, exact, noise)
    e['rmse'] = sqrt_exp(mse, exact, noise)
    e['bcrmse'] = sqrt_exp(bc, exact, me_noise)
    if n > 1:
        k = Fr(n, n - 1)
        e['fstdev'] = sqrt_exp(vf * k, exact, noise)
        e['ostdev'] = sqrt_exp(vo * k, exact, noise)
        e['estdev'] = sqrt_exp(bc * k, exact, (3e-7 * (1 + abs(float(me))) + noise) * n / (n - 1))
        if vo == 0:
            e['msess'] = NONE if exact else ANY
        else:
            v = 1 - mse / (vo * k)
            e['msess'] = val(v, tol=2e-6 + 4e-6 * abs(float(v)) + 1e-6 * float(mse) / float(vo) ** 1.5
                             + noise * (1 + abs(float(v))) / float(vo))
    else:
        # a sample standard deviation does not exist for one pair
        miss = NONE if exact else maybe(0, tol=2e-3)
        e['fstdev'] = e['ostdev'] = e['estdev'] = miss
        e['msess'] = NONE if exact else ANY
    if zero_ob:
        e['si'] = NONE if exact else ANY
    else:
        rm = e['rmse']
        r = rm.value / float(ob)
        tol = (rm.tol + 2e-7 * abs(r)) / abs(float(ob)) + 1e-6 + 1e-6 * abs(r)
        e['si'] = maybe(r, tol=tol) if rm.none_ok else val(r, tol=tol)
    return e


SAL1L2_COLUMNS = ['total', 'fabar', 'oabar', 'foabar', 'ffabar', 'ooabar', 'mae']
sal1l2_line = sl1l2_line


def sal1l2_oracle(groups):
    c = continuous_oracle(groups)
    pairs = [p for g in groups for p in g]
    exact = all(exact_floats([Fr(1, len(g))]) for g in groups) and exact_floats([Fr(1, len(pairs))]) \
        and exact_floats([x for p in pairs for x in p])
    ff = sum(Fr(p[0]) ** 2 for p in pairs)
    oo = sum(Fr(p[1]) ** 2 for p in pairs)
    fo = sum(Fr(p[0]) * Fr(p[1]) for p in pairs)
    e = {'anom_corr': c['pr_corr'], 'sal1l2_total': val(len(pairs))}
    e['anom_corr_raw'] = NONE if ff == 0 or oo == 0 else val(float(fo) / math.sqrt(float(ff) * float(oo)))
    e['rmsfa'] = sqrt_exp(ff / len(pairs), True)
    e['rmsoa'] = sqrt_exp(oo / len(pairs), True)
    return e


# wind pairs: (uf, vf, uo, vo)
VL1L2_COLUMNS = ['total', 'ufbar', 'vfbar', 'uobar', 'vobar', 'uvfobar', 'uvffbar', 'uvoobar',
                 'f_speed_bar', 'o_speed_bar']


def vl1l2_line(pairs):
    q = [[Fr(x) for x in p] for p in pairs]
    m = [_mean([p[i] for p in q]) for i in range(4)]
    m.append(_mean([p[0] * p[2] + p[1] * p[3] for p in q]))
    m.append(_mean([p[0] ** 2 + p[1] ** 2 for p in q]))
    m.append(_mean([p[2] ** 2 + p[3] ** 2 for p in q]))
    fs = sum(math.hypot(float(p[0]), float(p[1])) for p in q) / len(q)
    os_ = sum(math.hypot(float(p[2]), float(p[3])) for p in q) / len(q)
    return (len(q),) + tuple(float(x) for x in m) + (fs, os_)


def _wind(groups):
    pairs = [[Fr(x) for x in p] for g in groups for p in g]
    exact = all(exact_floats([Fr(1, len(g))]) for g in groups) and exact_floats([Fr(1, len(pairs))]) \
        and exact_floats([x for p in pairs for x in p])
    return pairs, exact


def vl1l2_oracle(groups):
    q, exact = _wind(groups)
    n = len(q)
    m = [float(_mean([p[i] for p in q])) for i in range(4)]
    ff = _mean([p[0] ** 2 + p[1] ** 2 for p in q])
    oo = _mean([p[2] ** 2 + p[3] ** 2 for p in q])
    msve = _mean([(p[0] - p[2]) ** 2 + (p[1] - p[3]) ** 2 for p in q])
    fs = sum(math.hypot(float(p[0]), float(p[1])) for p in q) / n
    os_ = sum(math.hypot(float(p[2]), float(p[3])) for p in q) / n
    e = {'vl1l2_bias': val(math.sqrt(ff) - math.sqrt(oo)),
         'vl1l2_fvar': val(float(ff) - fs * fs), 'vl1l2_ovar': val(float(oo) - os_ * os_),
         'vl1l2_fspd': val(math.hypot(m[0], m[1])), 'vl1l2_ospd': val(math.hypot(m[2], m[3])),
         'vl1l2_speed_err': val(math.hypot(m[0], m[1]) - math.hypot(m[2], m[3])),
         'vl1l2_msve': val(msve) if msve or exact else maybe(0),
         'vl1l2_rmsve': sqrt_exp(msve, exact), 'vl1l2_total': val(n)}
    return e


VCNT_COLUMNS = VL1L2_COLUMNS + ['fa_speed_bar', 'oa_speed_bar', 'uvffabar', 'uvfoabar', 'uvooabar']


def vcnt_line(pairs, climo=(1, -1)):
    a = [(p[0] - climo[0], p[1] - climo[1], p[2] - climo[0], p[3] - climo[1]) for p in pairs]
    la = vl1l2_line(a)
    return vl1l2_line(pairs) + (la[8], la[9], la[6], la[5], la[7])


def _bearing(u, v):
    return math.degrees(math.atan2(u, v)) % 360.0


class Angle:
    """Expectation for an angle in degrees, compared modulo 360 inside the stated range."""
    __slots__ = ('deg', 'lo', 'hi')

    def __init__(self, deg, lo, hi):
        self.deg, self.lo, self.hi = deg, lo, hi

    def __repr__(self):
        return '%r degrees' % self.deg

    def ok(self, got):
        from mc.expect import is_none
        if is_none(got):
            return False
        g = float(got)
        if not (self.lo - 1e-6 <= g <= self.hi + 1e-6):
            return False
        diff = (g - self.deg) % 360.0
        return min(diff, 360.0 - diff) < 1e-4


def vcnt_oracle(groups, climo=(1, -1)):
    q, exact = _wind(groups)
    n = len(q)
    m = [_mean([p[i] for p in q]) for i in range(4)]
    mf = [float(x) for x in m]
    v = vl1l2_oracle(groups)
    ff = _mean([p[0] ** 2 + p[1] ** 2 for p in q])
    oo = _mean([p[2] ** 2 + p[3] ** 2 for p in q])
    fs = sum(math.hypot(float(p[0]), float(p[1])) for p in q) / n
    os_ = sum(math.hypot(float(p[2]), float(p[3])) for p in q) / n
    e = {'vcnt_fbar': val(fs), 'vcnt_obar': val(os_), 'vcnt_fs_rms': sqrt_exp(ff, True),
         'vcnt_os_rms': sqrt_exp(oo, True), 'vcnt_msve': v['vl1l2_msve'], 'vcnt_rmsve': v['vl1l2_rmsve'],
         'vcnt_fbar_speed': v['vl1l2_fspd'], 'vcnt_obar_speed': v['vl1l2_ospd'],
         'vcnt_speed_err': v['vl1l2_speed_err'],
         'vcnt_speed_abserr': val(abs(v['vl1l2_speed_err'].value)),
         'vcnt_vdiff_speed': val(math.hypot(mf[0] - mf[2], mf[1] - mf[3]))}
    for name, var in (('vcnt_fstdev', float(ff) - fs * fs), ('vcnt_ostdev', float(oo) - os_ * os_)):
        if var < 1e-9:
            e[name] = maybe(0, tol=2e-3)
        else:
            e[name] = sqrt_exp(var, True)

    def direction(u, v):
        if u == 0 and v == 0:
            return NONE
        return Angle(_bearing(-float(u), -float(v)), 0.0, 360.0)
    e['vcnt_fdir'] = direction(m[0], m[1])
    e['vcnt_odir'] = direction(m[2], m[3])
    e['vcnt_vdiff_dir'] = direction(m[0] - m[2], m[1] - m[3])
    if (m[0] == 0 and m[1] == 0) or (m[2] == 0 and m[3] == 0):
        e['vcnt_dir_err'] = e['vcnt_dir_abser'] = NONE if exact else ANY
    else:
        # counter-clockwise angle from the observed to the forecast vector
        z = complex(*mf[:2]) / complex(*mf[2:])
        ang = math.degrees(cmath.phase(z))
        e['vcnt_dir_err'] = Angle(ang, -180.0, 180.0)
        e['vcnt_dir_abser'] = val(abs(ang), tol=1e-4)
    a = [[(p[0] - climo[0]), (p[1] - climo[1]), (p[2] - climo[0]), (p[3] - climo[1])] for p in q]
    ffa = float(_mean([p[0] ** 2 + p[1] ** 2 for p in a]))
    ooa = float(_mean([p[2] ** 2 + p[3] ** 2 for p in a]))
    foa = float(_mean([p[0] * p[2] + p[1] * p[3] for p in a]))
    fas = sum(math.hypot(float(p[0]), float(p[1])) for p in a) / n
    oas = sum(math.hypot(float(p[2]), float(p[3])) for p in a) / n
    v1, v2 = ffa - fas * fas, ooa - oas * oas
    if v1 < 1e-9 or v2 < 1e-9:
        e['vcnt_anom_corr'] = ANY
    else:
        e['vcnt_anom_corr'] = val(max(-1.0, min(1.0, (foa - fas * oas) / math.sqrt(v1 * v2))))
    e['vcnt_anom_corr_uncntr'] = NONE if ffa == 0 or ooa == 0 else val(foa / math.sqrt(ffa * ooa))
    return e


VAL1L2_COLUMNS = ['total', 'ufabar', 'vfabar', 'uoabar', 'voabar', 'uvfoabar', 'uvffabar', 'uvooabar']


def val1l2_line(pairs):
    return vl1l2_line(pairs)[:8]


def val1l2_oracle(groups):
    q, exact = _wind(groups)
    n = len(q)
    m = [_mean([p[i] for p in q]) for i in range(4)]
    cov = _mean([(p[0] - m[0]) * (p[2] - m[2]) + (p[1] - m[1]) * (p[3] - m[3]) for p in q])
    vf = _mean([(p[0] - m[0]) ** 2 + (p[1] - m[1]) ** 2 for p in q])
    vo = _mean([(p[2] - m[2]) ** 2 + (p[3] - m[3]) ** 2 for p in q])
    return {'val1l2_anom_corr': corr_exp(cov, vf, vo, exact), 'val1l2_total': val(n)}


# ------------------------------------------------------------------------------------------ weighted lines
def _wmean(lines, i, w=0):
    t = sum(Fr(l[w]) for l in lines)
    if t == 0:
        return None
    return sum(Fr(l[w]) * Fr(l[i]) for l in lines) / t


def _ratio(a, b, scale=1):
    if a is None or b is None or b == 0:
        return NONE
    return val(scale * a / b)


def _v(x):
    return NONE if x is None else val(x)


GRAD_COLUMNS = ['total', 'fgbar', 'ogbar', 'mgbar', 'egbar']


def grad_oracle(lines):
    fg, og, mg, eg = (_wmean(lines, i) for i in range(1, 5))
    return {'fgbar': _v(fg), 'ogbar': _v(og), 'mgbar': _v(mg), 'egbar': _v(eg),
            's1': _ratio(eg, mg, 100), 's1_og': _ratio(eg, og, 100), 'fgog_ratio': _ratio(fg, og, 100),
            'grad_total': val(sum(l[0] for l in lines))}


# neighborhood lines are built from (total, fbs, reference fbs, f_rate, o_rate)
NBRCNT_COLUMNS = ['total', 'fbs', 'fss', 'afss', 'ufss', 'f_rate', 'o_rate']


def nbrcnt_line(total, fbs, ref, f, o):
    fss = 1 - Fr(fbs) / Fr(ref)
    afss = float(Fr(2 * f * o) / (Fr(f) ** 2 + Fr(o) ** 2)) if f or o else float('nan')
    return (total, float(fbs), float(fss), afss, 0.5 + float(o) / 2, float(f), float(o))


def nbrcnt_oracle(parts):
    fbs, ref, f, o = (_wmean(parts, i) for i in range(1, 5))
    e = {'nbr_fbs': _v(fbs), 'nbr_f_rate': _v(f), 'nbr_o_rate': _v(o),
         'nbr_cnt_total': val(sum(p[0] for p in parts))}
    e['nbr_fss'] = NONE if fbs is None or ref == 0 else val(1 - fbs / ref)
    e['nbr_ufss'] = NONE if o is None else val(Fr(1, 2) + o / 2)
    e['nbr_afss'] = NONE if f is None or (f == 0 and o == 0) else val(2 * f * o / (f * f + o * o))
    return e


# RPS lines are built from (total, rps, climatological rps, rps_comp)
RPS_COLUMNS = ['total', 'rps', 'rpss', 'rps_comp']


def rps_line(total, rps, climo, comp):
    return (total, float(rps), float(1 - Fr(rps) / Fr(climo)), float(comp))


def rps_oracle(parts):
    rps, climo, comp = (_wmean(parts, i) for i in range(1, 4))
    return {'rps': _v(rps), 'rps_comp': _v(comp),
            'rpss': NONE if rps is None or climo == 0 else val(1 - rps / climo),
            'rps_total': val(sum(p[0] for p in parts))}


# ------------------------------------------------------------------------------------------ ECNT
ECNT_COLUMNS = ['total', 'crps', 'crpscl', 'ign', 'me', 'rmse', 'spread', 'me_oerr', 'rmse_oerr', 'spread_oerr',
                'spread_plus_oerr', 'crps_emp', 'crpscl_emp', 'crps_emp_fair', 'spread_md', 'mae', 'mae_oerr',
                'n_ge_obs', 'me_ge_obs', 'n_lt_obs', 'me_lt_obs']


def ecnt_oracle(lines):
    ix = {c: i for i, c in enumerate(ECNT_COLUMNS)}
    e = {}
    for c in ('crps', 'crpscl', 'ign', 'me', 'me_oerr', 'crps_emp', 'crpscl_emp', 'crps_emp_fair', 'spread_md',
              'mae', 'mae_oerr'):
        e['ecnt_' + c] = _v(_wmean(lines, ix[c]))
    for c in ('rmse', 'spread', 'rmse_oerr', 'spread_oerr', 'spread_plus_oerr'):
        t = sum(l[0] for l in lines)
        e['ecnt_' + c] = sqrt_exp(sum(Fr(l[0]) * Fr(l[ix[c]]) ** 2 for l in lines) / t, True) if t else NONE
    for a, b, s in (('crps', 'crpscl', 'crpss'), ('crps_emp', 'crpscl_emp', 'crpss_emp')):
        x, y = _wmean(lines, ix[a]), _wmean(lines, ix[b])
        e['ecnt_' + s] = NONE if x is None or y == 0 else val(1 - x / y)
    ge = _wmean(lines, ix['me_ge_obs'], ix['n_ge_obs'])
    lt = _wmean(lines, ix['me_lt_obs'], ix['n_lt_obs'])
    e['ecnt_me_ge_obs'], e['ecnt_me_lt_obs'] = _v(ge), _v(lt)
    e['ecnt_n_ge_obs'] = val(sum(l[ix['n_ge_obs']] for l in lines))
    e['ecnt_n_lt_obs'] = val(sum(l[ix['n_lt_obs']] for l in lines))
    if ge is None or lt is None or lt == 0:
        e['ecnt_bias_ratio'] = NONE
    else:
        r = ge / abs(lt)
        e['ecnt_bias_ratio'] = val(r, tol=1e-6 + 2e-7 * (1 + abs(float(r))) / abs(float(lt)))
    e['ecnt_total'] = val(sum(l[0] for l in lines))
    return e


# ------------------------------------------------------------------------------------------ SSVAR
SSVAR_COLUMNS = ['total', 'bin_n', 'var_mean', 'fbar', 'obar', 'fobar', 'ffbar', 'oobar']


def ssvar_line(group, line_total):
    pairs, var = group
    s = sl1l2_line(pairs)
    return (line_total, s[0], float(var)) + s[1:6]


def ssvar_oracle(groups, line_totals):
    c = continuous_oracle([g[0] for g in groups])
    e = {'ssvar_' + s: c[s] for s in ('fbar', 'fstdev', 'obar', 'ostdev', 'pr_corr', 'me', 'estdev', 'mse',
                                      'bcmse', 'bcrmse', 'rmse', 'me2', 'msess')}
    e['ssvar_anom_corr'] = c['pr_corr']
    n = sum(len(g[0]) for g in groups)
    e['ssvar_spread'] = sqrt_exp(sum(Fr(len(g[0])) * Fr(g[1]) for g in groups) / n, True)
    e['ssvar_total'] = val(sum(line_totals))
    return e
