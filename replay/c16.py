"""I-V import: units, gains, offsets, filter, series resistance, resampling."""
import numpy as np
from scipy.signal import savgol_filter
from common import note, check, close, oracle
from qmix.exp import iv_data as I
from qmix.exp.parameters import params

ORACLES = []
VU = {'uV': 1e-6, 'mV': 1e-3, 'V': 1}
IU = {'uA': 1e-6, 'mA': 1e-3, 'A': 1}


def curve(v, vgap, rn, leak):
    f = 1 / (1 + np.exp(-np.clip((np.abs(v) - vgap) / 4e-5, -300, 300)))
    return v / rn * f + v / rn / leak * (1 - f)


def raw(rng, kind, vfmt, ifmt, vo=0., io=0.):
    """recorded data: two columns in the given units"""
    vgap, rn, leak = float(rng.uniform(2.5e-3, 3e-3)), float(rng.uniform(10, 40)), float(rng.uniform(8, 25))
    top = float(rng.uniform(6.2e-3, 6.8e-3))
    n = int(rng.randint(300, 900))
    if kind == 'unipolar':
        v = np.linspace(0, top, n)
    elif kind == 'sweep up' or kind == 'sweep down':
        a = float(rng.uniform(.95, 1.2)) * top
        v = np.r_[np.linspace(0, top, n // 2), np.linspace(top, -a, n)[1:], np.linspace(-a, 0, n // 2)[1:]]
        if kind == 'sweep down':
            v = -v
    else:
        v = np.linspace(-top, top, n)
    i = curve(v, vgap, rn, leak)
    if kind == 'sweep up' or kind == 'sweep down':
        i = i * (1 + .02 * (np.arange(v.size) > v.size // 2))
    m = np.vstack(((v + vo) / VU[vfmt], (i + io) / IU[ifmt])).T
    if kind == 'reversed':
        m = m[::-1]
    if kind == 'shuffled ends':
        m = np.vstack((m, m[:1] * np.array([1, .5])))
    if kind == 'holes':
        m = m.copy()
        m[rng.choice(m.shape[0], 9, replace=False), int(rng.randint(2))] = np.nan
    return m


KINDS = ['bipolar', 'unipolar', 'sweep up', 'sweep down', 'reversed', 'holes']


def pick(rng, what):
    return str(rng.choice(what))


def one_pass(v, i):
    """the sweep away from the first sample, on both sides"""
    lo, hi = int(np.argmin(v)), int(np.argmax(v))
    n = len(v)
    if (lo == 0 and hi == n - 1) or (hi == 0 and lo == n - 1):
        return v, i
    a, b = min(lo, hi), max(lo, hi)
    s = a + int(np.argmin(np.abs(v[a:b + 1] - v[0])))
    return np.r_[v[:a + 1], v[s:b + 1]], np.r_[i[:a + 1], i[s:b + 1]]


def loaded(m, vfmt, ifmt):
    v, i = m[:, 0] * VU[vfmt], m[:, 1] * IU[ifmt]
    k = ~np.isnan(v) & ~np.isnan(i)
    v, i = one_pass(v[k], i[k])
    u = np.unique(v)
    return u, v, i


def matches(v, i, m, vfmt, ifmt, what):
    """v, i is the imported curve: every voltage once, in order, with one of its measured currents"""
    u, vv, ii = loaded(m, vfmt, ifmt)
    close(v, u, what + ' voltage', atol=1e-15)
    for j in np.linspace(0, len(u) - 1, 60).astype(int):
        c = ii[vv == u[j]]
        check(np.min(np.abs(c - i[j])) <= 1e-9 * np.max(np.abs(ii)), '%s: current at %r is %r, measured %r' % (what, u[j], i[j], c))
    only = np.array([np.sum(vv == x) == 1 for x in u])
    ref = dict(zip(vv, ii))
    close(i[only], np.array([ref[x] for x in u])[only], what + ' current', atol=1e-15)


@oracle(ORACLES, 120)
def load(rng, k):
    vf, cf, kind = pick(rng, list(VU)), pick(rng, list(IU)), KINDS[k % len(KINDS)]
    m = raw(rng, kind, vf, cf)
    kw = dict(v_fmt=vf, i_fmt=cf)
    if k % 9 == 8:
        kw, vf, cf = {}, params['v_fmt'], params['i_fmt']
    note(data=m, kind=kind, **kw)
    m0 = m.copy()
    v, i = I._load_iv(m, **kw)
    check(np.array_equal(m, m0, equal_nan=True), 'input modified')
    matches(v, i, m, vf, cf, 'imported')


def series(v, i, rs):
    if rs is None:
        return v, i
    with np.errstate(all='ignore'):
        r = np.where(v / i < 0, 0., v / i)
        return np.where(i == 0, v, i * (r - rs)), i


@oracle(ORACLES, 60)
def series_resistance(rng, k):
    n = int(rng.randint(2, 60))
    v, i = rng.randn(n) * 3e-3, rng.randn(n) * 2e-4
    i[rng.rand(n) < .2] = 0
    rs = None if k % 6 == 5 else float(rng.uniform(0, 30))
    note(v=v, i=i, rseries=rs)
    v0, i0 = v.copy(), i.copy()
    kw = dict(rseries=rs)
    if k % 10 == 9:
        kw, rs = {}, params['rseries']
    a, b = I._correct_series_resistance(v, i, **kw)
    check(np.array_equal(v, v0) and np.array_equal(i, i0), 'input modified')
    w = series(v, i, rs)
    close(a, w[0], 'corrected voltage', rtol=1e-9, atol=1e-12)
    close(b, w[1], 'current', rtol=0, atol=0)


def rotate(x, y, t):
    return np.cos(t) * x - np.sin(t) * y, np.sin(t) * x + np.cos(t) * y


def filtered(v, i, nwind, npoly, theta, npts):
    a, b = v.max(), i.max()
    x, y = rotate(v / a, i / b, -theta)
    g = np.linspace(x.min(), x.max(), npts)
    x, y = rotate(g, savgol_filter(np.interp(g, x, y), nwind, npoly), theta)
    h = np.linspace(x.min(), x.max(), npts)
    return h * a, np.interp(h, x, y) * b


def filt_args(rng, k):
    o = dict(filter_data=bool(k % 3), filter_nwind=int(rng.choice([7, 15, 21, 31])), filter_npoly=int(rng.choice([1, 2, 3])), filter_theta=float(rng.uniform(.2, 1.2)),
             npts=int(rng.choice([401, 1001, 3000])))
    if k % 3 and k % 7 == 6:
        o = {}
    full = {q: o.get(q, params[q]) for q in ('filter_data', 'filter_nwind', 'filter_npoly', 'filter_theta', 'npts')}
    return o, full


def filt_ref(v, i, f):
    return filtered(v, i, f['filter_nwind'], f['filter_npoly'], f['filter_theta'], f['npts']) if f['filter_data'] else (v, i)


@oracle(ORACLES, 60)
def smoothing(rng, k):
    m = raw(rng, KINDS[k % 2], 'V', 'A')
    v, i = m.T.copy()
    o, f = filt_args(rng, k)
    note(v=v, i=i, **o)
    a, b = I._filter_iv_data(v, i, **o)
    w = filt_ref(v, i, f)
    close(a, w[0], 'filtered voltage', rtol=1e-7, atol=1e-10)
    close(b, w[1], 'filtered current', rtol=1e-7, atol=1e-10)


def offsets(rng, k):
    """(options, given offset or None)"""
    o = [(None, None), (1e-4, 4e-7), (0., 0.), (1e-4, None), (None, -3e-7)][k % 5]
    kw = {}
    if o[0] is not None:
        kw['voffset'] = o[0] * float(rng.uniform(.5, 2))
    if o[1] is not None:
        kw['ioffset'] = o[1] * float(rng.uniform(.5, 2))
    return kw


@oracle(ORACLES, 60)
def offset(rng, k):
    kind = ['bipolar', 'unipolar', 'bipolar', 'unipolar', 'bipolar', 'bipolar'][k % 6]
    vo, io = float(rng.uniform(-3e-5, 3e-5)), float(rng.uniform(-1e-6, 1e-6))
    if kind == 'unipolar':
        vo = io = 0.
    m = raw(rng, kind, 'V', 'A', vo, io)
    v, i = m.T.copy()
    kw = offsets(rng, k)
    r = [[-3e-4, 3e-4], 3e-4, (-4e-4, 4e-4)][k % 3]
    kw['voffset_range'] = r
    note(v=v, i=i, true=(vo, io), **kw)
    v0, i0 = v.copy(), i.copy()
    a, b, (x, y) = I._correct_offset(v, i, **kw)
    close(a, v0 - x, 'voltage after the offset', rtol=0, atol=1e-16)
    close(b, i0 - y, 'current after the offset', rtol=0, atol=1e-16)
    lo, hi = (r if np.ndim(r) else (-r, r))
    both = 'voffset' in kw and 'ioffset' in kw
    if both or kind == 'unipolar':
        check(x == kw.get('voffset', 0) and y == kw.get('ioffset', 0), 'offset (%r, %r) used, given %r' % (x, y, kw))
        return
    s = (lo <= v0) & (v0 <= hi)
    vr, ir = v0[s], i0[s]
    g = np.linspace(lo / 2, hi / 2, 101)

    def error(p, q):
        return np.sum(np.abs(np.interp(g, vr - p, ir - q) - np.interp(g, -(vr - p)[::-1], -(ir - q)[::-1])))
    ref = error(kw.get('voffset', 0), kw.get('ioffset', float(np.mean(ir))))
    check(error(x, y) <= ref * 1.0001 + 1e-15, 'recovered offset is worse (%g) than the first guess (%g)' % (error(x, y), ref))
    if 'voffset' not in kw:
        fit = np.polyfit(vr, ir, 1)                   # near the origin the curve is a straight line through the recovered origin
        close(y - x * fit[0], fit[1], 'recovered offset on the I-V line', rtol=1e-2, atol=4e-8)


def resampled(v, i, vscale, iscale, vmax, npts, zero, got, what):
    g = np.linspace(-vmax, vmax, npts) / vscale
    x, y = v / vscale, i / iscale
    w = np.interp(g, x, y, left=0, right=0) if zero else np.interp(g, x, y)
    edge = (np.abs(g - x[0]) > 1e-9) & (np.abs(g - x[-1]) > 1e-9) if zero else np.ones(npts, bool)
    close(got[0], g, what + ' voltage', rtol=1e-9, atol=1e-12)
    close(np.asarray(got[1])[edge], w[edge], what + ' current', rtol=1e-6, atol=1e-8)


def import_kw(rng, k, vf, cf):
    f, full = filt_args(rng, k)
    kw = dict(f, v_fmt=vf, i_fmt=cf, vmax=float(rng.uniform(5e-3, 8e-3)), vrn=[4e-3, 5e-3], vrsg=1.6e-3)
    kw.setdefault('npts', int(rng.choice([501, 2001])))
    full['npts'] = kw['npts']
    kw['v_multiplier'] = float(rng.choice([1., -1., 1.05, .97]))
    kw['i_multiplier'] = np.sign(kw['v_multiplier']) * float(rng.choice([1., 1.1, .9]))
    kw['rseries'] = None if k % 4 == 3 else float(rng.uniform(0, 2))
    return kw, full


def cleaned(m, kw, vo, io, full):
    """the gained, offset corrected and filtered curve, from the loader and the recorded offset"""
    v, i = I._load_iv(m, v_fmt=kw['v_fmt'], i_fmt=kw['i_fmt'])
    v, i = v * kw['v_multiplier'] - vo, i * kw['i_multiplier'] - io
    return filt_ref(v, i, full)


@oracle(ORACLES, 60)
def dc_curve(rng, k):
    vf, cf, kind = pick(rng, list(VU)), pick(rng, list(IU)), ['bipolar', 'sweep up', 'sweep down', 'reversed', 'holes'][k % 5]
    m = raw(rng, kind, vf, cf, 2e-5, 5e-7)
    kw, full = import_kw(rng, k, vf, cf)
    kw['v_multiplier'], kw['i_multiplier'] = abs(kw['v_multiplier']), abs(kw['i_multiplier'])
    kw.update(offsets(rng, k))
    if k % 3 == 2:
        kw['vgap'] = float(rng.uniform(2e-3, 3e-3))
    note(data=m, **kw)
    m0 = m.copy()
    v, i, dc = I.dciv_curve(m, **kw)
    check(np.array_equal(m, m0, equal_nan=True), 'input modified')
    if 'voffset' in kw and 'ioffset' in kw:
        check(tuple(dc.offset) == (kw['voffset'], kw['ioffset']), 'offset %r' % (dc.offset,))
    vc, ic = cleaned(m, kw, dc.offset[0], dc.offset[1], full)
    close(dc.vraw, vc, 'vraw', rtol=1e-6, atol=1e-10)
    close(dc.iraw, ic, 'iraw', rtol=1e-6, atol=1e-11)
    vs, js = series(vc, ic, kw['rseries'])
    check(dc.rseries == kw['rseries'], 'series resistance %r' % dc.rseries)
    rn, vint = I._find_normal_resistance(vs, js, **kw)
    close(dc.rn, rn, 'normal resistance', rtol=1e-6)
    close(dc.vint, vint, 'intercept', rtol=1e-6)
    close(dc.rsg, I._find_subgap_resistance(vs, js, **kw), 'subgap resistance', rtol=1e-6)
    close(dc.vgap, kw.get('vgap') or I._find_gap_voltage(vs, js, **kw), 'gap voltage', rtol=1e-6)
    close(dc.igap, dc.vgap / dc.rn, 'gap current', rtol=1e-12)
    close(dc.fgap, 1.602176634e-19 * dc.vgap / 6.62607015e-34, 'gap frequency', rtol=1e-6)
    resampled(vs, js, dc.vgap, dc.igap, kw['vmax'], kw['npts'], False, (v, i), 'DC')
    check(np.array_equal(v, dc.vnorm) and np.array_equal(i, dc.inorm), 'normalised curve is not the stored one')


@oracle(ORACLES, 60)
def pumped_curve(rng, k):
    vf, cf, kind = pick(rng, list(VU)), pick(rng, list(IU)), KINDS[k % 5]
    m = raw(rng, kind, vf, cf, 2e-5, 5e-7)
    kw, full = import_kw(rng, k, vf, cf)
    kw.update(offsets(rng, k))
    for q in ('v_multiplier', 'i_multiplier'):
        kw[q] = abs(kw[q])
    if k % 4 == 1:
        kw['vmax'] = 9e-3                           # beyond the data
    off = (float(rng.uniform(-1e-4, 1e-4)), float(rng.uniform(-1e-6, 1e-6)))
    z = np.zeros(3)
    dc = I.DCIVData(z, z, z, z, float(rng.uniform(2.5e-3, 3e-3)), float(rng.uniform(5e-5, 4e-4)), 7e11, 10., 100., off, 1e-4, 5.)
    note(data=m, dc=dc, **kw)
    m0 = m.copy()
    v, i = I.iv_curve(m, dc, **kw)
    check(np.array_equal(m, m0, equal_nan=True), 'input modified')
    if 'voffset' in kw and 'ioffset' in kw:
        off = kw['voffset'], kw['ioffset']
    vc, ic = cleaned(m, kw, off[0], off[1], full)
    vs, js = series(vc, ic, kw['rseries'])
    resampled(vs, js, dc.vgap, dc.igap, kw['vmax'], kw['npts'], True, (v, i), 'pumped')
