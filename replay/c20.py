"""IF power calibration and import."""
import numpy as np
from common import note, check, close, oracle
from qmix.exp import if_data as I
from qmix.exp.iv_data import DCIVData
from qmix.mathfn.filters import gauss_conv

ORACLES = []
UNIT = {'V': 1., 'mV': 1e-3, 'uV': 1e-6}


def dc(**kw):
    return DCIVData(*[kw.get(f) for f in DCIVData._fields])


def junction(rng, offset=True):
    vgap = float(rng.uniform(2.4e-3, 3.2e-3))
    rn = float(rng.uniform(8, 40))
    v = np.linspace(-6e-3, 8e-3, 701)
    i = np.where(np.abs(v) > vgap, v / rn, v / rn / 20)
    return dc(vgap=vgap, rn=rn, igap=vgap / rn, vint=float(rng.uniform(-.5, .8)) * 1e-3, vraw=v, iraw=i,
              offset=(float(rng.uniform(-1, 1)) * 1e-4 * offset, float(rng.uniform(-1, 1)) * 1e-6))


def shot(rng, n, vmax):
    """IF power against normalised voltage: a line with noise"""
    x = np.linspace(0, vmax, n)
    a, b = float(rng.uniform(.5, 4)) * float(rng.choice([1., 1e-3])), float(rng.uniform(-.5, 1.5))
    return x, a * (x + b) + a * .02 * rng.randn(n)


def fit(x, y):
    s = np.sum((x - x.mean()) * (y - y.mean())) / np.sum((x - x.mean()) ** 2)
    return s, y.mean() - s * x.mean()


def calibrated(x, y, d, sel):
    s, b = fit(x[sel], y[sel])
    c = 5.8 / s * d.vgap * 1e3
    line = c * (s * x + b)
    n = np.interp(d.vint / d.vgap, x, line)
    return n, c, line, bool(0 < n < 50)


def ranges(rng, j, d):
    lo = float(rng.uniform(1.3, 2)) * d.vgap
    if j == 0:
        return (lo, lo + float(rng.uniform(.3, .8)) * d.vgap)
    if j == 1:
        return [lo, lo + .7 * d.vgap]
    if j == 2:                       # too few points
        return (lo, lo + 1e-3 * d.vgap)
    two = [(lo, lo + .2 * d.vgap), (lo + .3 * d.vgap, lo + .4 * d.vgap)]
    if j == 3:
        return tuple(two)
    if j == 4:
        return [list(r) for r in two]
    return two + [(lo - .2 * d.vgap, lo + .1 * d.vgap)]


def requested(x, d, r):
    rs = r if isinstance(r[0], (tuple, list)) else [r]
    m = np.zeros(len(x), bool)
    for a, b in rs:
        m |= (a < x * d.vgap) & (x * d.vgap < b)
    if m.sum() < 5:
        m = x > 2.
    return m


@oracle(ORACLES, 200)
def noise(rng, k):
    d = junction(rng)
    x, y = shot(rng, int(rng.choice([101, 301, 1001])), float(rng.uniform(2.3, 3)))
    r = ranges(rng, k % 6, d)
    note(x=x, y=y, vgap=d.vgap, vint=d.vint, vshot=r)
    m = np.stack([x, y], 1)
    m0 = m.copy()
    got = I._find_if_noise(m, d, vshot=r)
    check(np.array_equal(m, m0), 'input modified')
    want = calibrated(x, y, d, requested(x, d, r))
    close(got[1], want[1], 'calibration factor', rtol=1e-6)
    close(got[2], want[2], 'calibrated line', rtol=1e-6, atol=1e-6 * np.abs(want[2]).max())
    close(got[0], want[0], 'IF noise', rtol=1e-6, atol=1e-6 * np.abs(want[2]).max())
    check(bool(got[3]) == (0 < got[0] < 50), 'flag %r for %r' % (got[3], got[0]))


@oracle(ORACLES, 20)
def automatic(rng, k):
    d = junction(rng)
    x, y = shot(rng, 401, 3.)
    note(x=x, y=y, vgap=d.vgap, vint=d.vint)
    n, c, line, flag = I._find_if_noise(np.stack([x, y], 1), d, vshot=None)
    rise = (line[-1] - line[0]) / (x[-1] - x[0]) / d.vgap / 1e3
    close(rise, 5.8, 'rise per mV', rtol=1e-6)
    close(n, np.interp(d.vint / d.vgap, x, line), 'IF noise', rtol=1e-9)
    check(bool(flag) == (0 < n < 50), 'flag')


@oracle(ORACLES, 60)
def band(rng, k):
    """the flag at and around its limits"""
    d = junction(rng)
    x = np.linspace(0, 3, 301)
    want = float(rng.choice([-3., -.01, .01, 1., 49.9, 50.1, 80.]))
    # line of 5.8 K / mV through `want` at the intercept voltage
    y = 5.8e3 * d.vgap * (x - max(d.vint / d.vgap, 0)) + want
    y = y * float(rng.uniform(.1, 10))
    note(x=x, y=y, vgap=d.vgap, vint=d.vint)
    n, c, line, flag = I._find_if_noise(np.stack([x, y], 1), d, vshot=(1.9 * d.vgap, 2.9 * d.vgap))
    close(n, want, 'IF noise', rtol=1e-6, atol=1e-6)
    check(bool(flag) == (0 < want < 50), 'flag %r for %r' % (flag, want))


def raw(rng, d, fmt, vtop, n):
    """measured data in its own units, with doubles, NaNs and any order"""
    v = np.sort(rng.uniform(-.3e-3, vtop, n))
    p = 1 + 800 * np.abs(v) + 200 * v ** 2 / d.vgap + .02 * rng.rand(n)
    v = np.concatenate([v, v[:3]])
    p = np.concatenate([p, p[:3]])
    p[int(rng.randint(n))] = np.nan
    v[int(rng.randint(n))] = np.nan
    if rng.rand() < .5:
        i = rng.permutation(n) if n else []
        v[:n], p[:n] = v[i], p[i]
    return np.stack([v / UNIT[fmt], p], 1)


def imported(m, d, fmt, gain, rs, vmax, npts, sigma):
    ok = ~np.isnan(m).any(1)
    v, p = m[ok, 0] * UNIT[fmt], m[ok, 1]
    i = np.argsort(v)
    v, p = v[i], p[i]
    keep = np.concatenate([[True], v[1:] != v[:-1]])
    v, p = v[keep] * gain - d.offset[0], p[keep]
    if rs is not None:
        cur = np.interp(v, d.vraw, d.iraw)
        v = np.array([0. if a * b < 0 else a for a, b in zip(v, cur)]) - cur * rs
    v = v / d.vgap
    g = np.linspace(0, vmax / d.vgap, npts)
    q = np.interp(g, v, p)
    q[(g < v[0]) | (g > v[-1])] = 0
    if sigma is not None:
        step = g[1] * d.vgap
        q = gauss_conv(q, sigma if sigma > .5 else sigma / step)
    return np.stack([g, q], 1)


def options(rng, k, d):
    fmt = ('mV', 'V', 'uV')[k % 3]
    kw = dict(v_fmt=fmt, v_multiplier=float(rng.choice([1., .98, 1.1])), vmax=float(rng.choice([4e-3, 6e-3, 9e-3])), ifdata_npts=int(rng.choice([61, 401])),
              rseries=(None, 2.5, .4)[k % 3 if k % 2 else 0], ifdata_sigma=(None, 5e-5, 3.)[int(rng.randint(3))])
    return kw


def expect(m, d, kw):
    return imported(m, d, kw['v_fmt'], kw['v_multiplier'], kw['rseries'], kw['vmax'], kw['ifdata_npts'], kw['ifdata_sigma'])


def same_data(got, want, what):
    close(got[:, 0], want[:, 0], what + ' voltage', rtol=1e-9, atol=1e-12)
    # doubles after sorting may keep either power: both are the same value here
    close(got[:, 1], want[:, 1], what + ' power', rtol=1e-6, atol=1e-6)


@oracle(ORACLES, 120)
def load(rng, k):
    d = junction(rng, offset=k % 4 != 1)
    kw = options(rng, k, d)
    m = raw(rng, d, kw['v_fmt'], 7e-3, int(rng.choice([80, 400])))
    note(m=m, vgap=d.vgap, offset=d.offset, **kw)
    m0 = m.copy()
    got = I._load_if(m, d, **kw)
    check(np.array_equal(m, m0, equal_nan=True), 'input modified')
    same_data(got, expect(m, d, kw), 'imported')


@oracle(ORACLES, 60)
def direct(rng, k):
    d = junction(rng)
    kw = options(rng, k, d)
    kw.update(vmax=8e-3, ifdata_npts=401)
    m = raw(rng, d, kw['v_fmt'], 9e-3, 400)
    kw['vshot'] = ranges(rng, k % 6, d)
    note(m=m, vgap=d.vgap, offset=d.offset, vint=d.vint, **kw)
    got, meta = I.dcif_data(m, d, verbose=False, **kw)
    want = expect(m, d, kw)
    n, c, line, flag = calibrated(want[:, 0], want[:, 1], d, requested(want[:, 0], d, kw['vshot']))
    want[:, 1] *= c
    same_data(got, want, 'DC IF')
    close([meta.if_noise, meta.corr], [n, c], 'calibration', rtol=1e-5, atol=1e-5)
    check(bool(meta.if_fit) == (0 < meta.if_noise < 50), 'flag')
    close(meta.shot_slope, np.stack([want[:, 0], line], 1), 'shot noise line', rtol=1e-5, atol=1e-5)
    close(meta.vmax, kw['vmax'], 'vmax', rtol=1e-9)


@oracle(ORACLES, 90)
def hot_cold(rng, k):
    d = junction(rng)
    kw = options(rng, k, d)
    kw.update(vmax=8e-3, ifdata_npts=401, freq=float(rng.choice([230., 691.])), best_pt='max gain')
    hot, cold = (raw(rng, d, kw['v_fmt'], 9e-3, 400) for _ in range(2))
    hot[:, 1] *= 1.5
    kw['vshot'] = ranges(rng, k % 6, d)
    given = k % 3
    line = np.stack([np.linspace(0, 1, 401), rng.rand(401)], 1)
    if given:
        kw['dcif'] = I.DCIFData(if_noise=float(rng.uniform(-5, 60)), corr=None if given == 2 else float(rng.uniform(.1, 30)), if_fit=bool(k % 2), shot_slope=line, vmax=1.)
    note(hot=hot, cold=cold, vgap=d.vgap, offset=d.offset, vint=d.vint, **kw)
    h0, c0 = hot.copy(), cold.copy()
    res, ix, out = I.if_data(hot, cold, d, verbose=False, **kw)
    check(np.array_equal(hot, h0, equal_nan=True) and np.array_equal(cold, c0, equal_nan=True), 'input modified')
    h, c = expect(hot, d, kw), expect(cold, d, kw)
    if given == 1:
        g = kw['dcif']
        f = g.corr
        check(out.corr == g.corr and out.if_noise == g.if_noise and bool(out.if_fit) == g.if_fit and np.array_equal(out.shot_slope, line), 'the supplied calibration is reused')
    else:
        avg = (h[:, 1] + c[:, 1]) / 2
        n, f, sl, flag = calibrated(h[:, 0], avg, d, requested(h[:, 0], d, kw['vshot']))
        close([out.if_noise, out.corr], [n, f], 'calibration', rtol=1e-5, atol=1e-5)
        close(out.shot_slope, np.stack([h[:, 0], sl], 1), 'shot noise line', rtol=1e-5, atol=1e-5)
        check(bool(out.if_fit) == (0 < out.if_noise < 50), 'flag')
    h[:, 1] *= f
    c[:, 1] *= f
    scale = max(1., abs(f))
    close(res[:, 0], h[:, 0], 'voltage', rtol=1e-9, atol=1e-12)
    close(res[:, 1], h[:, 1], 'hot power', rtol=1e-5, atol=1e-6 * scale)
    close(res[:, 2], c[:, 1], 'cold power', rtol=1e-5, atol=1e-6 * scale)
    tn, gain, best = I._find_tn_gain(res[:, [0, 1]].copy(), res[:, [0, 2]].copy(), d, verbose=False, **{x: kw[x] for x in kw if x != 'dcif'})
    close(res[:, 4], gain, 'gain', rtol=1e-7)
    ok = ~np.isnan(tn)
    close(res[ok, 3], tn[ok], 'noise temperature', rtol=1e-6)
    check(ix == best, 'operating point')
    close(out.vmax, kw['vmax'], 'vmax', rtol=1e-9)
