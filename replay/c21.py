"""Impedance recovery: Tucker sums, drive levels, fit formulas and the search."""
import numpy as np
import scipy.constants as sc
from scipy.special import jv
from common import note, check, close, oracle
from qmix.exp import exp_data as X
from qmix.exp.parameters import params
from qmix.respfn import RespFnPolynomial, RespFnFromIVData

ORACLES = []
RESP = {}


def resp(k):
    k = k % 3
    if k not in RESP:
        if k < 2:
            RESP[k] = RespFnPolynomial([30, 50][k], verbose=False)
        else:
            v = np.linspace(0, 3, 3001)
            i = v * .05 + v / (1 + np.exp(-np.clip((v - 1) / .01, -300, 300)))
            RESP[k] = RespFnFromIVData(v, i, verbose=False, check_error=False)
    return RESP[k]


def tucker(r, v, w, a, nb):
    dc, ac = np.zeros(v.shape), np.zeros(v.shape, complex)
    for n in range(-nb, nb + 1):
        x = v + n * w
        dc = dc + jv(n, a) ** 2 * r.idc(x)
        ac = ac + jv(n, a) * ((jv(n - 1, a) + jv(n + 1, a)) * r.idc(x) + 1j * (jv(n - 1, a) - jv(n + 1, a)) * r.ikk(x))
    return dc, ac


@oracle(ORACLES, 40)
def sums(rng, k):
    r = resp(k)
    v, w = np.sort(rng.uniform(-1.6, 1.6, int(rng.randint(1, 30)))), float(rng.uniform(.1, .5))
    a = rng.uniform(0, 2.5, v.size)
    kw = {} if k % 5 == 0 else dict(num_b=int(rng.randint(0, 26)))
    if k % 7 == 3:
        kw['comment'] = 'unused'
    note(resp=k % 3, vb=v, vph=w, alpha=a, **kw)
    v0, a0 = v.copy(), a.copy()
    dc, ac = tucker(r, v, w, a, kw.get('num_b', 20))
    close(X._find_pumped_iv_curve(r, v, w, a, **kw), dc, 'pumped DC current', rtol=1e-9, atol=1e-11)
    close(X._find_ac_current(r, v, w, a, **kw), ac, 'AC current', rtol=1e-9, atol=1e-11)
    check(np.array_equal(v, v0) and np.array_equal(a, a0), 'input modified')


def error(vw, zw, zs):
    d = zw / (zs + zw)
    a, b, c = np.sum(np.abs(vw) ** 2), np.sum(np.abs(vw * d)), np.sum(np.abs(d) ** 2)
    return (a - b * b / c) / vw.size, b / c


@oracle(ORACLES, 60)
def formulas(rng, k):
    n = int(rng.randint(1, 40))
    vw = rng.uniform(0, 1, n) if k % 2 else rng.uniform(0, 1, n) * np.exp(1j * rng.uniform(-3, 3, n))
    zw = rng.uniform(.1, 2, n) + 1j * rng.uniform(-1, 1, n)
    zs = complex(rng.uniform(0, 2), rng.uniform(-2, 2))
    note(vwi=vw, zwi=zw, zs=zs)
    e, s = error(vw, zw, zs)
    close(X._error_function(vw, zw, zs), e, 'fit error', rtol=1e-7, atol=1e-13)
    close(X._find_source_voltage(vw, zw, zs), s, 'source voltage', rtol=1e-9)


class DC(object):
    pass


def experiment(rng, k, n=300):
    """a pumped curve of a junction in a known embedding circuit, with noise"""
    r = resp(k)
    w = float(rng.uniform(.25, .45))
    v = np.linspace(0, 1.5, n)
    a = float(rng.uniform(.4, .9)) * (1 + float(rng.uniform(-.2, .2)) * v)
    i = tucker(r, v, w, a, 20)[0] + float(rng.choice([0, 1e-5])) * rng.randn(n)
    return r, w, v, a, i


@oracle(ORACLES, 20)
def drive(rng, k):
    r, w, v, a, i = experiment(rng, k)
    m = (v > 1 - w + .3 * w) & (v < 1 - .25 * w)
    v, a, i = v[m], a[m], i[m]
    if k % 4 == 3:
        i[::5] = r.idc(v[::5]) - .01                 # below the unpumped curve: no drive
    o = DC()
    o.resp = r
    kw = {} if k % 3 == 0 else dict(alpha_max=float(rng.uniform(1, 1.8)), num_b=int(rng.randint(10, 22)))
    note(resp=k % 3, vdc=v, idc=i, vph=w, **kw)
    v0, i0 = v.copy(), i.copy()
    got = X._find_alpha(o, v, i, w, **kw)
    check(np.array_equal(v, v0) and np.array_equal(i, i0), 'input modified')
    check(got.shape == v.shape and np.all(got >= 0), 'negative drive level %r' % got.min())
    if k % 4 == 3:
        check(np.all(got[::5] <= 1e-3), 'drive level without pumped current')
        return
    err = tucker(r, v, w, got, kw.get('num_b', 20))[0] - i
    eps = 2e-4
    up = tucker(r, v, w, got + eps, kw.get('num_b', 20))[0] - i
    dn = tucker(r, v, w, np.maximum(got - eps, 0), kw.get('num_b', 20))[0] - i
    ok = (dn <= 1e-12) & (up >= -1e-12)
    good = np.abs(a - .75 * kw.get('alpha_max', 1.5)) < 10
    check(np.mean(ok[good]) > .9, 'drive level does not reproduce the measured current (%d of %d)' % (np.sum(~ok), ok.size))


@oracle(ORACLES, 12)
def recovery(rng, k):
    r, w, v, a, i = experiment(rng, k)
    o = object.__new__(X.PumpedData)
    o.dciv = DC()
    o.dciv.resp = r
    o.vgap, o.rn = 2.8e-3, float(rng.uniform(8, 20))
    o.fgap = sc.e * o.vgap / sc.h
    o.freq = w * o.fgap / 1e9
    o.vph = o.freq / o.fgap * 1e9
    o.igap, o.offset, o.vint = o.vgap / o.rn, (0., 0.), 0.
    for n in ('vgap', 'rn', 'fgap', 'igap', 'offset', 'vint'):
        setattr(o.dciv, n, getattr(o, n))
    o.voltage, o.current = v, i
    kw = dict(params)
    if k % 4:
        lo = float(rng.uniform(.1, .4))
        kw.update(fit_range=(lo, float(rng.uniform(lo + .2, .95))), remb_range=(float(rng.uniform(0, .1)), float(rng.uniform(.6, 2))), xemb_range=(float(rng.uniform(-2, -.2)), float(rng.uniform(.2, 2))),
                  num_b=int(rng.choice([2, 3, 10, 20])))
    if k % 4 == 1:                                   # samples exactly on the limits of the interval
        o.fgap, o.freq, w = 1024e9, 256, .25
        o.vph = w
        o.dciv.fgap = o.fgap
        kw['fit_range'] = (.25, .75)
        v = np.arange(0, 385) / 256
        i = tucker(r, v, w, .8 + .2 * v, 20)[0]
        o.voltage, o.current = v, i
    if k % 3 == 2:
        kw['zemb'] = complex(rng.uniform(.1, 1), rng.uniform(-1, 1))
    o.kwargs = kw
    shown = {q: kw[q] for q in ('fit_range', 'remb_range', 'xemb_range', 'zemb')}
    note(resp=k % 3, vph=w, voltage=v, current=i, num_b=kw.get('num_b', 20), **shown)
    v0, i0 = v.copy(), i.copy()
    o._recover_zemb()
    check(np.array_equal(v, v0) and np.array_equal(i, i0), 'measured data modified')
    w = o.freq * 1e9 / o.fgap
    lo, hi = kw['fit_range']
    m = (v >= 1 - w + w * lo) & (v <= 1 - w + w * hi)
    al = X._find_alpha(o.dciv, v[m], i[m], w, **kw)
    vw = al * w
    zw = vw / tucker(r, v[m], w, al, kw.get('num_b', 20))[1]
    re, im = np.linspace(*kw['remb_range'], 101), np.linspace(*kw['xemb_range'], 201)
    zs = re[:, None] + 1j * im[None, :]
    d = zw / (zs[..., None] + zw)
    e = (np.sum(vw ** 2) - np.sum(np.abs(vw * d), -1) ** 2 / np.sum(np.abs(d) ** 2, -1)) / vw.size
    close(o.err_surf, e, 'error surface', rtol=1e-5, atol=1e-12)
    if kw['zemb'] is None:
        p, q = np.unravel_index(np.argmin(np.abs(zs - o.zt)), zs.shape)
        close(o.zt, zs[p, q], 'embedding impedance on the grid', rtol=1e-9, atol=1e-12)
        check(e[p, q] <= e.min() + 1e-12, 'error of the chosen impedance %g, smallest %g' % (e[p, q], e.min()))
        lim = X._good_error
        if abs(e.min() - lim) > 1e-3 * lim:
            check(bool(o.fit_good) == (e.min() < lim), 'fit_good %r with error %g' % (o.fit_good, e.min()))
    else:
        check(o.zt == kw['zemb'], 'forced impedance not used')
    close(o.vt, error(vw, zw, o.zt)[1], 'source voltage', rtol=1e-7)
    near = np.abs(v[m] - (1 - w / 2))
    c = near <= near.min() + 1e-9
    check(np.any(np.abs(al[c] - o.alpha) < 1e-12) and np.any(np.abs(zw[c] - o.zw) < 1e-9), 'drive level or impedance at the middle of the step')
