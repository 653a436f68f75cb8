"""Response functions against an independent construction."""
import numpy as np
from common import note, check, close, oracle
from qmix import respfn as R
from qmix.mathfn import ivcurve_models as iv
from qmix.mathfn.kktrans import kk_trans
from qmix.mathfn.filters import gauss_conv

ORACLES = []


def curve(rng, k, n=None):
    """pre-processed data: even grid from 0 to beyond 5, not odd at the origin unless k % 3"""
    n = n or int(rng.randint(300, 900))
    v = np.linspace(0, rng.uniform(5.5, 12.), n)
    c = iv.polynomial(v, int(rng.randint(5, 60))) + rng.uniform(0, 0.05) * v
    if k % 3 == 1:
        c = c + 0.02 * np.sin(rng.uniform(1, 4) * v)
    if k % 3 == 2:
        c = c + 0.01
    return v, c


def build(rng, k, **kw):
    kw.setdefault('verbose', False)
    j = k % 6
    if j == 0:
        return R.RespFnPolynomial(int(rng.randint(5, 80)), **kw)
    if j == 1:
        return R.RespFnExponential(rng.uniform(2e-3, 3e-3), rng.uniform(5, 30), rng.uniform(100, 2000), rng.uniform(1e4, 5e4), **kw)
    if j == 2:
        return R.RespFnPerfect(v_smear=rng.uniform(0.015, 0.05), **kw)
    if j == 3:
        v, c = curve(rng, k)
        return R.RespFn(v, c, **kw)
    if j == 4:
        v = np.linspace(-0.5, 3., int(rng.randint(150, 900)))
        return R.RespFnFromIVData(v, iv.polynomial(v, 30) + 0.02 * v, **kw)
    return R.RespFnPerfect(**kw)


@oracle(ORACLES, 24)
def evaluation(rng, k):
    kw = {}
    if k % 6 in (0, 1, 3) and rng.rand() < 0.5:
        kw = dict(max_npts_dc=int(rng.randint(30, 120)), max_npts_kk=int(rng.randint(40, 160)), spline_order=int(rng.choice([1, 2, 3])))
    r = build(rng, k, **kw)
    for x in (rng.uniform(-3, 3, 7), rng.uniform(-40, 40, (3, 4)), float(rng.uniform(-2, 2)), np.array([0., 1., -1., 34., -36.]), np.zeros(0)):
        note(x=x)
        x0 = np.array(x, copy=True)
        if k % 6 == 5 and not isinstance(x, np.ndarray):
            x = np.array([x])
        dc, kk = r.idc(x), r.ikk(x)
        for nm, got, want in (('resp', r.resp(x), kk + 1j * dc), ('call', r(x), kk + 1j * dc), ('resp_conj', r.resp_conj(x), kk - 1j * dc), ('resp_swap', r.resp_swap(x), dc + 1j * kk)):
            close(got, want, nm, rtol=1e-12, atol=1e-12)
        check(np.array_equal(x0, np.asarray(x).reshape(x0.shape)), 'bias voltage changed')
    if k % 6 == 5:
        v = rng.uniform(-3, 3, 40)
        close(r.idc(v), np.where(np.abs(v) > 1, v, 0), 'perfect DC curve')
        return
    if kw.get('spline_order') == 1:
        return
    x = rng.uniform(-1, 1, 60) * 0.9 * r.voltage[-1]
    h = 1e-6
    close(r.didc(x), (r.idc(x + h) - r.idc(x - h)) / (2 * h), 'derivative of the DC curve', rtol=1e-3, atol=1e-3 * (1 + np.abs(r.didc(x)).max()))
    close(r.dikk(x), (r.ikk(x + h) - r.ikk(x - h)) / (2 * h), 'derivative of the KK curve', rtol=1e-3, atol=1e-3 * (1 + np.abs(r.dikk(x)).max()))


@oracle(ORACLES, 16)
def odd_extension(rng, k):
    v, c = curve(rng, k)
    if k % 4 == 3 and k > 4:
        # coarse curve, broad smearing
        n = int(rng.randint(60, 140))
        v = np.linspace(0, rng.uniform(0.2, 0.6) * (n - 1), n)
        c = v + 0.1 * rng.randn(n) - np.exp(-v)
    kw = {}
    if k % 2:
        kw['kk_n'] = int(rng.choice([1, 5, 20, 50]))
    sm = k % 4 == 3
    if sm:
        kw['v_smear'] = rng.uniform(0.05, 0.2) if k < 5 else (v[1] - v[0]) * rng.uniform(0.6, 4)
    note(v=v, c=c, **kw)
    v0, c0 = v.copy(), c.copy()
    r = R.RespFn(v, c, verbose=False, **kw)
    check(np.array_equal(v, v0) and np.array_equal(c, c0), 'input changed')
    n = len(v)
    V = np.array([-v[n - 1 - i] if i < n - 1 else v[i - n + 1] for i in range(2 * n - 1)])
    C = np.array([-c[n - 1 - i] if i < n - 1 else c[i - n + 1] for i in range(2 * n - 1)])
    if sm:
        C = gauss_conv(C - V, sigma=kw['v_smear'] / (v[n - 1] - v[n - 2])) + V
    close(r.voltage, V, 'stored voltage')
    close(r.current, C, 'stored current')
    close(r.voltage_kk, V, 'stored KK voltage')
    K = kk_trans(V, C, kw.get('kk_n', 50))
    close(r.current_kk, K, 'stored KK current')
    if sm:
        return
    # the samples around the gap and around 0 are interpolated exactly
    for i in range(2 * n - 1):
        if abs(V[i]) < 0.05 or abs(abs(V[i]) - 1) < 0.1:
            close(r.idc(V[i]), C[i], 'idc at the sample %g' % V[i], rtol=1e-6, atol=1e-7)
            close(r.ikk(V[i]), K[i], 'ikk at the sample %g' % V[i], rtol=1e-6, atol=1e-7)


@oracle(ORACLES, 6)
def models(rng, k):
    if k % 3 == 0:
        p = int(rng.randint(3, 90))
        note(order=p)
        r, f = R.RespFnPolynomial(p, verbose=False), lambda x: iv.polynomial(x, p)
    elif k % 3 == 1:
        a = (rng.uniform(2e-3, 3e-3), rng.uniform(5, 30), rng.uniform(100, 2000), rng.uniform(1e4, 5e4))
        note(par=a)
        r, f = R.RespFnExponential(*a, verbose=False), lambda x: iv.exponential(x, *a)
    else:
        r, f = R.RespFnPerfect(verbose=False), iv.perfect
    g = 0.005 * np.arange(7001)
    C = np.r_[-f(g)[::-1][:-1], f(g)]
    close(r.voltage, np.r_[-g[::-1][:-1], g], 'stored voltage', atol=1e-9)
    close(r.current, C, 'stored current', atol=1e-7)


@oracle(ORACLES, 10)
def smeared_perfect(rng, k):
    s = float(rng.uniform(.008, .08))
    kw = {} if k % 2 else dict(max_npts_dc=int(rng.randint(60, 150)), max_npts_kk=int(rng.randint(60, 150)), kk_n=int(rng.randint(10, 50)))
    note(v_smear=s, **kw)
    r = R.RespFnPerfect(v_smear=s, verbose=False, **kw)
    g = 0.005 * np.arange(7001)
    w = R.RespFn(g, iv.perfect(g), v_smear=s, verbose=False, **kw)
    close(r.voltage, w.voltage, 'stored voltage', atol=1e-9)
    close(r.current, w.current, 'stored current', atol=1e-7)
    close(r.current_kk, w.current_kk, 'stored KK current', atol=1e-7)


@oracle(ORACLES, 24)
def measured(rng, k):
    n = int(rng.choice([11, 25, 60, 300, 1500]))
    lo = float(rng.choice([0., -1., -0.3, 0.]))
    v = np.linspace(lo, rng.uniform(2, 4), n)
    if k % 4 == 3:
        v = np.sort(rng.uniform(lo - 0.1, 3, n))
        if len(np.unique(v)) < n or not (v > 0).any():
            return
    c = iv.polynomial(v, 20) + rng.uniform(0, 0.3) * v + (0.01 * rng.randn(n) if k % 2 else 0)
    lim = float(rng.choice([1.8, 1.4, 1.1, 2.5])) if k % 3 else 1.8
    if not ((v > 0) & (v < lim)).any() or (v[0] > 0 and k % 4 != 3):
        return
    kw = {} if k % 3 == 0 else {'vlimit': lim}
    note(v=v, c=c, **kw)
    v0, c0 = v.copy(), c.copy()
    r = R.RespFnFromIVData(v, c, verbose=False, **kw)
    check(np.array_equal(v, v0) and np.array_equal(c, c0), 'input changed')
    use = [(a, b) for a, b in zip(v, c) if 0 <= a < lim]
    a1, b1 = use[-1]
    close(r.voltage, 0.005 * np.arange(-7000, 7001), 'voltage grid', atol=1e-9)
    want = np.empty(7001)
    for i in range(7001):
        x = 0.005 * i
        if x >= a1:
            want[i] = b1 + (x - a1)
        elif x <= use[0][0]:
            want[i] = use[0][1]
        else:
            j = max(m for m in range(len(use)) if use[m][0] <= x)
            (p, q), (s, t) = use[j], use[j + 1]
            want[i] = q + (t - q) * (x - p) / (s - p)
    close(r.current[7000:], want, 'current (data up to the limit, then unit slope)', atol=1e-8)
    close(r.current[:7000], -want[:0:-1], 'odd extension', atol=1e-8)


@oracle(ORACLES, 12)
def refused(rng, k):
    v = np.linspace(0, float(rng.uniform(5.1, 9)), 400)
    if k % 3 == 0:
        v = v + float(rng.choice([1e-6, 0.1, -0.05]))
    elif k % 3 == 1:
        v = v * (float(rng.choice([5., 4.9, 1.])) / v[-1])
        if v[-1] > 5:
            return
    note(v=v)
    try:
        R.RespFn(v, v, verbose=False)
    except AssertionError:
        check(k % 3 != 2, 'good data was refused')
        return
    check(k % 3 == 2, 'data that does not start at zero or does not reach 5 was accepted')
