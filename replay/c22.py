"""Sampling of response functions and their interpolation error check."""
import numpy as np
from common import note, check, close, oracle
from qmix import respfn as R
from qmix.mathfn import ivcurve_models as iv
from qmix.mathfn.kktrans import kk_trans

ORACLES = []


def data(rng, k, n):
    v = np.linspace(0, float(rng.choice([5.5, 6., 8., 35.])), n)
    j = k % 5
    c = [lambda: iv.polynomial(v, int(rng.randint(3, 60))), lambda: iv.exponential(v), lambda: v + 0.1 * np.sin(rng.uniform(0.5, 9) * v),
         lambda: v - 0.3 * np.exp(-(v - rng.uniform(1.2, 5)) ** 2 / 0.02), lambda: v + 0.05 * rng.randn(n)][j]()
    V = np.r_[-v[::-1][:-1], v]
    return V, np.r_[-c[::-1][:-1], c]


@oracle(ORACLES, 80)
def sampling(rng, k):
    n = int(rng.choice([17, 21, 31, 40, 61, 81, 99, 100, 101, 130, 201, 401, 700, 1500, 7001]))
    V, C = data(rng, k, n)
    m = int(rng.choice([10, 40, 81, 101, 151, 251]))
    s = float(rng.choice([0.25, 1., 0.1]))
    note(V=V, C=C, max_npts=m, smear=s)
    sigma = s / (V[1] - V[0])
    L = int(np.ceil(6 * sigma + 1e-5))
    try:
        ix = R._sample_curve(V, C, m, s)
    except AssertionError:
        check(L > len(V) or sigma * 3 < 1, 'curve refused')
        return
    ix = list(ix)
    check(all(int(i) == i for i in ix), 'positions are integers')
    check(ix[0] == 0 and ix[-1] == len(V) - 1, 'the first and the last sample are included: %r .. %r of %d' % (ix[0], ix[-1], len(V)))
    check(all(a < b for a, b in zip(ix, ix[1:])), 'strictly increasing positions')


def errors(V, C, K, fd, fk):
    m = np.abs(V) < 34
    return np.abs(C - fd(V))[m].max(), np.abs(K - fk(V))[m].max()


@oracle(ORACLES, 40)
def error_check(rng, k):
    n = int(rng.choice([150, 400, 1000, 3000]))
    V, C = data(rng, k, n)
    K = kk_trans(V, C, int(rng.choice([2, 10])))
    nd, nk = int(rng.choice([5, 20, 60, 101])), int(rng.choice([5, 20, 60, 151, 400]))
    order = int(rng.choice([1, 2, 3]))
    par = dict(max_npts_dc=nd, max_npts_kk=nk, verbose=bool(k % 2), spline_order=order)
    note(V=V, C=C, **par)
    fd, fk, gd, gk = R._setup_interpolation(V, C, K, check_error=False, max_interp_error=0., **par)
    ed, ek = errors(V, C, K, fd, fk)
    x = rng.uniform(V[0], V[-1], 20)
    close(gd(x), fd.derivative()(x), 'DC derivative')
    close(gk(x), fk.derivative()(x), 'KK derivative')
    close(fd(V[0]), C[0], 'first sample', atol=1e-9)
    close(fd(V[-1]), C[-1], 'last sample', atol=1e-9)
    close(fk(V[-1]), K[-1], 'last KK sample', atol=1e-7)
    for lim in (ed * 1.001, ed * 0.999, ek * 1.001, ek * 0.999, (ed + ek) / 2, 1e-3, max(ed, ek) * 1.001):
        if abs(lim - ed) < 1e-9 * (1 + ed) or abs(lim - ek) < 1e-9 * (1 + ek):
            continue
        try:
            R._setup_interpolation(V, C, K, check_error=True, max_interp_error=lim, **par)
            ok = True
        except AssertionError:
            ok = False
        want = ed < lim and ek < lim
        check(ok == want, 'errors DC %.6g and KK %.6g with maximum %.6g: %s' % (ed, ek, lim, 'accepted' if ok else 'refused'))


@oracle(ORACLES, 10)
def construction(rng, k):
    """the same through the public classes"""
    p = int(rng.randint(10, 70))
    kw = dict(max_npts_dc=int(rng.choice([3, 20, 101])), max_npts_kk=int(rng.choice([5, 40, 151])))
    note(order=p, **kw)
    r = R.RespFnPolynomial(p, verbose=False, **kw)
    ed, ek = errors(r.voltage, r.current, r.current_kk, r.idc, r.ikk)
    for lim in (max(ed, ek) * 1.01, max(ed, ek) * 0.99, min(ed, ek) * 1.01):
        try:
            R.RespFnPolynomial(p, verbose=False, check_error=True, max_interp_error=lim, **kw)
            ok = True
        except AssertionError:
            ok = False
        check(ok == (lim > max(ed, ek)), 'errors DC %.6g and KK %.6g with maximum %.6g: %s' % (ed, ek, lim, 'accepted' if ok else 'refused'))
