"""Kramers-Kronig transform against an independent discrete Hilbert transform."""
import numpy as np
from common import note, check, close, oracle
from qmix.mathfn.kktrans import kk_trans, kk_trans_trapz

ORACLES = []


def hilb(x, N):
    """imaginary part of the analytic signal by its explicit kernel"""
    x = np.r_[x, np.zeros(N - len(x))] if N >= len(x) else x[:N]
    m = np.arange(N)
    h = np.zeros(N)
    for k in range(1, (N + 1) // 2):
        h += 2. / N * np.sin(2 * np.pi * k * m / N)
    return np.array([np.sum(x * h[(i - m) % N]) for i in range(N)])


@oracle(ORACLES, 40)
def transform(rng, k):
    npts = int(rng.randint(2, 60))
    n = int(rng.choice([1, 2, 3, 5]))
    v = rng.uniform(-2, 0) + np.arange(npts) * rng.uniform(0.001, 0.2)
    i = rng.randn(npts) if k % 2 else np.where(np.abs(v) > 1, v, 0) + 0.01 * rng.randn(npts)
    note(v=v, i=i, n=n)
    v0, i0 = v.copy(), i.copy()
    r = kk_trans(v, i, n=n)
    close(r, -hilb(i - v, npts * n)[:npts], 'KK transform', rtol=1e-7, atol=1e-9)
    check(np.array_equal(v, v0) and np.array_equal(i, i0), 'input changed')


@oracle(ORACLES, 3)
def default_padding(rng, k):
    v = np.linspace(-1.5, 1.5, 31)
    i = rng.randn(31)
    note(v=v, i=i)
    close(kk_trans(v, i), -hilb(i - v, 31 * 50)[:31], 'default padding is 50', rtol=1e-7, atol=1e-9)


@oracle(ORACLES, 40)
def spacing(rng, k):
    npts = int(rng.randint(3, 40))
    v = np.linspace(0, 2, npts)
    j = int(rng.randint(1, npts))
    e = float(rng.choice([1, -1])) * float(rng.choice([3e-5, 1e-3, 0.3]))
    if k % 3 == 0:
        j = npts - 1
    v[j:] += e
    if j == 1 and npts == 2:
        return
    note(v=v, j=j, e=e)
    try:
        kk_trans(v, v * 0, n=1) if k % 2 else kk_trans_trapz(v, v * 0)
    except AssertionError:
        return
    check(False, 'uneven spacing was accepted')


@oracle(ORACLES, 10)
def roughly_even(rng, k):
    npts = int(rng.randint(3, 40))
    v = np.linspace(0, 2, npts) + rng.uniform(-1, 1, npts) * 2e-6
    note(v=v)
    kk_trans(v, v * 0, n=1)


@oracle(ORACLES, 20)
def trapezoidal(rng, k):
    if not hasattr(np, 'trapz'):
        return
    npts = int(rng.randint(3, 40))
    v = -1. + np.arange(npts) * rng.uniform(0.01, 0.2)
    i = rng.randn(npts)
    note(v=v, i=i)
    r = kk_trans_trapz(v, i)
    want = []
    for a in range(npts):
        x, y = np.r_[v[:a], v[a + 1:]], np.r_[i[:a], i[a + 1:]]
        f = (y - x) / (x - v[a])
        want.append(np.sum((f[1:] + f[:-1]) / 2 * (x[1:] - x[:-1])) / np.pi)
    close(r, want, 'trapezoidal transform')


@oracle(ORACLES, 2)
def analytic(rng, k):
    from qmix.mathfn.ivcurve_models import perfect, perfect_kk
    v = np.linspace(-3, 3, 1201)
    r = kk_trans(v, perfect(v))
    far = np.abs(np.abs(v) - 1) > 0.05
    w = np.abs(v) < 2.
    close(r[far & w], perfect_kk(v)[far & w], 'KK transform of the perfect curve', rtol=0.02, atol=0.02)
