"""Gaussian smoothing and numerical derivatives."""
import numpy as np
from common import note, check, close, oracle
from qmix.mathfn.filters import gauss_conv
from qmix.mathfn.misc import slope, slope_span_n

ORACLES = []


def spec_gauss(x, sigma, ext):
    """weighted average of the mirrored data, weights exp(-t^2 / 2 sigma^2) at the window positions"""
    L = int(np.ceil(2 * sigma * ext + 1e-5))
    n = len(x)
    t = -sigma * ext + np.arange(L)
    w = np.exp(-0.5 * (t / sigma) ** 2)
    w = w / w.sum()
    y = np.zeros(n)
    for i in range(n):
        for k in range(L):
            j = i + L // 2 - k
            j = -j if j < 0 else (2 * n - 2 - j if j >= n else j)
            y[i] += w[k] * x[j]
    return y, L


@oracle(ORACLES, 60)
def smoothing(rng, k):
    n = int(rng.randint(3, 70))
    sigma = float(rng.choice([0.5, 1, 1.3, 2, 2.5, 3.7, 5, 10]))
    ext = float(rng.choice([1, 2, 2.5, 3, 4])) if k % 3 else 3
    x = [rng.randn(n), np.ones(n) * 2.5, np.arange(n) * 1., rng.randint(-5, 6, n)][k % 4]
    note(x=x, sigma=sigma, ext=ext)
    L = int(np.ceil(2 * sigma * ext + 1e-5))
    x0 = x.copy()
    try:
        y = gauss_conv(x, sigma=sigma, ext_x=ext)
    except AssertionError:
        check(L > n or sigma * ext < 1, 'a window of %d points was refused for %d samples' % (L, n))
        return
    check(not (L > n or sigma * ext < 1), 'a window of %d points was accepted for %d samples' % (L, n))
    check(np.array_equal(x, x0), 'input changed')
    close(y, spec_gauss(x, sigma, ext)[0], 'smoothed data', rtol=1e-9, atol=1e-10)
    if k % 4 == 1:
        close(y, x, 'constant data is preserved', rtol=1e-12)


@oracle(ORACLES, 4)
def window_limit(rng, k):
    # the largest window that fits, and the first that does not; defaults
    for n in (61, 62, 60, 20):
        x = rng.randn(n)
        note(n=n)
        try:
            y = gauss_conv(x)
            check(n >= 61, 'window larger than the data accepted')
            close(y, spec_gauss(x, 10, 3)[0], 'default smoothing', rtol=1e-9, atol=1e-10)
        except AssertionError:
            check(n < 61, 'window of the data size refused')


def xdata(rng, n):
    return np.cumsum(rng.uniform(0.1, 1., n)) * rng.choice([1, -1]) + rng.randn()


@oracle(ORACLES, 60)
def derivative(rng, k):
    n = int(rng.randint(2, 40)) if k > 3 else 2 + k
    x = xdata(rng, n)
    y = rng.randn(n) if k % 2 else rng.randint(-4, 5, n)
    if k % 5 == 2:
        x = np.cumsum(rng.randint(1, 4, n))
    note(x=x, y=y)
    x0, y0 = x.copy(), y.copy()
    d = slope(x, y)
    want = np.empty(n)
    for i in range(n):
        a, b = max(i - 1, 0), min(i + 1, n - 1)
        want[i] = (float(y[b]) - float(y[a])) / (float(x[b]) - float(x[a]))
    close(d, want, 'derivative')
    check(np.array_equal(x, x0) and np.array_equal(y, y0), 'input changed')
    a, b = rng.randn(2)
    close(slope(x, a * x + b), np.full(n, a), 'derivative of a straight line', rtol=1e-6)


@oracle(ORACLES, 60)
def wide_derivative(rng, k):
    h = int(rng.randint(1, 8))
    n = 3 * h + 2 + int(rng.randint(0, 40)) * (k % 3 > 0)
    x = xdata(rng, n)
    y = rng.randn(n)
    if k % 2:
        y = np.round(y)
    if k % 7 == 3:
        y = np.zeros(n)
    note(x=x, y=y, span=2 * h + 1)
    d = slope_span_n(x, y, 2 * h + 1)
    check(d.shape == (n,), 'one value per sample')
    check(not (d == 0).any(), 'zero derivative although zeros are forbidden: %r' % (d,))
    d0 = slope_span_n(x, y, 2 * h + 1, nozeros=False)
    nz = d0 != 0
    close(d[nz], d0[nz], 'nonzero values do not depend on nozeros')
    if k % 7 == 3:
        check((d0 == 0).all(), 'derivative of constant data is zero when zeros are allowed')
    a, b = rng.randn(2)
    close(slope_span_n(x, a * x + b, 2 * h + 1, nozeros=False), np.full(n, a), 'wide-span derivative of a straight line', rtol=1e-6)
    close(slope_span_n(x, a * x + b, 2 * h + 1), np.full(n, a), 'wide-span derivative of a straight line', rtol=1e-6)


@oracle(ORACLES, 3)
def even_span(rng, k):
    try:
        slope_span_n(np.arange(50.), np.arange(50.), 10)
    except AssertionError:
        return
    check(False, 'an even span was accepted')
