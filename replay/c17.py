"""Junction parameters from the fitted I-V lines."""
import numpy as np
from common import note, check, close, oracle
from qmix.exp import iv_data as I
from qmix.exp.parameters import params
from qmix.mathfn.misc import slope
from qmix.mathfn.filters import gauss_conv

ORACLES = []


def lsq(v, i):
    vm, im = v.mean(), i.mean()
    s = np.sum((v - vm) * (i - im)) / np.sum((v - vm) ** 2)
    return s, im - s * vm


def curve(rng, n=1201):
    """an I-V curve with a smeared gap, noise and an unevenly sampled grid"""
    vgap, rn = float(rng.uniform(2.4e-3, 3.2e-3)), float(rng.uniform(5, 60))
    v = np.linspace(-1e-3 * float(rng.uniform(0, 6)), float(rng.uniform(5.5, 7)) * 1e-3, n)
    w = float(rng.uniform(2e-5, 6e-5))
    f = 1 / (1 + np.exp(-np.clip((np.abs(v) - vgap) / w, -300, 300)))
    i = v / rn * f + v / rn / float(rng.uniform(10, 30)) * (1 - f) + float(rng.uniform(-2, 3)) * 1e-6 * f
    i += float(rng.choice([0, 1e-7])) * rng.randn(n)
    return v, i


def rng_arg(rng, k):
    lo = float(rng.uniform(3.7e-3, 4.4e-3))
    hi = lo + float(rng.uniform(.3e-3, 1e-3))
    return lo, hi, (dict(vrn=(lo, hi)) if k % 2 else dict(vrn=[lo, hi]))


@oracle(ORACLES, 150)
def normal(rng, k):
    v, i = curve(rng)
    lo, hi, kw = rng_arg(rng, k)
    if k % 3 == 0:                               # samples exactly on the limits are not in the range
        m = np.flatnonzero((v > lo) & (v < hi))
        lo, hi = float(v[m[0]]), float(v[m[-1]])
        i[m[0]] *= 1.5
        i[m[-1]] *= .5
        kw = dict(vrn=(lo, hi))
    if k % 10 == 9:
        kw = {}
        lo, hi = params['vrn']
    note(v=v, i=i, **kw)
    v0, i0 = v.copy(), i.copy()
    rn, vint = I._find_normal_resistance(v, i, **kw)
    check(np.array_equal(v, v0) and np.array_equal(i, i0), 'input modified')
    m = (v > lo) & (v < hi)
    s, b = lsq(v[m], i[m])
    close(rn, 1 / s, 'normal resistance', rtol=1e-6)
    close(vint, -b / s, 'intercept voltage', rtol=1e-5, atol=1e-9)


@oracle(ORACLES, 80)
def subgap(rng, k):
    v, i = curve(rng)
    at = float(rng.uniform(1e-3, 2.2e-3))
    kw = dict(vrsg=at)
    if k % 5 == 4:
        kw, at = {}, params['vrsg']
    i = i + 1e-3 * (v - at) ** 2 / 1e-3
    note(v=v, i=i, **kw)
    m = (at - 1e-4 < v) & (v < at + 1e-4)
    s, b = lsq(v[m], i[m])
    close(I._find_subgap_resistance(v, i, **kw), 1 / s, 'subgap resistance', rtol=1e-6)


@oracle(ORACLES, 120)
def gap(rng, k):
    v, i = curve(rng, int(rng.choice([1201, 3001, 6001])))
    lo, hi, kw = rng_arg(rng, k)
    note(v=v, i=i, **kw)
    m = (v > lo) & (v < hi)
    p0, p1 = lsq(v[m], i[m])
    u = v > 2e-3
    d = gauss_conv(slope(v[u], i[u]), .2e-3 / (v[1] - v[0]))
    best = np.sort(d)[-2:]
    if best[1] - best[0] < 1e-9 * abs(best[1]):
        return
    at = v[u][int(np.flatnonzero(d == d.max())[0])]
    near = (v > at - 1e-5) & (v < at + 1e-5)
    if near.sum() < 2:
        return
    q0, q1 = lsq(v[near], i[near])
    x = (q1 - p1) / (p0 - q0)
    y = p0 * x + p1
    want = (y / 2 - q1) / q0
    got = I._find_gap_voltage(v, i, **kw)
    close(got, want, 'gap voltage', rtol=1e-5)
