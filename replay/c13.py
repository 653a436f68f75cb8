"""I-V curve models against their formulas and symmetries."""
import numpy as np
from common import note, check, close, oracle
from qmix.mathfn import ivcurve_models as m

ORACLES = []


def volts(rng, k):
    n = rng.randint(1, 40)
    v = rng.uniform(-3, 3, n)
    special = np.array([0., 1., -1., np.nextafter(1, 0), np.nextafter(1, 2), np.nextafter(-1, 0), np.nextafter(-1, -2), 0.5, -0.5, 2., -2., 10., -10.])
    v = np.r_[v, rng.choice(special, rng.randint(1, 13))]
    rng.shuffle(v)
    if k % 5 == 4:
        v = rng.randint(-4, 5, n + 3)
    if k % 7 == 3:
        v = v.reshape(-1, 1) if k % 2 else np.array([v, -v])
    return v


def scalars(v):
    return [x.item() for x in np.ravel(v)]


def p_perfect(x):
    return 0. if abs(x) < 1 else (x if abs(x) > 1 else 0.5 * np.sign(x))


def p_kk(x, cap):
    if abs(x) == 1:
        return cap
    return -(2. + x * (np.log(abs(x - 1.)) - np.log(abs(x + 1.)))) / np.pi


@oracle(ORACLES, 60)
def perfect(rng, k):
    v = volts(rng, k)
    note(v=v)
    v0 = v.copy()
    i = m.perfect(v)
    close(i, np.vectorize(p_perfect, otypes=[float])(v), 'perfect model of an array')
    check(np.array_equal(v, v0), 'perfect changed its input')
    close(m.perfect(-v), -np.asarray(i), 'perfect model is odd')
    check(np.asarray(i).dtype.kind == 'f', 'current is a float array')
    for x in scalars(v):
        r = m.perfect(x)
        check(r is not None, 'perfect(%r) returns nothing' % (x,))
        close(float(r), p_perfect(x), 'perfect(%r)' % (x,))


@oracle(ORACLES, 60)
def perfect_kk(rng, k):
    v = volts(rng, k)
    cap = [100., 7.5, 1000][k % 3]
    note(v=v, cap=cap)
    v0 = v.copy()
    kw = {} if cap == 100. and k % 2 else {'max_kk': cap}
    r = m.perfect_kk(v, **kw)
    want = np.vectorize(lambda x: p_kk(x, cap), otypes=[float])(v)
    close(r, want, 'KK transform of an array', rtol=1e-6, atol=1e-8)
    check(np.array_equal(v, v0), 'perfect_kk changed its input')
    close(m.perfect_kk(-v, **kw), r, 'KK transform is even', rtol=1e-6, atol=1e-8)
    for x in scalars(v):
        close(float(m.perfect_kk(x, **kw)), p_kk(x, cap), 'perfect_kk(%r)' % (x,), rtol=1e-6, atol=1e-8)


@oracle(ORACLES, 40)
def polynomial(rng, k):
    v = volts(rng, k).astype(float)
    p = int(rng.choice([1, 2, 5, 10, 30, 50]))
    v = np.clip(v, -10 ** (100. / p), 10 ** (100. / p)) if p > 5 else v
    v = np.clip(v, -3, 3)
    note(v=v, order=p)
    r = m.polynomial(v, p)
    f = lambda x: x * x ** (2 * p) / (1. + x ** (2 * p))
    close(r, f(v), 'polynomial model', rtol=1e-9, atol=1e-300)
    close(m.polynomial(-v, p), -r, 'polynomial model is odd', rtol=1e-9, atol=1e-300)
    x = float(v.flat[0])
    close(m.polynomial(x, p), f(x), 'polynomial model of a number')
    if k == 0:
        close(m.polynomial(v), m.polynomial(v, 50), 'default order is 50')


def sig(z):
    return 0.5 * (1. + np.tanh(0.5 * z))


@oracle(ORACLES, 40)
def exponential(rng, k):
    v = volts(rng, k).astype(float)
    vgap, rn, rsg, a = rng.uniform(1e-3, 5e-3), rng.uniform(5, 50), rng.uniform(100, 900), rng.uniform(1e4, 8e4)
    note(v=v, vgap=vgap, rn=rn, rsg=rsg, agap=a)
    V = v * vgap
    up, dn = lambda c: sig(a * (V - c)), lambda c: sig(-a * (V - c))
    norm = V / rn * (dn(-vgap) + up(vgap))
    fixed = (V / (2 * rsg) * (up(-vgap) - dn(-vgap) - up(vgap) + dn(vgap)) + norm) * rn / vgap
    orig = (V / rsg * (up(-vgap) + dn(vgap)) + norm) * rn / vgap
    for mod, want in (('fixed', fixed), ('Corrected', fixed), ('original', orig), ('ORIGINAL', orig)):
        r = m.exponential(v, vgap, rn, rsg, a, mod)
        close(r, want, 'exponential model %s' % mod, rtol=1e-7, atol=1e-10)
        close(m.exponential(-v, vgap, rn, rsg, a, mod), -r, 'exponential model %s is odd' % mod, rtol=1e-7, atol=1e-10)
    close(m.exponential(v, vgap=vgap, rn=rn, rsg=rsg, agap=a), fixed, 'default model', rtol=1e-7, atol=1e-10)
    x = float(v.flat[0])
    close(m.exponential(x, vgap, rn, rsg, a), fixed.flat[0], 'exponential model of a number', rtol=1e-7, atol=1e-10)
    try:
        m.exponential(v, vgap, rn, rsg, a, 'nonsense')
    except ValueError:
        return
    check(False, 'an unknown model was accepted')


@oracle(ORACLES, 40)
def expanded(rng, k):
    v = volts(rng, k).astype(float)
    q = dict(vgap=rng.uniform(1e-3, 5e-3), rn=rng.uniform(5, 50), rsg=rng.uniform(100, 900), agap=rng.uniform(1e4, 8e4), a0=rng.uniform(5e3, 2e4),
             ileak=rng.uniform(0, 1e-5), vnot=rng.uniform(2.8e-3, 3.2e-3), inot=rng.uniform(0, 2e-5), anot=rng.uniform(1e4, 4e4), ioff=rng.uniform(0, 2e-5))
    note(v=v, **q)
    V, g, a = v * q['vgap'], q['vgap'], q['agap']
    up, dn = lambda a, c: sig(a * (V - c)), lambda a, c: sig(-a * (V - c))
    s = q['ileak'] * (2 * sig(q['a0'] * V) - 1 - up(a, g) + dn(a, -g))
    s = s + V / (2 * q['rsg']) * (up(a, -g) - dn(a, -g) - up(a, g) + dn(a, g)) + V / q['rn'] * (dn(a, -g) + up(a, g))
    s = s + q['inot'] * (dn(q['anot'], q['vnot']) + dn(q['anot'], -q['vnot']) - 1) + q['ioff'] * (dn(a, g) + dn(a, -g) - 1)
    r = m.expanded(v, **q)
    close(r, s * q['rn'] / g, 'expanded model', rtol=1e-7, atol=1e-9)
