"""shared pieces of the circuit oracles"""
import numpy as np
import scipy.constants as sc
from common import *
import qmix
from qmix.circuit import EmbeddingCircuit, read_circuit

PU = {'W': 1., 'mW': 1e-3, 'uW': 1e-6, 'nW': 1e-9, 'pW': 1e-12, 'fW': 1e-15, 'dBm': None, 'dBW': None}
FU = {'Hz': 1., 'MHz': 1e6, 'GHz': 1e9, 'THz': 1e12, 'V': None, 'mV': None, 'norm': None}


def to_watts(x, u):
    if u == 'dBm':
        return 10**(x / 10.) * 1e-3
    if u == 'dBW':
        return 10**(x / 10.)
    return x * PU[u]


def from_watts(w, u):
    if u == 'dBm':
        return 10 * np.log10(w / 1e-3)
    if u == 'dBW':
        return 10 * np.log10(w)
    return w / PU[u]


def case(rng, s):
    return [s, s.lower(), s.upper()][rng.randint(3)]


def rand_circuit(rng, nf=None, npp=None, **kw):
    nf = nf or int(rng.randint(1, 5))
    npp = npp or int(rng.randint(1, 6))
    c = EmbeddingCircuit(nf, npp, **kw)
    c.freq[1:] = rng.uniform(0.05, 1.5, nf)
    c.vt[1:, 1:] = rng.normal(size=(nf, npp)) + 1j * rng.normal(size=(nf, npp))
    c.zt[1:, 1:] = rng.uniform(0.05, 2, (nf, npp)) + 1j * rng.normal(size=(nf, npp))
    return c


def state(c):
    return {k: (v.copy() if isinstance(v, np.ndarray) else ([list(x) for x in v] if isinstance(v, list) else v)) for k, v in vars(c).items()}


def same_state(c, s, skip=()):
    check(set(vars(c)) == set(s), 'attributes changed: %s' % (set(vars(c)) ^ set(s)))
    for k, v in s.items():
        if k in skip:
            continue
        w = getattr(c, k)
        if isinstance(v, np.ndarray):
            check(isinstance(w, np.ndarray) and w.shape == v.shape and w.dtype == v.dtype and np.array_equal(w, v), 'attribute %s changed' % k)
        else:
            check(w == v, 'attribute %s changed: %r -> %r' % (k, v, w))


def only_entry(a, b, idx, what):
    """b equals a except at idx"""
    m = np.ones(a.shape, bool)
    m[idx] = False
    check(a.shape == b.shape and np.array_equal(a[m], b[m]), '%s: other entries changed' % what)


def raises(exc, f, what):
    try:
        f()
    except exc:
        return
    except Exception as e:
        raise Bad('%s: raises %s instead of %s' % (what, type(e).__name__, exc))
    raise Bad('%s: not refused' % what)
