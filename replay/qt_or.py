"""reference implementation of the multi-tone spectral-domain formulas (plain loops, no shared code)"""
import itertools
import numpy as np
from scipy.special import jv
from common import *

from qmix.circuit import EmbeddingCircuit
from qmix import qtcurrent as qt


def ref_phase(vj, freq, nf, npp, nb, mx):
    npts = vj.shape[2]
    out = np.zeros((nf + 1, 2 * mx + 1, npts), dtype=complex)
    ls = list(range(-mx, mx + 1))
    for f in range(1, nf + 1):
        J = {}
        for p in range(1, npp + 1):
            al = np.abs(vj[f, p]) / (p * freq[f])
            ph = np.angle(vj[f, p])
            for l in ls:
                J[p, l] = jv(l, al) * np.exp(-1j * l * ph) if abs(l) <= nb[f - 1] else np.zeros(npts, dtype=complex)
        C = {k: J[1, k] for k in ls}
        for p in range(2, npp + 1):
            C = {k: sum((C[k - p * l] * J[p, l] for l in ls if abs(k - p * l) <= mx), np.zeros(npts, dtype=complex)) for k in ls}
        for k in ls:
            out[f, k] = C[k]
    return out


def ref_current(C, freq, nf, npp, nb, vb, R, fo):
    """R(ks) -> complex array over the bias points"""
    tot = np.zeros(len(vb), dtype=complex)
    for orders in itertools.product(range(-npp, npp + 1), repeat=nf):
        if round(float(sum(o * freq[t + 1] for t, o in enumerate(orders))), 4) != round(float(fo), 4):
            continue
        S = {}
        for sg in (1, -1):
            s = np.zeros(len(vb), dtype=complex)
            for ks in itertools.product(*[range(-b, b + 1) for b in nb]):
                k2 = [k + sg * o for k, o in zip(ks, orders)]
                if any(abs(k) > b for k, b in zip(k2, nb)):
                    continue
                w = np.ones(len(vb), dtype=complex)
                for t in range(nf):
                    w = w * C[t + 1, ks[t]] * np.conj(C[t + 1, k2[t]])
                s = s + w * R(ks)
            S[sg] = s
        if not any(orders):
            tot += S[1].imag
        else:
            tot += (S[1].imag + S[-1].imag) - 1j * (S[1].real - S[-1].real)
    return tot


class Resp(object):
    """smooth synthetic response function"""

    def __init__(self, rng):
        self.a, self.b, self.c = rng.uniform(0.5, 2, 3)

    def __call__(self, v):
        v = np.asarray(v, dtype=float)
        return self.a * np.exp(-v**2) + 0.3 * np.cos(3 * v) + 1j * (np.tanh(self.b * v) * v**2 * 0.2 + self.c * v)


FR = [0.3, 0.33, 0.05, 0.21, 0.6, 0.1, 0.4701, 0.25]


def scene(rng, nf=None, npp=None, big=False):
    nf = nf or int(rng.choice([1, 1, 2, 2, 3, 4]))
    npp = npp or (int(rng.randint(1, 4)) if nf <= 2 else (int(rng.randint(1, 3)) if nf == 3 else int(rng.choice([1, 1, 2]))))
    npts = int(rng.choice([1, 2, 3, 7]))
    cct = EmbeddingCircuit(nf, npp, vb_min=-0.5 if rng.rand() < 0.3 else 0., vb_max=2., vb_npts=npts)
    fs = list(rng.choice(FR, nf, replace=False))
    if rng.rand() < 0.4:
        fs = [float(x) for x in rng.uniform(0.05, 0.9, nf)]
    if nf >= 2 and rng.rand() < 0.25:
        fs[1] = 2 * fs[0]      # degenerate mixing products
    if nf >= 2 and rng.rand() < 0.1:
        fs[1] = fs[0]
    for i, f in enumerate(fs):
        cct.freq[i + 1] = f
    mb = {1: 7, 2: 4, 3: 3, 4: 2}[nf] + (4 if big and nf <= 2 else 0)
    nb = [int(rng.randint(1, mb + 1)) for _ in range(nf)]
    if nf == 4 and npp == 2:
        nb = [min(b, 1 + (i == 0)) for i, b in enumerate(nb)]
    form = int(rng.randint(0, 3))
    if form == 0:
        nb = [nb[0]] * nf
        num_b = nb[0]
    elif form == 1:
        num_b = tuple(nb)
    else:
        num_b = tuple(nb) + (int(rng.randint(1, 5)),)
    mx = num_b if form == 0 else max(num_b)
    vj = np.zeros((nf + 1, npp + 1, npts), dtype=complex)
    vj[1:, 1:] = rng.uniform(0, 0.7, (nf, npp, npts)) * np.exp(1j * rng.uniform(-np.pi, np.pi, (nf, npp, npts)))
    if rng.rand() < 0.2:
        vj[rng.randint(1, nf + 1), rng.randint(1, npp + 1)] = 0
    if rng.rand() < 0.2:
        vj[1, 1] = -abs(vj[1, 1])
    if rng.rand() < 0.2:
        vj *= 4
    note(nf=nf, npp=npp, npts=npts, freq=fs, num_b=num_b)
    return cct, vj, nf, npp, nb, num_b, mx


def out_freqs(rng, cct, nf, npp, n):
    fo = []
    for _ in range(n):
        o = [int(rng.randint(-npp, npp + 1)) for _ in range(nf)]
        u = rng.rand()
        if u < 0.2:
            o = [0] * nf
        elif u < 0.5:
            o = [0] * nf
            o[rng.randint(nf)] = int(rng.choice([1, -1, npp]))
        f = float(sum(a * cct.freq[t + 1] for t, a in enumerate(o)))
        u = rng.rand()
        if u < 0.15:
            f += float(rng.choice([2e-5, -2e-5, 3e-4, 1e-9, 6e-5]))
        elif u < 0.2:
            f = 7.77
        fo.append(f)
    note(out=fo)
    return fo
