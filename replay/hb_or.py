"""independent reference of the harmonic balance procedure (the tunnelling current itself is the contract of C01)"""
from qt_or import *
from qmix.harmonic_balance import harmonic_balance, check_hb_error
import qmix.harmonic_balance as hbm


def hb_scene(rng, nf=None, npp=None, easy=True):
    nf = nf or int(rng.choice([1, 1, 2, 2, 3, 4], p=[.25, .2, .25, .2, .06, .04]))
    npp = npp or (int(rng.randint(1, 4)) if nf == 1 else (int(rng.randint(1, 3)) if nf == 2 else 1))
    npts = int(rng.choice([1, 2, 5]))
    c = EmbeddingCircuit(nf, npp, vb_min=0.2 if rng.rand() < 0.5 else 0., vb_max=1.8, vb_npts=npts)
    c.freq[1:] = rng.choice([0.3, 0.33, 0.05, 0.21, 0.41, 0.1, 0.4701], nf, replace=False)
    c.vt[1:, 1:] = rng.uniform(0.05, 0.4, (nf, npp)) * np.exp(1j * rng.uniform(-3, 3, (nf, npp)))
    c.zt[1:, 1:] = rng.uniform(0.05, 0.7, (nf, npp)) + 1j * rng.uniform(-0.4, 0.4, (nf, npp))
    u = rng.rand()
    if u < 0.25:
        c.vt[rng.randint(1, nf + 1), rng.randint(1, npp + 1)] = 0
    elif u < 0.35:
        c.vt[1:, 2:] = 0
    if rng.rand() < 0.15:
        c.zt[rng.randint(1, nf + 1), rng.randint(1, npp + 1)] = 0
    mb = {1: 6, 2: 3, 3: 2, 4: 1}[nf]
    nb = tuple(int(rng.randint(1, mb + 1)) for _ in range(nf)) if rng.rand() < 0.5 else int(rng.randint(1, mb + 1))
    r = Resp(rng)
    note(nf=nf, npp=npp, npts=npts, freq=c.freq, vt=c.vt, zt=c.zt, num_b=nb, resp=(r.a, r.b, r.c))
    return c, r, nb


def guess_of(rng, c):
    return np.concatenate([np.zeros((1,) + (c.num_p + 1, c.vb_npts), dtype=complex),
                           np.concatenate([np.zeros((c.num_f, 1, c.vb_npts), dtype=complex),
                                           rng.uniform(0.1, 0.6, (c.num_f, c.num_p, c.vb_npts)) * np.exp(1j * rng.uniform(-3, 3, (c.num_f, c.num_p, c.vb_npts)))], 1)], 0)


def floor_vt(c):
    vt = c.vt.copy()
    vt[np.abs(vt) < 1e-10] = 1e-10
    return vt[1:, 1:]


def currents(vj, c, r, nb):
    out = np.zeros((c.num_f, c.num_p, c.vb_npts), dtype=complex)
    for f in range(1, c.num_f + 1):
        for p in range(1, c.num_p + 1):
            out[f - 1, p - 1] = qt.qtcurrent(vj, c, r, [round(c.freq[f] * p, 4)], nb, verbose=False)[0]
    return out


def errors(vj, c, r, nb):
    """V_T - Z_T I(V) - V for every tone, harmonic and bias point"""
    return floor_vt(c)[:, :, None] - c.zt[1:, 1:, None] * currents(vj, c, r, nb) - vj[1:, 1:]


def rel_errors(vj, c, r, nb):
    return np.abs(errors(vj, c, r, nb)) / np.abs(vj[1:, 1:])


def divider(c, zj):
    v = np.zeros((c.num_f + 1, c.num_p + 1, c.vb_npts), dtype=complex)
    v[1:, 1:] = (floor_vt(c) * zj / (zj + c.zt[1:, 1:]))[:, :, None]
    return v


def newton(vj, c, r, nb, damp):
    """one damped Newton step with the forward finite difference Jacobian"""
    dv = 1e-3
    nf, npp, m = c.num_f, c.num_p, c.vb_npts
    n = nf * npp
    e0 = errors(vj, c, r, nb).reshape(n, m)
    J = np.zeros((m, 2 * n, 2 * n))
    for q in range(n):
        for part, d in ((0, dv), (1, 1j * dv)):
            v = vj.copy()
            v[1 + q // npp, 1 + q % npp] += d
            D = (errors(v, c, r, nb).reshape(n, m) - e0) / dv
            for p in range(n):
                J[:, 2 * p, 2 * q + part] = D[p].real
                J[:, 2 * p + 1, 2 * q + part] = D[p].imag
    out = vj.copy()
    kappa = 0.
    for x in range(m):
        b = np.empty(2 * n)
        b[0::2] = e0[:, x].real
        b[1::2] = e0[:, x].imag
        s = np.linalg.solve(J[x], b)
        kappa = max(kappa, np.linalg.cond(J[x]))
        out[1:, 1:, x] -= damp * (s[0::2] + 1j * s[1::2]).reshape(nf, npp)
    return out, kappa


def loud(f, *a, **k):
    """call f and return (result, text printed)"""
    import io
    import sys
    so, sys.stdout = sys.stdout, io.StringIO()
    try:
        r = f(*a, **k)
        return r, sys.stdout.getvalue()
    finally:
        sys.stdout = so


def missed(text):
    t = text.upper()
    return 'NOT' in t and 'TARGET' in t
