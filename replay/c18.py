"""Noise temperature and gain from hot/cold IF data."""
import math
import numpy as np
from common import note, check, close, oracle
from qmix.exp import if_data as I
from qmix.exp.iv_data import DCIVData
from qmix.exp.parameters import params

ORACLES = []
H, K = 6.62607015e-34, 1.380649e-23


def cw(f, t):
    # Planck with half a photon: h f / k (1 / (exp(x) - 1) + 1 / 2)
    x = H * f / (K * t)
    return H * f / K * (1 / math.expm1(x) + 0.5)


def dc(vgap):
    return DCIVData(*[vgap if f == 'vgap' else None for f in DCIVData._fields])


@oracle(ORACLES, 60)
def callen_welton(rng, k):
    f = float(10 ** rng.uniform(9, 13))
    t = float(rng.choice([4., 20., 77.4, 293., 300.])) * rng.uniform(.8, 1.2)
    note(f=f, t=t)
    close(I._temp_cw(f, t), cw(f, t), 'Callen-Welton temperature', rtol=1e-5)


def data(rng, k):
    n = int(rng.choice([1, 2, 5, 30, 200]))
    v = np.linspace(0, rng.uniform(.8, 2.2), n) if n > 1 else np.array([.7])
    cold = 10 + 5 * rng.rand(n)
    hot = cold * (1 + rng.choice([0.05, 0.4, 1.5]) * rng.rand(n))
    j = k % 6
    if j == 1:
        hot[rng.rand(n) < .4] *= .5                    # ratios below one
    elif j == 2:
        hot = cold.copy()                              # ratios of exactly one
        hot[rng.randint(n)] *= 1.7
    elif j == 3:
        hot = hot[::-1].copy()
    elif j == 4 and n > 3:
        hot[-1] = cold[-1] = 0.                        # outside the measured range: 0 / 0
        hot[0] = cold[0] = 0.
    elif j == 5:
        i = rng.randint(n)
        hot[i] = cold[i] * (1 + float(rng.choice([5e-11, 2e-10, 1e-9])))
    return np.stack([v, hot], 1), np.stack([v, cold], 1)


@oracle(ORACLES, 300)
def y_factor(rng, k):
    hot, cold = data(rng, k)
    vgap = float(rng.uniform(2e-3, 4e-3))
    th, tc = float(rng.uniform(250, 310)), float(rng.uniform(4, 90))
    freq = float(rng.choice([90., 230., 691., 1500.]))
    kw = dict(freq=freq, verbose=bool(k % 3 == 0))
    if k % 4:
        kw.update(t_hot=th, t_cold=tc)
    else:
        th, tc = params['t_hot'], params['t_cold']
    mode = int(rng.randint(4))
    finite = (cold[:, 1] > 0)
    if mode == 0:
        kw['vbest'] = float(rng.uniform(-.1, 1.2) * vgap * (hot[-1, 0] or 1)) if k % 5 else 0.
    elif mode == 1:
        kw['best_pt'] = str(rng.choice(['Max Gain', 'max gain', 'MAX GAIN']))
    elif mode == 2:
        kw['best_pt'] = str(rng.choice(['Min Tn', 'min tn']))
        if not finite.any():
            return
    note(hot=hot, cold=cold, vgap=vgap, **kw)
    h0, c0 = hot.copy(), cold.copy()
    tn, gain, ix = I._find_tn_gain(hot, cold, dc(vgap), **kw)
    check(np.array_equal(hot, h0) and np.array_equal(cold, c0), 'input modified')
    a, b = cw(freq * 1e9, th), cw(freq * 1e9, tc)
    close(gain, (h0[:, 1] - c0[:, 1]) / (a - b), 'gain', rtol=2e-5, atol=1e-12)
    y = h0[finite, 1] / c0[finite, 1]
    y = np.maximum(y, 1 + 1e-10)
    near = (np.abs(y - 1 - 1e-10) < 3e-10) & (y > 1 + 1e-10)
    want = (a - b * y) / (y - 1)
    close(tn[finite][~near], want[~near], 'noise temperature', rtol=2e-4)
    check(0 <= ix < len(tn), 'index in range')
    if mode == 0:
        d = np.abs(h0[:, 0] * vgap - kw['vbest'])
        check(d[ix] <= d.min() + 1e-15, 'the point nearest the requested bias')
    elif mode == 2:
        check(tn[ix] <= np.nanmin(tn) * (1 + 1e-12) + 1e-9, 'the minimum noise temperature: index %d gives %r' % (ix, tn[ix]))
    else:
        check(gain[ix] == gain.max(), 'the maximum gain')


@oracle(ORACLES, 40)
def refused(rng, k):
    hot, cold = data(rng, 0)
    note(hot=hot, cold=cold)
    cold[int(rng.randint(len(cold))), 0] += float(rng.choice([1e-12, 1e-3, -.1]))
    try:
        I._find_tn_gain(hot, cold, dc(3e-3), freq=230., verbose=False)
    except AssertionError:
        pass
    else:
        check(False, 'mismatched voltages accepted')
    cold[:, 0] = hot[:, 0]
    for bad in ('', 'best', 'gain', 'min'):
        try:
            I._find_tn_gain(hot, cold, dc(3e-3), freq=230., verbose=False, best_pt=bad)
        except ValueError:
            continue
        check(False, 'unknown criterion accepted: %r' % bad)
