"""IF response: Y-factor noise temperature per IF frequency."""
import numpy as np
from common import note, check, close, oracle
from qmix.exp.if_response import if_response
from qmix.exp.parameters import params

ORACLES = []


@oracle(ORACLES, 300)
def response(rng, k):
    n = int(rng.choice([1, 2, 3, 4, 10, 101]))
    f = np.linspace(0, 20, n)
    cold = rng.uniform(-60, -20, n)
    hot = cold + rng.choice([.5, 2., 5.]) * rng.rand(n)
    j = k % 5
    if j == 1:
        hot[rng.rand(n) < .5] -= 4
    elif j == 2:
        hot[rng.randint(n)] = cold[rng.randint(n)]
        hot[0] = cold[0]
    elif j == 3:
        hot += 20
    elif j == 4:
        hot[rng.randint(n)] = cold[rng.randint(n)] + 1e-4
    m = np.stack([f, hot, cold])
    rows = bool(rng.randint(2)) and n != 3
    d = m.copy() if rows else m.T.copy()
    th, tc, mx = float(rng.uniform(250, 310)), float(rng.uniform(4, 90)), float(rng.choice([500., 1e4, 1e6]))
    kw = dict(t_hot=th, t_cold=tc, ifresp_maxtn=mx)
    drop = [q for q in kw if rng.rand() < .2]
    for q in drop:
        del kw[q]
    th, tc, mx = kw.get('t_hot', params['t_hot']), kw.get('t_cold', params['t_cold']), kw.get('ifresp_maxtn', params['ifresp_maxtn'])
    note(d=d, **kw)
    d0 = d.copy()
    r = if_response(d, **kw)
    check(np.array_equal(d, d0), 'input modified')
    check(np.shape(r) == (4, n), 'shape')
    check(np.array_equal(r[0], f) and np.array_equal(r[2], hot) and np.array_equal(r[3], cold), 'frequency and powers unchanged')
    for i in range(n):
        y = 10 ** ((hot[i] - cold[i]) / 10)
        if abs(hot[i] - cold[i]) < 1e-9:
            y = 1.
        y = y if y > 1 else 1 + 1e-6
        t = (th - tc * y) / (y - 1)
        if abs(t) < 1e-6 * th or abs(t - mx) < 1e-6 * mx:
            continue
        want = mx if t < 0 or t > mx else t
        close(r[1, i], want, 'noise temperature of sample %d' % i, rtol=1e-6)
    if n != 3:
        close(if_response(d.T.copy(), **kw), r, 'orientation', rtol=1e-12)


@oracle(ORACLES, 15)
def refused(rng, k):
    n = int(rng.choice([4, 7]))
    for bad, exc in (([[1., 2., 3.]], ValueError), (np.zeros((n, 2)), AssertionError), (np.zeros(n), AssertionError)):
        note(bad=bad)
        try:
            if_response(bad)
        except exc:
            continue
        check(False, 'accepted')
