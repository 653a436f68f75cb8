from hb_or import *
from circ_or import state, same_state
ORACLES = []


def snap(c, arrs):
    return state(c), [a.copy() for a in arrs]


def same(c, st, arrs, cp):
    same_state(c, st)
    for a, b in zip(arrs, cp):
        check(a.dtype == b.dtype and np.array_equal(a, b), 'an array of the caller was modified')


def lock(c, arrs, on):
    """read-only arrays of the caller"""
    if on:
        c.lock()
        for a in arrs:
            a.flags.writeable = False


@oracle(ORACLES, 50)
def hb_frame(rng, k):
    c, r, nb = hb_scene(rng)
    if k % 7 == 3:
        c.zt[:] = 0
    if k % 5 == 1:
        c.vt[0, 0], c.zt[0, 0] = 0.3, 0.2        # entries that are not used
    g = guess_of(rng, c)
    if k % 4 == 2:
        g[0], g[:, 0] = 0.1, 0.2
    arrs = [g] if k % 3 else []
    lock(c, arrs, bool(k % 2))
    note(locked=bool(k % 2), guess=bool(arrs))
    kw = dict(num_b=nb, max_it=2, stop_rerror=1e-9, verbose=False)
    if arrs:
        kw['vj_initial'] = g
    st, cp = snap(c, arrs)
    a = harmonic_balance(c, r, **kw)
    same(c, st, arrs, cp)
    b, m = harmonic_balance(c, r, mode='m', **kw)
    close(b, a, 'second call gives a different result', rtol=0, atol=0)
    a *= 2
    a += 1
    same(c, st, arrs, cp)
    d, i, ok = harmonic_balance(c, r, mode='x', **kw)
    close(d, b, 'third call gives a different result', rtol=0, atol=0)
    try:
        check_hb_error(d, c, r, num_b=nb)
    except AssertionError:
        pass
    close(d, b, 'the result check modified the voltage', rtol=0, atol=0)
    same(c, st, arrs, cp)


@oracle(ORACLES, 60)
def current_frame(rng, k):
    cct, vj, nf, npp, nb, num_b, mx = scene(rng)
    r = Resp(rng)
    fo = out_freqs(rng, cct, nf, npp, 3)
    arr = np.array(fo)
    kind = k % 3
    arrs = [vj, arr]
    lock(cct, arrs, bool(k % 2))
    nbl = num_b
    st, cp = snap(cct, arrs)
    fl = [fo, arr, tuple(fo)][kind]
    fo0 = list(fo)
    a = qt.qtcurrent(vj, cct, r, fl, nbl, verbose=False)
    same(cct, st, arrs, cp)
    check(fo == fo0, 'the frequency list was modified')
    R = qt.interpolate_respfn(cct, r, nbl)
    same(cct, st, arrs, cp)
    R0 = R.copy()
    b = qt.qtcurrent(vj, cct, r, fl, nbl, verbose=False, resp_matrix=R)
    close(b, a, 'current with the response matrix supplied', rtol=1e-9, atol=1e-12)
    check(np.array_equal(R, R0), 'the response matrix was modified')
    a2 = a.copy()
    a *= 0
    b *= 0
    c = qt.qtcurrent(vj, cct, r, fl, nbl, verbose=False)
    close(c, a2, 'repeated call', rtol=0, atol=0)
    s = qt.qtcurrent(vj, cct, r, fo[0], nbl, verbose=False)
    s2 = qt.qtcurrent(vj, cct, r, fo[0], nbl, verbose=False)
    close(s, s2, 'repeated single frequency', rtol=0, atol=0)
    same(cct, st, arrs, cp)
    check(fo == fo0, 'the frequency list was modified')


@oracle(ORACLES, 10)
def respfn_frame(rng, k):
    """a real response function object is not changed by the calculations"""
    from qmix.respfn import RespFnPolynomial
    rf = RespFnPolynomial(30, verbose=False)
    c, r, nb = hb_scene(rng, 1, 1)
    q = np.linspace(-2, 2, 41)
    before = (rf(q).copy(), rf.voltage.copy(), rf.current.copy(), rf.voltage_kk.copy(), rf.current_kk.copy())
    v = harmonic_balance(c, rf, num_b=4, max_it=1, stop_rerror=1e-9, verbose=False)
    qt.qtcurrent(v, c, rf, [0., c.freq[1]], 4, verbose=False)
    after = (rf(q), rf.voltage, rf.current, rf.voltage_kk, rf.current_kk)
    for a, b in zip(before, after):
        check(np.array_equal(a, b), 'the response function was modified')
