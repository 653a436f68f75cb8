from hb_or import *
ORACLES = []


@oracle(ORACLES, 70)
def newton_steps(rng, k):
    c, r, nb = hb_scene(rng)
    damp = float(rng.choice([1., 0.5, 0.9, 0.1]))
    steps = int(rng.choice([1, 1, 2]))
    kw = dict(num_b=nb, damp_coeff=damp, stop_rerror=1e-12, verbose=bool(rng.randint(2)))
    if k % 2:
        v = guess_of(rng, c)
        kw['vj_initial'] = v.copy()
    else:
        zj = float(rng.choice([0.67, 1., 0.2]))
        kw['zj_guess'] = zj
        v = divider(c, zj)
    note(damp=damp, steps=steps, guess=kw.get('vj_initial'), zj=kw.get('zj_guess'))
    if not (c.zt != 0).any():
        return
    kap = 1.
    v0 = harmonic_balance(c, r, max_it=0, mode='o', **kw)
    close(v0, v, 'start', rtol=1e-9, atol=1e-15)
    for _ in range(steps):
        v, q = newton(v, c, r, nb, damp)
        kap *= max(q, 1.)
    got, it, ok = harmonic_balance(c, r, max_it=steps, mode='x', **kw)
    if it < steps:
        return
    if kap < 1e6:
        # the current is rounded data: allow the finite difference to amplify round-off
        close(got, v, 'voltage after %d updates' % steps, rtol=1e-6, atol=1e-7 * max(1., np.abs(v).max()))


@oracle(ORACLES, 12)
def default_guess(rng, k):
    c, r, nb = hb_scene(rng)
    if not (c.zt != 0).any():
        return
    v0 = harmonic_balance(c, r, num_b=nb, max_it=0, verbose=False)
    close(v0, divider(c, 0.67), 'default start', rtol=1e-9, atol=1e-15)


@oracle(ORACLES, 12)
def no_source_impedance(rng, k):
    """with all source impedances zero the source voltages are returned at every bias point"""
    c, r, nb = hb_scene(rng)
    c.zt[:] = 0
    want = np.repeat(c.vt[:, :, None], c.vb_npts, axis=2)
    close(harmonic_balance(c, r, num_b=nb, mode='o', verbose=bool(k % 2)), want, 'mode o', rtol=0, atol=0)
    v, m = harmonic_balance(c, r, num_b=nb, mode='m', verbose=False)
    close(v, want, 'mode m', rtol=0, atol=0)
    check(np.asarray(m).shape == (c.vb_npts,) and np.all(m), 'mask without source impedance')
    v, it, ok = harmonic_balance(c, r, num_b=nb, mode='x', verbose=False)
    close(v, want, 'mode x', rtol=0, atol=0)
    check(it == 0 and ok, 'iterations without source impedance')
