from hb_or import *
ORACLES = []


@oracle(ORACLES, 60)
def success_means_solved(rng, k):
    c, r, nb = hb_scene(rng)
    tol = float(rng.choice([1e-3, 1e-4, 1e-2, 0.1, 1e-6]))
    kw = dict(num_b=nb, stop_rerror=tol, max_it=int(rng.choice([0, 1, 2, 5, 10])), damp_coeff=float(rng.choice([1., 0.7, 0.3])),
              verbose=bool(rng.randint(2)))
    if rng.rand() < 0.4:
        kw['vj_initial'] = guess_of(rng, c)
    note(**kw)
    c0 = c.vt.copy()
    (v, m), text = loud(harmonic_balance, c, r, mode='m', **kw)
    check(v.shape == (c.num_f + 1, c.num_p + 1, c.vb_npts), 'shape of the voltage')
    check(np.array_equal(c.vt, c0), 'source voltage was changed')
    check(not v[0].any() and not v[:, 0].any(), 'unused DC rows of the result are not zero')
    e = rel_errors(v, c, r, nb)
    if not missed(text):
        check((e <= tol * (1 + 1e-6)).all(), 'reported success but the relative error is %g (target %g)' % (e.max(), tol))
    m = np.asarray(m)
    check(m.shape == (c.vb_npts,) and m.dtype == bool, 'shape of the mask')
    w = e.max(axis=(0, 1))
    sure = np.abs(w - tol) > 1e-6 * tol
    check(np.array_equal(m[sure], (w < tol)[sure]), 'mask %s, relative errors %s, target %g' % (m, w, tol))
    # the other output modes report the same voltage
    vo, to = loud(harmonic_balance, c, r, mode='o', **kw)
    (vx, it, ok), tx = loud(harmonic_balance, c, r, mode='x', **kw)
    close(vo, v, 'mode o', rtol=1e-12)
    close(vx, v, 'mode x', rtol=1e-12)
    check(missed(to) == missed(text) == missed(tx), 'the output mode changes the announcement')
    check(0 <= it <= kw['max_it'], 'iterations')
    if ok:
        check((e <= tol * (1 + 1e-6)).all(), 'flag says converged but the relative error is %g (target %g)' % (e.max(), tol))


@oracle(ORACLES, 40)
def result_check(rng, k):
    """check_hb_error accepts a voltage exactly when the strict inequality holds everywhere"""
    c, r, nb = hb_scene(rng)
    (v, it, ok), _ = loud(harmonic_balance, c, r, num_b=nb, mode='x', stop_rerror=1e-5, max_it=6, verbose=False)
    if k % 3 == 0:
        f, p, x = rng.randint(1, c.num_f + 1), rng.randint(1, c.num_p + 1), rng.randint(c.vb_npts)
        v[f, p, x] *= 1 + 10.**rng.uniform(-4, -1)
    w = rel_errors(v, c, r, nb).max()
    for tol in (w * 1.01, w * 0.99, 1e-3):
        if not np.isfinite(tol) or abs(w - tol) <= 1e-6 * tol or w < 1e-13:
            continue
        try:
            loud(check_hb_error, v, c, r, num_b=nb, stop_rerror=tol)
            acc = True
        except AssertionError:
            acc = False
        check(acc == (w < tol), 'accepted=%s with largest relative error %g and target %g' % (acc, w, tol))


@oracle(ORACLES, 6)
def degenerate(rng, k):
    """a calculation that cannot converge is announced"""
    c, r, nb = hb_scene(rng, 1, 1)
    c.zt[1, 1] = 0.3
    if k % 3 == 0:
        r0 = r
        r = lambda v: r0(v) * (np.nan if k % 2 else 1e8)
    elif k % 3 == 1:
        c.vt[1, 1] = np.nan
    else:
        c.zt[1, 1] = 1e6
    try:
        (v, m), text = loud(harmonic_balance, c, r, num_b=nb, mode='m', max_it=2, stop_rerror=1e-9, verbose=False)
    except np.linalg.LinAlgError:
        return
    e = rel_errors(v, c, r, nb)
    check(missed(text) or bool((e <= 1e-9 * (1 + 1e-6)).all()), 'not announced; relative errors %s' % e)
