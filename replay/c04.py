from qt_or import *
ORACLES = []


@oracle(ORACLES, 60)
def rows_independent(rng, k):
    cct, vj, nf, npp, nb, num_b, mx = scene(rng, 1 + k % 3)
    resp = Resp(rng)
    fo = out_freqs(rng, cct, nf, npp, int(rng.randint(1, 6)))
    full = qt.qtcurrent(vj, cct, resp, list(fo), num_b, verbose=False)
    check(full.shape == (len(fo), cct.vb_npts), 'shape %s' % (full.shape,))
    check(np.iscomplexobj(full), 'list result is not complex')
    arr = qt.qtcurrent(vj, cct, resp, np.array(fo), num_b, verbose=False)
    close(arr, full, 'array of frequencies', rtol=0, atol=0)
    tup = qt.qtcurrent(vj, cct, resp, tuple(fo), num_b, verbose=False)
    close(tup, full, 'tuple of frequencies', rtol=0, atol=0)
    perm = rng.permutation(len(fo))
    p = qt.qtcurrent(vj, cct, resp, [fo[i] for i in perm], num_b, verbose=False)
    close(p, full[perm], 'permuted frequencies', rtol=0, atol=0)
    for i, f in enumerate(fo):
        one = qt.qtcurrent(vj, cct, resp, f, num_b, verbose=False)
        check(one.shape == (cct.vb_npts,), 'scalar shape %s' % (one.shape,))
        if round(f, 4) == 0:
            check(not np.iscomplexobj(one), 'dc current is not real valued')
            close(one, full[i].real, 'dc current', rtol=0, atol=0)
        else:
            close(one, full[i], 'scalar frequency', rtol=0, atol=0)
        lst = qt.qtcurrent(vj, cct, resp, [f], num_b, verbose=False)
        close(lst[0], full[i], 'single-element list', rtol=0, atol=0)


@oracle(ORACLES, 20)
def dc_is_real(rng, k):
    cct, vj, nf, npp, nb, num_b, mx = scene(rng, 1 + k % 3)
    resp = Resp(rng)
    for z in (0, 0., -0., 3e-5, np.float64(0), np.array(0.)):
        r = qt.qtcurrent(vj, cct, resp, z, num_b, verbose=False)
        check(r.shape == (cct.vb_npts,) and r.dtype == float, 'dc result %s %s for %r' % (r.shape, r.dtype, z))
