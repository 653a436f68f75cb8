from qt_or import *
ORACLES = []


@oracle(ORACLES, 60)
def current_formula(rng, k):
    nf = [1, 2, 3, 4, None][k % 5]
    cct, vj, nf, npp, nb, num_b, mx = scene(rng, nf)
    resp = Resp(rng)
    fo = out_freqs(rng, cct, nf, npp, 3)
    C = ref_phase(vj, cct.freq, nf, npp, nb, mx)
    R = lambda ks: resp(cct.vb + sum(k * cct.freq[t + 1] for t, k in enumerate(ks)))
    exp = np.array([ref_current(C, cct.freq, nf, npp, nb, cct.vb, R, f) for f in fo])
    got = qt.qtcurrent(vj, cct, resp, list(fo), num_b, verbose=False)
    close(got, exp, 'current', rtol=1e-7, atol=1e-8)


@oracle(ORACLES, 20)
def current_formula_matrix(rng, k):
    cct, vj, nf, npp, nb, num_b, mx = scene(rng)
    resp = Resp(rng)
    fo = out_freqs(rng, cct, nf, npp, 2)
    C = ref_phase(vj, cct.freq, nf, npp, nb, mx)
    RM = rng.normal(size=[2 * b + 1 for b in nb] + [cct.vb_npts]) + 1j * rng.normal(size=[2 * b + 1 for b in nb] + [cct.vb_npts])
    exp = np.array([ref_current(C, cct.freq, nf, npp, nb, cct.vb, lambda ks: RM[tuple(ks)], f) for f in fo])
    got = qt.qtcurrent(vj, cct, resp, list(fo), num_b, verbose=False, resp_matrix=RM)
    close(got, exp, 'current with supplied response matrix', rtol=1e-7, atol=1e-8)


@oracle(ORACLES, 12)
def unequal_limits(rng, k):
    """every tone with its own summation limit, outputs that mix every tone"""
    nf = [4, 3, 4, 2][k % 4]
    npts = 2
    cct = EmbeddingCircuit(nf, 1, vb_min=0., vb_max=2., vb_npts=npts)
    cct.freq[1:] = np.round(rng.uniform(.1, .6, nf), 3)
    nb = [int(x) for x in rng.permutation([1, 2, 3, 4][:max(nf, 3)])[:nf]]
    if nf == 4:
        nb = [min(b, 3) for b in nb]
    vj = np.zeros((nf + 1, 2, npts), dtype=complex)
    vj[1:, 1:] = rng.uniform(.2, .8, (nf, 1, npts)) * np.exp(1j * rng.uniform(-np.pi, np.pi, (nf, 1, npts)))
    resp = Resp(rng)
    fo = []
    for _ in range(3):
        f = float(np.sum(rng.choice([-1, 1], nf) * cct.freq[1:]))
        fo.append(abs(f))
    note(nf=nf, num_b=nb, freq=list(map(float, cct.freq[1:])), fo=fo)
    mx = max(nb)
    C = ref_phase(vj, cct.freq, nf, 1, nb, mx)
    R = lambda ks: resp(cct.vb + sum(j * cct.freq[t + 1] for t, j in enumerate(ks)))
    exp = np.array([ref_current(C, cct.freq, nf, 1, nb, cct.vb, R, f) for f in fo])
    got = qt.qtcurrent(vj, cct, resp, list(fo), tuple(nb), verbose=False)
    close(got, exp, 'current', rtol=1e-7, atol=1e-8)
