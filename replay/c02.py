from qt_or import *
ORACLES = []


@oracle(ORACLES, 120)
def phase_factors(rng, k):
    cct, vj, nf, npp, nb, num_b, mx = scene(rng, big=True)
    if k % 4 == 0:
        npp2 = int(rng.randint(1, 6))
        v2 = np.zeros((nf + 1, npp2 + 1, vj.shape[2]), dtype=complex)
        v2[1:, 1:] = rng.normal(size=(nf, npp2, vj.shape[2])) + 1j * rng.normal(size=(nf, npp2, vj.shape[2]))
        vj, npp = v2, npp2
    note(npp=npp)
    got = qt.calculate_phase_factor_coeff(vj, cct.freq, nf, npp, num_b)
    exp = ref_phase(vj, cct.freq, nf, npp, nb, mx)
    check(got.shape == exp.shape, 'shape %s expected %s' % (got.shape, exp.shape))
    close(got[1:], exp[1:], 'phase factor coefficients', rtol=1e-7, atol=1e-9)


@oracle(ORACLES, 10)
def phase_factors_large_order(rng, k):
    cct, vj, nf, npp, nb, num_b, mx = scene(rng, 1 + k % 2, 1 + k % 3)
    nb = int(rng.randint(10, 31))
    vj = vj * 5
    got = qt.calculate_phase_factor_coeff(vj, cct.freq, nf, npp, nb)
    exp = ref_phase(vj, cct.freq, nf, npp, [nb] * nf, nb)
    close(got[1:], exp[1:], 'phase factor coefficients', rtol=1e-7, atol=1e-9)


@oracle(ORACLES, 20)
def phase_factor_normalised(rng, k):
    """sum over orders of |C_k|^2 tends to 1 when the limits are large enough"""
    cct, vj, nf, npp, nb, num_b, mx = scene(rng, None, 1)
    vj = vj * 0 + 0.3 * np.exp(1j * np.angle(vj + 1e-12)) * cct.freq[1]
    vj = vj / 2
    got = qt.calculate_phase_factor_coeff(vj, cct.freq * 0 + cct.freq[1], nf, 1, 15)
    close((np.abs(got[1:])**2).sum(1), np.ones((nf, vj.shape[2])), 'sum of squared magnitudes', rtol=1e-8)
