PROPERTY = 'C02'
EDITS = [('qmix/qtcurrent.py', "l_min = max(-num_b, int((k - num_b) / p))", "l_min = max(-num_b, (k - num_b) // p)")]
NEEDS = 'at least two harmonics and appreciable spectrum at the truncation edge (small summation limit or strong drive)'
BREAKS = 'orders beyond the summation limit wrap around into the convolution of the harmonics'
DEMO = '''
import numpy as np
from scipy.special import jv
from qmix.qtcurrent import calculate_phase_factor_coeff
nb, f = 3, 0.3
v = np.zeros((2, 3, 1), dtype=complex)
v[1, 1, 0], v[1, 2, 0] = 0.5 * np.exp(0.4j), 0.45 * np.exp(-1.1j)
got = calculate_phase_factor_coeff(v, np.array([0, f]), 1, 2, nb)
J = lambda p, n: jv(n, abs(v[1, p, 0]) / (p * f)) * np.exp(-1j * n * np.angle(v[1, p, 0]))
for k in range(-nb, nb + 1):
    want = sum(J(1, k - 2 * l) * J(2, l) for l in range(-nb, nb + 1) if abs(k - 2 * l) <= nb)
    np.testing.assert_allclose(got[1, k, 0], want, rtol=1e-9, atol=1e-12)
'''
