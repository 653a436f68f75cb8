PROPERTY = 'C01'
EDITS = [('qmix/qtcurrent.py', """                       -num_b3 <= m - c <= num_b3 and \\
                       -num_b4 <= n - d <= num_b4:
""", """                       -num_b3 <= m - c <= num_b3 and \\
                       -num_b3 <= n - d <= num_b3:
""")]
NEEDS = 'four tones whose third and fourth summation limits differ'
BREAKS = 'negative mixing products of the fourth tone are cut at the limit of the third tone'
DEMO = '''
import itertools, numpy as np
from qmix.circuit import EmbeddingCircuit
from qmix.qtcurrent import qtcurrent, calculate_phase_factor_coeff
c = EmbeddingCircuit(4, 1, vb_min=0.3, vb_max=1.7, vb_npts=3)
c.freq[1:] = [0.3, 0.33, 0.21, 0.05]
rng = np.random.RandomState(1)
v = c.initialize_vj()
v[1:, 1:] = rng.uniform(0.05, 0.6, (4, 1, 3)) * np.exp(1j * rng.uniform(-3, 3, (4, 1, 3)))
nb = (1, 1, 1, 3)
resp = lambda x: np.cos(2 * x) + 1j * (x**3 * 0.1 + x)
got = qtcurrent(v, c, resp, [c.freq[4]], nb, verbose=False)[0]
C = calculate_phase_factor_coeff(v, c.freq, 4, 1, nb)
tot = 0
o = (0, 0, 0, 1)
S = {}
for sg in (1, -1):
    s = 0
    for ks in itertools.product(*[range(-b, b + 1) for b in nb]):
        k2 = [k + sg * a for k, a in zip(ks, o)]
        if any(abs(k) > b for k, b in zip(k2, nb)):
            continue
        w = resp(c.vb + sum(k * f for k, f in zip(ks, c.freq[1:])))
        for t in range(4):
            w = w * C[t + 1, ks[t]] * np.conj(C[t + 1, k2[t]])
        s = s + w
    S[sg] = s
want = S[1].imag + S[-1].imag - 1j * (S[1].real - S[-1].real)
np.testing.assert_allclose(got, want, rtol=1e-9, atol=1e-12)
'''
