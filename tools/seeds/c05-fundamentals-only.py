PROPERTY = 'C05'
EDITS = [('qmix/harmonic_balance.py', "        for k in range(num_n):\n            with np.errstate", "        for k in range(0, num_n, num_p):\n            with np.errstate")]
NEEDS = 'more than one harmonic, with a higher harmonic that converges later than the fundamental'
BREAKS = 'the stopping test and the mask only look at the fundamental of every tone, so success is reported for harmonics that miss the target'
DEMO = '''
import numpy as np
from qmix.circuit import EmbeddingCircuit
from qmix.harmonic_balance import harmonic_balance, check_hb_error
c = EmbeddingCircuit(1, 2, vb_min=0.2, vb_npts=4)
c.freq[1] = 0.3
c.vt[1, 1], c.zt[1, 1] = 0.3, 0.1
c.vt[1, 2], c.zt[1, 2] = 0.3, 0.6 + 0.3j
resp = lambda x: np.exp(-x**2) + 1j * (x + 0.3 * np.tanh(3 * x) * x**2)
g = c.initialize_vj() + 0.3
for n in range(6):
    v, i, ok = harmonic_balance(c, resp, 5, max_it=n, stop_rerror=0.02, vj_initial=g, damp_coeff=0.5 if n % 2 else 1., mode='x', verbose=False)
    if ok:
        check_hb_error(v, c, resp, 5, stop_rerror=0.0200001)
# the fundamental starts solved, the second harmonic does not
v = harmonic_balance(c, resp, 5, max_it=10, stop_rerror=1e-7, verbose=False)
g = v.copy()
g[1, 2] *= 1.05
g[1, 1] = v[1, 1]
for it in range(2):
    w, i, ok = harmonic_balance(c, resp, 5, max_it=10, stop_rerror=0.05, vj_initial=g, mode='x', verbose=False)
    g[1, 2] *= 1.2
    if ok:
        check_hb_error(w, c, resp, 5, stop_rerror=0.0500001)
'''
