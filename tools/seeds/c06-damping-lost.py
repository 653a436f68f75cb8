PROPERTY = 'C06'
EDITS = [('qmix/harmonic_balance.py', "        vj_2d += corr * damp_coeff", "        vj_2d += corr * (damp_coeff if iteration == 0 else max(damp_coeff, 0.5))")]
NEEDS = 'a damping factor below one half and at least two iterations'
BREAKS = 'the second and later updates are not damped by the requested factor'
DEMO = '''
import numpy as np
from qmix.circuit import EmbeddingCircuit
from qmix.harmonic_balance import harmonic_balance
c = EmbeddingCircuit(1, 1, vb_min=0.3, vb_npts=2)
c.freq[1], c.vt[1, 1], c.zt[1, 1] = 0.3, 0.3, 0.4
resp = lambda x: np.exp(-x**2) + 1j * (x + 0.3 * np.tanh(3 * x) * x**2)
kw = dict(stop_rerror=1e-12, verbose=False)
one = harmonic_balance(c, resp, 4, max_it=1, damp_coeff=0.2, **kw)
two = harmonic_balance(c, resp, 4, max_it=1, damp_coeff=0.2, vj_initial=one.copy(), **kw)
both = harmonic_balance(c, resp, 4, max_it=2, damp_coeff=0.2, **kw)
np.testing.assert_allclose(both, two, rtol=1e-9, atol=1e-12)
'''
