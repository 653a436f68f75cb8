PROPERTY = 'C06'
EDITS = [('qmix/harmonic_balance.py', "zj_guess / (zj_guess + zt[:, :, None])", "zj_guess / (zj_guess + np.abs(zt[:, :, None]))")]
NEEDS = 'a source impedance with a reactive part and no initial guess from the caller'
BREAKS = 'the start is not the voltage divider of the source impedance and the assumed junction impedance'
DEMO = '''
import numpy as np
from qmix.circuit import EmbeddingCircuit
from qmix.harmonic_balance import harmonic_balance
c = EmbeddingCircuit(2, 1, vb_npts=3)
c.freq[1:] = 0.3, 0.33
c.vt[1:, 1] = 0.3, 0.1j
c.zt[1:, 1] = 0.3 + 0.4j, 0.5 - 0.2j
v = harmonic_balance(c, lambda x: x + 1j * x, 2, max_it=0, verbose=False)
np.testing.assert_allclose(v[1:, 1, 0], c.vt[1:, 1] * 0.67 / (0.67 + c.zt[1:, 1]))
'''
