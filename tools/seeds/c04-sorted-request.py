PROPERTY = 'C04'
EDITS = [('qmix/qtcurrent.py', "        freq_list = list(freq_list)\n        freq_is_list = True", "        freq_list = sorted(freq_list)\n        freq_is_list = True")]
NEEDS = 'a request whose frequencies are not in increasing order'
BREAKS = 'rows of the result are returned in increasing order of frequency, not in the order of the request'
DEMO = '''
import numpy as np
from qmix.circuit import EmbeddingCircuit
from qmix.qtcurrent import qtcurrent
c = EmbeddingCircuit(1, 1, vb_min=0.2, vb_npts=5)
c.freq[1] = 0.3
v = c.initialize_vj()
v[1, 1] = 0.2
resp = lambda x: np.cos(x) + 1j * x**3
a = qtcurrent(v, c, resp, [0.3, 0.], 6, verbose=False)
np.testing.assert_allclose(a[0], qtcurrent(v, c, resp, 0.3, 6, verbose=False))
np.testing.assert_allclose(a[1], qtcurrent(v, c, resp, 0., 6, verbose=False))
'''
