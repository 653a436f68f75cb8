PROPERTY = 'C03'
EDITS = [('qmix/qtcurrent.py', "    ind = np.r_[np.arange(0, num_b2 + 1), np.arange(-num_b2, 0)]\n    l_array = ind[None, :, None]",
          "    ind = np.r_[np.arange(0, num_b2 + 1), np.arange(-num_b1, 0)[-num_b2:]]\n    l_array = np.resize(ind, l_npts)[None, :, None]")]
NEEDS = 'two tones where the second summation limit is larger than the first'
BREAKS = 'entries of the response matrix for the negative orders of the second tone hold the response at another bias voltage'
DEMO = '''
import numpy as np
from qmix.circuit import EmbeddingCircuit
from qmix.qtcurrent import interpolate_respfn
c = EmbeddingCircuit(2, 1, vb_npts=4)
c.freq[1:] = [0.3, 0.33]
resp = lambda x: np.cos(x) + 1j * x
for nb in ((3, 3), (4, 2), (2, 4), (1, 3)):
    R = interpolate_respfn(c, resp, nb)
    assert R.shape == (2 * nb[0] + 1, 2 * nb[1] + 1, 4)
    for k in range(-nb[0], nb[0] + 1):
        for l in range(-nb[1], nb[1] + 1):
            np.testing.assert_allclose(R[k, l], resp(c.vb + k * 0.3 + l * 0.33))
'''
