PROPERTY = 'C07'
EDITS = [('qmix/qtcurrent.py', "        freq_list = list(freq_list)\n        freq_is_list = True", "        if not isinstance(freq_list, list):\n            freq_list = list(freq_list)\n        freq_is_list = True")]
NEEDS = 'a caller that passes a Python list with more than four decimals and looks at it (or reuses it) afterwards'
BREAKS = 'the frequency list of the caller is rounded in place'
DEMO = '''
import numpy as np
from qmix.circuit import EmbeddingCircuit
from qmix.qtcurrent import qtcurrent
c = EmbeddingCircuit(1, 1, vb_npts=2)
c.freq[1] = 0.312345678
v = c.initialize_vj()
v[1, 1] = 0.2
f = [0., 0.312345678]
qtcurrent(v, c, lambda x: x + 1j * x, f, 3, verbose=False)
assert f == [0., 0.312345678], f
'''
