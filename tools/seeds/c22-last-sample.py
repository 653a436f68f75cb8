PROPERTY = 'C22'
EDITS = [('qmix/respfn.py', "        condition4 = idx < 3 or idx > len(voltage) - 4\n", "        condition4 = idx < 3 or len(voltage) - 4 < idx < len(voltage) - 1\n")]
NEEDS = 'a curve with fewer points than the block sampled at its end, of a length at which that block misses the last point'
BREAKS = 'the last data point is not among the sample points'
DEMO = '''
import numpy as np
from qmix.respfn import _sample_curve
v = np.linspace(0, 6, 86)
i = v ** 41 / (1 + v ** 40)
V, I = np.r_[-v[:0:-1], v], np.r_[-i[:0:-1], i]
idx = _sample_curve(V, I, 101, 0.25)
assert idx[-1] == len(V) - 1, (idx[-1], len(V))
'''
