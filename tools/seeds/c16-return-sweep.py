PROPERTY = 'C16'
EDITS = [('qmix/exp/iv_data.py', "np.abs(v[idx_max:idx_min+1] - v[0]).argmin() + idx_max", "np.abs(v[idx_max:] - v[0]).argmin() + idx_max")]
NEEDS = 'a sweep that goes up, down and back to its start, whose last sample is nearer the first voltage than any sample of the downward sweep'
BREAKS = 'the part of the curve on the other side of the first sample is lost'
DEMO = '''
import numpy as np
from qmix.exp.iv_data import _take_one_pass
v = np.r_[np.linspace(0, 6, 31), np.linspace(5.85, -6.05, 61), np.linspace(-5.9, 0, 30)]
x, y = _take_one_pass(v, 2 * v)
assert x.min() == v.min() and x.max() == v.max(), (x.min(), x.max())
assert np.array_equal(y, 2 * x)
'''
