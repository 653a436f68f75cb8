PROPERTY = 'C17'
EDITS = [('qmix/exp/iv_data.py', "mask = (vmin < volt_v) & (volt_v < vmax)", "mask = (vmin <= volt_v) & (volt_v <= vmax)")]
NEEDS = 'a sample exactly on the limit of the range, off the line'
BREAKS = 'samples outside the open range take part in the fit of the normal resistance'
DEMO = '''
import numpy as np
from qmix.exp.iv_data import _find_normal_resistance
v = np.arange(0, 33) / 4096.
i = (v - 1e-4) / 12.
i[16] += 1e-4
i[24] -= 1e-4
r, x = _find_normal_resistance(v, i, vrn=[v[16], v[24]])
assert abs(r - 12) < 1e-6 and abs(x - 1e-4) < 1e-9, (r, x)
'''
