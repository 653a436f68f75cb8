PROPERTY = 'C20'
EDITS = [('qmix/exp/if_data.py', "mask = mask | mask_tmp", "mask = mask ^ mask_tmp")]
NEEDS = 'two requested ranges that overlap'
BREAKS = 'points in both requested ranges are left out of the shot noise fit'
DEMO = '''
import numpy as np
from qmix.exp.if_data import _find_if_noise
class D(object):
    vgap, vint = 2.8e-3, 1e-4
x = np.linspace(0, 3, 601)
y = 3. * x + 1 + .5 * (x - 1.9) ** 2
a = _find_if_noise(np.stack([x, y], 1), D, vshot=[[1.6 * D.vgap, 2.2 * D.vgap], [2.0 * D.vgap, 2.8 * D.vgap]])
b = _find_if_noise(np.stack([x, y], 1), D, vshot=[1.6 * D.vgap, 2.8 * D.vgap])
assert np.allclose(a[0], b[0]) and np.allclose(a[1], b[1])
'''
