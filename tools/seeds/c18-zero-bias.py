PROPERTY = 'C18'
EDITS = [('qmix/exp/if_data.py', "    if vbest is not None:\n        idx_out", "    if vbest:\n        idx_out")]
NEEDS = 'a requested bias voltage of exactly zero'
BREAKS = 'the requested best bias point is ignored'
DEMO = '''
import numpy as np
from qmix.exp.if_data import _find_tn_gain
class D(object):
    vgap = 2.8e-3
x = np.linspace(0, 2, 21)
hot, cold = np.stack([x, 20 + x], 1), np.stack([x, 10 + x * .5], 1)
for vb, j in ((0., 0), (1.4e-3, 5), (2.8e-3, 10)):
    assert _find_tn_gain(hot, cold, D, freq=230., verbose=False, vbest=vb)[2] == j
'''
