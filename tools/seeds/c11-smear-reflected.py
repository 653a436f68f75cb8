PROPERTY = 'C11'
EDITS = [('qmix/respfn.py', "            v_step = voltage[1] - voltage[0]\n            current = gauss_conv(current - voltage,\n                                 sigma=params['v_smear'] / v_step) + voltage\n",
          "            v_step = voltage[1] - voltage[0]\n            voltage.flags.writeable = False\n            current = gauss_conv(current - voltage, ext_x=min(3, 1. / v_step),\n                                 sigma=params['v_smear'] / v_step) + voltage\n")]
NEEDS = 'smearing of data with a voltage step above 1/3 of the gap voltage'
BREAKS = 'the smearing window is cut short for coarse curves'
DEMO = '''
import numpy as np
from qmix.respfn import RespFn
from qmix.mathfn.filters import gauss_conv
v = np.linspace(0, 40, 101)
i = np.where(v > 1, v, 0.) + 0.2 * np.sin(v)
r = RespFn(v, i, verbose=False, v_smear=1.)
V, I = np.r_[-v[:0:-1], v], np.r_[-i[:0:-1], i]
np.testing.assert_allclose(r.current, gauss_conv(I - V, sigma=1. / 0.4) + V, atol=1e-9)
'''
