PROPERTY = 'C11'
EDITS = [('qmix/respfn.py', "        b = current[-1] - voltage[-1]\n", "        b = current[-1] - vmax\n")]
NEEDS = 'measured data whose last sample below the limit voltage is not right at the limit (coarse data)'
BREAKS = 'the unit-slope continuation no longer passes through the last point used'
DEMO = '''
import numpy as np
from qmix.respfn import RespFnFromIVData
v = np.linspace(0, 3, 28)
i = v ** 41 / (1 + v ** 40)
r = RespFnFromIVData(v, i, verbose=False)
last = v[v < 1.8][-1]
j = np.abs(r.voltage - 20.).argmin()
want = i[v < 1.8][-1] + (20. - last)
assert abs(r.current[j] - want) < 1e-6, (r.current[j], want)
'''
