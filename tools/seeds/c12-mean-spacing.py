PROPERTY = 'C12'
EDITS = [('qmix/mathfn/kktrans.py', "    assert np.abs((v[1] - v[0]) - (v[1:] - v[:-1])).max() < 1e-5\n", "    assert np.abs((v[1] - v[0]) - (v[1:] - v[:-1])).mean() < 1e-5\n")]
NEEDS = 'a long curve with a single misplaced sample'
BREAKS = 'unevenly spaced data is accepted when only few steps deviate'
DEMO = '''
import numpy as np
from qmix.mathfn.kktrans import kk_trans
v = np.linspace(0, 10, 5001)
v[3000] += 2e-4 * 0.9
i = np.where(v > 1, v, 0.)
try:
    kk_trans(np.r_[v], i)
except AssertionError:
    pass
else:
    v = np.linspace(0, 10, 5001)
    v[3000] += 1e-4
    d = np.abs(np.diff(v) - (v[1] - v[0])).max()
    raise SystemExit('accepted a spacing error of %g' % d)
'''
