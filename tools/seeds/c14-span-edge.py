PROPERTY = 'C14'
EDITS = [('qmix/mathfn/misc.py', "    der[-1] = der[-2]\n\n    if nozeros:\n        der[der == 0] = 1e-10\n", "    if nozeros:\n        der[der == 0] = 1e-10\n\n    der[-1] = der[-2] if der[-2] != 1e-10 else 0.\n")]
NEEDS = 'data that is flat at its end'
BREAKS = 'the wide-span derivative is zero at the last sample although zeros are forbidden'
DEMO = '''
import numpy as np
from qmix.mathfn.misc import slope_span_n
x = np.arange(60.)
y = np.minimum(x, 30.)
assert (slope_span_n(x, y, 11) != 0).all()
'''
