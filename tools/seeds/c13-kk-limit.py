PROPERTY = 'C13'
EDITS = [('qmix/mathfn/ivcurve_models.py', "        if abs(voltage) == 1.:\n            return max_kk\n", "        if abs(voltage) == 1.:\n            return 100.\n")]
NEEDS = 'the KK current of the perfect curve for a single number at the gap voltage, with a limit other than the default'
BREAKS = 'the requested limit of the KK current is ignored for single numbers'
DEMO = '''
import numpy as np
from qmix.mathfn.ivcurve_models import perfect_kk
assert perfect_kk(-1.) == perfect_kk(np.array([-1.]))[0] == 100.
assert perfect_kk(1., max_kk=7.) == 7. == perfect_kk(-1., max_kk=7.)
'''
