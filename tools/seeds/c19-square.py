PROPERTY = 'C19'
EDITS = [('qmix/exp/if_response.py', "if if_data.shape[1] != 3:", "if if_data.shape[0] == 3:")]
NEEDS = 'exactly three frequencies in column orientation'
BREAKS = 'rows and columns are exchanged'
DEMO = '''
import numpy as np
from qmix.exp.if_response import if_response
for n in (2, 3, 5):
    m = np.stack([np.arange(n) + 1., np.arange(n) - 50., np.arange(n) - 53.], 1)
    assert np.array_equal(if_response(m, t_hot=290., t_cold=77.)[0], m[:, 0])
'''
