PROPERTY = 'C15'
EDITS = [('qmix/exp/clean_data.py', "mask[1:] = (column[1:] != column[:-1])", "mask[1:] = ~np.isclose(column[1:], column[:-1])")]
NEEDS = 'samples whose voltages differ by less than the default tolerance of np.isclose'
BREAKS = 'distinct samples are removed as doubles'
DEMO = '''
import numpy as np
from qmix.exp.clean_data import remove_doubles_matrix, clean_matrix
m = np.array([[0., 1.], [0., 2.], [2e-9, 3.], [1e-3, 4.], [1e-3 + 5e-9, 5.]])
assert remove_doubles_matrix(m).shape == (4, 2)
assert clean_matrix(m).shape == (4, 2)
'''
