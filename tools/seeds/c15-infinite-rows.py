PROPERTY = 'C15'
EDITS = [('qmix/exp/clean_data.py', "    mask = np.invert(np.isnan(mat[:, 0])) & np.invert(np.isnan(mat[:, 1]))\n\n    return mat[mask]", "    mask = np.invert(np.isnan(mat.sum(axis=1)))\n\n    return mat[mask]")]
NEEDS = 'a row holding plus and minus infinity'
BREAKS = 'a row without NaN is removed'
DEMO = '''
import numpy as np
from qmix.exp.clean_data import remove_nans_matrix
m = np.array([[1., np.nan], [np.inf, -np.inf], [2., 3.], [np.nan, np.nan]])
assert np.array_equal(remove_nans_matrix(m), m[1:3])
'''
