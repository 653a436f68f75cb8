PROPERTY = 'C14'
EDITS = [('qmix/mathfn/filters.py', "    s = np.r_[x[wlen - 1:0:-1], x, x[-2:-wlen - 1:-1]]\n", "    s = np.r_[x[wlen - 1:0:-1], x, x[-1:-wlen:-1]]\n")]
NEEDS = 'data that varies near its last sample'
BREAKS = 'the data is mirrored about a point half a step beyond its end, so the smoothed values near the end are off'
DEMO = '''
import numpy as np
from qmix.mathfn.filters import gauss_conv
x = np.zeros(60)
x[-3:] = [1., 2., 4.]
a = gauss_conv(x, sigma=2)
b = gauss_conv(x[::-1], sigma=2)
# smoothing the reversed data reverses the result up to the window asymmetry: compare with the mirrored sum itself
w = np.exp(-0.5 * (np.arange(-6, 7) / 2.) ** 2)
w /= w.sum()
y = np.r_[x, x[-2:-14:-1]]
want = [np.dot(w, y[i - 6:i + 7]) for i in range(40, 60)]
np.testing.assert_allclose(a[40:], want, atol=1e-9)
'''
