PROPERTY = 'C23'
EDITS = [('qmix/exp/exp_data.py', "        tmp = deepcopy(PARAMS)\n        tmp.update(kw)\n        kw = tmp\n\n        # Unpack keyword arguments\n        comment = kw['comment']", "        tmp = deepcopy(PARAMS)\n        tmp.update((k, x) for k, x in kw.items() if x)\n        kw = tmp\n\n        # Unpack keyword arguments\n        comment = kw['comment']")]
NEEDS = 'a keyword argument that is zero, False or None while its default is not'
BREAKS = 'the keyword argument does not override the default'
DEMO = '''
import numpy as np
from qmix.exp.exp_data import DCData
v = np.linspace(-6.5e-3, 6.5e-3, 3001)
f = 1 / (1 + np.exp(-np.clip((np.abs(v) - 2.8e-3) / 4e-5, -300, 300)))
iv = np.stack([v, v / 14 * f + v / 200 * (1 - f)], 1)
for fd in (True, False):
    d = DCData(iv, v_fmt='V', i_fmt='A', npts=2001, verbose=False, voffset=0., ioffset=0., filter_data=fd, vleak=0.)
    assert d.kwargs['filter_data'] is fd and d.vleak == 0. and abs(d.ileak) < 1e-9
'''
