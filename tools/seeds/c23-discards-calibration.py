PROPERTY = 'C23'
EDITS = [('qmix/exp/exp_data.py', "                                                   dcif=dciv.dcif, **kw)", "                                                   dcif=dciv.dcif if dciv.if_fit else None, **kw)")]
NEEDS = 'DC IF data whose noise is outside the expected band'
BREAKS = 'hot and cold data are scaled with another factor than the DC IF data'
DEMO = '''
import numpy as np
from qmix.exp.exp_data import DCData, PumpedData
v = np.linspace(-6.5e-3, 6.5e-3, 3001)
f = 1 / (1 + np.exp(-np.clip((np.abs(v) - 2.8e-3) / 4e-5, -300, 300)))
iv = np.stack([v, v / 14 * f + v / 200 * (1 - f)], 1)
kw = dict(v_fmt='V', i_fmt='A', npts=2001, verbose=False, voffset=0., ioffset=0., ifdata_sigma=None, vshot=[[4e-3, 5.5e-3]])
u = np.linspace(-1e-4, 6.4e-3, 500)
for base in (2., 90.):
    p = lambda g: np.stack([u, base + 5.8e3 * np.abs(u) + g * np.exp(-((u - 2e-3) / 3e-4) ** 2)], 1)
    d = DCData(iv, p(0), **kw)
    o = PumpedData(iv, d, p(9), .97 * p(4), freq=230., analyze_iv=False, **kw)
    assert o.corr == d.corr and o.if_noise == d.if_noise
'''
