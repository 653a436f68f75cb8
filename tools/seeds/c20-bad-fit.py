PROPERTY = 'C20'
EDITS = [('qmix/exp/if_data.py', "if dcif is None or dcif.corr is None:", "if dcif is None or not dcif.if_fit:")]
NEEDS = 'a supplied calibration whose IF noise is outside the expected band'
BREAKS = 'the supplied calibration is thrown away and replaced'
DEMO = '''
import numpy as np
from qmix.exp.if_data import if_data, DCIFData
class D(object):
    vgap, vint, offset, vraw, iraw = 2.8e-3, 1e-4, (0., 0.), np.linspace(-8e-3, 8e-3, 33), np.linspace(-8e-3, 8e-3, 33) / 10
v = np.linspace(-.1, 7, 301)
hot, cold = np.stack([v, 30 + 5 * v], 1), np.stack([v, 20 + 5 * v], 1)
for good in (True, False):
    c = DCIFData(if_noise=60., corr=2., if_fit=good, shot_slope=None, vmax=6e-3)
    r, i, o = if_data(hot, cold, D, dcif=c, freq=230., rseries=None, ifdata_sigma=None, v_fmt='mV', verbose=False, vshot=[[4e-3, 5.5e-3]])
    assert o.corr == 2. and o.if_noise == 60.
'''
