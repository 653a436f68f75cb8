PROPERTY = 'C21'
EDITS = [('qmix/exp/exp_data.py', "        if zemb is None:\n            zt_best = zt_real_best + 1j * zt_imag_best\n        else:\n            zt_best = zemb\n        vt_best = _find_source_voltage(ac_voltage, ac_impedance, zt_best)\n",
          "        zt_best = zt_real_best + 1j * zt_imag_best\n        vt_best = _find_source_voltage(ac_voltage, ac_impedance, zt_best)\n        if zemb is not None:\n            zt_best = zemb\n")]
NEEDS = 'a forced embedding impedance'
BREAKS = 'the source voltage reported does not belong to the impedance reported'
DEMO = '''
import numpy as np
import scipy.constants as sc
from qmix.exp import exp_data as X
from qmix.exp.parameters import params
from qmix.respfn import RespFnPolynomial
class D(object):
    resp = RespFnPolynomial(50, verbose=False)
o = object.__new__(X.PumpedData)
o.dciv, o.vgap, o.rn = D, 2.8e-3, 12.
o.fgap = sc.e * o.vgap / sc.h
o.freq = .3 * o.fgap / 1e9
o.voltage = np.linspace(0, 1.4, 200)
o.current = X._find_pumped_iv_curve(D.resp, o.voltage, .3, .6 + .3 * o.voltage)
o.kwargs = dict(params, zemb=.7 - .4j)
o._recover_zemb()
w = .3
lo, hi = o.kwargs['fit_range']
m = (o.voltage >= 1 - w + w * lo) & (o.voltage <= 1 - w + w * hi)
a = X._find_alpha(D, o.voltage[m], o.current[m], w, **o.kwargs)
z = a * w / X._find_ac_current(D.resp, o.voltage[m], w, a, **o.kwargs)
assert o.zt == .7 - .4j
assert abs(o.vt - X._find_source_voltage(a * w, z, o.zt)) < 1e-9
'''
