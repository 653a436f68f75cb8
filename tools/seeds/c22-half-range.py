PROPERTY = 'C22'
EDITS = [('qmix/respfn.py', "    idx_check = (-v_check_range < voltage) & (voltage < v_check_range)\n", "    idx_check = (-v_check_range < voltage) & (voltage <= 0)\n")]
NEEDS = 'an interpolation whose largest error is at a positive voltage (the sampling is not symmetric) and a limit between the two'
BREAKS = 'interpolation errors at positive voltages are not checked'
DEMO = '''
import numpy as np
from qmix.respfn import RespFnPolynomial
for order in (10, 17, 23, 31, 42, 50):
    for nd in (5, 11, 20, 40):
        r = RespFnPolynomial(order, verbose=False, max_npts_dc=nd, max_npts_kk=nd)
        m = np.abs(r.voltage) < 34
        e = max(np.abs(r.current - r.idc(r.voltage))[m].max(), np.abs(r.current_kk - r.ikk(r.voltage_kk))[m].max())
        try:
            RespFnPolynomial(order, verbose=False, max_npts_dc=nd, max_npts_kk=nd, check_error=True, max_interp_error=e * 0.9999)
        except AssertionError:
            continue
        raise SystemExit('accepted an error of %g (order %d, %d points)' % (e, order, nd))
'''
