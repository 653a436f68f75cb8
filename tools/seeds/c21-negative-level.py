PROPERTY = 'C21'
EDITS = [('qmix/exp/exp_data.py', "        alpha[idc_err_tmp > 0] -= alpha_step\n        alpha[idc_err_tmp < 0] += alpha_step\n        alpha[alpha < 0] = 0\n", "        alpha[alpha < 0] = 0\n        alpha[idc_err_tmp > 0] -= alpha_step\n        alpha[idc_err_tmp < 0] += alpha_step\n")]
NEEDS = 'a measured current below the unpumped curve'
BREAKS = 'a negative drive level is reported'
DEMO = '''
import numpy as np
from qmix.exp.exp_data import _find_alpha
from qmix.respfn import RespFnPolynomial
class D(object):
    resp = RespFnPolynomial(50, verbose=False)
v = np.linspace(.75, .95, 9)
assert (_find_alpha(D, v, D.resp.idc(v) - 1e-3, .3) >= 0).all()
'''
