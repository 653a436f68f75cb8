from . import yfactor
LEVEL = 'proof'
EXPLAIN = ('symbolic execution of _find_tn_gain and _temp_cw for any number of samples, temperatures, frequency, selection rule and data with positive powers: results '
           'equal the Y-factor equations at every sample, the returned index is optimal for the requested rule, mismatched voltages and unknown rules are refused')
NOTE = ('Exact real arithmetic; powers are positive and results finite (samples with 0/0 are covered by the bounded replays only). tanh is an uninterpreted function in the '
        'proof. Assumed: NumPy extrema, the qv verifier, z3.')
