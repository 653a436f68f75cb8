from . import yfactor
LEVEL = 'proof'
EXPLAIN = ('symbolic execution of if_response for any number of frequencies in either orientation: every noise temperature equals the clipped Y-factor formula, '
           'frequency and powers pass through, badly shaped input is refused')
NOTE = 'Exact real arithmetic (10 ** (x / 10) is an uninterpreted positive power); finite data. Assumed: NumPy, the qv verifier, z3.'
