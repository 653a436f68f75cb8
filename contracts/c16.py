from . import ivdata
LEVEL = 'proof'
EXPLAIN = ('symbolic execution of the import chain for any number of samples and any data: loading in all unit pairs, the selected sweep, given and recovered offset (with the '
           'minimised mismatch), rotate-filter-rotate, series resistance, and both public functions by the contracts of these steps')
NOTE = ('dciv_curve and iv_curve are checked against the contracts of the steps, and those against the code. Assumed: scipy minimize returns a point (its objective is verified), '
        'savgol_filter by name, NumPy array contracts, at least one finite sample, plotting off; the qv verifier, z3.')
