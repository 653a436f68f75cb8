from . import recover
LEVEL = 'proof'
EXPLAIN = ('symbolic execution for any number of samples, Bessel order limit and data: Tucker sums, fit formulas, the drive-level search (loop invariant: distance to a unique crossing '
           'at most twice the step, never negative) and the impedance search (fit interval, error surface, least error, source voltage, middle sample)')
NOTE = ('Assumed: every fitted sample has AC current, pumped and unpumped current differ at the largest drive level, a unique upward crossing within half the largest level of the first '
        'guess (convergence only), Bessel and response functions by name, NumPy array contracts; the qv verifier, z3.')
