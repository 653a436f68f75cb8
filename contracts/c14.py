from . import mathfn
LEVEL = 'proof'
EXPLAIN = ('symbolic execution of gauss_conv, _gauss, slope and slope_span_n for any data, length, width and span; sums over the window are compared term by '
           'term after normalisation; the derivative of a straight line is shown to be its slope at every sample')
NOTE = ('Every obligation is discharged for all data and lengths (slope: n >= 2; wide span of 2h+1: n >= 3h+2, the range in which its edges are defined) in exact '
        'real arithmetic. Trusted: qv, z3, NumPy.')
