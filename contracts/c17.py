from . import ivdata
LEVEL = 'proof'
EXPLAIN = ('symbolic execution of the three fits for any number of samples, any data and range: the fitted points are exactly the samples of the range, and the returned numbers '
           'satisfy the stated equations with the slope and intercept of the fitted lines')
NOTE = ('The least-squares line is an uninterpreted function of the two columns it is fitted to (numpy.polyfit assumed). Ranges hold at least one sample, fitted lines are '
        'not flat or parallel, results finite. Assumed: argmax, boolean selection, slope and gauss_conv by contract (C14), the qv verifier, z3.')
