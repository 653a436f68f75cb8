from . import clean
LEVEL = 'proof'
EXPLAIN = ('symbolic execution of the cleaning functions for any number of rows (and columns where the function takes any), any NaN pattern and any key column: the '
           'result is the input gathered at the NaN mask, the sorting permutation and the first row of every run; lemmas (two inductions over rows) give strictly '
           'increasing keys, membership, pairing and coverage')
NOTE = ('NaN is an uninterpreted predicate on data values; comparing or sorting data that is not shown NaN-free is refused by the model. Assumed: argsort is a sorting '
        'permutation, boolean selection is the order-preserving enumeration, the qv verifier, z3.')
