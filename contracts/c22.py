from . import resp
LEVEL = 'proof'
EXPLAIN = ('_sample_curve: the growing index list is verified under the invariant that every item is a valid position (loop bodies checked once from an arbitrary state), '
           'with the first and last position among its members and order and distinctness from the final set and sort; _setup_interpolation: for an arbitrary sampling, '
           'the tables and orders of the four splines, and acceptance equivalent to the error at every checked sample being below the maximum')
NOTE = ('Every obligation is discharged for all data of at least three samples in exact real arithmetic. Assumed: SciPy splines are functions determined by their table and '
        'order (that they pass through the table is seen by the bounded replays only). Trusted: qv, z3, NumPy.')
