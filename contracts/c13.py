from . import mathfn
LEVEL = 'proof'
EXPLAIN = ('symbolic execution of every I-V model for arrays (float and integer) of any length and for numbers; the result is the formula at every voltage, '
           'the special points included, and the formulas are odd / even as stated')
NOTE = ('Every obligation is discharged for all voltages, orders and positive parameters in exact real arithmetic (overflow of exp and rounding are not modelled; '
        'one-dimensional arrays). Bounded replays cover overflow-free float evaluation and matrices. Trusted: qv, z3, NumPy.')
