from . import resp
LEVEL = 'proof'
EXPLAIN = ('symbolic execution of the constructors and of every evaluation method for data of any length, any bias array, matrix or number; kk_trans, gauss_conv and '
           '_setup_interpolation enter by their contracts (C12, C14, C22)')
NOTE = ('Every obligation is discharged for all data, lengths, options and bias voltages in exact real arithmetic (2-D bias arrays of the perfect response: '
        'bounded replays only). The curve fits are uninterpreted functions of their table (contract of SciPy splines, assumed). '
        'Trusted: qv, z3, NumPy.')
