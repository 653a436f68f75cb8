from . import mathfn
LEVEL = 'proof'
EXPLAIN = ('symbolic execution of kk_trans and kk_trans_trapz for any number of samples and any padding; scipy.signal.hilbert is an assumed contract (circulant '
           'odd kernel); the spacing test is shown to accept exactly the evenly spaced inputs')
NOTE = ('Every obligation is discharged for all data, lengths and paddings in exact real arithmetic. Assumed: the analytic-signal contract of scipy.signal.hilbert '
        '(compared with an explicit kernel by the bounded replays), NumPy, the qv verifier, z3.')
