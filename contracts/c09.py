from . import circ
LEVEL = 'proof'
EXPLAIN = ('symbolic execution of the circuit constructor (every combination of optional junction constants, 1-4 tones, any number of harmonics and bias '
           'points), the frequency and drive level setters in every unit, and lock/unlock; postconditions state values, shapes, types, frame and refusals')
NOTE = ('Every obligation generated from the current source is discharged for all sizes and values, in exact real arithmetic; bounded conformance '
        'replays run beside the proof. Trusted: the qv verifier, z3, NumPy/CPython; h and e are the 2019 SI constants.')
