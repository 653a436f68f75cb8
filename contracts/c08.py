from . import circ
LEVEL = 'proof'
EXPLAIN = ('symbolic execution of set_available_power and available_power for arbitrary tone, harmonic, power, impedance and junction constants '
           'in every unit (and letter case); postconditions: exact formula, frame (nothing else changes), and read-after-set for every pair of units')
NOTE = ('Every obligation generated from the current source is discharged for all circuits, signals and powers, in exact real arithmetic (rounding '
        'is not modelled); bounded conformance replays run beside the proof. Trusted: the qv verifier, z3, NumPy/CPython.')
