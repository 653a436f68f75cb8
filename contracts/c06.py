from . import hb

LEVEL = 'proof'
EXPLAIN = ('symbolic execution of one arbitrary iteration of harmonic_balance and of _inv_jacobian: every entry of the matrix that is inverted is compared with the forward finite difference of the circuit error, and the carried voltage after the iteration with v - damp * inverse . error; numpy.linalg.inv is an unconstrained function')
ASSUME = []
NOTE = 'Proved for symbolic numbers of bias points, harmonics and iterations, 1-4 tones. Finite-difference accuracy itself is outside the property.'
