from . import hb, qt

LEVEL = 'proof'
EXPLAIN = ('frame obligations: on every path of harmonic_balance, qtcurrent, calculate_phase_factor_coeff and interpolate_respfn no element of a buffer owned by the caller is stored to and no attribute of the circuit is rebound')
ASSUME = []
