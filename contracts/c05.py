from . import hb

LEVEL = 'proof'
EXPLAIN = ('symbolic execution of harmonic_balance (1..4 tones, any number of harmonics, bias points and iterations): every path that leaves the iteration without the announcement is shown to satisfy the circuit inequality for an arbitrary signal and bias point, the carried arrays being unconstrained at the start of the iteration; check_hb_error is shown to refuse every voltage with a point missing the target')
ASSUME = []
NOTE = 'Proved for symbolic numbers of bias points, harmonics and iterations, 1-4 tones. The converse direction of the mask (unmarked points miss the target) and acceptance by the result check are decided by the bounded replay.'
