from . import qt

LEVEL = 'proof'
EXPLAIN = ('symbolic execution of calculate_phase_factor_coeff and _convolve_coefficients for arbitrary voltages, limits and numbers of harmonics (1..4 tones); the convolution over harmonics is proved with a loop invariant (established initially, preserved by an arbitrary iteration)')
ASSUME = []
