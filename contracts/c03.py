from . import qt

LEVEL = 'proof'
EXPLAIN = ('symbolic execution of interpolate_respfn for arbitrary limits, bias sweeps and response functions (1..4 tones); every entry of the matrix is compared with the response at the shifted bias voltage; all other tone counts are shown to raise ValueError')
ASSUME = []
