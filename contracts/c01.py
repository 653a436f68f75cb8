from . import qt

LEVEL = 'proof'
EXPLAIN = ('symbolic execution of the current source of qtcurrent and every _current_*_tone* function for an arbitrary number of bias points, harmonics, summation limits and requested frequencies (1..4 tones, the whole supported range); the result is compared with the closed form of the multi-tone formula; phase factors and response matrix enter through their own contracts, which this check verifies too')
ASSUME = []
