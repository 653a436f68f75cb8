from . import qt

LEVEL = 'proof'
EXPLAIN = ('symbolic execution of qtcurrent for lists and arrays of arbitrary length, single numbers, DC and a supplied response matrix; row r is shown to be a function of entry r alone, and the shapes and the data type to follow the request')
ASSUME = []
