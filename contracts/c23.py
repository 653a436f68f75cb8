from . import objects
LEVEL = 'proof'
EXPLAIN = ('symbolic execution of the constructors of DCData and PumpedData with any combination of data, the imports (C16, C20), response functions (C11) and recovery (C21) by contract: '
           'what is handed to each, and every attribute stored, for data of any length and any parameters')
NOTE = ('Assumed: np.interp and polyfit by name, best gain positive; the qv verifier, z3. Printing is not modelled.')
