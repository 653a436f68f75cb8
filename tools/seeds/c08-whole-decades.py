PROPERTY = 'C08'
EDITS = [('qmix/circuit.py', "        elif units.lower() == 'dbm':\n            power = 10 ** (power / 10) * 1e-3", "        elif units.lower() == 'dbm':\n            power = 10. ** (power // 10) * 1e-3")]
NEEDS = 'a power in dBm that is not a multiple of ten'
BREAKS = 'the power is rounded down to whole decades when it is stored'
DEMO = '''
from qmix.circuit import EmbeddingCircuit
c = EmbeddingCircuit(1, 1, vgap=2.8e-3, rn=14.)
c.zt[1, 1] = 0.4
c.set_available_power(-43, 1, 1, 'dBm')
assert abs(c.available_power(1, 1, 'dBm') + 43) < 1e-9, c.available_power(1, 1, 'dBm')
'''
