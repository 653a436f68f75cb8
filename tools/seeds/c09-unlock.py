PROPERTY = 'C09'
EDITS = [('qmix/circuit.py', "        self.freq.flags.writeable = True\n        self.vt.flags.writeable = True\n        self.zt.flags.writeable = True\n", "        self.freq.flags.writeable = True\n        self.vt.setflags(write=True)\n        self.zt = self.zt.real.copy() if not self.zt.imag.any() else self.zt.copy()\n")]
NEEDS = 'lock and unlock a circuit whose impedances are all real, then store a complex impedance'
BREAKS = 'unlocking replaces the impedance array by a real one, so later complex impedances are truncated'
DEMO = '''
import numpy as np, warnings
warnings.simplefilter('ignore')
from qmix.circuit import EmbeddingCircuit
c = EmbeddingCircuit(1, 1)
c.zt[1, 1] = 0.4
z = c.zt
c.lock()
c.unlock()
assert c.zt is z and c.zt.dtype == complex
c.zt[1, 1] = 0.3 + 0.2j
assert c.zt[1, 1] == 0.3 + 0.2j
'''
