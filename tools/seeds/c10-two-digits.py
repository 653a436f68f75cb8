PROPERTY = 'C10'
EDITS = [('qmix/circuit.py', "p = int(re.search(r'\\d+', split_line[1]).group())", "p = int(re.search(r'p=(\\d)', split_line[1]).group(1))")]
NEEDS = 'ten or more harmonics'
BREAKS = 'reading a circuit back puts harmonic 10 and above in the place of harmonic 1'
DEMO = '''
import os, tempfile
import numpy as np
from qmix.circuit import EmbeddingCircuit, read_circuit
for n in (3, 11):
    c = EmbeddingCircuit(1, n)
    c.freq[1] = .3
    for p in range(1, n + 1):
        c.vt[1, p], c.zt[1, p] = .1 * p, p - .5j
    d = tempfile.mkdtemp()
    f = os.path.join(d, 'c.txt')
    c.save_info(f)
    r = read_circuit(f)
    os.remove(f)
    os.rmdir(d)
    assert np.allclose(r.vt, c.vt, atol=1e-4) and np.allclose(r.zt, c.zt, atol=1e-2)
'''
