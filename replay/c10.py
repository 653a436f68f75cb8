import os
import shutil
import tempfile

from circ_or import *
from qmix.circuit import EmbeddingCircuit, read_circuit
ORACLES = []


class scratch(object):
    """a scratch directory as working directory; nothing is written outside it"""

    def __enter__(self):
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix='qv-c10-')
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.dir)


def same(c, r):
    check(isinstance(r, EmbeddingCircuit), 'an embedding circuit is read')
    check(r.num_f == c.num_f and r.num_p == c.num_p and isinstance(r.num_f, int) and isinstance(r.num_p, int), 'numbers of tones and harmonics: %r %r' % (r.num_f, r.num_p))
    check(r.freq.shape == (c.num_f + 1,) and r.vt.shape == r.zt.shape == (c.num_f + 1, c.num_p + 1), 'array shapes')
    for nm, tol in (('freq', 0.5e-4), ('vt', 0.5e-4), ('zt', 0.5e-2)):
        a, b = getattr(c, nm), getattr(r, nm)
        a, b = (a[1:], b[1:]) if a.ndim == 1 else (a[1:, 1:], b[1:, 1:])
        for part in ('real', 'imag'):
            x, y = getattr(np.asarray(a, dtype=complex), part), getattr(np.asarray(b, dtype=complex), part)
            close(y, x, '%s (%s part) read back' % (nm, part), rtol=1e-12, atol=tol * (1 + 1e-9))


def fill(c, rng, k):
    sh = c.vt[1:, 1:].shape
    mag = [1, 1, 100., 1e4, 1e-3, 12345.678][k % 6]
    z = lambda m: m * (rng.normal(size=sh) + 1j * rng.normal(size=sh))
    c.freq[1:] = rng.uniform(0, [1, 3, 20, 1000][k % 4], size=c.num_f)
    c.vt[1:, 1:] = z(mag)
    c.zt[1:, 1:] = z([1, 50, 1e3, 1e-2][(k // 2) % 4])
    m = rng.randint(6, size=sh)
    c.vt[1:, 1:][m == 0] = 0
    c.vt[1:, 1:][m == 1] = c.vt[1:, 1:][m == 1].real
    c.zt[1:, 1:][m == 2] = 0
    c.zt[1:, 1:][m == 3] = -1j * abs(c.zt[1:, 1:][m == 3].imag)
    c.vt[1:, 1:][m == 4] = -0.00001 - 0.00001j
    if k % 5 == 0:
        c.zt[1:, 1:] = abs(c.zt[1:, 1:].real)
    if k % 7 == 0:
        c.freq[1:] = np.round(c.freq[1:], 1)
    if k % 11 == 0:
        c.freq[:] = np.arange(c.num_f + 1)


@oracle(ORACLES, 120)
def round_trip(rng, k):
    nf, np_ = 1 + k % 4, [1, 2, 3, 9, 10, 11, 25][(k // 4) % 7]
    kw = [{}, {'vgap': 2.8e-3, 'rn': 14.}, {'fgap': 7e11}, {'vgap': 2.8e-3, 'rn': 14., 'fgap': 677e9, 'name': 'Number of tones: 3 f=7'}][k % 4]
    c = EmbeddingCircuit(nf, np_, **kw)
    fill(c, rng, k)
    if k % 3 == 1:
        c.lock()
    st = state(c)
    note(nf=nf, np=np_, kw=kw, freq=c.freq, vt=c.vt, zt=c.zt)
    with scratch() as d:
        name = [None, 'x.txt', os.path.join(d, 'f=9, p=8 freq.txt'), 'a b'][k % 4]
        if name is None:
            c.save_info()
            name = 'embedding-circuit.txt'
        elif k % 8 < 4:
            c.save_info(name)
        else:
            c.save_info(filename=name)
        check(os.listdir('.') == [os.path.basename(name)], 'files written: %r' % os.listdir('.'))
        r = read_circuit(name)
        same(c, r)
        same_state(c, st)
        # what was read can be saved and read again, over an older and longer file
        r.save_info(name)
        same(r, read_circuit(name))
        s = EmbeddingCircuit(1, 1)
        fill(s, rng, k + 1)
        s.save_info(name)
        same(s, read_circuit(name))
