"""helpers of the concrete oracles"""
import numpy as np

LOG = [[]]


class Bad(Exception):
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


def note(**kw):
    for k, v in kw.items():
        LOG[0].append('%s=%s' % (k, np.array2string(v, threshold=12) if isinstance(v, np.ndarray) else repr(v)))


def check(cond, msg, key=None):
    if not cond:
        raise Bad(msg, key)


def close(a, b, what, rtol=1e-7, atol=1e-9, key=None):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        raise Bad('%s: shape %s, expected %s' % (what, a.shape, b.shape), key)
    if a.size == 0:
        return
    bad = ~(np.abs(a - b) <= atol + rtol * np.abs(b))
    if bad.any():
        i = np.unravel_index(np.argmax(np.where(np.isnan(np.abs(a - b)), np.inf, np.abs(a - b) * bad)), a.shape) if a.shape else ()
        raise Bad('%s: got %r, expected %r at %r (%d of %d differ)' % (what, a[i], b[i], i, int(bad.sum()), a.size), key)


def oracle(table, n=10):
    def deco(f):
        table.append({'name': f.__name__, 'fn': f, 'n': n})
        return f
    return deco
