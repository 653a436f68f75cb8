"""Data cleaning: rows of the input, NaN-free, strictly increasing, nothing lost."""
import numpy as np
from common import note, check, close, oracle
from qmix.exp import clean_data as D

ORACLES = []
SIZES = (0, 1, 2, 3, 4, 7, 20, 60)


def column(rng, n, k):
    if k % 3 == 0:
        x = rng.randint(-3, 4, n).astype(float)            # many repeats
    elif k % 3 == 1:
        x = rng.randn(n)
    else:
        x = np.round(rng.randn(n), 1) * rng.choice([1e-9, 1., 1e9])
    return x


def data(rng, k, cols=2, nans=True):
    n = int(rng.choice(SIZES))
    m = np.stack([column(rng, n, k + j) for j in range(cols)], axis=1).reshape(n, cols)
    if nans:
        p = rng.choice([0., 0., .2, .5, 1.])
        m[rng.rand(n, cols) < p * rng.rand()] = np.nan
        if k % 7 == 0 and n:
            m[:, int(rng.randint(cols))] = np.nan
    if k % 5 == 0:
        m = m[np.argsort(m[:, 0], kind='stable')]
    return m


def c_inf(k):
    return np.inf if k % 8 == 3 else -np.inf


def rows(m):
    return sorted(tuple(r) for r in np.asarray(m).tolist())


def good(m):
    return m[~np.isnan(m).any(axis=1)]


@oracle(ORACLES, 400)
def clean(rng, k):
    m = data(rng, k)
    note(m=m)
    m0 = m.copy()
    if k % 2:
        x, y = m[:, 0].copy(), m[:, 1].copy()
        a, b = D.clean_xy(x, y)
        check(np.array_equal(x, m0[:, 0], equal_nan=True) and np.array_equal(y, m0[:, 1], equal_nan=True), 'input modified')
        check(np.ndim(a) == 1 and np.shape(a) == np.shape(b), 'x and y have one length')
        r = np.stack([a, b], axis=1).reshape(len(a), 2)
    else:
        r = D.clean_matrix(m)
        check(np.array_equal(m, m0, equal_nan=True), 'input modified')
        check(r.ndim == 2 and r.shape[1] == 2, 'shape of the result')
    g = good(m0)
    check(not np.isnan(r).any(), 'NaN in the result')
    check((np.diff(r[:, 0]) > 0).all(), 'strictly increasing')
    have = set(rows(g))
    check(all(q in have for q in rows(r)), 'every row occurs in the input')
    check(set(r[:, 0].tolist()) == set(g[:, 0].tolist()), 'every key of a NaN-free row is kept')


@oracle(ORACLES, 200)
def sort_only(rng, k):
    w = int(rng.choice([1, 2, 3, 5]))
    m = data(rng, k, w, nans=False)
    col = int(rng.randint(-w, w))
    note(m=m, col=col)
    m0 = m.copy()
    r = D.sort_matrix(m, col) if col or k % 2 else D.sort_matrix(m)
    check(np.array_equal(m, m0), 'input modified')
    check(rows(r) == rows(m0), 'a permutation of the rows')
    check((np.diff(r[:, col]) >= 0).all(), 'sorted by the requested column')
    if w > 1:
        x, y = D.sort_xy(m[:, 0], m[:, 1])
        check(rows(np.stack([x, y], 1)) == rows(m0[:, :2]) and (np.diff(x) >= 0).all(), 'x/y data sorted')


@oracle(ORACLES, 250)
def doubles(rng, k):
    w = int(rng.choice([1, 2, 3]))
    m = data(rng, k, w, nans=False)
    col = int(rng.randint(-w, w))
    ordered = k % 4 != 0
    if ordered:
        m = m[np.argsort(m[:, col], kind='stable')]
    note(m=m, col=col)
    key = m[:, col]
    issorted = bool((np.diff(key) >= 0).all())
    for xy in (False, True):
        try:
            if xy:
                x, y = D.remove_doubles_xy(key, np.arange(len(key)))
                pos = np.asarray(y).astype(int)
                check(np.array_equal(key[pos], x), 'pairing')
                r = m[pos]
            else:
                r = D.remove_doubles_matrix(m, col)
        except AssertionError:
            check(not issorted, 'sorted data refused')
            continue
        check(issorted, 'unsorted data accepted')
        check((np.diff(r[:, col]) > 0).all(), 'strictly increasing')
        check(set(r[:, col].tolist()) == set(key.tolist()), 'every key kept')
        have = set(rows(m))
        check(all(q in have for q in rows(r)), 'rows of the input')
    if issorted:
        a = D.remove_doubles_matrix(m, col, check=False)
        b = D.remove_doubles_matrix(m, col, check=True)
        check(np.array_equal(a, b), 'the check does not change the result')


@oracle(ORACLES, 100)
def nans(rng, k):
    m = data(rng, k)
    if k % 4 == 3 and m.size:
        j = int(rng.randint(len(m)))
        m[j, int(rng.randint(2))] = c_inf(k)
        if k % 3:
            m[j] = c_inf(k), -c_inf(k)
    note(m=m)
    r = D.remove_nans_matrix(m)
    check(np.array_equal(r, good(m)), 'NaN rows removed, order kept')
    x, y = D.remove_nans_xy(m[:, 0], m[:, 1])
    check(np.array_equal(np.stack([x, y], 1), good(m)), 'NaN pairs removed, order kept')
    q = D.xy_to_matrix(m[:, 0], m[:, 1])
    check(np.array_equal(q, m, equal_nan=True), 'x/y to matrix')
    a, b = D.matrix_to_xy(q)
    check(np.array_equal(a, m[:, 0], equal_nan=True) and np.array_equal(b, m[:, 1], equal_nan=True), 'matrix to x/y')


@oracle(ORACLES, 20)
def refused(rng, k):
    n = int(rng.randint(0, 6))
    note(n=n)
    for f, a in ((D.clean_xy, (np.zeros(n), np.zeros(n + 1))), (D.clean_matrix, (np.zeros((n, 3)),))):
        try:
            f(*a)
        except AssertionError:
            continue
        check(False, 'accepted badly shaped data')
