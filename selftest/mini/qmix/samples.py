"""Small functions covering the constructs the executor models (input of ../../differ.py).

Parameter names give the type: x y w float arrays, d increasing array, z complex array, q int array
(values 0..n-1), b bool array, m an n by 3 matrix, s t real scalars, k l int scalars, c complex scalar."""
from collections import namedtuple

import numpy as np


def at_least(n):
    def deco(f):
        f.nmin = n
        return f
    return deco


at_least.helper = True


# ---- aliasing, views, in-place operations
def view_write(x, y):
    a = x[1:]
    a[0] = 7.
    a += y[:-1]
    return x.sum()


def view_of_view(x):
    a = x[::-1][1:]
    a[:] = a * 2
    return a


def copy_write(x):
    a = x.copy()
    a[0] = 5.
    return a, x


def inplace_shift(x):
    x[1:] += x[:-1]
    return x


def assign_shift(x):
    x[:-1] = x[1:]
    return x


def self_reverse(x):
    x[:] = x[::-1]
    return x


def swap(x, y):
    x, y = y, x
    x[0] = 3.
    return x, y


def inplace_alias(x):
    a = x
    a *= 2
    b = x
    b = b + 1
    return a, b, x


def rebind_not_alias(x):
    a = x
    a = a * 2
    a[0] = 9.
    return a


def row_view(m):
    r = m[0]
    r[1] = 4.
    return m[:, 1]


def col_view(m, s):
    c_ = m[:, 2]
    c_ -= s
    return m


def transpose_view(m):
    a = m.T
    a[0, :] = 1.
    return m


def mat_block(m, k):
    m[1:, :2] = 0.
    return m * k


def masked_write(x, s):
    x[x > s] = s
    return x


def masked_write_array(x, y):
    mask = x > y
    x[mask] = y[mask]
    return x


def masked_add(x):
    x[x < 0] += 10
    return x


def mask_then_change(x):
    mask = x < 0
    x += 1
    return x[mask]


def fancy_copy(x, b):
    a = x[b]
    a += 1
    return a, x


def fancy_index(x, q):
    return x[q]


def fancy_write(x):
    x[[0, 1]] = x[[1, 0]]
    return x


def neg_index(x, k):
    return x[k]


def neg_slice(x, k):
    return x[k:]


def slice_hi(x, k):
    return x[:k]


def slice_both(x, k, l):
    return x[k:l]


def slice_step(x):
    return x[::2], x[1::2], x[::-2]


def write_neg_index(x, k, s):
    x[k] = s
    return x


# ---- branches, merging
def branch(x, s):
    if s > 0:
        x = x + s
    elif s == 0:
        x = x * 2
    else:
        x[0] = 1.
    return x


def branch_alias(x, y, s):
    if s > 0:
        a = x
    else:
        a = y
    a[0] = 100.
    return x, y


def early_return(x, s, t):
    if s > t:
        return x[0]
    x[0] = t
    if s == t:
        return x[1]
    return x[0] + s


def nested_if(s, t):
    r = 0
    if s > 0:
        if t > 0:
            r = 1
        else:
            r = 2
    elif t > s:
        r = 3
    return r


def tern(x, s):
    return x[0] if s < x[1] else (s if s > 0 else -s)


def bool_ops(s, t, k):
    a = s > 0 and t > 0
    b_ = s > 0 or not t > 0
    return a, b_, (k and s), (k or t)


def chain_cmp(s, t, k):
    return -1 < s <= t, s != t, k == 2


def raise_if(x, s):
    if s > 1:
        raise ValueError('too large')
    assert s != 0
    return x / 2


def try_except(x, k):
    try:
        r = x[k]
    except IndexError:
        r = -1.
    return r


# ---- loops
def loop_store(x):
    a = np.zeros(len(x))
    for i in range(len(x)):
        a[i] = x[i] * i
    return a


def loop_acc(x):
    r = 0.
    for i in range(1, len(x)):
        r += x[i] - x[i - 1]
    return r


def loop_values(x):
    r = 1.
    for v in x:
        r = r + v * v
    return r


def loop_skip(x, s):
    r = 0
    for v in x:
        if v < s:
            continue
        r += 1
    return r


def loop_break(x, s):
    i = -1
    for i in range(len(x)):
        if x[i] > s:
            break
    return i


def loop_else_return(x, s):
    for v in x:
        if v == s:
            return True
    return False


def loop_max(x):
    r = x[0]
    for v in x:
        r = max(r, v)
    return r


def loop_shift_inplace(x):
    for i in range(len(x) - 1):
        x[i] = x[i + 1]
    return x


def loop_rev_inplace(x):
    for i in range(len(x) - 1, 0, -1):
        x[i] = x[i - 1]
    return x


def loop_prefix(x):
    for i in range(1, len(x)):
        x[i] += x[i - 1]
    return x


def loop_nested(m):
    r = np.zeros(3)
    for i in range(m.shape[0]):
        for j in range(m.shape[1]):
            r[j] += m[i, j]
    return r


def loop_accum_matrix(x, y):
    a = np.zeros((len(x), len(y)))
    for i in range(len(x)):
        for j in range(i):
            a[i, j] = x[i] - y[j]
    return a


def loop_enumerate(x, y):
    r = 0
    for i, (u, v) in enumerate(zip(x, y)):
        r += i * u - v
    return r


def loop_small(x):
    out = []
    for i in range(3):
        out.append(i + x[0])
    return out


def loop_list(x):
    out = []
    for v in x:
        out.append(v * 2)
    return np.array(out)


def loop_last(x):
    for i in range(len(x)):
        v = x[i] + i
    return v, i


def loop_step(x):
    r = 0
    for i in range(0, len(x), 2):
        r += x[i]
    return r


def loop_cond_store(x, s):
    a = np.ones(len(x))
    for i in range(len(x)):
        if x[i] > s:
            a[i] = 0
    return a


def loop_same_cell(x):
    a = np.zeros(2)
    for i in range(len(x)):
        a[0] = x[i]
    return a


def while_small(k):
    i = 0
    while i < 3:
        i += 1
        k += i
    return k


def compr(x, k):
    return [v + k for v in x[:2]], sum(v for v in x), [i for i in range(4) if i % 2]


# ---- NumPy
def builders(k, s):
    return np.zeros(3), np.ones((2, 2)), np.full(2, s), np.arange(4), np.linspace(0., 1., 5), np.eye(2), np.array([[1, k], [2, 3]])


def arange_n(x):
    return np.arange(len(x)), np.arange(len(x) - 1, -1, -1), np.arange(1, len(x) + 1, dtype=float)


def linspace_n(x, s):
    return np.linspace(s, s + 2, len(x))


def like(x, z, q):
    return np.zeros_like(x), np.ones_like(z), np.empty_like(q) * 0, np.full_like(x, 2)


def dtypes(x, q, z, b, k, s):
    return x + k, q + k, q * s, q / 2, q // 2, z * s, b * 2, x + q, q ** 2, -q, b & (x > 0), ~b, np.abs(z), x > 0


def int_store(q, s):
    q[0] = s
    return q


def int_div(k, l):
    return k / 2, k // 2, k % 3, -k // 2, l % -3, 2 ** l if l >= 0 else 0


def real_floor(s, t):
    return s // 1, np.floor(s), np.ceil(t), int(s), round(s), np.sign(t)


def concat(x, y, s):
    return np.concatenate((x, y)), np.r_[x[0], y, s], np.append(x, s), np.hstack((x, y[1:]))


def stack(x, y):
    return np.vstack((x, y)).T, np.column_stack((x, y)), np.c_[x, y], np.stack((x, y))


def where3(x, y):
    return np.where(x > y, x, -y)


def where1(x, s):
    return np.where(x > s)[0]


def select_mask(x, y, s):
    return x[(x > s) | (y > 0)], np.sum(x > s), np.count_nonzero(x == s)


def masks_two(x, y, s):
    a = x[x >= s]
    b_ = y[x >= s]
    return a - b_


def mask_of_mask(x, s):
    a = x[x > s]
    return a[a > 1]


def mask_matrix(m, s):
    return m[m[:, 0] > s]


def mask_rev(x, s):
    a = x[x > s]
    return a[::-1]


def mask_edges(x, s):
    a = x[x > s]
    if len(a) == 0:
        return 0., 0.
    return a[0], a[-1]


def reductions(x, m, z):
    return np.sum(x), x.mean(), np.min(x), x.max(), np.sum(m, axis=0), m.sum(axis=1), np.sum(z), np.any(x > 1), np.all(x < 2), np.ptp(x)


def mat_minmax(m):
    return m.max(), np.min(m), np.mean(m, axis=0)


def arg(x, s):
    return np.argmin(np.abs(x - s)), x.argmax()


def arg_select(x, y):
    return y[np.argmin(x)]


def sort_pair(x, y):
    i = np.argsort(x, kind='stable')
    return x[i], y[i]


def sorted_copy(x):
    return np.sort(x), x


def flips(x, m):
    return x[::-1], np.flipud(m), np.fliplr(m), np.flip(x, 0)


def diffs(x):
    return np.diff(x), x[2:] - x[:-2]


def cums(x):
    return np.cumsum(x)


def clips(x, s):
    return np.minimum(x, s), np.maximum(x, 0), np.clip(x, -1, 1)


def outer(x, y):
    return x[:, None] * y[None, :], np.outer(x, y), x[:, np.newaxis] + y


def broadcasting(m, x):
    return m * x[:, None], m + np.array([1., 2., 3.]), m - m[0]


def dots(x, y, m):
    return np.dot(x, y), np.dot(m.T, x), x @ y, m.T.dot(y)


def complex_parts(z, c):
    return z.real, z.imag, np.conj(z), (z * c).real, abs(c), np.abs(z * c), 1j * z


def complex_from(x, y):
    a = np.zeros(len(x), dtype=complex)
    a.real = x
    a.imag = y
    return x + 1j * y


def elementary(x, s):
    return np.exp(x), np.sin(s), np.cos(x), np.sqrt(np.abs(x)), np.log(np.abs(s) + 1), np.tanh(x), 10 ** s, np.log10(s * s + 1)


def powers(x, s, z):
    return x ** 2, s ** 3, (x * x) ** 0.5, z ** 2, (s * s + 1) ** -1


def reshapes(m, x):
    return m.reshape(-1), m.ravel(), x.reshape(-1, 1), x.reshape((1, len(x))), m.T, m.flatten()


def reshape_view(x):
    a = x.reshape(-1, 1)
    a[0, 0] = 8.
    return a


def ravel_write(m):
    a = m.flatten()
    a[0] = 8.
    return m


def shapes(m, x, z):
    return m.shape, len(m), x.ndim, m.size, z.shape[0], m.T.shape


def interp1(d, y, s):
    return np.interp(s, d, y), np.interp(y, d, y)


def trapz(x, d):
    return (np.trapz if hasattr(np, "trapz") else np.trapezoid)(x, d)


def insert_delete(x, s):
    return np.insert(x, 0, s), np.delete(x, 0)


def tile_repeat(x):
    return np.tile(x, 2), np.repeat(x, 2)


def equal(x, y, s):
    return np.array_equal(x, y), np.allclose(x, x), np.isclose(s, s + 1), (x == y).all()


def meshes(x, y):
    a, b_ = np.meshgrid(x, y)
    return a, b_


def roll(x):
    return np.roll(x, 1)


def searchsorted(d, s):
    return np.searchsorted(d, s), np.searchsorted(d, s, side='right')


def unique(x):
    return np.unique(x)


def convolve(x):
    return np.convolve(x, np.array([1., 2., 1.]), 'same')


def polyfit(d, y):
    return np.polyfit(d, y, 1)


# ---- Python data
def containers(s, k):
    a = [s, k]
    b_ = a
    b_.append(1)
    d = {'a': a, 'b': s}
    d['c'] = len(b_)
    e = dict(d, b=k)
    return a, d, e, tuple(a[1:])


def list_mut(k):
    a = [1, 2, 3]
    a[0] = k
    a.insert(1, 9)
    b_ = a + [4]
    c_ = a[:]
    c_ += [5]
    a.extend([6])
    return a, b_, c_, a.pop(), a[::-1]


def list_alias(s):
    a = [s]
    b_ = [a, a]
    b_[0][0] = 5
    return b_


def unpack(x):
    (a, b_), *r = (x[0], x[1]), 1, 2
    return b_, a, r


def closures(s, t):
    def f(u, v=t):
        return u * s - v
    g = lambda u: f(u) + 1
    s = 5.
    return f(2), g(1), f(1, v=0)


def kwargs(s, **kw):
    return _kw(s, 2, c=3, **{'d': 4})


def _kw(a, *r, c=0, **k):
    return a, r, c, k['d'], len(k)


def strings(k):
    s = 'ab'
    return s.upper() + 'c', 'a' in s, s == 'ab', s[0], ('%d' % 3), s.lower() in ['ab', 'cd']


class Thing(object):
    scale = 2

    def __init__(self, x, s):
        self.x = x
        self.s = s

    @property
    def first(self):
        return self.x[0] * self.scale

    def grow(self, k=1):
        self.s += k
        self.x[0] += self.s
        return self


def objects(x, s):
    a = Thing(x, s)
    b_ = a.grow().grow(2)
    c_ = Thing(x.copy(), 0)
    c_.grow(5)
    return a.s, b_.first, c_.x, c_.first


def default_mutable(k):
    return _acc(k), _acc(1)


def _acc(k, seen=[]):
    return k + len(seen)


def global_const(x):
    return x * GAIN


GAIN = 3


# ---- conditions and containers
def two_guards(x, s, t):
    if s > 0:
        x = x.copy()
    if t > 0:
        x[0] = 50.
    return x


def two_guards_list(s, t):
    a = [1]
    if s > 0:
        a = [2]
    if t > 0:
        a[0] = 3
    return a


def two_guards_dict(s, t, k):
    d = {}
    if s > 0:
        d['a'] = np.zeros(2)
    if t > 0:
        d['b'] = k
    if 'a' in d and t > 0:
        d['a'][0] = 4.
    return d


def dict_get(s, k):
    d = {'a': 1}
    if s > 0:
        d['b'] = k
    return d.get('b', -1), d.get('a')


def guarded_key(s):
    d = {'a': 1}
    r = 0
    if s > 0:
        r = d['b']
    return r


def guarded_attr(x, s, t):
    o = Thing(x, 1)
    if s > 0:
        o.extra = 2
    if t > 0:
        o.s = 9
    return o.s, (o.extra if s > 0 else 0)


def guarded_missing_attr(x, s):
    o = Thing(x, 1)
    if s > 0:
        o.extra = 2
    return o.extra


def unbound(s):
    if s > 0:
        r = 1
    return r


def or_default(s, k):
    return (s or 5.), (k and 3), (None or k), (s > 0 or k)


def temp_swap(x, y, s):
    if s > 0:
        x, y = y, x
    x[0] = 11.
    y[0] = 12.
    return x, y


def late_source(x, y, s):
    a = x if s > 0 else y
    x[0] = 11.
    return a


def branch_new(x, s):
    if s > 0:
        a = x * 2
    else:
        a = np.zeros(len(x))
    a[0] += 1
    return a, x


def branch_dtype(x, q, s):
    a = q if s > 0 else x
    return a * 2


def branch_shape(x, s):
    if s > 0:
        a = x[1:]
    else:
        a = x
    return a, len(a)


def nested_return(x, s, t):
    if s > 0:
        if t > 0:
            return 1.
        x[0] = 2.
    x[1] = 3.
    if t == s:
        return x[0]
    return x[0] + x[1]


def return_in_loop(k):
    for i in range(3):
        if i == k:
            return i * 10
    return -1


def finally_run(x, k):
    r = []
    try:
        r.append(x[k])
    except (IndexError, KeyError):
        r.append(0.)
    finally:
        r.append(1.)
    return r


def try_key(d, k):
    e = {'a': 1}
    try:
        return e['b']
    except KeyError:
        return k


def loop_carry(x):
    p = x[0]
    r = 0.
    for i in range(1, len(x)):
        r += p * x[i]
        p = x[i]
    return r, p


def loop_alias(x):
    y = x
    for i in range(len(x)):
        y[i] = y[i] + i
    return x


def loop_row_view(m):
    for r in m:
        r[0] = r[1]
    return m


def loop_mask(m, s):
    out = np.zeros(len(m))
    for i in range(len(m)):
        r = m[i]
        out[i] = np.sum(r[r > s])
    return out


def loop_dup_index(x, q):
    a = np.zeros(len(x))
    for i in range(len(x)):
        a[q[i]] += x[i]
    return a


def loop_overwrite(x, q):
    a = np.zeros(len(x))
    for i in range(len(x)):
        a[q[i]] = x[i]
    return a


def fancy_dup(x, q):
    a = np.zeros(len(x))
    a[q] += x
    return a


def loop_read_written(x):
    a = np.zeros(len(x) + 1)
    for i in range(len(x)):
        a[i + 1] = a[i] + x[i]
    return a


def loop_flag(x, s):
    found = False
    for v in x:
        if v > s:
            found = True
    return found


def loop_last_match(x, s):
    k = -1
    for i in range(len(x)):
        if x[i] > s:
            k = i
    return k


def loop_inner_range(x):
    r = 0.
    for i in range(len(x)):
        for j in range(i + 1, len(x)):
            r += x[i] * x[j]
    return r


def loop_two_arrays(x, y):
    for i in range(len(x)):
        x[i] += 1
        y[i] = x[i] * 2
    return x, y


def loop_const(x):
    a = np.zeros((2, len(x)))
    for k in (0, 1):
        for i in range(len(x)):
            a[k, i] = x[i] + k
    return a


def loop_raise(x, s):
    for v in x:
        if v > s:
            raise ValueError
    return 1


def loop_zip3(x, y, w):
    r = []
    for a, b_, c_ in zip(x, y, w):
        r.append(a * b_ + c_)
    return np.array(r)


def loop_rev(x):
    r = np.zeros(len(x))
    for i, v in enumerate(x[::-1]):
        r[i] = v
    return r


def mask_shift(x):
    mask = np.zeros(len(x), dtype=bool)
    mask[1:] = x[1:] > x[:-1]
    return x[mask], mask


def mask_and_index(x, y, s):
    i = np.arange(len(x))[x > s]
    return y[i]


def mask_set_scalar(z, s):
    z[z.real > s] = 0
    return z


def mask_matrix_set(m, s):
    m[m > s] = 0.
    return m


def mask_col_set(m, s):
    m[m[:, 0] > s, 1] = 5.
    return m


def mask_row_view(m, s):
    a = m[:, 0]
    a[a > s] = 5.
    return m


def compare_chain_arrays(x, s, t):
    return x[(s <= x) & (x <= t)], ((x > s) & ~(x > t)).sum()


def int_bool_sum(b, q):
    return b.sum(), (q > 0).sum() + 1, b + 1, b * q, -1 * b


def maxes(x, s, t, k):
    return max(s, t), min(s, t, float(k)), max(x), abs(s), sum(x), max(k, 0)


def nanfree(x):
    return np.isnan(x).any(), x[~np.isnan(x)]


def sort_desc(x, y):
    i = np.argsort(x, kind='stable')[::-1]
    return y[i]


def sort_matrix(m):
    return m[m[:, 1].argsort(kind='stable')]


def sort_mask(x, y, s):
    i = np.argsort(x, kind='stable')
    a, b_ = x[i], y[i]
    return b_[a > s]


def argmin_slice(x, s):
    i = np.abs(x[1:] - s).argmin()
    return x[i + 1], i


def argmax_bool(x, s):
    return np.argmax(x > s)


def any_all(x, s):
    if np.any(x > s):
        return 1
    if np.all(x < s):
        return 2
    return 3


def any_write(x, s):
    if (x > s).any():
        x[0] = 0
    return x


def interp_ends(d, y, s):
    return np.interp(s, d, y, left=-1., right=7.)


def interp_mask(d, y, s):
    i = d > 1
    return np.interp(s, d, y) if i.any() else 0.


def powers_neg(s, k):
    return (-1) ** k if k >= 0 else 0, 2. ** k, (-2.) ** 3


def sums_axis(m, x):
    return (m * x[:, None]).sum(axis=0), np.sum(m ** 2), np.sum(m[:, :2], axis=1)


def complex_write(z, x):
    z.real[0] = 5.
    z[1] = x[0] + 2j
    return z, z.real


def complex_abs_mask(z, s):
    return z[np.abs(z) > s]


def prods(x):
    return np.prod(x[:2]), np.cumsum(x)


def copies(m):
    a = np.array(m)
    b_ = np.asarray(m)
    c_ = np.array(m, copy=True)
    b_[0, 0] = 1.
    a[0, 0] = 2.
    return m, c_


def astypes(x, q, b):
    return x.astype(int), q.astype(float), b.astype(int), x.astype(complex)


def float_of(q, s, k):
    return float(k), int(s * 3), bool(k), float(q[0]), complex(s, k)


def iterate_matrix(m):
    r = 0.
    for a, b_, c_ in m:
        r += a * b_ - c_
    return r


def unpack_cols(m):
    a, b_, c_ = m.T
    a[0] = 9.
    return m, b_


def kw_mut(k):
    d = {'a': k}
    _setb(d)
    return d


def _setb(d):
    d['b'] = 2
    d = {}
    d['c'] = 1


def arg_mut(x):
    _zero(x)
    _zero(x[1:])
    _zero(x * 1)
    return x


def _zero(a):
    a[0] = 0.
    a = a + 1
    a[0] = 77.


def del_none(s=None, k=None):
    return s if s is not None else 1, k is None


def ranges(k, l):
    return len(range(k, l)), list(range(3)), sum(range(4)), range(0, 10, 3)[-1]


def round_half(s, x):
    return round(s), np.round(x), round(s, 1), np.rint(s)


def mod_float(s, k):
    return s % 2, k % 2 == 0, (k + 1) % 2, -7 % 3, divmod(7, 2)


def floor_div_neg(k, s):
    return k // 3, s // 2, -(k // -3)


# ---- shared memory of results
def flip_write(x):
    a = np.flip(x)
    a[0] = 5.
    return x


def real_write(z):
    a = np.real(z)
    a[0] = 5.
    return z


def imag_after(z):
    a = z.imag
    z *= 2
    return a


def atleast_write(x):
    a = np.atleast_1d(x)
    a[0] = 5.
    return x


def asarray_write(x):
    a = np.asarray(x, dtype=float)
    a[0] = 5.
    return x


def astype_write(x):
    a = x.astype(float)
    a[0] = 5.
    return x


def array_of_list(x):
    l_ = [x, x * 2]
    a = np.array(l_)
    a[0, 0] = 5.
    return x, l_


def list_of_views(x):
    l_ = [x[:1], x[1:]]
    l_[0][0] = 4.
    l_[1] += 1
    return x


def tuple_alias(x, y):
    p = (x, y)
    p[0][0] = 3.
    x = x + 1
    return p, x


def dict_alias(x):
    d = {'x': x}
    e = d.copy()
    e['x'][0] = 3.
    e['x'] = 0
    return d


def attr_alias(x):
    o = Thing(x, 0)
    x[0] = 6.
    o.x = o.x + 1
    o.x[1] = 7.
    return x, o.x


def matrix_loop_views(m):
    for j in range(3):
        c_ = m[:, j]
        c_ += j
    return m


def nested_slices(m):
    m[1:][:, 1] = 0
    m[0][2] = 9.
    return m


def newaxis_write(x):
    a = x[:, None]
    a[0, 0] = 5.
    return x


def transpose_inplace(m):
    m.T[1] += 5
    return m


def aug_view(x):
    x[1:] *= x[:-1]
    return x


def aug_reverse(x):
    x += x[::-1]
    return x


def aug_self_dot(x):
    x -= x[0]
    return x


def aug_first(x):
    x /= x[0] + 10
    return x


def chained(x):
    a = b_ = x * 1
    a[0] = 1.
    return b_


def multi_targets(x):
    i = 0
    i, x[i] = 1, 5.
    return i, x


def order_eval(x):
    x[0], x[1] = x[1], x[0]
    return x


def view_swap(x):
    a, b_ = x[:1], x[1:2]
    a[0], b_[0] = b_[0], a[0]
    return x


def slice_swap(x):
    x[:1], x[1:2] = x[1:2], x[:1]
    return x


def row_swap(m):
    m[0], m[1] = m[1], m[0]
    return m


def row_swap_copy(m):
    m[0], m[1] = m[1].copy(), m[0].copy()
    return m


def late_closure(s):
    fs = []
    for i in range(3):
        fs.append(lambda: i + s)
    return [f() for f in fs]


def default_closure(s):
    fs = [lambda i=i: i + s for i in range(3)]
    return [f() for f in fs]


def inner_write(s):
    r = [0]

    def f(v):
        r[0] += v
        return r[0]
    return f(s), f(1), r


def nonlocal_write(s):
    r = 0

    def f():
        nonlocal r
        r += s
    f()
    f()
    return r


def recursion(k):
    return _fact(3) + k


def _fact(i):
    return 1 if i == 0 else i * _fact(i - 1)


class Sub(Thing):
    scale = 3

    def __init__(self, x, s):
        super().__init__(x, s)
        self.extra = s + 1

    def grow(self, k=1):
        Thing.grow(self, k)
        self.extra *= 2
        return self

    @staticmethod
    def stat(k):
        return k + 1

    @classmethod
    def make(cls, x):
        return cls(x, 4)


def inherit(x, s, k):
    o = Sub(x, s).grow(k)
    return o.first, o.extra, o.s, Sub.stat(k), o.stat(2), Sub.make(x).s, isinstance(o, Thing)


def class_attr(x, s):
    a, b_ = Thing(x, s), Thing(x, s)
    a.scale = 5
    return a.first, b_.first


def prop_set(s):
    o = Level(s)
    o.level = 3
    o.level += s
    return o.level, o._l


class Level(object):
    def __init__(self, s):
        self.level = s

    @property
    def level(self):
        return self._l * 2

    @level.setter
    def level(self, v):
        self._l = v + 1


def getattr_names(s):
    o = Level(s)
    for n_ in ('a', 'b'):
        setattr(o, n_, s)
    return o.a, getattr(o, 'zz', 4), hasattr(o, 'b'), o.__dict__['a']


def dict_update(k, s):
    d = {'a': 1, 'b': 2}
    d.update({'b': k, 'c': s})
    d.update(e=5)
    r = d.pop('a')
    d.setdefault('b', 9)
    d.setdefault('f', 9)
    return d, r, sorted(d.keys()), list(d.values())[0], len(d), [a for a, b_ in d.items()]


def str_format(k):
    return '{0}-{1}'.format('a', 'b'), 'a,b'.split(','), ' x '.strip(), '-'.join(['a', 'b']), 'abc'.replace('b', ''), 'abc'.startswith('ab')


def isinst(s, k, x, z):
    return isinstance(s, float), isinstance(k, int), isinstance(x, np.ndarray), isinstance(s, (int, float)), isinstance([1], list), isinstance(k, bool), np.iscomplexobj(z)


def types_in(s):
    return _kind(s), _kind([s]), _kind(None), _kind('a'), _kind(True)


def _kind(v):
    if isinstance(v, bool):
        return 1
    if isinstance(v, (int, float)):
        return 2
    if v is None:
        return 3
    if isinstance(v, str):
        return 4
    return 5


def mean_std(x):
    return x.mean(), np.mean(np.abs(x)), np.var(x)


def diff_prepend(x):
    return np.diff(x)[::-1], np.diff(x, n=1)


def diff_matrix(m):
    return np.diff(m[:, 0]), m[1:] - m[:-1]


def abs_complex_sum(z):
    return np.sum(np.abs(z) ** 2), (z * z.conj()).real.sum()


def cond_expr_array(x, s):
    return (x if s > 0 else -x) + 1


def bool_index_scalar(x, s):
    return x[x > s].size, len(x[x <= s]), (x > s).mean()


def bool_logic(x, y):
    return np.logical_and(x > 0, y > 0), np.logical_not(x > 0), np.logical_or(x > 0, y < 0), (x > 0) ^ (y > 0)


def where_scalar(s, x):
    return np.where(s > 0, x, 1.), np.where(x > 0, 1, 0)


def linspace_ends(s, t):
    return np.linspace(s, t, 3), np.linspace(s, t, 4, endpoint=False), np.linspace(s, t, 1)


def arange_float(s):
    return np.arange(0, 1, .25), np.arange(3, dtype=float) + s, np.arange(1, 4) * s


def complex_scalar(c, s):
    return c.real, c.imag, c.conjugate(), abs(c), c * s, complex(s, 1), c == s


def matrix_ops(m):
    a = np.array([[2., 1.], [1., 3.]])
    return np.dot(m, np.ones(3)), a.dot(a), np.linalg.inv(a), a @ np.ones(2)


def big_index(m, k):
    return m[k, 0], m[0, k - 1]


def ellipsis(m):
    return m[..., 0], m[:, :, None].shape


def column_assign(m, x):
    m[:, 0] = x
    m[:, 1:] = 0
    return m


def column_broadcast(m):
    m[:] = m[:, :1]
    return m


def row_broadcast(m):
    m[1:] = m[0]
    return m


def zeros_assign(x, k):
    a = np.zeros((2, len(x)), dtype=complex)
    a[0] = x
    a[1] = 1j * x
    return a


def empty_assign(x):
    a = np.empty(len(x))
    a[:] = x
    a[0] = 0
    return a


def empty_partly(x):
    a = np.empty(2)
    a[0] = 1
    a[1] = x[0]
    return a


def empty_slices(x):
    return x[3:2], x[0:0].sum(), np.zeros(0)


def mask_none(x):
    return x[x > 100], np.sum(x[x > 100])


def mask_all(x):
    return x[x < 100]


def first_above(x, s):
    m_ = x > s
    if not m_.any():
        return -1
    return np.argmax(m_)


def count_loop(x, s):
    n_ = 0
    for v in x:
        if v > s:
            n_ += 1
    return n_


def loop_min_idx(x):
    best, k = x[0], 0
    for i in range(1, len(x)):
        if x[i] < best:
            best, k = x[i], i
    return best, k


def loop_cond_else(x, s):
    a = np.zeros(len(x))
    for i in range(len(x)):
        if x[i] > s:
            a[i] = 1.
        elif i == 0:
            a[i] = 2.
        else:
            a[i] += x[i - 1]
    return a


def loop_temp_array(x):
    r = 0.
    for i in range(len(x)):
        a = x * i
        a[0] = 1.
        r += a.sum()
    return r


def loop_matrix_row(m):
    a = np.zeros_like(m)
    for i in range(m.shape[0]):
        a[i, :] = m[i] * i
        a[i, 0] += 1
    return a


def loop_neighbours(x):
    a = np.zeros(len(x))
    for i in range(1, len(x) - 1):
        a[i] = x[i - 1] + x[i + 1]
    return a


def loop_scatter_add(x):
    a = np.zeros(len(x) + 1)
    for i in range(len(x)):
        a[i] += x[i]
        a[i + 1] -= x[i]
    return a


def loop_both_ends(x):
    a = np.zeros(len(x))
    for i in range(len(x)):
        a[len(x) - 1 - i] = x[i]
    return a


def loop_half(x):
    for i in range(len(x) // 2):
        x[i], x[len(x) - 1 - i] = x[len(x) - 1 - i], x[i]
    return x


def while_count(x):
    i = 0
    while i < len(x):
        x[i] = 0.
        i += 1
    return x, i


def while_search(x, s):
    i = 0
    while i < len(x) and x[i] < s:
        i += 1
    return i


def dict_int_keys(s):
    d = {1: s, 2: s * 2}
    d[3] = s + 1
    d[2.0] = s - 1
    return d[1], d[2], len(d), d[True]


def dict_dispatch(s):
    def f(y):
        return y + 1

    def g(y):
        return y * 3
    table = {1: f, 2: g}
    return table[2](s) + table.get(1)(s)


def diff_short(x):
    return np.diff(x[:1])


def named(s, t):
    P = namedtuple('P', ['a', 'b'])
    p = P(s, b=t)
    u, w = p
    return u + p.a, w + p[1], len(p)


def where_then_zero(x):
    d = np.zeros(len(x))
    d[1:] = x[1:] - x[:-1]
    d[0] = d[1]
    d = np.where(d == 0, 5.0, d)
    return d, d[0], d[1], d[-1]


def context_memo(x, k):
    y = x * 2
    y[0] = 7.
    z = y + 1
    if k == 0:
        a = z[k]
    else:
        a = -1.
    i = min(abs(k), 1)
    return a, z[i], z


def minmax_mixed(x, k):
    return min(len(x), 1), max(len(x) - 2, 0), min(k, k + 1), max(3, k)
