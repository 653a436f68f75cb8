"""Assumed contracts of the Python builtins, numpy and scipy functions QMix calls."""
from . import solve as S
from . import text
from .values import *
from .solve import *
from . import terms as T

DT = ['bool', 'int', 'float', 'complex']
SORTOF = {'bool': INT, 'int': INT, 'float': REAL, 'complex': CPLX}

PI = sym('pi', REAL)
POS.add(atom_of(PI))
_H, _E, _K = con(Fr('6.62607015e-34')), con(Fr('1.602176634e-19')), con(Fr('1.380649e-23'))      # 2019 SI

SI = {'exa': 18, 'peta': 15, 'tera': 12, 'giga': 9, 'mega': 6, 'kilo': 3, 'hecto': 2, 'deka': 1, 'deci': -1, 'centi': -2,
      'milli': -3, 'micro': -6, 'nano': -9, 'pico': -12, 'femto': -15, 'atto': -18}

CONSTS = {
    'h': _H, 'Planck': _H, 'e': _E, 'elementary_charge': _E, 'k': _K, 'Boltzmann': _K, 'pi': PI,
    'hbar': _H / (2 * PI),
}


IMAG = P(T.I_ATOM)


class NanV(object):
    pass


def install(it):
    it._bcache = {}


FUN = {}      # 'numpy.abs' -> fn(it, args, kw)


def np_(*names):
    def deco(f):
        for n in names:
            FUN['numpy.' + n] = f
        return f
    return deco


def reg(*names):
    def deco(f):
        for n in names:
            FUN[n] = f
        return f
    return deco


def mod_attr(it, name, attr):
    full = name + '.' + attr
    if name in ('scipy.constants',):
        if attr in CONSTS:
            return Num(CONSTS[attr], 'float')
        if attr in SI:
            return Num(con(Fr(10) ** SI[attr]), 'float')
        return Opaque('scipy.constants.' + attr)
    if name == 'numpy':
        if attr in ('pi',):
            return Num(PI, 'float')
        if attr == 'e':
            return Num(app('exp', [ONE]), 'float')
        if attr == 'newaxis':
            return None
        if attr in ('linalg', 'fft', 'random', 'testing'):
            return Module('numpy.' + attr)
        if attr == 'nan':
            return Num(raw_app('nan', (), REAL), 'float')
        if attr == 'inf':
            return Num(raw_app('inf', (), REAL), 'float')
        if attr in ('float64', 'float_', 'double', 'float32'):
            return builtin(it, 'float') if attr != 'float32' else Opaque('float32')
        if attr in ('complex128', 'complex_', 'cdouble'):
            return builtin(it, 'complex')
        if attr in ('int64', 'int_', 'intp', 'int32'):
            return builtin(it, 'int')
        if attr in ('bool_',):
            return builtin(it, 'bool')
        if attr == 'ndarray':
            return Builtin('ndarray')
        if attr == 'r_':
            b = Builtin('r_')
            b.getitem = lambda it, ix: concatenate(it, list(ix) if isinstance(ix, tuple) else [ix])
            return b
        if attr == 'c_':
            return Opaque('np.c_')
    if full in FUN:
        return Builtin(full, FUN[full])
    if full in ('re.search', 're.findall'):
        return Builtin(full, text.re_func(full))
    if name == 'scipy' and attr in ('constants', 'special', 'signal', 'interpolate', 'optimize', 'stats', 'integrate'):
        return Module('scipy.' + attr)
    if name in ('matplotlib', 'matplotlib.pyplot', 'os', 'sys', 'warnings', 'glob', 're', 'timeit', 'os.path'):
        if full in ('timeit.default_timer',):
            return Builtin('timer', lambda it, a, k: Num(P(fresh('time', REAL)), 'float'))
        if name.startswith('matplotlib'):
            return Builtin(full, lambda it, a, k: Opaque('plot'))
        return Opaque(full)
    if name == 'copy' and attr in ('deepcopy', 'copy'):
        return Builtin(full, lambda it, a, k: deepcopy(it, a[0]))
    if name == 'collections' and attr == 'namedtuple':
        return Builtin(full, mk_namedtuple)
    return Opaque('external %s' % full)


# ------------------------------------------------------------------- builtins

def builtin(it, name):
    r = it._bcache.get(name)
    if r is None:
        f = BI.get(name)
        if f is not None:
            r = Builtin(name, f)
        elif name in ('True', 'False', 'None'):
            return {'True': True, 'False': False, 'None': None}[name]
        elif name in EXC:
            r = ExcClass(name)
        elif name == 'Ellipsis':
            return Ellipsis
        else:
            return None
        it._bcache[name] = r
    return r


EXC = {'ValueError', 'TypeError', 'KeyError', 'IndexError', 'AssertionError', 'Exception', 'RuntimeError', 'NotImplementedError',
       'AttributeError', 'FileNotFoundError', 'IOError', 'ZeroDivisionError', 'UserWarning', 'RuntimeWarning', 'OSError'}


def b_range(it, a, k):
    v = [it.num(x) for x in a]
    for x in v:
        if x.p.sort != INT or x.ty not in ('int', 'bool'):
            raise PyRaise('TypeError', 'range of non-int')
    p = [x.p for x in v]
    if len(p) == 1:
        return RangeV(ZERO, p[0], 1)
    if len(p) == 2:
        return RangeV(p[0], p[1], 1)
    st = p[2].const()
    if st == 0:
        raise PyRaise('ValueError', 'range step is zero')
    if st is None:
        if not it.ctx.entails(ne(p[2], 0)):
            it.may_raise(eq(p[2], 0), 'ValueError', 'range step is zero')
            it.ctx = it.ctx.add(ne(p[2], 0))
        if not it.ctx.entails(lt(0, p[2])):
            raise Unsupported('range with a step of unknown sign')
        return RangeV(p[0], p[1], p[2])
    return RangeV(p[0], p[1], int(st))


def b_len(it, a, k):
    v = a[0]
    if isinstance(v, VDict):
        return Num(con(len(v.content)), 'int')
    if isinstance(v, (Num, VBool, bool)) or v is None:
        raise PyRaise('TypeError', 'len')
    if isinstance(v, Arr) and not v.shape:
        raise PyRaise('TypeError', 'len of unsized object')
    if isinstance(v, Obj) and isinstance(v.cls, ClassV) and v.cls.lookup('__len__'):
        return it.call(BoundMethod(v.cls.lookup('__len__'), v), [], {})
    return Num(it.length(v), 'int')


def b_abs(it, a, k):
    v = a[0]
    if isinstance(v, Arr):
        return it.elementwise(absP, 'float' if v.dtype == 'complex' else v.dtype, v)
    x = it.num(v)
    return Num(absP(x.p), 'float' if x.ty == 'complex' else x.ty)


def absP(p):
    return lift_guards(p, lambda q: app('abs', [q]))


def b_int(it, a, k):
    if not a:
        return Num(ZERO, 'int')
    v = a[0]
    if isinstance(v, str):
        try:
            return Num(con(int(v)), 'int')
        except ValueError:
            raise PyRaise('ValueError', 'int')
    if isinstance(v, text.Text):
        return text.parse(it, v, 'int')
    if isinstance(v, StrV):
        raise Unsupported('int of a string')
    x = it.num(v)
    if x.p.sort == CPLX and not is_real(x.p):
        raise PyRaise('TypeError', 'int(complex)')
    return Num(lift_guards(x.p, lambda q: app('trunc', [q])), 'int')


def b_float(it, a, k):
    if not a:
        return Num(ZERO, 'float')
    v = a[0]
    if isinstance(v, str):
        try:
            return Num(con(Fr(v.strip())), 'float')
        except ValueError:
            raise PyRaise('ValueError', 'float')
    if isinstance(v, text.Text):
        return text.parse(it, v, 'float')
    if isinstance(v, StrV):
        raise Unsupported('float of a string')
    if isinstance(v, Arr) and v.shape:
        if all(d is ONE for d in v.shape):
            return Num(it.read_arr(v, [ZERO] * len(v.shape)), 'float')
        raise PyRaise('TypeError', 'float(array)')
    x = it.num(v)
    if x.ty == 'complex':
        raise PyRaise('TypeError', 'float(complex)')
    return Num(x.p, 'float')


def b_complex(it, a, k):
    if len(a) == 2:
        return Num(it.num(a[0]).p + it.num(a[1]).p * IU, 'complex')
    if isinstance(a[0], text.Text):
        return text.parse(it, a[0], 'complex')
    if isinstance(a[0], str):
        try:
            z = a[0].strip().strip('()')
            float(z)
            return Num(con(Fr(z)), 'complex')
        except ValueError:
            raise Unsupported('complex of a string')
    if isinstance(a[0], (str, StrV)):
        raise Unsupported('complex of a string')
    return Num(it.num(a[0]).p, 'complex')


def b_bool(it, a, k):
    return vbool(it.formula(a[0]))


def b_str(it, a, k):
    v = a[0] if a else ''
    if isinstance(v, str):
        return v
    if isinstance(v, Num) and v.ty == 'int' and v.p.const() is not None:
        return str(int(v.p.const()))
    if getattr(it, 'texts', False):
        return text.mk(text.fmt(it, v, ''))
    return StrV('str')


def b_list(it, a, k):
    if not a:
        return it.vlist([])
    if isinstance(a[0], VBag):
        return it.new(VBag(a[0].inv, a[0].content[0], None, a[0].content[2], a[0].content[3]))
    items = it.iter_concrete(a[0])
    if items is not None:
        return it.vlist(items)
    v = a[0]
    if isinstance(v, Arr):
        if v.buf.kind == 'list' or len(v.shape) == 1:
            s = it.snap(v)
            b = it.buffer(v.shape, v.dtype, s, kind='list')
            return Arr(b)
    if isinstance(v, RangeV):
        n = it.length(v)
        b = it.buffer([n], 'int', lambda idx: v.lo + idx[0] * v.step, kind='list')
        return Arr(b)
    raise Unsupported('list of %r' % (v,))


def b_tuple(it, a, k):
    if not a:
        return ()
    items = it.iter_concrete(a[0])
    if items is None:
        if isinstance(a[0], RepList) or (isinstance(a[0], Arr) and len(a[0].shape) == 1):
            return a[0] if isinstance(a[0], RepList) else copy_arr(it, a[0])
        raise Unsupported('tuple of symbolic length')
    return tuple(items)


def minmax(fn):
    def f(it, a, k):
        vs = a
        if len(a) == 1:
            if isinstance(a[0], Arr):
                return reduce_minmax(it, fn, a[0], None)
            vs = it.need_items(a[0])
        nums = [it.num(v) for v in vs]
        r = nums[0]
        for x in nums[1:]:
            if r.p.sort == INT and x.p.sort == INT and r.ty == x.ty and not r.p.guards and not x.p.guards and (x.p - r.p).const() is None:
                if it.ctx.entails(le(x.p, r.p)):
                    r = r if fn == 'max' else x
                    continue
                if it.ctx.entails(le(r.p, x.p)):
                    r = x if fn == 'max' else r
                    continue
            r = Num(mm(fn, r.p, x.p), r.ty if r.ty == x.ty else ('float' if 'float' in (r.ty, x.ty) else 'int'))
        return r
    return f


def mm(fn, x, y):
    if x is y:
        return x
    gs = x.guards | y.guards
    if gs and len(gs) <= 8:
        g = min(gs, key=lambda l: l.id)
        n = neg_lit(g)
        return iv(g) * mm(fn, assume(x, g), assume(y, g)) + iv(n) * mm(fn, assume(x, n), assume(y, n))
    d = sign_of(x - y) if x.sort != CPLX and y.sort != CPLX else None
    c = (x - y).const()
    if c is not None:
        return x if (c >= 0) == (fn == 'max') else y
    if d in ('+', '+0'):
        return x if fn == 'max' else y
    if d in ('-', '-0'):
        return y if fn == 'max' else x
    if x.id > y.id:
        x, y = y, x
    return raw_app(fn, (x, y), join(x.sort, y.sort))


def _r_mm(fn):
    def r(x, y):
        if x is y:
            return x
        v = mm(fn, x, y)
        a = atom_of(v)
        if a is not None and a.kind == 'app' and a.a[0] == fn and a.a[1] == (x, y):
            return None
        return v
    return r


RULES['max'] = _r_mm('max')
RULES['min'] = _r_mm('min')
SORTS['max'] = SORTS['min'] = lambda x, y: join(x.sort, y.sort)


def _ax_max(enc, x, args):
    a, b = enc.poly(args[0])[0], enc.poly(args[1])[0]
    return [x >= a, x >= b, z3.Or(x == a, x == b)]


def _ax_min(enc, x, args):
    a, b = enc.poly(args[0])[0], enc.poly(args[1])[0]
    return [x <= a, x <= b, z3.Or(x == a, x == b)]


EXTRA_AX['max'] = _ax_max
EXTRA_AX['min'] = _ax_min


def b_sum(it, a, k):
    if isinstance(a[0], Arr):
        return np_sum(it, a, k)
    items = it.need_items(a[0])
    r = a[1] if len(a) > 1 else Num(ZERO, 'int')
    for x in items:
        r = it.binop('Add', r, x)
    return r


def b_isinstance(it, a, k):
    v, t = a
    ts = t if isinstance(t, tuple) else (t,)
    for x in ts:
        n = getattr(x, 'name', None)
        if isinstance(x, ClassV):
            if isinstance(v, Obj) and isinstance(v.cls, ClassV) and x in v.cls.mro():
                return True
            continue
        if n == 'int' and (isinstance(v, Num) and v.ty == 'int' or isinstance(v, (bool, VBool))):
            return True
        if n == 'float' and isinstance(v, Num) and v.ty == 'float':
            return True
        if n == 'complex' and isinstance(v, Num) and v.ty == 'complex':
            return True
        if n == 'bool' and isinstance(v, (bool, VBool)):
            return True
        if n == 'str' and isinstance(v, (str, StrV)):
            return True
        if n == 'tuple' and isinstance(v, tuple):
            return True
        if n == 'list' and (isinstance(v, VList) or (isinstance(v, Arr) and v.buf.kind == 'list')):
            return True
        if n == 'dict' and isinstance(v, VDict):
            return True
        if n == 'ndarray' and isinstance(v, Arr) and v.buf.kind == 'ndarray':
            return True
        if n is None and isinstance(x, Opaque):
            raise Unsupported('isinstance of unknown class')
        if isinstance(v, (Opaque,)):
            raise Unsupported('isinstance of opaque')
    return False


def b_round(it, a, k):
    x = it.num(a[0])
    if len(a) < 2 and 'ndigits' not in k:
        return Num(lift_guards(x.p, lambda q: app('rnd', [q, ZERO])), 'int')
    nd = it.num(a[1] if len(a) > 1 else k['ndigits'])
    return Num(lift_guards(x.p, lambda q: app('rnd', [q, nd.p])), x.ty)


def b_enumerate(it, a, k):
    st = it.num(a[1]).p if len(a) > 1 else (it.num(k['start']).p if 'start' in k else ZERO)
    items = it.iter_concrete(a[0])
    if items is not None:
        return tuple((Num(st + i, 'int'), x) for i, x in enumerate(items))
    return EnumV(a[0], st)


def b_zip(it, a, k):
    ls = [it.iter_concrete(x) for x in a]
    if all(x is not None for x in ls):
        return tuple(zip(*ls))
    return ZipV(list(a))


def b_reversed(it, a, k):
    items = it.iter_concrete(a[0])
    if items is not None:
        return tuple(reversed(items))
    if isinstance(a[0], RangeV) and a[0].step == 1:
        return RangeV(a[0].hi - 1, a[0].lo - 1, -1)
    if isinstance(a[0], RangeV) and a[0].step == -1:
        return RangeV(a[0].hi + 1, a[0].lo + 1, 1)
    raise Unsupported('reversed')


def b_pow(it, a, k):
    return it.binop('Pow', a[0], a[1])


def b_any(it, a, k):
    if isinstance(a[0], Arr):
        return np_any(it, a, k)
    return vbool(Or(*[it.formula(x) for x in it.need_items(a[0])]))


def b_all(it, a, k):
    if isinstance(a[0], Arr):
        return np_all(it, a, k)
    return vbool(And(*[it.formula(x) for x in it.need_items(a[0])]))


def b_type(it, a, k):
    raise Unsupported('type()')


def b_hasattr(it, a, k):
    o, n = a
    if isinstance(o, Obj):
        return n in o.content or (isinstance(o.cls, ClassV) and o.cls.lookup(n) is not None)
    if isinstance(o, Arr):
        return n in ('shape', 'dtype', 'real', 'imag', 'ndim', 'T', 'copy', 'size', '__len__', '__iter__')
    if isinstance(o, Num):
        return n in ('real', 'imag', 'conjugate')
    if isinstance(o, (VList, tuple, str)):
        return n in ('__len__', '__iter__', 'index', 'count')
    raise Unsupported('hasattr')


def b_getattr(it, a, k):
    try:
        return it.getattr(a[0], a[1])
    except PyRaise:
        if len(a) > 2:
            return a[2]
        raise


def b_setattr(it, a, k):
    it.setattr(a[0], a[1], a[2])


def b_callable(it, a, k):
    return isinstance(a[0], (Func, Builtin, BoundMethod, ClassV)) or (isinstance(a[0], Obj) and getattr(a[0], 'call_model', None) is not None)


def b_dict(it, a, k):
    items = list(a[0].content) if a else []
    d = it.vdict([])
    for x, v in items + list(k.items()):
        d.set(x, v)
    return d


def b_divmod(it, a, k):
    return (it.binop('FloorDiv', a[0], a[1]), it.binop('Mod', a[0], a[1]))


def b_slice(it, a, k):
    a = list(a)
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


def b_open(it, a, k):
    if getattr(it, 'texts', False):
        return text.b_open(it, a, k)
    raise Unsupported('file access')


def b_map(it, a, k):
    items = it.need_items(a[1])
    return tuple(it.call(a[0], [x], {}) for x in items)


def b_set(it, a, k):
    if a and isinstance(a[0], VBag):
        m, last, d, od = a[0].content
        return it.new(VBag(a[0].inv, m, None, True, False))
    raise Unsupported('set')


def b_sorted(it, a, k):
    if isinstance(a[0], VBag) and not k:
        return it.new(VBag(a[0].inv, a[0].content[0], None, a[0].content[2], True))
    raise Unsupported('sorted')


BI = {'range': b_range, 'len': b_len, 'abs': b_abs, 'int': b_int, 'float': b_float, 'complex': b_complex, 'bool': b_bool,
      'str': b_str, 'list': b_list, 'tuple': b_tuple, 'max': minmax('max'), 'min': minmax('min'), 'sum': b_sum,
      'isinstance': b_isinstance, 'round': b_round, 'enumerate': b_enumerate, 'zip': b_zip, 'reversed': b_reversed,
      'pow': b_pow, 'any': b_any, 'all': b_all, 'type': b_type, 'hasattr': b_hasattr, 'getattr': b_getattr,
      'callable': b_callable, 'dict': b_dict, 'divmod': b_divmod, 'slice': b_slice, 'open': b_open, 'map': b_map,
      'sorted': b_sorted, 'set': b_set, 'setattr': b_setattr, 'print': lambda it, a, k: None,
      'repr': b_str, 'id': lambda it, a, k: Opaque('id')}


def deepcopy(it, v):
    if isinstance(v, Arr):
        return copy_arr(it, v)
    if isinstance(v, VList):
        return it.vlist([deepcopy(it, x) for x in v.content])
    if isinstance(v, VDict):
        return it.vdict([(a, deepcopy(it, b)) for a, b in v.content])
    if isinstance(v, tuple):
        return tuple(deepcopy(it, x) for x in v)
    if isinstance(v, Obj):
        o = it.new(Obj(v.cls, {a: deepcopy(it, b) for a, b in v.content.items()}))
        return o
    return v


def mk_namedtuple(it, a, k):
    if k or len(a) != 2:
        raise Unsupported('namedtuple options')
    name = a[0]
    fields = a[1]
    fl = [x for x in (it.need_items(fields) if not isinstance(fields, str) else fields.replace(',', ' ').split())]
    c = ClassV(name, [], None, None)
    c.nt = fl

    def init(it, args, kw):
        if len(args) > len(fl) or set(kw) - set(fl) or len(args) + len(kw) != len(fl) or set(kw) & set(fl[:len(args)]):
            raise PyRaise('TypeError', 'arguments of named tuple %s' % name)
        o = it.new(Obj(c, dict(zip(fl, args))))
        o.content.update(kw)
        return o
    return Builtin('namedtuple ' + name, init)


# ----------------------------------------------------------------- attributes

def num_attr(it, o, name):
    if name == 'real':
        return Num(re(o.p), 'float' if o.ty != 'int' else 'int')
    if name == 'imag':
        return Num(im(o.p), 'float' if o.ty != 'int' else 'int')
    if name == 'conjugate':
        return Builtin('conjugate', lambda it, a, k: Num(conj(o.p), o.ty))
    if name == 'shape':
        raise PyRaise('AttributeError', 'shape')   # python scalars; numpy scalars have () -- see to_0d
    if name in ('copy',):
        return Builtin('copy', lambda it, a, k: o)
    if name == 'item':
        return Builtin('item', lambda it, a, k: o)
    if name in ('ndim', 'size', 'min', 'max', 'sum', 'mean', 'dtype', 'any', 'all', 'astype', 'round', 'flatten', 'ravel', 'reshape'):
        raise Unsupported('scalar attribute %s (numpy scalar or python number?)' % name)
    raise PyRaise('AttributeError', name)


def str_attr(it, o, name):
    def f(it, a, k):
        if getattr(it, 'texts', False) and (name == 'format' or isinstance(o, text.Text) or any(isinstance(x, text.Text) for x in a)
                                            or name == 'join'):
            return text_method(it, o, name, a, k)
        if isinstance(o, str) and all(isinstance(x, str) or isinstance(x, Num) and x.p.const() is not None for x in a) and name not in ('format',):
            args = [x if isinstance(x, str) else int(x.p.const()) for x in a]
            r = getattr(o, name)(*args)
            if isinstance(r, (str, bool)):
                return r
            if isinstance(r, list):
                return it.vlist(r)
            if isinstance(r, int):
                return Num(con(r), 'int')
            raise Unsupported('str.%s' % name)
        if name in ('format', 'join', 'rjust', 'ljust', 'replace', 'strip', 'lower', 'upper', 'title'):
            return StrV('fmt')
        raise Unsupported('str.%s' % name)
    return Builtin('str.' + name, f)


def text_method(it, o, name, a, k):
    if name == 'format':
        if not isinstance(o, str):
            raise Unsupported('format of a symbolic template')
        return text.str_format(it, o, a, k)
    if name == 'split':
        if len(a) > 1 or k:
            raise Unsupported('split')
        return it.vlist(text.split(o, a[0] if a else None))
    if name in ('strip', 'lstrip', 'rstrip'):
        return text.strip(o, a[0] if a else None, name != 'rstrip', name != 'lstrip')
    if name in ('startswith', 'endswith') and len(a) == 1 and isinstance(a[0], str):
        return getattr(text, name)(o, a[0])
    if name == 'join' and isinstance(o, str):
        out = []
        for i, x in enumerate(it.need_items(a[0])):
            out += ([o] if i else []) + text.parts(x)
        return text.mk(out)
    raise Unsupported('str.%s' % name)


def list_attr(it, o, name):
    if isinstance(o, VBag):
        if name == 'append':
            return Builtin('append', lambda it, a, k: it.list_append(o, a[0]))
        if name == 'sort':
            def srt(it, a, k):
                it.touch_cell(o)
                if k or it.guards:
                    raise Unsupported('sort with options')
                m, last, d, od = o.content
                o.content = (m, None, d, True)
            return Builtin('sort', srt)
        raise Unsupported('list.%s' % name)
    def chk():
        it.touch_cell(o)
        if it.guards:
            raise Unsupported('list mutation under a symbolic condition')
    if name == 'append':
        return Builtin('append', lambda it, a, k: it.list_append(o, a[0]))
    if name == 'extend':
        def f(it, a, k):
            chk()
            o.content = o.content + tuple(it.need_items(a[0]))
        return Builtin('extend', f)
    if name == 'pop':
        def f(it, a, k):
            chk()
            l = list(o.content)
            i = it.concrete_int(a[0]) if a else -1
            v = l.pop(i)
            o.content = tuple(l)
            return v
        return Builtin('pop', f)
    if name == 'insert':
        def f(it, a, k):
            chk()
            l = list(o.content)
            l.insert(it.concrete_int(a[0]), a[1])
            o.content = tuple(l)
        return Builtin('insert', f)
    if name == 'copy':
        return Builtin('copy', lambda it, a, k: it.vlist(o.content))
    raise Unsupported('list.%s' % name)


def dict_attr(it, o, name):
    if name == 'get':
        def f(it, a, k):
            if len(a) > 2 or k:
                raise Unsupported('dict.get options')
            if o.has(a[0]):
                return o.get(a[0])
            return a[1] if len(a) > 1 else None
        return Builtin('get', f)
    if name == 'items':
        return Builtin('items', lambda it, a, k: tuple((x, y) for x, y in o.content))
    if name == 'keys':
        return Builtin('keys', lambda it, a, k: tuple(x for x, y in o.content))
    if name == 'values':
        return Builtin('values', lambda it, a, k: tuple(y for x, y in o.content))
    if name == 'copy':
        return Builtin('copy', lambda it, a, k: it.vdict(o.content))
    if name == 'pop':
        def f(it, a, k):
            if it.guards:
                raise Unsupported('dict.pop under guard')
            if o.has(a[0]):
                v = o.get(a[0])
                o.content = tuple(x for x in o.content if VDict.key(x[0]) != VDict.key(a[0]))
                return v
            if len(a) > 1:
                return a[1]
            raise PyRaise('KeyError', str(a[0]))
        return Builtin('pop', f)
    if name == 'update':
        def f(it, a, k):
            for d in a:
                for x, y in d.content:
                    it.setitem(o, x, y)
            for x, y in k.items():
                it.setitem(o, x, y)
        return Builtin('update', f)
    if name == 'setdefault':
        def f(it, a, k):
            if not o.has(a[0]):
                if it.guards:
                    raise Unsupported('setdefault under guard')
                o.set(a[0], a[1] if len(a) > 1 else None)
            return o.get(a[0])
        return Builtin('setdefault', f)
    raise Unsupported('dict.%s' % name)


def size_of(a):
    n = ONE
    for d in a.shape:
        n = n * d
    return n


def arr_attr(it, a, name):
    if a.buf.kind == 'list':
        if name == 'append':
            return Builtin('append', lambda it, b, k: it.list_append(a, b[0]))
        if name in ('shape', 'ndim', 'T', 'copy', 'min', 'max') and name != 'copy':
            raise PyRaise('AttributeError', 'list has no attribute %s' % name)
    if name == 'shape':
        return tuple(Num(d, 'int') for d in a.shape)
    if name == 'ndim':
        return Num(con(len(a.shape)), 'int')
    if name == 'size':
        return Num(size_of(a), 'int')
    if name == 'dtype':
        return builtin(it, a.dtype)
    if name == 'T':
        n = len(a.shape)
        m = {}
        dims = [d if d[0] == 'fix' else ('var', n - 1 - d[1], d[2], d[3]) for d in a.dims]
        return Arr(a.buf, dims, tuple(reversed(a.shape)))
    if name == 'real':
        if a.dtype != 'complex':
            return a
        return part_view(it, a, re)
    if name == 'imag':
        return part_view(it, a, im) if a.dtype == 'complex' else it.elementwise(im, a.dtype, a)
    if name == 'flags':
        b = Builtin('flags')

        def sa(it, n, v):
            if n == 'writeable':
                a.buf.writeable = bool(it.split(it.formula(v))) if not isinstance(v, bool) else v
                it.events.append(('flags', a.buf.origin, v))
                return
            raise Unsupported('flags.%s' % n)
        b.setattr = sa
        b.attr = lambda it, n: a.buf.writeable if n == 'writeable' else None
        return b
    f = ARRM.get(name)
    if f is not None:
        return Builtin('ndarray.' + name, lambda it, args, kw: f(it, [a] + list(args), kw))
    if 'numpy.' + name in FUN:
        f = FUN['numpy.' + name]
        return Builtin('ndarray.' + name, lambda it, args, kw: f(it, [a] + list(args), kw))
    if name in ('__array__', 'lower', 'keys', 'items'):
        raise PyRaise('AttributeError', name)
    raise Unsupported('ndarray.%s' % name)


def part_view(it, a, f):
    """real or imaginary part: shares the memory of a (a later write to either makes the other unreadable here)"""
    r = it.elementwise(f, 'float', a)
    if isinstance(r, Arr):
        r.buf.alias = a.buf
        r.buf.origin = a.buf.origin
        a.buf.aliases = getattr(a.buf, 'aliases', ()) + (r.buf,)
    return r


def arr_setattr(it, a, name, v):
    if name == 'real' or name == 'imag':
        if a.dtype != 'complex':
            if name == 'real':
                it.store(a, v)
                return
        cur = a
        if name == 'real':
            it.store(a, it.elementwise(lambda o, n: n + im(o) * IU, 'complex', copy_arr(it, cur), v))
        else:
            it.store(a, it.elementwise(lambda o, n: re(o) + n * IU, 'complex', copy_arr(it, cur), v))
        return
    raise Unsupported('ndarray.%s =' % name)


def asarray(it, v):
    """sequence -> fresh Arr"""
    if isinstance(v, Arr):
        return v
    if isinstance(v, (VList, tuple)):
        items = list(v.content) if isinstance(v, VList) else list(v)
        if not items:
            return it.arr([ZERO], 'float', lambda idx: ZERO)
        items = [asarray(it, x) if isinstance(x, (VList, tuple)) else x for x in items]
        if any(x is None or isinstance(x, (str, StrV, Obj)) for x in items):
            raise Unsupported('array of objects')
        if any(isinstance(x, Arr) and x.shape for x in items):
            for x in items[1:]:
                if len(x.shape) != len(items[0].shape):
                    raise PyRaise('ValueError', 'inhomogeneous')
                for p, q in zip(x.shape, items[0].shape):
                    it.same_dim(p, q)
            snaps = [it.snap(x) for x in items]
            dt = max([x.dtype for x in items], key=DT.index)
            return it.arr((con(len(items)),) + items[0].shape, dt, lambda idx: select(idx[0], [(lambda s: lambda: s(idx[1:]))(s) for s in snaps]))
        nums = [it.num(x) for x in items]
        dt = max(['bool' if isinstance(x, (bool, VBool)) else n.ty for x, n in zip(items, nums)], key=DT.index)
        ps = [n.p for n in nums]
        return it.arr([con(len(ps))], dt, lambda idx: select(idx[0], [(lambda p: lambda: p)(p) for p in ps]))
    if isinstance(v, RangeV):
        n = it.length(v)
        return it.arr([n], 'int', lambda idx: v.lo + idx[0] * v.step)
    if isinstance(v, (Num, bool, VBool)):
        x = it.num(v)
        p = x.p
        return it.arr([], x.ty, lambda idx: p)
    raise Unsupported('array from %r' % (v,))


def select(i, thunks):
    c = i.const()
    if c is not None:
        c = int(c)
        if 0 <= c < len(thunks):
            return thunks[c]()
        return ZERO
    if len(thunks) == 1:
        return thunks[0]()
    r = ZERO
    for j, t in enumerate(thunks):
        r = r + iv(eq(i, j)) * t()
    return r


def copy_arr(it, v, dtype=None):
    s = it.snap(v)
    if dtype and dtype != v.dtype:
        if v.dtype == 'complex' and dtype in ('float', 'int'):
            return it.arr(v.shape, dtype, lambda idx: it.cast(re(s(idx)), dtype))
        return it.arr(v.shape, dtype, lambda idx: it.cast(s(idx), dtype))
    return it.arr(v.shape, v.dtype, s)


def dtype_of(v, default):
    if v is None:
        return default
    if isinstance(v, Builtin) and v.name in DT:
        return v.name
    if isinstance(v, str):
        m = {'float': 'float', 'complex': 'complex', 'int': 'int', 'f8': 'float', 'c16': 'complex', 'float64': 'float', 'complex128': 'complex', 'bool': 'bool'}
        if v in m:
            return m[v]
    raise Unsupported('dtype %r' % (v,))


def shape_arg(it, v):
    if isinstance(v, (tuple, VList)):
        items = v if isinstance(v, tuple) else v.content
        return [it.num(x).p for x in items]
    p = it.num(v).p
    return [p]


def full(val):
    def f(it, a, k):
        sh = shape_arg(it, a[0] if a else k['shape'])
        dt = dtype_of(a[1] if len(a) > 1 else k.get('dtype'), 'float')
        return it.arr(sh, dt, lambda idx: con(val))
    return f


FUN['numpy.zeros'] = full(0)
FUN['numpy.ones'] = full(1)


@np_('empty')
def np_empty(it, a, k):
    sh = shape_arg(it, a[0])
    dt = dtype_of(a[1] if len(a) > 1 else k.get('dtype'), 'float')
    nm = '_uninit%d' % next(T._fresh)
    return it.arr(sh, dt, lambda idx: raw_app(nm, idx, SORTOF[dt]))


@np_('full')
def np_full(it, a, k):
    sh = shape_arg(it, a[0])
    v = it.num(a[1])
    dt = dtype_of(a[2] if len(a) > 2 else k.get('dtype'), v.ty)
    return it.arr(sh, dt, lambda idx: v.p)


def like(val):
    def f(it, a, k):
        v = asarray(it, a[0])
        dt = dtype_of(a[1] if len(a) > 1 else k.get('dtype'), v.dtype)
        if val is None:
            nm = '_uninit%d' % next(T._fresh)
            return it.arr(v.shape, dt, lambda idx: raw_app(nm, idx, SORTOF[dt]))
        return it.arr(v.shape, dt, lambda idx: con(val))
    return f


FUN['numpy.zeros_like'] = like(0)
FUN['numpy.ones_like'] = like(1)
FUN['numpy.empty_like'] = like(None)


@np_('full_like')
def np_full_like(it, a, k):
    v = asarray(it, a[0])
    x = it.num(a[1])
    dt = dtype_of(k.get('dtype'), v.dtype)
    return it.arr(v.shape, dt, lambda idx: it.cast(x.p, dt))


@np_('eye', 'identity')
def np_eye(it, a, k):
    n = it.num(a[0]).p
    dt = dtype_of(k.get('dtype'), 'float')
    return it.arr([n, n], dt, lambda idx: iv(eq(idx[0], idx[1])))


@np_('array', 'asarray', 'asanyarray', 'ascontiguousarray')
def np_array(it, a, k):
    v = a[0]
    dt = a[1] if len(a) > 1 else k.get('dtype')
    r = asarray(it, v)
    return copy_arr(it, r, dtype_of(dt, r.dtype))


def np_asarray(it, a, k):
    v = a[0]
    dt = a[1] if len(a) > 1 else k.get('dtype')
    if isinstance(v, Arr) and v.buf.kind == 'ndarray':
        d = dtype_of(dt, v.dtype)
        return v if d == v.dtype else copy_arr(it, v, d)
    return np_array(it, a, k)


for _n in ('asarray', 'asanyarray', 'ascontiguousarray'):
    FUN['numpy.' + _n] = np_asarray


@np_('copy')
def np_copy(it, a, k):
    return copy_arr(it, asarray(it, a[0]))


@np_('arange')
def np_arange(it, a, k):
    v = [it.num(x) for x in a]
    lo, st = ZERO, ONE
    if len(v) == 1:
        hi = v[0].p
    else:
        lo, hi = v[0].p, v[1].p
        if len(v) > 2:
            st = v[2].p
    if st is not ONE or lo.sort != INT or hi.sort != INT:
        if all(x.p.sort == INT for x in v) and st.const() is not None and not k:
            return asarray(it, RangeV(lo, hi, int(st.const())))
        if any(x.p.sort == CPLX for x in v):
            raise Unsupported('complex arange')
        if S.prove_zero(st, it.ctx):
            raise PyRaise('ZeroDivisionError', 'arange step')
        if not it.ctx.entails(ne(st, 0)):
            it.may_raise(eq(st, 0), 'ZeroDivisionError', 'arange step may be zero')
        q = (hi - lo) / st
        n = app('ceil', [q]) if not q.guards else lift_guards(q, lambda r: app('ceil', [r]))
        if not it.ctx.entails(le(0, n)):
            n = mm('max', ZERO, n)
        dt = dtype_of(k.get('dtype'), 'int' if all(x.ty == 'int' for x in v) else 'float')
        if dt == 'int' and not all(x.ty == 'int' for x in v):
            raise Unsupported('integer arange of floats')
        return it.arr([n], dt, lambda idx: lo + idx[0] * st)
    n = it.length(RangeV(lo, hi, 1))
    dt = dtype_of(k.get('dtype'), 'int' if all(x.ty == 'int' for x in v) else 'float')
    return it.arr([n], dt, lambda idx: lo + idx[0])


@np_('linspace')
def np_linspace(it, a, k):
    lo, hi = it.num(a[0]).p, it.num(a[1]).p
    n = it.num(a[2] if len(a) > 2 else k.get('num', Num(con(50), 'int'))).p
    if k.get('endpoint', True) is not True or k.get('retstep'):
        raise Unsupported('linspace options')
    if n.sort != INT:
        raise PyRaise('TypeError', 'linspace num')
    if not it.split(le(2, n)):
        # 0 or 1 points: the step is not used
        return it.arr([n], 'float', lambda idx: lo)
    step = (hi - lo) / (n - 1)
    return it.arr([n], 'float', lambda idx: lo + idx[0] * step)


def concatenate(it, items, axis=0):
    arrs = []
    for x in items:
        if isinstance(x, (Num, bool, VBool)):
            n = it.num(x)
            arrs.append(it.arr([ONE], n.ty, (lambda p: lambda idx: p)(n.p)))
        else:
            arrs.append(asarray(it, x))
    nd = len(arrs[0].shape)
    if any(len(x.shape) != nd for x in arrs):
        raise PyRaise('ValueError', 'concatenate dims')
    if axis < 0:
        axis += nd
    for x in arrs[1:]:
        for j in range(nd):
            if j != axis:
                it.same_dim(x.shape[j], arrs[0].shape[j])
    offs = [ZERO]
    for x in arrs:
        offs.append(offs[-1] + x.shape[axis])
    snaps = [it.snap(x) for x in arrs]
    dt = max([x.dtype for x in arrs], key=DT.index)
    shape = list(arrs[0].shape)
    shape[axis] = offs[-1]

    def base(idx):
        r = None
        for j in range(len(arrs) - 1, -1, -1):
            i2 = list(idx)
            i2[axis] = idx[axis] - offs[j]
            if r is None:
                c0 = le(offs[j], idx[axis])
                if c0 is TRUE or j == 0:
                    return snaps[j](i2)
                r = snaps[j](i2)
            else:
                c = lt(idx[axis], offs[j + 1])
                c = it.prune(c)
                if c is TRUE:
                    r = snaps[j](i2)
                elif c is not FALSE:
                    r = ite(c, snaps[j](i2), r)
        return r
    if len(arrs) == 1:
        return copy_arr(it, arrs[0])
    return it.arr(shape, dt, base)


@np_('concatenate', 'hstack')
def np_concatenate(it, a, k):
    ax = it.concrete_int(k['axis']) if 'axis' in k else (it.concrete_int(a[1]) if len(a) > 1 else 0)
    items = it.need_items(a[0])
    return concatenate(it, items, ax)


def np_hstack(it, a, k):
    items = [asarray(it, x) for x in it.need_items(a[0])]
    return concatenate(it, items, 0 if len(items[0].shape) <= 1 else 1)


FUN['numpy.hstack'] = np_hstack


@np_('append')
def np_append(it, a, k):
    if 'axis' in k:
        raise Unsupported('append axis')
    return concatenate(it, [a[0], a[1]])


@np_('vstack', 'row_stack')
def np_vstack(it, a, k):
    items = [asarray(it, x) for x in it.need_items(a[0])]
    out = []
    for x in items:
        if len(x.shape) == 1:
            x = it.view(x, (None, SliceV(None, None, None)))
        out.append(x)
    return concatenate(it, out, 0)


@np_('column_stack')
def np_colstack(it, a, k):
    items = [asarray(it, x) for x in it.need_items(a[0])]
    out = []
    for x in items:
        if len(x.shape) == 1:
            x = it.view(x, (SliceV(None, None, None), None))
        out.append(x)
    return concatenate(it, out, 1)


@np_('stack')
def np_stack(it, a, k):
    if k.get('axis') is not None and it.concrete_int(k['axis']) != 0:
        raise Unsupported('stack axis')
    return asarray(it, tuple(it.need_items(a[0])))


# ------------------------------------------------------------------ elementwise
def ufunc1(fn, dt=None):
    def f(it, a, k):
        if k or len(a) != 1:
            raise Unsupported('ufunc options')
        v = a[0]
        if isinstance(v, (VList, tuple)):
            v = asarray(it, v)
        t = v.dtype if isinstance(v, Arr) else it.num(v).ty
        d = dt(t) if callable(dt) else (dt or t)
        return it.elementwise(fn, d, v)
    return f


def _f(name):
    return lambda p: lift_guards(p, lambda q: app(name, [q]))


flt = lambda t: 'complex' if t == 'complex' else 'float'
FUN['numpy.abs'] = FUN['numpy.absolute'] = ufunc1(absP, lambda t: 'float' if t == 'complex' else t)
FUN['numpy.fabs'] = FUN['numpy.abs']
FUN['numpy.exp'] = ufunc1(_f('exp'), flt)
FUN['numpy.sqrt'] = ufunc1(_f('sqrt'), flt)
for _n in ('sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh', 'log', 'log10', 'arctan', 'expm1'):
    FUN['numpy.' + _n] = ufunc1(_f(_n), flt)
FUN['numpy.conj'] = FUN['numpy.conjugate'] = ufunc1(conj)


def np_part(f, plain):
    def g(it, a, k):
        if len(a) == 1 and not k and isinstance(a[0], Arr) and a[0].dtype == 'complex':
            return part_view(it, a[0], f)
        if f is re and len(a) == 1 and not k and isinstance(a[0], Arr):
            return a[0]
        return plain(it, a, k)
    return g


FUN['numpy.real'] = np_part(re, ufunc1(re, lambda t: 'float' if t == 'complex' else t))
FUN['numpy.imag'] = np_part(im, ufunc1(im, lambda t: 'float' if t == 'complex' else t))
FUN['numpy.square'] = ufunc1(lambda p: p * p)
FUN['numpy.negative'] = ufunc1(neg)
FUN['numpy.deg2rad'] = FUN['numpy.radians'] = ufunc1(lambda p: p * PI / 180, 'float')
FUN['numpy.rad2deg'] = FUN['numpy.degrees'] = ufunc1(lambda p: p * 180 / PI, 'float')
FUN['numpy.floor'] = ufunc1(_f('floor'), 'float')
FUN['numpy.ceil'] = ufunc1(_f('ceil'), 'float')
FUN['numpy.sign'] = ufunc1(lambda p: ite(lt(0, p), ONE, ite(lt(p, 0), con(-1), ZERO)))


def _angle(p):
    return lift_guards(p, lambda q: app('angle', [q]))


FUN['numpy.angle'] = ufunc1(_angle, 'float')


@rule('angle')
def _r_angle(p):
    c = p.const()
    if c is not None:
        return ZERO if c >= 0 else None
    if p.sort != CPLX:
        s = sign_of(p)
        if s in ('+', '+0'):
            return ZERO
    # positive real scale does not change the angle
    if len(p.t) == 1:
        (m, c), = p.t.items()
        d = [(a, e) for a, e in m[1] if sign_of_atom(a) != '+']
        if len(d) != len(m[1]) or abs(c) != 1:
            q = mkpoly({(EMPTY, tuple(d)): Fr(1 if c > 0 else -1)})
            if q.sort == CPLX and len(q.t):
                return app('angle', [q])
    return None


def np_minimum(fn):
    def f(it, a, k):
        x, y = a[0], a[1]
        tx = x.dtype if isinstance(x, Arr) else it.num(x).ty
        ty = y.dtype if isinstance(y, Arr) else it.num(y).ty
        return it.elementwise(lambda p, q: mm(fn, p, q), max(tx, ty, key=DT.index), x, y)
    return f


FUN['numpy.maximum'] = np_minimum('max')
FUN['numpy.minimum'] = np_minimum('min')
FUN['numpy.fmax'] = np_minimum('max')
FUN['numpy.fmin'] = np_minimum('min')


@np_('clip')
def np_clip(it, a, k):
    lo, hi = a[1], a[2]
    r = a[0]
    if lo is not None:
        r = FUN['numpy.maximum'](it, [r, lo], {})
    if hi is not None:
        r = FUN['numpy.minimum'](it, [r, hi], {})
    return r


def bin_(op):
    return lambda it, a, k: it.binop(op, a[0], a[1])


for _n, _o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'), ('power', 'Pow'),
               ('logical_and', 'BitAnd'), ('logical_or', 'BitOr'), ('bitwise_and', 'BitAnd'), ('bitwise_or', 'BitOr')):
    FUN['numpy.' + _n] = bin_(_o)
for _n, _o in (('less', 'Lt'), ('less_equal', 'LtE'), ('greater', 'Gt'), ('greater_equal', 'GtE'), ('equal', 'Eq'), ('not_equal', 'NotEq')):
    FUN['numpy.' + _n] = (lambda o: lambda it, a, k: it.compare(o, a[0], a[1]))(_o)


@np_('invert', 'logical_not')
def np_invert(it, a, k):
    v = a[0]
    if isinstance(v, Arr) and v.dtype == 'bool':
        return it.elementwise(lambda p: iv(Not(bl(p))), 'bool', v)
    if isinstance(v, (bool, VBool)):
        return vbool(Not(it.formula(v)))
    raise Unsupported('invert')


@np_('isnan')
def np_isnan(it, a, k):
    v = asarray(it, a[0])
    f = lambda p: iv(isnan_f(p))
    if not v.shape:
        return vbool(isnan_f(it.num(a[0]).p))
    return it.elementwise(f, 'bool', v)


NO_NAN = [False]          # contract precondition: data and results are finite numbers


def isnan_f(p):
    if p.const() is not None or NO_NAN[0]:
        return FALSE
    if p.guards:
        g = min(p.guards, key=lambda l: l.id)
        return Or(And(g, isnan_f(assume(p, g))), And(neg_lit(g), isnan_f(assume(p, neg_lit(g)))))
    if len(p.t) == 1:
        # c*x is NaN exactly when x is, for a non-zero constant c
        c = next(iter(p.t.values()))
        if c != 1:
            p = p / con(c)
    return mk_lit('b', app('isnan', [p], BOOL))


@np_('isfinite')
def np_isfinite(it, a, k):
    raise Unsupported('isfinite')


@np_('where')
def np_where(it, a, k):
    if len(a) != 3:
        raise Unsupported('np.where with one argument')
    ts = [x.dtype if isinstance(x, Arr) else it.num(x).ty for x in a[1:]]
    dt = max(ts, key=DT.index)
    c = a[0]
    if isinstance(c, (bool, VBool)):
        f = it.formula(c)
        return it.elementwise(lambda x, y: ite(f, x, y), dt, a[1], a[2])
    return it.elementwise(lambda q, x, y: ite(bl(q), x, y), dt, c, a[1], a[2])


@np_('round', 'around', 'round_')
def np_round(it, a, k):
    nd = it.num(a[1] if len(a) > 1 else k.get('decimals', 0)).p
    v = a[0]
    t = v.dtype if isinstance(v, Arr) else it.num(v).ty
    return it.elementwise(lambda p: lift_guards(p, lambda q: app('rnd', [q, nd])), t, v)


# ------------------------------------------------------------------- reductions

def axis_arg(it, v, k, pos=1, a=()):
    ax = k.get('axis', a[pos] if len(a) > pos else None)
    if ax is None:
        return None
    if isinstance(ax, tuple):
        raise Unsupported('tuple axis')
    c = it.concrete_int(ax)
    return c if c >= 0 else c + len(v.shape)


def reduce_sum(it, v, ax):
    s = it.snap(v)
    if ax is None:
        us = [fresh('s') for _ in v.shape]
        dom = And(*[And(le(0, P(u)), lt(P(u), n)) for u, n in zip(us, v.shape)])
        body = under(it, dom, lambda: s([P(u) for u in us]))
        return Num(sum_over(us, dom, body, v.shape), v.dtype if v.dtype != 'bool' else 'int')
    shape = v.shape[:ax] + v.shape[ax + 1:]

    def base(idx):
        u = fresh('s')
        dom = And(le(0, P(u)), lt(P(u), v.shape[ax]))
        return sum_over([u], dom, under(it, dom, lambda: s(list(idx[:ax]) + [P(u)] + list(idx[ax:]))), [v.shape[ax]])
    return it.arr(shape, v.dtype if v.dtype != 'bool' else 'int', base)


def under(it, dom, f):
    st = it.ctx
    it.ctx = it.ctx.add(dom)
    try:
        return f()
    finally:
        it.ctx = st


def sum_over(us, dom, body, shape):
    cs = [n.const() for n in shape]
    if len(us) == 1 and cs[0] is not None and cs[0] <= 64:
        return psum([subst(body, {us[0]: con(i)}) for i in range(int(cs[0]))])
    return mk_sum(us, dom, body)


@np_('sum', 'nansum')
def np_sum(it, a, k):
    v = asarray(it, a[0])
    if k.get('keepdims'):
        raise Unsupported('keepdims')
    if v.dtype == 'bool' and len(v.shape) == 1 and v.shape[0].const() is None:
        lam, n = mask_terms(it, v)
        return Num(app('count', [canon_mask(it, lam, n), n]), 'int')
    return reduce_sum(it, v, axis_arg(it, v, k, 1, a))


@np_('count_nonzero')
def np_count_nonzero(it, a, k):
    v = asarray(it, a[0])
    if v.dtype != 'bool':
        v = it.compare('NotEq', v, Num(ZERO, 'int'))
    return np_sum(it, [v], k)


@np_('mean')
def np_mean(it, a, k):
    v = asarray(it, a[0])
    ax = axis_arg(it, v, k, 1, a)
    r = reduce_sum(it, v, ax)
    n = size_of(v) if ax is None else v.shape[ax]
    return it.binop('Div', r, Num(n, 'float'))


@np_('dot')
def np_dot(it, a, k):
    return matmul(it, asarray(it, a[0]), asarray(it, a[1]))


FUN['numpy.matmul'] = np_dot


def matmul(it, x, y):
    sx, sy = it.snap(x), it.snap(y)
    dt = max(x.dtype, y.dtype, key=DT.index)
    if len(x.shape) == 2 and len(y.shape) == 1:
        it.same_dim(x.shape[1], y.shape[0])

        def base(idx):
            u = fresh('s')
            dom = And(le(0, P(u)), lt(P(u), y.shape[0]))
            return sum_over([u], dom, under(it, dom, lambda: sx([idx[0], P(u)]) * sy([P(u)])), [y.shape[0]])
        return it.arr([x.shape[0]], dt, base)
    if len(x.shape) == 2 and len(y.shape) == 2:
        it.same_dim(x.shape[1], y.shape[0])

        def base(idx):
            u = fresh('s')
            dom = And(le(0, P(u)), lt(P(u), y.shape[0]))
            return sum_over([u], dom, under(it, dom, lambda: sx([idx[0], P(u)]) * sy([P(u), idx[1]])), [y.shape[0]])
        return it.arr([x.shape[0], y.shape[1]], dt, base)
    if len(x.shape) == 1 and len(y.shape) == 1:
        it.same_dim(x.shape[0], y.shape[0])
        u = fresh('s')
        dom = And(le(0, P(u)), lt(P(u), y.shape[0]))
        return Num(sum_over([u], dom, under(it, dom, lambda: sx([P(u)]) * sy([P(u)])), [y.shape[0]]), dt)
    raise Unsupported('matmul shapes')


# max / min of an array: uninterpreted term with a defining contract, see minmax_facts
for _n in ('maxred', 'minred'):
    SORTS[_n] = REAL
    NOLIFT.add(_n)


@rule('maxred', 'minred')
def _r_red(g, b, *init):
    return None


def reduce_minmax(it, fn, v, ax):
    s = it.snap(v)
    if ax is None:
        cs = [n.const() for n in v.shape]
        if len(cs) == 1 and cs[0] is not None and cs[0] <= 12:
            if cs[0] == 0:
                raise PyRaise('ValueError', 'zero-size array to reduction operation')
            r = s([ZERO])
            for i in range(1, int(cs[0])):
                r = mm(fn, r, s([con(i)]))
            return Num(r, v.dtype)
        # empty array raises
        n = size_of(v)
        ok = lt(0, n)
        t = it.truth(ok)
        if t is False:
            raise PyRaise('ValueError', 'zero-size array to reduction operation')
        if t is None:
            it.may_raise(Not(ok), 'ValueError', 'reduction of an empty array')
        us = [fresh('s') for _ in v.shape]
        dom = And(*[And(le(0, P(u)), lt(P(u), m)) for u, m in zip(us, v.shape)])
        body = under(it, dom, lambda: s([P(u) for u in us]))
        if not (body.fv & set(us)):
            return Num(body, v.dtype)
        p = app(fn + 'red', [mk_lam(us, iv(dom)), mk_lam(us, body)], INT if body.sort == INT else REAL)
        it.reds = getattr(it, 'reds', [])
        it.reds.append((fn, p, us, dom, body))
        return Num(p, v.dtype)
    shape = v.shape[:ax] + v.shape[ax + 1:]
    c = v.shape[ax].const()
    if c is not None and c <= 12:
        def base(idx):
            r = None
            for i in range(int(c)):
                x = s(list(idx[:ax]) + [con(i)] + list(idx[ax:]))
                r = x if r is None else mm(fn, r, x)
            return r
        return it.arr(shape, v.dtype, base)

    def base(idx):
        u = fresh('s')
        dom = And(le(0, P(u)), lt(P(u), v.shape[ax]))
        body = under(it, dom, lambda: s(list(idx[:ax]) + [P(u)] + list(idx[ax:])))
        return app(fn + 'red', [mk_lam([u], iv(dom)), mk_lam([u], body)], INT if body.sort == INT else REAL)
    return it.arr(shape, v.dtype, base)


def red_le(p, bound_fn):
    """formula  max(...) <= b  as a universal statement"""


def np_minmax(fn):
    def f(it, a, k):
        v = asarray(it, a[0])
        if k.get('keepdims'):
            raise Unsupported('keepdims')
        return reduce_minmax(it, fn, v, axis_arg(it, v, k, 1, a))
    return f


FUN['numpy.max'] = FUN['numpy.amax'] = np_minmax('max')
FUN['numpy.min'] = FUN['numpy.amin'] = np_minmax('min')


def np_argmm(fn):
    def f(it, a, k):
        v = asarray(it, a[0])
        if len(v.shape) not in (1, 2) or len(a) > 1 and a[1] is not None or k.get('axis') not in (None,) or v.dtype == 'complex':
            raise Unsupported(fn)
        n = v.shape[0]
        flat = len(v.shape) == 2
        if flat:
            w = v.shape[1]
            n = n * w
        if not it.ctx.entails(lt(0, n)):
            it.may_raise(le(n, 0), 'ValueError', '%s of an empty sequence' % fn)
            it.ctx = it.ctx.add(lt(0, n))
        u = fresh('s')
        s = it.snap(v)
        at = (lambda q: [q]) if not flat else (lambda q: [it.num(it.binop(o, Num(q, 'int'), Num(w, 'int'))).p for o in ('FloorDiv', 'Mod')])
        lam = mk_lam([u], under(it, And(le(0, P(u)), lt(P(u), n)), lambda: s(at(P(u)))))
        x = app(fn, [lam, n], INT)
        it.ctx = it.ctx.add(le(0, x), lt(x, n))
        it.reds = getattr(it, 'reds', [])
        it.reds.append((fn, x, [u], And(le(0, P(u)), lt(P(u), n)), lam_apply(lam, [P(u)])))
        return Num(x, 'int')
    return f


@np_('unravel_index')
def np_unravel(it, a, k):
    if k or len(a) != 2 or not isinstance(a[1], tuple) or len(a[1]) not in (1, 2):
        raise Unsupported('unravel_index')
    if len(a[1]) == 1:
        return (a[0],)
    return tuple(it.binop(o, a[0], a[1][1]) for o in ('FloorDiv', 'Mod'))


def _ax_argmm(enc, x, args):
    """the position of an extremum is a valid index"""
    import z3
    n = args[1]
    return [z3.Implies(enc.form(lt(0, n)), z3.And(x >= 0, x < enc.poly(n)[0]))]


def finite_only(f):
    def g(it, a, k):
        if not NO_NAN[0]:
            raise Unsupported('NaN-aware reduction')
        return f(it, a, k)
    return g


for _n in ('argmin', 'argmax'):
    FUN['numpy.' + _n] = np_argmm(_n)
    FUN['numpy.nan' + _n] = finite_only(np_argmm(_n))
    S.EXTRA_AX[_n] = _ax_argmm
    SORTS[_n] = INT
    NOLIFT.add(_n)


FUN['numpy.nanmin'] = finite_only(np_minmax('min'))
FUN['numpy.nanmax'] = finite_only(np_minmax('max'))


@np_('argsort')
def np_argsort(it, a, k):
    """the permutation that sorts a 1-D array in increasing order (keys must not be NaN)"""
    v = asarray(it, a[0])
    ax = a[1] if len(a) > 1 else k.get('axis')
    if len(v.shape) != 1 or v.dtype == 'complex' or not (ax is None or it.num(ax).p.const() in (0, -1)) or set(k) - {'axis', 'kind'}:
        raise Unsupported('argsort')
    nan_free(it, v, 'argsort')
    n = v.shape[0]
    u = fresh('s')
    s = it.snap(v)
    lam = canon_mask(it, mk_lam([u], under(it, And(le(0, P(u)), lt(P(u), n)), lambda: s([P(u)]))), n, 'keys')
    return it.arr([n], 'int', lambda idx: app('perm', [lam, n, idx[0]], INT))


def nan_free(it, v, what):
    """when the inputs may hold NaN: show that no element of v is NaN (the model compares reals)"""
    if not getattr(it, 'nan_data', False) or not isinstance(v, Arr) or v.dtype not in ('float', 'complex'):
        return
    us = [fresh('q') for _ in v.shape]
    c = it.ctx.add(*[f for u, n in zip(us, v.shape) for f in (le(0, P(u)), lt(P(u), n))])
    f = isnan_any(it.snap(v)([P(u) for u in us]))
    if not c.entails(Not(f)):
        raise Unsupported('%s of data that may be NaN' % what)


def isnan_any(p):
    """some data value in p may be NaN"""
    fs = [mk_lit('b', app('isnan', [P(b)], BOOL)) for b in T.subterms_atoms(p, set()) if b.kind == 'app' and b.a[0] in NAN_DATA]
    return Or(*fs) if fs else FALSE


NAN_DATA = set()          # names of input arrays whose elements may be NaN

SORTS['perm'] = INT
SORTS['iperm'] = INT
NOLIFT.add('perm')
NOLIFT.add('iperm')


@rule('perm')
def _r_perm(lam, n, j):
    a = atom_of(j)
    if a is not None and a.kind == 'app' and a.a[0] == 'iperm' and a.a[1][0] is lam and a.a[1][1] is n:
        return a.a[1][2]


@rule('iperm')
def _r_iperm(lam, n, j):
    a = atom_of(j)
    if a is not None and a.kind == 'app' and a.a[0] == 'perm' and a.a[1][0] is lam and a.a[1][1] is n:
        return a.a[1][2]


_PAIRS = {}


def _pairwise(fn, args):
    """earlier applications of fn to the same (lam, n)"""
    old = _PAIRS.setdefault((fn, args[0], args[1]), [])
    r = [j for j in old if j is not args[2]]
    if args[2] not in old:
        old.append(args[2])
    return r


def _ax_perm(enc, x, args):
    """a permutation of 0..n-1 (the identity elsewhere) that sorts the keys"""
    import z3
    lam, n, j = args
    f = lambda k: raw_app('perm', [lam, n, k], INT)
    rng = lambda k: And(le(0, k), lt(k, n))
    imp = lambda h, c: z3.Implies(enc.form(h), enc.form(c))
    out = [imp(rng(j), And(le(0, f(j)), lt(f(j), n)))]
    key = lambda k: lam_apply(lam, [f(k)])
    for k in _pairwise('perm', args):
        for p, q in ((j, k), (k, j)):
            out.append(imp(And(rng(p), rng(q), le(p, q)), le(key(p), key(q))))
        out.append(imp(ne(j, k), ne(f(j), f(k))))
    return out


def _ax_iperm(enc, x, args):
    import z3
    lam, n, j = args
    q = raw_app('iperm', args, INT)
    return [z3.Implies(enc.form(And(le(0, j), lt(j, n))), enc.form(And(le(0, q), lt(q, n))))]


S.EXTRA_AX['perm'] = _ax_perm
S.EXTRA_AX['iperm'] = _ax_iperm


@np_('any')
def np_any(it, a, k):
    v = asarray(it, a[0])
    if axis_arg(it, v, k, 1, a) is not None:
        return axis_all(it, v, axis_arg(it, v, k, 1, a), True)
    return vbool(Not(all_f(it, v, True)))


@np_('all')
def np_all(it, a, k):
    v = asarray(it, a[0])
    if axis_arg(it, v, k, 1, a) is not None:
        return axis_all(it, v, axis_arg(it, v, k, 1, a), False)
    return vbool(all_f(it, v, False))


def axis_all(it, v, ax, any_):
    """any/all along one axis of constant length"""
    if ax < 0:
        ax += len(v.shape)
    n = v.shape[ax].const()
    if n is None or n > 16:
        raise Unsupported('any/all axis')
    s = it.snap(v)
    tr = (lambda q: bl(q)) if v.dtype == 'bool' else (lambda q: ne(q, 0))
    join = Or if any_ else And
    sh = v.shape[:ax] + v.shape[ax + 1:]
    return it.arr(sh, 'bool', lambda idx: iv(join(*[tr(s(list(idx[:ax]) + [con(i)] + list(idx[ax:]))) for i in range(int(n))])))


def all_f(it, v, negate):
    s = it.snap(v)
    us = [fresh('q') for _ in v.shape]
    cs = [n.const() for n in v.shape]

    def tr(idx):
        p = s(idx)
        f = bl(p) if v.dtype == 'bool' else ne(p, 0)
        return Not(f) if negate else f
    if len(us) == 1 and cs[0] is not None and cs[0] <= 16:
        return And(*[tr([con(i)]) for i in range(int(cs[0]))])
    dom = And(*[And(le(0, P(u)), lt(P(u), n)) for u, n in zip(us, v.shape)])
    return forall(us, Implies(dom, under(it, dom, lambda: tr([P(u) for u in us]))))


@np_('ndim')
def np_ndim(it, a, k):
    return Num(con(len(asarray(it, a[0]).shape)), 'int')


@np_('size')
def np_size(it, a, k):
    return Num(size_of(asarray(it, a[0])), 'int')


@np_('shape')
def np_shape(it, a, k):
    return tuple(Num(d, 'int') for d in asarray(it, a[0]).shape)


@np_('diff')
def np_diff(it, a, k):
    if len(a) > 1 or k:
        raise Unsupported('diff options')
    v = asarray(it, a[0])
    if len(v.shape) != 1:
        raise Unsupported('diff of matrix')
    s = it.snap(v)
    n = v.shape[0] - 1
    if not it.ctx.entails(le(0, n)):
        n = app('max', [n, ZERO])
    return it.arr([n], v.dtype, lambda idx: s([idx[0] + 1]) - s([idx[0]]))


@np_('convolve')
def np_convolve(it, a, k):
    """full / same / valid discrete convolution of two vectors"""
    x, y = asarray(it, a[0]), asarray(it, a[1])
    mode = k.get('mode', a[2] if len(a) > 2 else 'full')
    if len(x.shape) != 1 or len(y.shape) != 1 or mode not in ('full', 'valid', 'same'):
        raise Unsupported('convolve arguments')
    for v in (x, y):
        if it.truth(lt(0, v.shape[0])) is not True:
            it.may_raise(le(v.shape[0], 0), 'ValueError', 'convolve of an empty array')
    n, m = x.shape[0], y.shape[0]
    if it.split(lt(n, m)):
        x, y, n, m = y, x, m, n
    sx, sy = it.snap(x), it.snap(y)
    off, ln = {'full': (ZERO, n + m - 1), 'valid': (m - 1, n - m + 1), 'same': (app('floor', [(m - 1) / 2]), n)}[mode]
    dt = max(x.dtype, y.dtype, key=DT.index)

    def base(idx):
        t = idx[0] + off
        u = fresh('s')
        dom = And(le(0, P(u)), lt(P(u), m), le(0, t - P(u)), lt(t - P(u), n))
        return sum_over([u], dom, under(it, dom, lambda: sx([t - P(u)]) * sy([P(u)])), [m])
    return it.arr([ln], dt, base)


@np_('delete')
def np_delete(it, a, k):
    v, i = asarray(it, a[0]), a[1]
    if len(v.shape) != 1 or not isinstance(i, Num) or i.p.sort != INT:
        raise Unsupported('delete arguments')
    n = v.shape[0]
    j = it.norm_index(i.p, n)
    s = it.snap(v)
    return it.arr([n - 1], v.dtype, lambda idx: s([idx[0] + iv(le(j, idx[0]))]))


@np_('trapz', 'trapezoid')
def np_trapz(it, a, k):
    y = asarray(it, a[0])
    x = a[1] if len(a) > 1 else k.get('x')
    dx = it.num(a[2] if len(a) > 2 else k.get('dx', Num(ONE, 'float'))).p
    if len(y.shape) != 1:
        raise Unsupported('trapz of a matrix')
    n = y.shape[0]
    sy = it.snap(y)
    if x is None:
        step = lambda u: dx
    else:
        x = asarray(it, x)
        it.same_dim(x.shape[0], n)
        sx = it.snap(x)
        step = lambda u: sx([u + 1]) - sx([u])
    u = fresh('s')
    dom = And(le(0, P(u)), lt(P(u), n - 1))
    return Num(sum_over([u], dom, under(it, dom, lambda: (sy([P(u)]) + sy([P(u) + 1])) / 2 * step(P(u))), [n - 1]), 'float')


@np_('cumsum')
def np_cumsum(it, a, k):
    v = asarray(it, a[0])
    if len(v.shape) != 1 or len(a) > 1 or k:
        raise Unsupported('cumsum arguments')
    s = it.snap(v)

    def base(idx):
        u = fresh('s')
        dom = And(le(0, P(u)), le(P(u), idx[0]))
        return mk_sum([u], dom, under(it, dom, lambda: s([P(u)])))
    return it.arr(v.shape, v.dtype if v.dtype != 'bool' else 'int', base)


SORTS['hilbker'] = REAL


@rule('hilbker')
def _r_hilb(n, m):
    """imaginary part of the N point analytic-signal kernel: odd in the offset"""
    if m.is_zero():
        return ZERO
    if m.t[leading(m)] < 0:
        return neg(app('hilbker', [n, neg(m)]))


@reg('scipy.signal.hilbert')
def sp_hilbert(it, a, k):
    """analytic signal of a real vector padded to N points: x + j sum_k x_k h_N(m - k) (linear, circulant, kernel odd)"""
    v = asarray(it, a[0])
    N = a[1] if len(a) > 1 else k.get('N')
    if len(v.shape) != 1 or v.dtype == 'complex' or set(k) - {'N'} or len(a) > 2:
        raise Unsupported('hilbert arguments')
    n = v.shape[0]
    N = n if N is None else it.num(N).p
    if N.sort != INT:
        raise Unsupported('hilbert length')
    if it.truth(lt(0, N)) is not True:
        it.may_raise(le(N, 0), 'ValueError', 'hilbert: N must be positive')
    s = it.snap(v)
    it.assumed.add('scipy.signal.hilbert: analytic signal of the zero-padded real vector by its circulant odd kernel')

    def base(idx):
        u = fresh('s')
        dom = And(le(0, P(u)), lt(P(u), n), lt(P(u), N))
        r = under(it, And(lt(idx[0], n)), lambda: iv(lt(idx[0], n)) * s([idx[0]]))
        return r + IMAG * mk_sum([u], dom, under(it, dom, lambda: s([P(u)]) * app('hilbker', [N, idx[0] - P(u)])))
    return it.arr([N], 'complex', base)


@np_('transpose')
def np_transpose(it, a, k):
    if k:
        raise Unsupported('transpose keywords')
    v = asarray(it, a[0])
    if len(a) == 1:
        return arr_attr(it, v, 'T')
    perm = list(a[1:])
    if len(perm) == 1 and isinstance(perm[0], (tuple, VList)):
        perm = it.need_items(perm[0])
    perm = [it.concrete_int(x) for x in perm]
    n = len(v.shape)
    perm = [x + n if x < 0 else x for x in perm]
    if sorted(perm) != list(range(n)):
        raise PyRaise('ValueError', 'axes do not match array')
    where = {old: new for new, old in enumerate(perm)}
    dims = [d if d[0] == 'fix' else ('var', where[d[1]], d[2], d[3]) for d in v.dims]
    return Arr(v.buf, dims, tuple(v.shape[x] for x in perm))


@np_('isscalar')
def np_isscalar(it, a, k):
    return isinstance(a[0], (Num, bool, VBool, str))


@np_('flip', 'flipud')
def np_flip(it, a, k):
    v = asarray(it, a[0])
    if len(v.shape) > 1:
        raise Unsupported('flip matrix')
    return it.view(v, SliceV(None, None, Num(con(-1), 'int')))


@np_('squeeze')
def np_squeeze(it, a, k):
    raise Unsupported('squeeze')


@np_('tile', 'repeat')
def np_tile(it, a, k):
    raise Unsupported('tile')


@np_('allclose', 'isclose', 'array_equal')
def np_allclose(it, a, k):
    raise Unsupported('allclose')


@np_('atleast_1d')
def np_atleast_1d(it, a, k):
    v = asarray(it, a[0])
    if v.shape:
        return v
    p = it.read_arr(v, [])
    return it.arr([ONE], v.dtype, lambda idx: p)


@np_('outer')
def np_outer(it, a, k):
    x, y = asarray(it, a[0]), asarray(it, a[1])
    return it.arr_binop('Mult', it.view(x, (SliceV(None, None, None), None)), it.view(y, (None, SliceV(None, None, None))))


# methods
def m_copy(it, a, k):
    return copy_arr(it, a[0])


def m_astype(it, a, k):
    return copy_arr(it, a[0], dtype_of(a[1], None))


def m_tolist(it, a, k):
    return b_list(it, [a[0]], {})


def m_fill(it, a, k):
    it.store(a[0], a[1])


def m_reshape(it, a, k):
    v = a[0]
    sh = a[1:] if len(a) > 2 or not isinstance(a[1], (tuple, VList)) else list(a[1] if isinstance(a[1], tuple) else a[1].content)
    return reshape(it, v, [it.num(x).p for x in sh])


def reshape(it, v, sh):
    """C-order reshape; supported when one side is a merge/split of leading dims with known factors"""
    sh = list(sh)
    neg1 = [j for j, d in enumerate(sh) if d.const() == -1]
    if neg1:
        if len(sh) == 1:
            sh = [size_of(v)]
        else:
            raise Unsupported('reshape -1')
    if len(sh) == len(v.shape) and all(it.ctx.entails(eq(x, y)) for x, y in zip(sh, v.shape)):
        return Arr(v.buf, v.dims, v.shape)
    # drop / insert unit dimensions or merge dims: index arithmetic
    src, dst = list(v.shape), sh
    is_contig = all(d[0] == 'fix' or (d[3] == 1) for d in v.dims)
    # match trailing dims
    tail = 0
    while tail < len(src) and tail < len(dst) and (src[-1 - tail] is dst[-1 - tail] or it.ctx.entails(eq(src[-1 - tail], dst[-1 - tail]))):
        tail += 1
    s2, d2 = src[:len(src) - tail], dst[:len(dst) - tail]
    ns, nd = ONE, ONE
    for x in s2:
        ns = ns * x
    for x in d2:
        nd = nd * x
    it.same_dim(ns, nd)
    # view semantics: only when at most one of the heads is multi-dimensional
    if len(s2) == 0 and all(x is ONE for x in d2):
        dims = [d if d[0] == 'fix' else ('var', d[1] + len(d2), d[2], d[3]) for d in v.dims]
        return Arr(v.buf, dims, dst)
    sn = it.snap(v)
    cs = [x.const() for x in s2]
    cd = [x.const() for x in d2]

    def base(idx):
        # flat head index
        flat = ZERO
        for x, n in zip(idx[:len(d2)], d2):
            flat = flat * n + x
        head = unflatten(it, flat, s2, idx[:len(d2)], d2)
        return sn(head + list(idx[len(d2):]))
    b = it.buffer(dst, v.dtype, base)
    b.reshaped_from = v
    it.assumed.add('reshape returns a copy-equivalent value (aliasing tracked separately)')
    r = Arr(b)
    # aliasing: a write to either side makes the other one unreadable here; the write counts as one to the caller's data
    b.alias = v.buf
    b.origin = v.buf.origin
    v.buf.aliases = getattr(v.buf, 'aliases', ()) + (b,)
    return r


def div_parts(flat, n):
    """flat = q * n + r, collecting the monomials that contain the factor n"""
    at = atom_of(n)
    q, r = ZERO, ZERO
    c = n.const()
    for m, co in flat.t.items():
        t = mkpoly({m: co})
        if c is not None and not m[1]:
            d = co // c
            q, r = q + con(d), r + con(co - d * c)
        elif c is not None and (co / c).denominator == 1:
            q = q + scale(t, 1 / c)
        elif at is not None and any(a is at and e >= 1 for a, e in m[1]):
            q = q + t / n
        else:
            r = r + t
    return q, r


def unflatten(it, flat, dims, idx, dd):
    """flat index -> multi-index in dims"""
    if len(dims) == 1:
        return [flat]
    if not dims:
        return []
    if len(dims) == 2 and len(dd) == 1:
        # i = q*n1 + r, 0 <= r < n1
        n1 = dims[1]
        q0, r0 = div_parts(flat, n1)
        if r0 is flat or it.ctx.entails(And(le(0, r0), lt(r0, n1))):
            if r0 is not flat or it.ctx.entails(And(le(0, r0), lt(r0, n1))):
                return [q0, r0]
        q = lift_guards(flat / n1, lambda z: app('floor', [z]))
        return [q, flat - q * n1]
    raise Unsupported('reshape of this form')


def m_flatten(it, a, k):
    v = a[0]
    if len(v.shape) == 1:
        return copy_arr(it, v)
    return copy_arr(it, reshape(it, v, [size_of(v)]))


def m_ravel(it, a, k):
    v = asarray(it, a[0])
    if len(v.shape) == 1:
        return v
    return reshape(it, v, [size_of(v)])


def m_item(it, a, k):
    v = a[0]
    if not v.shape:
        return Num(it.read_arr(v, []), v.dtype)
    raise Unsupported('item')


def m_setflags(it, a, k):
    w = k.get('write', a[1] if len(a) > 1 else None)
    if isinstance(w, bool):
        a[0].buf.writeable = w
        it.events.append(('flags', a[0].buf.origin, w))
        return None
    raise Unsupported('setflags')


ARRM = {'copy': m_copy, 'astype': m_astype, 'tolist': m_tolist, 'fill': m_fill, 'reshape': m_reshape, 'flatten': m_flatten,
        'item': m_item, 'setflags': m_setflags, 'ravel': m_ravel, 'conjugate': FUN['numpy.conj'], 'conj': FUN['numpy.conj']}


@np_('reshape')
def np_reshape(it, a, k):
    return m_reshape(it, a, k)


def fancy_get(it, o, ix):
    h = getattr(it, 'fancy_handler', None)
    if h is not None:
        r = h(it, o, ix)
        if r is not NotImplemented:
            return r
    if isinstance(ix, Arr) and ix.dtype == 'int' and len(ix.shape) == 1:
        # integer-array gather along the first axis
        s, j = it.snap(o), it.snap(ix)
        n = o.shape[0]
        return it.arr((ix.shape[0],) + o.shape[1:], o.dtype, lambda idx: s([wrap_idx(it, j([idx[0]]), n)] + list(idx[1:])))
    if isinstance(ix, (VList,)):
        return fancy_get(it, o, asarray(it, ix))
    if isinstance(ix, Arr) and ix.dtype == 'bool':
        return compress(it, o, ix)
    if isinstance(ix, tuple) and len(ix) == 2 and isinstance(ix[0], Arr) and isinstance(ix[1], SliceV):
        full_ = ix[1].lo is None and ix[1].hi is None and ix[1].step is None
        if full_:
            return fancy_get(it, o, ix[0])
    raise Unsupported('fancy indexing')


def wrap_idx(it, k, n):
    a = atom_of(k)
    if a is not None and a.kind == 'app' and a.a[0] == 'perm' and (a.a[1][1] is n or S.prove_zero(a.a[1][1] - n, it.ctx)):
        return k                     # argsort positions are valid
    if it.ctx.entails(le(0, k)):
        return k
    return app('wrap', [k, n])


# boolean-mask selection: count(mask) and the order preserving enumeration sel(mask, j)
SORTS['count'] = INT
SORTS['sel'] = INT
SORTS['len'] = INT
NOLIFT.add('sel')
NOLIFT.add('count')


def mask_terms(it, m):
    u = fresh('s')
    s = it.snap(m)
    lam = mk_lam([u], s([P(u)]))
    return lam, m.shape[0]


def compress(it, o, m):
    if len(m.shape) == len(o.shape) and len(m.shape) > 1:
        raise Unsupported('matrix mask')
    it.same_dim(m.shape[0], o.shape[0])
    lam, n = mask_terms(it, m)
    lam = canon_mask(it, lam, n)
    cnt = app('count', [lam, n])
    s = it.snap(o)
    it.ctx = it.ctx.add(le(0, cnt), le(cnt, n))
    return it.arr((cnt,) + o.shape[1:], o.dtype, lambda idx: s([app('sel', [lam, n, idx[0]])] + list(idx[1:])))


def recanon(it, p, ctx):
    """p with the masks and sort keys in it replaced by the first ones recorded that are
    equal to them under ctx (which may decide a case that was open when they were made)"""
    rep = {}
    for a in T.subterms_atoms(p, set()):
        if a.kind == 'app':
            args = [x if isinstance(x, T.Lam) else recanon(it, x, ctx) for x in a.a[1]]
            kind = {'sel': 'masks', 'count': 'masks', 'rank': 'masks', 'perm': 'keys', 'iperm': 'keys'}.get(a.a[0])
            if kind and isinstance(args[0], T.Lam):
                args[0] = canon_mask(it, args[0], args[1], kind, ctx)
            if any(x is not y for x, y in zip(args, a.a[1])):
                rep[a] = app(a.a[0], args, a.sort)
    return S.replace_atoms(p, rep) if rep else p


def _heads(p):
    """the functions a value is computed from (guards apart)"""
    hs = set()
    for (g, f) in p.t:
        for a, e in f:
            if a.kind == 'app':
                hs.add((a.a[0],) + tuple(x for x in a.a[1] if isinstance(x, T.Poly) and x.const() is not None))
                if a.a[0] not in ('sel', 'perm'):
                    for x in a.a[1]:
                        if isinstance(x, T.Poly):
                            hs |= _heads(x)
    return hs


def canon_mask(it, lam, n, table='masks', ctx=None):
    """masks (or sort keys) that are provably equal at every index share one enumeration"""
    tab = it.__dict__.setdefault(table, [])
    u = fresh('s')
    m = lam_apply(lam, [P(u)])
    ctx = it.ctx if ctx is None else ctx
    c = ctx.add(le(0, P(u)), lt(P(u), n))
    for (l2, n2) in tab:
        if l2 is lam and n2 is n:
            return l2
        if not S.prove_zero(n2 - n, ctx):
            continue
        if table == 'tables' and _heads(lam_apply(l2, [P(u)])) != _heads(m):
            continue          # unlike columns: not worth a proof attempt
        if S.prove_zero(lam_apply(l2, [P(u)]) - m, c):
            return l2
    tab.append((lam, n))
    return lam


def _ax_sel(enc, x, args):
    """0 <= sel(j) < n and the mask holds there, for 0 <= j < count"""
    lam, n, j = args
    cnt = app('count', [lam, n])
    h = enc.form(And(le(0, j), lt(j, cnt)))
    q = raw_app('sel', args, INT)
    import z3
    out = [z3.Implies(h, z3.And(x >= 0, enc.form(lt(q, n)), enc.form(bl(lam_apply(lam, [q])))))]
    for k in _pairwise('sel', args):
        # the enumeration is in increasing order
        r = raw_app('sel', [lam, n, k], INT)
        for (p, fp), (s_, fs) in (((j, q), (k, r)), ((k, r), (j, q))):
            out.append(z3.Implies(enc.form(And(le(0, p), lt(p, s_), lt(s_, cnt))), enc.form(lt(fp, fs))))
    return out


def _ax_rank(enc, x, args):
    """0 <= rank(i) < count for a masked index"""
    lam, n, i = args
    cnt = app('count', [lam, n])
    h = enc.form(And(le(0, i), lt(i, n), bl(lam_apply(lam, [i]))))
    import z3
    r = raw_app('rank', args, INT)
    return [z3.Implies(h, z3.And(x >= 0, enc.form(lt(r, cnt)), enc.form(eq(app('sel', [lam, n, r]), i))))]


def _ax_count(enc, x, args):
    lam, n = args
    import z3
    return [z3.Implies(enc.form(le(0, n)), z3.And(x >= 0, enc.form(le(raw_app('count', args, INT), n))))]


S.EXTRA_AX['sel'] = _ax_sel
S.EXTRA_AX['rank'] = _ax_rank
S.EXTRA_AX['count'] = _ax_count
SORTS['rank'] = INT
NOLIFT.add('rank')


@rule('rank')
def _r_rank(lam, n, i):
    if lam.body is ONE:
        return i
    a = atom_of(i)
    if a is not None and a.kind == 'app' and a.a[0] == 'sel' and a.a[1][0] is lam and a.a[1][1] is n:
        return a.a[1][2]


@rule('count')
def _r_count(lam, n):
    if lam.body is ONE:
        return n
    if lam.body.is_zero():
        return ZERO


@rule('sel')
def _r_sel(lam, n, j):
    if lam.body is ONE:
        return j


def fancy_set(it, o, ix, v):
    h = getattr(it, 'fancy_set_handler', None)
    if isinstance(ix, Arr) and ix.dtype == 'bool':
        # o[mask] = scalar
        if len(ix.shape) == len(o.shape):
            for p, q in zip(ix.shape, o.shape):
                it.same_dim(p, q)
            if isinstance(v, (Num, bool, int)):
                ms, cur = it.snap(ix), it.snap(o)
                x = it.num(v).p
                new = it.arr(o.shape, o.dtype, lambda idx: ite(bl(ms(idx)), x, cur(idx)))
                it.store(o, new)
                return
            if isinstance(v, Arr):
                if len(v.shape) != 1 or len(o.shape) != 1:
                    raise Unsupported('masked assignment of a matrix')
                if v.shape[0] is ONE:
                    x = it.read_arr(v, [ZERO])
                    ms, cur = it.snap(ix), it.snap(o)
                    it.store(o, it.arr(o.shape, o.dtype, lambda idx: ite(bl(ms(idx)), x, cur(idx))))
                    return
                # masked[k-th selected] = v[k]: the element at a masked index i is v[rank(i)]
                lam, n = mask_terms(it, ix)
                lam = canon_mask(it, lam, n)
                cnt = app('count', [lam, n])
                it.same_dim(v.shape[0], cnt)
                ms, cur, vs = it.snap(ix), it.snap(o), it.snap(v)

                def val(i):
                    j = fresh('s')
                    q = under(it, And(le(0, P(j)), lt(P(j), cnt)), lambda: vs([P(j)]))
                    q = T.map_apps(q, 'sel', lambda l2, n2, j2: i if (l2 is lam and n2 is n and j2 is P(j)) else app('sel', [l2, n2, j2]))
                    return subst(q, {j: app('rank', [lam, n, i])}) if j in q.fv else q
                it.store(o, it.arr(o.shape, o.dtype, lambda idx: ite(bl(ms(idx)), val(idx[0]), cur(idx))))
                return
    if isinstance(ix, tuple) and any(isinstance(x, Arr) for x in ix):
        raise Unsupported('fancy assignment')
    raise Unsupported('fancy assignment')


# ------------------------------------------------------------------------ scipy

@reg('scipy.special.j0')
def sp_j0(it, a, k):
    return ufunc1(lambda p: lift_guards(p, lambda q: app('besselj', [ZERO, q])), 'float')(it, a, k)


@reg('scipy.special.j1')
def sp_j1(it, a, k):
    return ufunc1(lambda p: lift_guards(p, lambda q: app('besselj', [ONE, q])), 'float')(it, a, k)


@reg('scipy.special.jv', 'scipy.special.jn')
def sp_jv(it, a, k):
    def f(n, x):
        gs = n.guards | x.guards
        if gs:
            g = min(gs, key=lambda l: l.id)
            m = neg_lit(g)
            return iv(g) * f(assume(n, g), assume(x, g)) + iv(m) * f(assume(n, m), assume(x, m))
        return app('besselj', [n, x])
    return it.elementwise(f, 'float', a[0], a[1])


@np_('interp')
def np_interp(it, a, k):
    names = ['x', 'xp', 'fp', 'left', 'right']
    d = dict(zip(names, a))
    d.update(k)
    if len(a) > 5 or set(d) - set(names):
        raise Unsupported('interp options')
    x, xp, fp = asarray_(it, d['x']), asarray(it, d['xp']), asarray(it, d['fp'])
    it.same_dim(xp.shape[0], fp.shape[0])
    n = xp.shape[0]
    u = fresh('s')
    lx = canon_mask(it, mk_lam([u], it.snap(xp)([P(u)])), n, 'tables')
    lf = canon_mask(it, mk_lam([u], it.snap(fp)([P(u)])), n, 'tables')
    it.assumed.add('numpy.interp: piecewise-linear interpolation of the (x, f) table')
    left, right = [None if d.get(e) is None else it.num(d[e]).p for e in ('left', 'right')]
    so = REAL if lf.body.sort != CPLX else CPLX

    def one(q):
        r = app('interp', [q, lx, lf, n], so)
        if right is not None:
            r = ite(lt(lam_apply(lx, [n - 1]), q), right, r)
        if left is not None:
            r = ite(lt(q, lam_apply(lx, [ZERO])), left, r)
        return r
    f = lambda p: lift_guards(p, one)
    return it.elementwise(f, 'float' if fp.dtype != 'complex' else 'complex', x)


def asarray_(it, v):
    return v if isinstance(v, (Num, int, float, bool)) else asarray(it, v)


def table(it, n, fn):
    """canonical name of the column fn(0), ..., fn(n - 1)"""
    u = fresh('s')
    return canon_mask(it, mk_lam([u], fn(P(u))), n, 'tables')


def column(it, v, cplx=False):
    """(canonical name, length) of a 1-D array"""
    v = asarray(it, v)
    if len(v.shape) != 1 or v.dtype == 'complex' and not cplx:
        raise Unsupported('column of %d dimensions' % len(v.shape))
    s = it.snap(v)
    return table(it, v.shape[0], lambda i: s([i])), v.shape[0]


def line_fit(it, x, y):
    """least-squares line through the points (x, y): (slope, intercept), uninterpreted functions of the two columns"""
    (lx, n), (ly, m) = column(it, x), column(it, y)
    it.same_dim(n, m)
    it.assumed.add('numpy.polyfit (degree 1) / scipy.stats.linregress: slope and intercept of the least-squares line')
    # at least one point
    if not it.ctx.entails(lt(0, n)):
        it.may_raise(le(n, 0), 'TypeError', 'fit of an empty vector')
    it.fits = getattr(it, 'fits', [])
    it.fits.append((lx, ly, n))
    return app('lsqslope', [lx, ly, n], REAL), app('lsqicept', [lx, ly, n], REAL)


for _n in ('lsqslope', 'lsqicept', 'savgol'):
    SORTS[_n] = REAL
    NOLIFT.add(_n)


@np_('polyfit')
def np_polyfit(it, a, k):
    if len(a) != 3 or k or it.num(a[2]).p.const() != 1:
        raise Unsupported('polyfit')
    return const_vec(it, line_fit(it, a[0], a[1]))


def const_vec(it, ps):
    ps = list(ps)
    return it.arr([con(len(ps))], 'float', lambda idx: select(idx[0], [(lambda p: lambda: p)(p) for p in ps]))


@reg('scipy.stats.linregress')
def sp_linregress(it, a, k):
    if len(a) != 2 or k:
        raise Unsupported('linregress')
    s, i = line_fit(it, a[0], a[1])
    if not hasattr(it, 'lr_class'):
        it.lr_class = ClassV('LinregressResult', [], None, None)
        it.lr_class.nt = ['slope', 'intercept', 'rvalue', 'pvalue', 'stderr']
    vals = [Num(s, 'float'), Num(i, 'float')] + [Num(P(fresh('lr', REAL)), 'float') for _ in range(3)]
    return it.new(Obj(it.lr_class, dict(zip(it.lr_class.nt, vals))))


@np_('polyval')
def np_polyval(it, a, k):
    c = asarray(it, a[0])
    n = c.shape[0].const()
    if len(a) != 2 or k or n is None or n > 8:
        raise Unsupported('polyval')
    co = [it.read_arr(c, [con(i)]) for i in range(int(n))]

    def f(p):
        r = ZERO
        for q in co:
            r = r * p + q
        return r
    return it.elementwise(f, 'float', a[1])


@reg('scipy.signal.savgol_filter')
def sp_savgol(it, a, k):
    if len(a) != 3 or k:
        raise Unsupported('savgol_filter options')
    ly, n = column(it, a[0])
    w, o = it.num(a[1]).p, it.num(a[2]).p
    it.assumed.add('scipy savgol_filter: one value per sample, determined by the data, window and order')
    it.may_raise(TRUE, 'ValueError', 'window')
    return it.arr([n], 'float', lambda idx: app('savgol', [ly, n, w, o, idx[0]], REAL))


@reg('scipy.optimize.minimize')
def sp_minimize(it, a, k):
    """some point: the objective and the start are recorded for the contract"""
    d = dict(zip(('fun', 'x0'), a))
    d.update(k)
    if set(d) - {'fun', 'x0', 'method', 'tol', 'options', 'bounds'} or 'fun' not in d or 'x0' not in d:
        raise Unsupported('minimize options')
    x0 = asarray(it, d['x0'])
    it.mins = getattr(it, 'mins', [])
    nm = 'argopt%d' % len(it.mins)
    it.mins.append((d['fun'], x0, nm))
    it.assumed.add('scipy.optimize.minimize returns some point of the dimension of its start')
    return Obj(ClassV('OptimizeResult', [], None, None), {'x': it.arr(list(x0.shape), 'float', lambda idx: app(nm, list(idx), REAL)),
                                                         'fun': Num(app(nm + 'f', [ZERO], REAL), 'float'), 'success': vbool(mk_lit('b', app(nm + 'ok', [ZERO], BOOL)))})


SORTS['interp'] = REAL
NOLIFT.add('interp')


# ------------------------------------------------------------------ functionals of whole arrays
def handle(it, tag, arr, extra=()):
    """name of an uninterpreted functional applied to the current contents of `arr`: two calls get the same name when the contents are
    provably equal (extensionality), otherwise a new one.  Contents may depend on loop variables, which become parameters.
    -> (name, [parameter Polys])"""
    hs = it.__dict__.setdefault('handles', [])
    us = [SymA('_hu%d' % j, INT) for j in range(len(arr.shape))]
    U = [P(u) for u in us]
    dom = [f for u, n in zip(U, arr.shape) for f in (le(0, u), lt(u, n))]
    st = it.ctx
    it.ctx = it.ctx.add(*dom)
    try:
        p = it.read_arr(arr, U)
        lv = [L.var for L in it.loops if not L.concrete and L.var is not None] + [x for x in getattr(it, 'hparams', [])]
        params = [v for v in lv if v in p.fv or any(v in n.fv for n in arr.shape)]
        for (tg, shape, ps, q, nm, ex) in hs:
            if tg != tag or len(ps) != len(params) or len(shape) != len(arr.shape) or ex != extra:
                continue
            mp = {a: P(b) for a, b in zip(ps, params)}
            if all(S.prove_zero(subst(x, mp) - y, it.ctx) for x, y in zip(shape, arr.shape)) and S.prove_zero(subst(q, mp) - p, it.ctx):
                return nm, [P(v) for v in params]
    finally:
        it.ctx = st
    nm = '%s#%d' % (tag, len(hs))
    hs.append((tag, tuple(arr.shape), params, p, nm, extra))
    return nm, [P(v) for v in params]


def np_linalg_inv(it, a, k):
    m = asarray(it, a[0])
    if len(m.shape) < 2:
        raise PyRaise('LinAlgError', 'inverse of a vector')
    it.same_dim(m.shape[-1], m.shape[-2])
    if it.in_sym_loop():
        raise Unsupported('matrix inverse inside a symbolic loop')
    calls = it.__dict__.setdefault('inv_calls', [])
    nm = 'inv#%d' % len(calls)
    calls.append((nm, m.shape, it.snap(m)))
    it.assumed.add('numpy.linalg.inv returns the matrix inverse (singular matrices raise)')
    so = CPLX if m.dtype == 'complex' else REAL
    return it.arr(m.shape, 'complex' if m.dtype == 'complex' else 'float', lambda idx: app(nm, list(idx), so))


FUN['numpy.linalg.inv'] = np_linalg_inv


# ------------------------------------------------------------------ interpolating splines
NOLIFT.add('spl')
NOLIFT.add('dspl')
SORTS['spl'] = REAL
SORTS['dspl'] = REAL


@reg('scipy.interpolate.InterpolatedUnivariateSpline')
def sp_spline(it, a, k):
    """interpolating spline of order k through the table (x, y): a function determined by the table and the order"""
    names = ['x', 'y', 'w', 'bbox', 'k']
    d = dict(zip(names, a))
    d.update(k)
    if set(d) - {'x', 'y', 'k'}:
        raise Unsupported('spline arguments')
    x, y = asarray(it, d['x']), asarray(it, d['y'])
    order = it.num(d.get('k', Num(con(3), 'int'))).p
    it.same_dim(x.shape[0], y.shape[0])
    it.assumed.add('scipy InterpolatedUnivariateSpline: a function determined by its table and order; derivative() is its derivative')
    u = fresh('s')
    lx = mk_lam([u], it.snap(x)([P(u)]))
    ly = mk_lam([u], it.snap(y)([P(u)]))
    args = [lx, ly, x.shape[0], order]

    def make(fn):
        def call(it, a, k):
            if len(a) != 1 or k:
                raise Unsupported('spline call')
            return it.elementwise(lambda q: lift_guards(q, lambda z: app(fn, [z] + args)), 'float', a[0])
        b = Builtin('spline', call)
        b.table, b.fname = args, fn

        def attr(it, name):
            if name == 'derivative' and fn == 'spl':
                def der(it, a, k):
                    if k or (a and it.num(a[0]).p.const() != 1):
                        raise Unsupported('spline derivative order')
                    return make('dspl')
                return Builtin('derivative', der)
            raise Unsupported('spline.%s' % name)
        b.attr = attr
        return b
    return make('spl')


def np_median(it, a, k):
    v = asarray(it, a[0])
    if len(a) > 1 or k:
        raise Unsupported('median axis')
    nm, ps = handle(it, 'median', v)
    return Num(app(nm, ps or [ZERO], REAL), 'float')


FUN['numpy.median'] = np_median


# ------------------------------------------------------------------ argument lists the models understand
LIMITS = {'b_len': 1, 'b_abs': 1, 'b_int': 1, 'b_float': 1, 'b_complex': 2, 'b_bool': 1, 'b_str': 1, 'b_list': 1, 'b_tuple': 1,
          'b_isinstance': 2, 'b_reversed': 1, 'b_pow': 2, 'b_hasattr': 2, 'b_getattr': 3, 'b_setattr': 3, 'b_callable': 1, 'b_divmod': 2,
          'b_slice': 3, 'b_map': 2, 'np_full_like': (2, 'dtype'), 'np_eye': (1, 'dtype'), 'np_copy': 1, 'np_arange': (3, 'dtype'),
          'np_hstack': 1, 'np_append': 2, 'np_vstack': 1, 'np_colstack': 1, 'np_stack': (1, 'axis'), 'np_clip': 3, 'np_invert': 1,
          'np_isnan': 1, 'np_isfinite': 1, 'np_where': 3, 'np_dot': 2, 'np_ndim': 1, 'np_size': 1, 'np_shape': 1, 'np_isscalar': 1,
          'np_flip': 1, 'np_atleast_1d': 1, 'np_outer': 2, 'm_copy': 1, 'm_astype': 2, 'm_tolist': 1, 'm_fill': 2, 'm_flatten': 1,
          'm_ravel': 1, 'm_item': 1, 'sp_jv': 2, 'np_linalg_inv': 1, 'b_range': 3, 'b_zip': 99, 'm_reshape': 99}


def limited(f, lim):
    n, kws = lim if isinstance(lim, tuple) else (lim, '')
    kws = kws.split()

    def g(it, a, k):
        if len(a) > n or any(x not in kws for x in k):
            raise Unsupported('%s: arguments outside the model (%d positional, %s)' % (f.__name__, len(a), sorted(k)))
        return f(it, a, k)
    g.__name__ = f.__name__
    return g


for _t in (FUN, BI, ARRM):
    for _k in list(_t):
        _f = _t[_k]
        if getattr(_f, '__name__', None) in LIMITS:
            _t[_k] = limited(_f, LIMITS[_f.__name__])
