"""Run-time values of the symbolic executor."""
from .terms import *
from . import terms as T


class Unsupported(Exception):
    """construct outside the verifier's reach (never a violation)"""


class NeedSplit(Exception):
    def __init__(self, cond):
        Exception.__init__(self, str(cond))
        self.cond = cond


class PyRaise(Exception):
    """the analysed program raises unconditionally on this path"""

    def __init__(self, exc, msg=''):
        Exception.__init__(self, '%s: %s' % (exc, msg))
        self.exc, self.msg = exc, msg


class Num(object):
    __slots__ = ('p', 'ty')

    def __init__(self, p, ty=None):
        self.p = pol(p)
        if ty is None:
            ty = {INT: 'int', REAL: 'float', CPLX: 'complex'}[self.p.sort]
        self.ty = ty

    def __repr__(self):
        return 'Num<%s %s>' % (self.ty, self.p)


class VBool(object):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return 'VBool<%s>' % (self.f,)


def vbool(f):
    if isinstance(f, Const):
        return f.v
    return VBool(f)


_serial = itertools.count()


class Cell(object):
    def __init__(self):
        self.serial = next(_serial)


class VList(Cell):
    """list of concrete length"""

    def __init__(self, items):
        Cell.__init__(self)
        self.content = tuple(items)

    def __repr__(self):
        return 'VList%r' % (list(self.content),)


class VBag(Cell):
    """list of integers of unknown length under an invariant: every item satisfies inv; some items are known"""

    def __init__(self, inv, members=(), last=None, distinct=False, ordered=False):
        Cell.__init__(self)
        self.inv = inv
        self.content = (tuple(members), last, distinct, ordered)

    def __repr__(self):
        return 'VBag%r' % (self.content,)


class RepList(Cell):
    """list of symbolic length whose items are all the same immutable value"""

    def __init__(self, n, v):
        Cell.__init__(self)
        self.content = (n, v)


class VDict(Cell):
    def __init__(self, items):
        Cell.__init__(self)
        self.content = tuple(items)      # ((key, value), ...)

    @staticmethod
    def key(k):
        """what the dictionary compares: numbers by value"""
        if isinstance(k, Num):
            c = k.p.const()
            if c is None:
                raise Unsupported('symbolic dictionary key')
            return c
        if isinstance(k, (bool, int)):
            return T.Fr(int(k))
        if isinstance(k, tuple):
            return tuple(VDict.key(x) for x in k)
        if isinstance(k, (str, Func, BoundMethod, ClassV, Obj)) or k is None:
            return k
        if isinstance(k, (VBool, float, StrV)) or type(k).__name__ in ('Text', 'Opaque', 'Arr'):
            raise Unsupported('dictionary key %r' % (k,))
        return k

    def get(self, k):
        q = self.key(k)
        for a, b in self.content:
            if self.key(a) == q:
                return b
        raise KeyError(k)

    def has(self, k):
        q = self.key(k)
        return any(self.key(a) == q for a, b in self.content)

    def set(self, k, v):
        q = self.key(k)
        l = list(self.content)
        for i, (a, b) in enumerate(l):
            if self.key(a) == q:
                l[i] = (a, v)
                self.content = tuple(l)
                return
        self.content = tuple(l + [(k, v)])


class Obj(Cell):
    def __init__(self, cls, attrs=None):
        Cell.__init__(self)
        self.cls = cls
        self.content = dict(attrs or {})
        self.frozen = False

    def __repr__(self):
        return '<obj %s>' % (self.cls.name if hasattr(self.cls, 'name') else self.cls)


class Store(object):
    """forall params in dom: buf[idx(params)] (= or +=) value(params)"""
    __slots__ = ('params', 'dom', 'idx', 'value', 'acc')

    def __init__(self, params, dom, idx, value, acc):
        self.params, self.dom, self.idx, self.value, self.acc = tuple(params), dom, tuple(idx), value, acc

    def rename(self, mp):
        return Store([atom_of(mp[v]) if v in mp else v for v in self.params], subst_f(self.dom, mp),
                     [subst(x, mp) for x in self.idx], subst(self.value, mp), self.acc)

    def fresh(self):
        return self.rename({v: P(fresh('w')) for v in self.params})

    def __repr__(self):
        return 'Store(%s | %s: [%s] %s %s)' % (self.params, self.dom, ', '.join(map(str, self.idx)),
                                               '+=' if self.acc else '=', self.value)


class Buffer(Cell):
    """array storage; content = (base callable, stores)"""

    def __init__(self, shape, dtype, base, kind='ndarray'):
        Cell.__init__(self)
        self.shape = tuple(pol(s) for s in shape)
        self.dtype = dtype
        self.content = (base, ())
        self.writeable = True
        self.one_of = None
        self.kind = kind
        self.tag = None
        self.origin = None     # name of the caller-owned input it belongs to


class Arr(object):
    """view on a Buffer: dims maps every base dimension to either ('fix', Poly) or ('var', viewdim, start, step)"""
    __slots__ = ('buf', 'dims', 'shape')

    def __init__(self, buf, dims=None, shape=None):
        self.buf = buf
        if dims is None:
            dims = tuple(('var', i, ZERO, 1) for i in range(len(buf.shape)))
            shape = buf.shape
        self.dims = tuple(dims)
        self.shape = tuple(shape)

    @property
    def dtype(self):
        return self.buf.dtype

    @property
    def ndim(self):
        return len(self.shape)

    def base_index(self, idx):
        out = []
        for d in self.dims:
            if d[0] == 'fix':
                out.append(d[1])
            else:
                i = idx[d[1]]
                out.append(d[2] + (i if d[3] == 1 else scale(i, Fr(d[3]))))
        return out

    def __repr__(self):
        return 'Arr<%s %s>' % (self.dtype, 'x'.join(map(str, self.shape)))


class Module(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<module %s>' % self.name


class Builtin(object):
    def __init__(self, name, fn=None):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class Func(object):
    def __init__(self, node, module, name, cls=None, closure=None):
        self.node, self.module, self.name, self.cls, self.closure = node, module, name, cls, closure
        self.qual = '%s.%s%s' % (module.name, (cls.name + '.') if cls else '', name)
        self.bound = None

    def __repr__(self):
        return '<func %s>' % self.qual


class BoundMethod(object):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class ClassV(object):
    def __init__(self, name, bases, module, node):
        self.name, self.bases, self.module, self.node = name, bases, module, node
        self.attrs = {}

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None


class Opaque(object):
    """value the verifier knows nothing about"""

    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return '<opaque %s>' % self.why


class ExcClass(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<exc %s>' % self.name


class ExcVal(object):
    def __init__(self, name, args=()):
        self.name, self.args = name, args


class Undef(object):
    def __repr__(self):
        return '<undef>'


UNDEF = Undef()


class Partial(object):
    """defined only under guard g"""

    def __init__(self, g, v):
        self.g, self.v = g, v


class SliceV(object):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class RangeV(object):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step     # Poly, Poly, int


class EnumV(object):
    def __init__(self, seq, start=ZERO):
        self.seq, self.start = seq, start


class ZipV(object):
    def __init__(self, seqs):
        self.seqs = seqs


class StrV(object):
    """opaque string"""

    def __init__(self, name='?'):
        self.name = name


class PropertyV(object):
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset
