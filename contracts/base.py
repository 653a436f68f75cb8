"""Preconditions and specification vocabulary shared by the contracts."""
from fractions import Fraction
from qv.framework import *
from qv.npmodel import select, PI
from qv import solve as S
from qv import terms as T


def pos(name):
    p = sym(name, REAL)
    POS.add(atom_of(p))
    return p


def real(name):
    return sym(name, REAL)


def ints(*names):
    return [sym(n, INT) for n in names]


def const_arr(it, ps, dtype='float', kind='ndarray'):
    ps = list(ps)
    return Arr(it.buffer([con(len(ps))], dtype, lambda idx: select(idx[0], [(lambda p: lambda: p)(p) for p in ps]), kind))


def fun_arr(it, name, shape, dtype='float', origin=True, kind='ndarray'):
    so = {'bool': INT, 'int': INT, 'float': REAL, 'complex': CPLX}[dtype]
    a = Arr(it.buffer(shape, dtype, lambda idx: app(name, idx, so), kind))
    if origin:
        a.buf.origin = name
    return a


def instance(it, qual, **attrs):
    m, c = qual.rsplit('.', 1)
    cls = it.mod_attr(m, c)
    o = it.new(Obj(cls))
    o.content.update(attrs)
    o.partial = bool(attrs)          # other attributes are not described: reading one leaves the unit undecided
    return o


def at(it, arr, *idx):
    return it.read_arr(arr, [pol(i) for i in idx])


def index(name, lo, hi):
    """fresh in-range index and its facts"""
    v = sym(name, INT)
    return v, [le(lo, v), lt(v, hi)]


def same_array(it, a, shape, fn, extra=()):
    """is array value a pointwise equal to fn(idx) with this shape?"""
    if not isinstance(a, Arr) or len(a.shape) != len(shape):
        return False
    ctx = it.ctx.add(*extra)
    for x, y in zip(a.shape, shape):
        if not S.prove_zero(x - pol(y), ctx):
            return False
    u = [P(fresh('u')) for _ in shape]
    c = ctx.add(*[f for x, n in zip(u, shape) for f in (le(0, x), lt(x, pol(n)))])
    return S.prove_zero(it.read_arr(a, u) - fn(u), c)


def same_num(it, v, p):
    return isinstance(v, (Num, int, bool)) and S.prove_zero(it.num(v).p - pol(p), it.ctx)


def check_shape(ob, it, name, arr, shape):
    if not ob.fact(name + ' is an array', isinstance(arr, Arr), repr(arr)):
        return False
    if not ob.fact(name + ' has %d dimensions' % len(shape), len(arr.shape) == len(shape), str(arr.shape)):
        return False
    ok = True
    for i, (x, y) in enumerate(zip(arr.shape, shape)):
        ok = ob.equal('%s length of axis %d' % (name, i), x, y, it.ctx) and ok
    return ok


def no_input_writes(ob, it, allowed=()):
    ev = [e for e in it.events if e[0] == 'write' and e[1] not in allowed]
    ob.fact('caller-owned inputs are not written', not ev, str(ev)[:500])


def positional(it, f, args, kw):
    """actual arguments of a call in declaration order (defaults filled in)"""
    from qv.interp import Frame
    fr = Frame(f, f.module, len(it.guards))
    fr.closure = f.closure
    try:
        env = it.bind_args(f.node, args, kw, fr, fr)
    except PyRaise:
        return None
    return [env[x.arg] for x in f.node.args.posonlyargs + f.node.args.args]


def with_instances(ctx, t, tidy=lambda q: q):
    """ctx and the instances of its universally quantified facts (over one index) at t"""
    out = ctx
    for g in list(ctx.facts):
        if isinstance(g, Lit) and g.kind == 'b':
            a = T.atom_of(g.p)
            if a is not None and a.kind == 'app' and a.a[0] == 'forall' and len(a.a[1][0].vars) == 1:
                out = out.add(bl(tidy(T.lam_apply(a.a[1][0], [t]))))
    return out


def with_witness(ctx, w):
    """ctx and, for each negated universal fact (over one index), its failure at the witness w: one context per fact"""
    out = []
    for g in list(ctx.facts):
        if isinstance(g, Lit) and g.kind == 'nb':
            a = T.atom_of(g.p)
            if a is not None and a.kind == 'app' and a.a[0] == 'forall' and len(a.a[1][0].vars) == 1:
                out.append(ctx.add(Not(bl(T.lam_apply(a.a[1][0], [w])))))
    return out
