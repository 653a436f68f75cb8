"""Contracts of qmix.mathfn: I-V curve models (C13), filters and derivatives (C14), Kramers-Kronig transform (C12)."""
from .base import *

IV = 'qmix.mathfn.ivcurve_models.'
KINDS = ('array', 'int array', 'float', 'int')
A = lambda x: app('abs', [x])


def voltage(it, kind):
    """(argument, number of samples or None, v(i))"""
    if kind in ('array', 'int array'):
        n = sym('n', INT)
        dt = 'float' if kind == 'array' else 'int'
        f = lambda idx: app('v', idx, REAL if dt == 'float' else INT)
        a = fun_arr(it, 'v', [n], dt)
        return a, n, lambda i: app('v', [i], REAL if dt == 'float' else INT)
    x = sym('v', REAL if kind == 'float' else INT)
    return Num(x, kind), None, lambda i: x


def lift(f, p):
    from qv.terms import lift_guards
    return lift_guards(p, f)


def check_curve(ob, it, kind, v, n, spec, what):
    """the returned value is spec at every voltage, as an array of the input's length for arrays"""
    if n is None:
        if not ob.fact('%s of a number is a number' % what, isinstance(v, (Num, int, float)) and not isinstance(v, bool), repr(v)):
            return
        ob.equal('%s of a number' % what, it.num(v).p, spec(None), it.ctx)
        return
    if not check_shape(ob, it, what, v, [n]):
        return
    ob.fact('%s is a float array' % what, v.dtype == 'float', v.dtype)
    i, f = index('i', 0, n)
    ob.equal('%s at every sample' % what, at(it, v, i), spec(i), it.ctx.add(*f))
    no_input_writes(ob, it)


@unit('C13', 'perfect I-V curve', [IV + 'perfect'], 60, each=KINDS)
def perfect(ob, kind):
    def spec(v):
        return ite(lt(A(v), 1), 0, ite(eq(v, 1), con('1/2'), ite(eq(v, -1), con('-1/2'), v)))

    def setup(it):
        it.arg, it.n, it.v = voltage(it, kind)
        return [le(0, it.n)] if it.n is not None else []

    def post(it, k, v):
        if not ob.no_raise(it, k, v):
            return
        check_curve(ob, it, kind, v, it.n, lambda i: spec(it.v(i)), 'perfect model')
    ob.run(setup, lambda it: it.call(it.func(IV + 'perfect'), [it.arg], {}), post)
    x = real('x')
    ob.equal('perfect model is odd', spec(neg(x)), neg(spec(x)), S.Ctx())


@unit('C13', 'KK transform of the perfect I-V curve', [IV + 'perfect_kk'], 60, each=KINDS)
def perfect_kk(ob, kind):
    def spec(v, cap):
        lg = app('log', [A((v - 1) / (v + 1))])
        return ite(eq(A(v), 1), cap, neg(2 + v * lg) / PI)

    def setup(it):
        it.arg, it.n, it.v = voltage(it, kind)
        it.cap = real('cap')
        return [le(0, it.n)] if it.n is not None else []

    def post(it, k, v):
        if not ob.no_raise(it, k, v):
            return
        check_curve(ob, it, kind, v, it.n, lambda i: spec(it.v(i), it.cap), 'analytic KK transform')
    ob.run(setup, lambda it: it.call(it.func(IV + 'perfect_kk'), [it.arg], {'max_kk': Num(it.cap, 'float')}), post)
    x, cap = real('x'), real('cap')
    ob.fact('default cap is 100', str(default(ob, IV + 'perfect_kk', 'max_kk')) in ('100.0', '100'))


def default(ob, qual, name):
    """default value of a parameter in the source"""
    import ast
    it = Interp(program(), [], ())
    f = it.func(qual)
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if name not in names:
        return None
    j = names.index(name) - (len(names) - len(a.defaults))
    if j < 0:
        return None
    try:
        return ast.literal_eval(a.defaults[j])
    except ValueError:
        return None


@unit('C13', 'polynomial I-V curve', [IV + 'polynomial'], 60, each=('array', 'float'))
def polynomial(ob, kind):
    def setup(it):
        it.arg, it.n, it.v = voltage(it, kind)
        it.order = sym('order', INT)
        POS.add(atom_of(it.order))
        return ([le(0, it.n)] if it.n is not None else []) + [le(1, it.order)]

    def post(it, k, v):
        if not ob.no_raise(it, k, v):
            return
        p = it.order
        pw = lambda b, e: app('pow', [b, e])
        check_curve(ob, it, kind, v, it.n, lambda i: pw(it.v(i), 2 * p + 1) / (1 + pw(it.v(i), 2 * p)), 'polynomial model')
    ob.run(setup, lambda it: it.call(it.func(IV + 'polynomial'), [it.arg, Num(it.order, 'int')], {}), post)
    x, p = real('x'), sym('order', INT)
    f = lambda x: app('pow', [x, 2 * p + 1]) / (1 + app('pow', [x, 2 * p]))
    ob.equal('polynomial model is odd', f(neg(x)), neg(f(x)), S.Ctx())


def sigm(z):
    """1 / (1 + exp(z))"""
    return inv(1 + app('exp', [z]))


@unit('C13', 'exponential I-V curve', [IV + 'exponential'], 60, each=[(k, m) for k in ('array', 'float') for m in ('fixed', 'corrected', 'Original', 'other')])
def exponential(ob, kind, model):
    def spec(x, vgap, rn, rsg, a):
        v = x * vgap
        up, dn = lambda c: sigm(neg(a * (v - c))), lambda c: sigm(a * (v - c))
        if model != 'Original':
            s = v / (2 * rsg) * (up(neg(vgap)) - dn(neg(vgap)) - up(vgap) + dn(vgap))
        else:
            s = v / rsg * (up(neg(vgap)) + dn(vgap))
        return (s + v / rn * (dn(neg(vgap)) + up(vgap))) * rn / vgap

    def setup(it):
        it.arg, it.n, it.v = voltage(it, kind)
        it.pars = [pos(x) for x in ('vgap', 'rn', 'rsg', 'agap')]
        return [le(0, it.n)] if it.n is not None else []

    def post(it, k, v):
        if model == 'other':
            ob.fact('unknown models are refused', k == 'raise' and v.exc == 'ValueError', repr(v))
            return
        if not ob.no_raise(it, k, v):
            return
        check_curve(ob, it, kind, v, it.n, lambda i: spec(it.v(i), *it.pars), 'exponential model')
        if kind == 'float':
            x = real('x')
            ob.equal('exponential model is odd', spec(neg(x), *it.pars), neg(spec(x, *it.pars)), it.ctx)
    ob.run(setup, lambda it: it.call(it.func(IV + 'exponential'), [it.arg] + [Num(p, 'float') for p in it.pars], {'model': model}), post)


@unit('C13', 'expanded I-V curve', [IV + 'expanded'], 60, each=('array', 'float'))
def expanded(ob, kind):
    def spec(x, vgap, rn, rsg, agap, a0, ileak, vnot, inot, anot, ioff):
        v = x * vgap
        up = lambda a, c: sigm(neg(a * (v - c)))
        dn = lambda a, c: sigm(a * (v - c))
        g = neg(vgap)
        s = ileak * (2 * up(a0, ZERO) - 1 - up(agap, vgap) + dn(agap, g))
        s = s + v / (2 * rsg) * (up(agap, g) - dn(agap, g) - up(agap, vgap) + dn(agap, vgap))
        s = s + v / rn * (dn(agap, g) + up(agap, vgap))
        s = s + inot * (dn(anot, vnot) + dn(anot, neg(vnot)) - 1)
        s = s + ioff * (dn(agap, vgap) + dn(agap, g) - 1)
        return s * rn / vgap

    def setup(it):
        it.arg, it.n, it.v = voltage(it, kind)
        it.pars = [pos(x) for x in ('vgap', 'rn', 'rsg', 'agap', 'a0', 'ileak', 'vnot', 'inot', 'anot', 'ioff')]
        return [le(0, it.n)] if it.n is not None else []

    def post(it, k, v):
        if not ob.no_raise(it, k, v):
            return
        check_curve(ob, it, kind, v, it.n, lambda i: spec(it.v(i), *it.pars), 'expanded model')
    ob.run(setup, lambda it: it.call(it.func(IV + 'expanded'), [it.arg] + [Num(p, 'float') for p in it.pars], {}), post)


# ------------------------------------------------------------------------ C14: smoothing and derivatives
FI, MI = 'qmix.mathfn.filters.', 'qmix.mathfn.misc.'


def data(it, name, n, dtype='float'):
    return fun_arr(it, name, [n], dtype)


@unit('C14', 'Gaussian window', [FI + '_gauss'], 60)
def gauss(ob):
    def setup(it):
        it.sg, it.ns = pos('sigma'), pos('ext')

    def post(it, k, v):
        if not ob.no_raise(it, k, v):
            return
        L = app('ceil', [2 * it.sg * it.ns + con('1/100000')])
        if not check_shape(ob, it, 'window', v, [L]):
            return
        i, f = index('i', 0, L)
        x = i - it.sg * it.ns
        ob.equal('window value', at(it, v, i), app('exp', [neg(x * x / (2 * it.sg * it.sg))]) / (it.sg * app('sqrt', [2 * PI])), it.ctx.add(*f))
    ob.run(setup, lambda it: it.call(it.func(FI + '_gauss'), [Num(it.sg, 'float'), Num(it.ns, 'float')], {}), post)


@unit('C14', 'Gaussian smoothing', [FI + 'gauss_conv', FI + '_gauss'], 120, each=('float', 'int'))
def smooth(ob, dtype):
    so = REAL if dtype == 'float' else INT
    x = lambda i: app('x', [i], so)

    def setup(it):
        it.n = sym('n', INT)
        it.x = data(it, 'x', it.n, dtype)
        it.sg, it.ns = pos('sigma'), pos('ext')
        it.L = app('ceil', [2 * it.sg * it.ns + con('1/100000')])
        return [le(0, it.n)]

    def post(it, k, v):
        bad = Or(lt(it.n, it.L), lt(it.sg * it.ns, 1))
        if k == 'raise':
            ob.true('refused only if the window does not fit', bad, it.ctx)
            return
        ob.true('accepted only if the window fits', Not(bad), it.ctx)
        if not check_shape(ob, it, 'smoothed data', v, [it.n]):
            return
        n, L = it.n, it.L
        i, f = index('i', 0, n)
        kk = fresh('k')
        w = lambda j: app('exp', [neg((j - it.sg * it.ns) * (j - it.sg * it.ns) / (2 * it.sg * it.sg))])

        def mirrored(p):
            return ite(lt(p, 0), x(neg(p)), ite(le(n, p), x(2 * n - 2 - p), x(p)))
        dom = And(le(0, P(kk)), lt(P(kk), L))
        total = mk_sum([kk], dom, w(P(kk)))
        pos_ = i + app('floor', [L / 2]) - P(kk)
        spec = mk_sum([kk], dom, w(P(kk)) * mirrored(pos_)) / total
        c = it.ctx.add(*f)
        got = at(it, v, i)
        ob.zero('weighted average of the mirrored data', got * total - spec * total, c)
        no_input_writes(ob, it)
    ok = lambda it, c, exc, msg: exc in ('AssertionError',)
    ob.run(setup, lambda it: it.call(it.func(FI + 'gauss_conv'), [it.x, Num(it.sg, 'float'), Num(it.ns, 'float')], {}), post, raises_ok=ok)


@unit('C14', 'derivative', [MI + 'slope'], 60, each=('float', 'int'))
def slope(ob, dtype):
    so = REAL if dtype == 'float' else INT
    x = lambda i: app('x', [i], so)
    y = lambda i: app('y', [i], so)

    def setup(it):
        it.n = sym('n', INT)
        it.x, it.y = data(it, 'x', it.n, dtype), data(it, 'y', it.n, dtype)
        return [le(2, it.n)]

    def post(it, k, v):
        if not ob.no_raise(it, k, v) or not check_shape(ob, it, 'derivative', v, [it.n]):
            return
        ob.fact('derivative is a float array', v.dtype == 'float', v.dtype)
        n = it.n
        i, f = index('i', 0, n)
        d = lambda a, b: (y(a) - y(b)) / (x(a) - x(b))
        c = it.ctx.add(*f)
        ob.equal('central difference inside', at(it, v, i), d(i + 1, i - 1), c.add(le(1, i), lt(i, n - 1)))
        ob.equal('one-sided at the start', at(it, v, ZERO), d(ONE, ZERO), it.ctx)
        ob.equal('one-sided at the end', at(it, v, n - 1), d(n - 1, n - 2), it.ctx)
        no_input_writes(ob, it)
    ob.run(setup, lambda it: it.call(it.func(MI + 'slope'), [it.x, it.y], {}), post, raises_ok=lambda it, c, e, m: e == 'ZeroDivisionError')


@unit('C14', 'wide-span derivative', [MI + 'slope_span_n'], 120, each=[(True, 'any data'), (False, 'straight line')])
def slope_n(ob, nozeros, line):
    """n = 2 h + 1 points wide; every sample lies in one of five regions"""
    x = lambda i: app('x', [i], REAL)

    def setup(it):
        it.n, it.h = sym('n', INT), sym('h', INT)
        it.x = data(it, 'x', it.n)
        if line == 'any data':
            it.y = data(it, 'y', it.n)
        else:
            it.a, it.b = real('a'), real('b')
            it.y = Arr(it.buffer([it.n], 'float', lambda idx: it.a * x(idx[0]) + it.b))
            it.y.buf.origin = 'y'
        return [le(1, it.h), le(3 * it.h + 2, it.n)]

    def post(it, k, v):
        if not ob.no_raise(it, k, v) or not check_shape(ob, it, 'derivative', v, [it.n]):
            return
        no_input_writes(ob, it)
        n, h = it.n, it.h
        i = sym('i', INT)
        st = it.ctx
        if nozeros:
            raw = it.call(it.func(MI + 'slope_span_n'), [it.x, it.y, Num(2 * h + 1, 'int')], {'nozeros': False})
        for nm, f in (('the first sample', [eq(i, 0)]), ('the left edge', [le(1, i), le(i, h)]), ('the inside', [lt(h, i), lt(i, n - h)]),
                      ('the right edge', [le(n - h, i), lt(i, n - 1)]), ('the last sample', [eq(i, n - 1)])):
            it.ctx = st.add(*f)
            if it.ctx.inconsistent():
                continue
            got = S.norm(at(it, v, i), it.ctx)
            if nozeros:
                ob.true('never zero: ' + nm, ne(got, 0), it.ctx)
                r = S.norm(at(it, raw, i), it.ctx)
                ob.equal('unchanged where it is not zero: ' + nm, ite(eq(r, 0), 0, got), r, it.ctx)
            else:
                ob.equal('exact for straight lines: ' + nm, got, it.a, it.ctx)
        it.ctx = st
    ob.run(setup, lambda it: it.call(it.func(MI + 'slope_span_n'), [it.x, it.y, Num(2 * it.h + 1, 'int')], {'nozeros': nozeros}), post,
           raises_ok=lambda it, c, e, m: e == 'ZeroDivisionError')


# ------------------------------------------------------------------------ C12: Kramers-Kronig transform
KK = 'qmix.mathfn.kktrans.'


def even(it, n, v):
    """every step is within 1e-5 of the first one"""
    u = fresh('u')
    d = lambda j: v(j + 1) - v(j)
    return S.forall([u], Implies(And(le(0, P(u)), lt(P(u), n - 1)), lt(A(d(ZERO) - d(P(u))), con('1/100000'))))


def spacing(ob, it, k, n, v):
    """data is refused exactly when a step differs from the first one"""
    spaced = even(it, n, v)
    if k == 'raise':
        ob.true('refused only for uneven spacing', Not(spaced), it.ctx)
        return False
    j, f = index('j', 0, n - 1)
    cj = it.ctx.add(*f)
    ob.true('accepted only for even spacing', lt(A(v(ONE) - v(ZERO) - v(j + 1) + v(j)), con('1/100000')), cj.add(*S.instantiate(cj, [j])))
    for c2 in getattr(it, 'refused', []):
        facts, ws = S.skolem(c2)
        c3 = c2.add(spaced, *facts)
        ob.fact('refused only for uneven spacing', c3.add(*S.instantiate(c3, ws)).inconsistent(), str(c3.add(*S.instantiate(c3, ws)).facts)[:1800])
    return True


def refusals(it, ctx, exc, msg):
    if exc != 'AssertionError':
        return False
    it.refused = getattr(it, 'refused', []) + [ctx]
    return True


@unit('C12', 'Kramers-Kronig transform', [KK + 'kk_trans'], 90, each=('given padding', 'default padding'))
def kk_trans(ob, pad):
    v = lambda i: app('v', [i], REAL)
    c = lambda i: app('c', [i], REAL)

    def setup(it):
        it.n, it.m = sym('n', INT), sym('m', INT)
        it.v, it.i = data(it, 'v', it.n), data(it, 'c', it.n)
        return [le(2, it.n), le(1, it.m)]

    def post(it, k, r):
        n = it.n
        if not spacing(ob, it, k, n, v) or not check_shape(ob, it, 'transform', r, [n]):
            return
        N = n * (it.m if pad == 'given padding' else 50)
        j, f = index('j', 0, n)
        u = fresh('u')
        dom = And(le(0, P(u)), lt(P(u), n))
        spec = neg(mk_sum([u], dom, (c(P(u)) - v(P(u))) * app('hilbker', [N, j - P(u)])))
        ob.equal('negated padded Hilbert transform of I - V', at(it, r, j), spec, it.ctx.add(*f))
        no_input_writes(ob, it)

    ob.run(setup, lambda it: it.call(it.func(KK + 'kk_trans'), [it.v, it.i] + ([Num(it.m, 'int')] if pad == 'given padding' else []), {}), post, raises_ok=refusals)


@unit('C12', 'trapezoidal transform', [KK + 'kk_trans_trapz'], 90)
def kk_trapz(ob):
    v = lambda i: app('v', [i], REAL)
    c = lambda i: app('c', [i], REAL)

    def setup(it):
        it.n = sym('n', INT)
        it.v, it.i = data(it, 'v', it.n), data(it, 'c', it.n)
        return [le(2, it.n)]

    def post(it, k, r):
        n = it.n
        if not spacing(ob, it, k, n, v) or not check_shape(ob, it, 'transform', r, [n]):
            return
        a, f = index('a', 0, n)
        u = fresh('u')
        skip = lambda j: j + iv(le(a, j))
        x = lambda j: v(skip(j))
        y = lambda j: (c(skip(j)) - v(skip(j))) / (v(skip(j)) - v(a))
        spec = mk_sum([u], And(le(0, P(u)), lt(P(u), n - 2)), (y(P(u)) + y(P(u) + 1)) / 2 * (x(P(u) + 1) - x(P(u)))) / PI
        ob.equal('trapezoidal principal value integral', at(it, r, a), spec, it.ctx.add(*f))
        no_input_writes(ob, it)
    ob.run(setup, lambda it: it.call(it.func(KK + 'kk_trans_trapz'), [it.v, it.i], {}), post, raises_ok=refusals)
