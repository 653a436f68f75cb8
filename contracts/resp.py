"""Contracts of qmix.respfn (C11 response function, C22 sampling and error check)."""
from .base import *
from .mathfn import even

R = 'qmix.respfn.'
F = lambda n: (lambda i: app(n, [i], REAL))


def functional(name, so=REAL):
    """an uninterpreted curve fit: Builtin mapping voltages elementwise to name(v)"""
    b = Builtin(name, lambda it, a, k: it.elementwise(lambda q: T.lift_guards(q, lambda z: app(name, [z], so)), 'float', a[0]))
    return b


def kk_spec(it, v, c, n, N, j):
    """KK transform of the curve (v, c) with n samples padded to N: what kk_trans guarantees (C12)"""
    u = fresh('u')
    return neg(mk_sum([u], And(le(0, P(u)), lt(P(u), n)), (c(P(u)) - v(P(u))) * app('hilbker', [N, j - P(u)])))


def kk_stub(it, f, args, kw):
    """contract of qmix.mathfn.kktrans.kk_trans, established under C12"""
    v, c, m = positional(it, f, args, kw)
    n = v.shape[0]
    it.same_dim(c.shape[0], n)
    sv, sc = it.snap(v), it.snap(c)
    if it.truth(le(2, n)) is not True:
        it.raises.append((it.ctx.add(lt(n, 2)), 'IndexError', 'kk_trans needs two samples'))
    spaced = even(it, n, lambda i: sv([i]))
    it.raises.append((it.ctx.add(Not(spaced)), 'AssertionError', 'spacing'))
    it.ctx = it.ctx.add(spaced)
    N = n * it.num(m).p
    return it.arr([n], 'float', lambda idx: kk_spec(it, lambda i: sv([i]), lambda i: sc([i]), n, N, idx[0]))


def gauss_stub(it, f, args, kw):
    """contract of gauss_conv, established under C14: same length, determined by the data, sigma and extent"""
    x, sigma, ext = positional(it, f, args, kw)
    n = x.shape[0]
    u = fresh('s')
    lam = mk_lam([u], it.snap(x)([P(u)]))
    it.raises.append((it.ctx, 'AssertionError', 'window'))
    return it.arr([n], 'float', lambda idx: app('smooth', [lam, n, it.num(sigma).p, it.num(ext).p, idx[0]], REAL))


T.NOLIFT.add('smooth')


def setup_stub(it, f, args, kw):
    """_setup_interpolation by contract: records the curves it is given, returns four fitted functions"""
    d = dict(zip(('voltage', 'current', 'current_kk'), args))
    d.update(kw)
    it.fit = d
    it.raises.append((it.ctx, 'AssertionError', 'interpolation error'))
    return tuple(functional('fit%d' % i) for i in range(4))


class Opts(object):
    """keyword options of the constructors"""
    names = ('verbose', 'max_npts_dc', 'max_npts_kk', 'max_interp_error', 'check_error', 'v_smear', 'kk_n', 'spline_order')
    defaults = dict(verbose=True, max_npts_dc=101, max_npts_kk=151, max_interp_error=0.001, check_error=False, v_smear=None, kk_n=50, spline_order=3)


def opts(smear, given):
    """(keyword arguments, value of every option)"""
    kw, val = {}, {}
    if given:
        kw = dict(verbose=False, max_npts_dc=Num(sym('ndc', INT), 'int'), max_npts_kk=Num(sym('nkk', INT), 'int'), check_error=True,
                  max_interp_error=Num(pos('maxerr'), 'float'), kk_n=Num(sym('kkn', INT), 'int'), spline_order=Num(sym('order', INT), 'int'))
    if smear:
        kw['v_smear'] = Num(pos('smear'), 'float')
    return kw


def same_opt(ob, it, name, got, want):
    if want is None or isinstance(want, bool):
        ob.fact('option %s reaches the interpolation' % name, got is want, '%r instead of %r' % (got, want))
    else:
        w = want.p if isinstance(want, Num) else con(str(want))
        ob.fact('option %s reaches the interpolation' % name, isinstance(got, Num) and S.prove_zero(got.p - w, it.ctx), '%r instead of %r' % (got, want))


def attr(it, name):
    return it.r.content.get(name)


def check_fit(ob, it, N, V, C, KKv, kw, defaults):
    """attributes and interpolation inputs are the curve (V, C) and KK transform KKv with N samples"""
    i, f = index('i', 0, N)
    c = it.ctx.add(*f)
    for nm, spec in (('voltage', V), ('current', C), ('voltage_kk', V), ('current_kk', KKv)):
        a = attr(it, nm)
        if check_shape(ob, it, 'stored ' + nm, a, [N]):
            ob.equal('stored %s' % nm, at(it, a, i), spec(i), c)
    fit = getattr(it, 'fit', None)
    if not ob.fact('the curves are interpolated', fit is not None):
        return
    for nm, spec in (('voltage', V), ('current', C), ('current_kk', KKv)):
        a = fit.get(nm)
        if check_shape(ob, it, 'interpolated ' + nm, a, [N]):
            ob.equal('interpolated %s' % nm, at(it, a, i), spec(i), c)
    for nm in ('max_npts_dc', 'max_npts_kk', 'max_interp_error', 'check_error', 'spline_order'):
        same_opt(ob, it, nm, fit.get(nm), kw.get(nm, defaults[nm]))
    check_methods(ob, it, *[(lambda nm: lambda x: app(nm, [x], REAL))('fit%d' % k) for k in range(4)])


METHODS = ('resp', '__call__', 'idc', 'ikk', 'didc', 'dikk', 'resp_conj', 'resp_swap')


def check_methods(ob, it, idc, ikk, didc=None, dikk=None):
    """every evaluation method of it.r returns the stated combination of the curves for arrays, matrices and numbers"""
    j = P(T.I_ATOM)
    want = [('resp', lambda x: ikk(x) + j * idc(x)), ('__call__', lambda x: ikk(x) + j * idc(x)), ('idc', idc), ('ikk', ikk), ('didc', didc), ('dikk', dikk),
            ('resp_conj', lambda x: ikk(x) - j * idc(x)), ('resp_swap', lambda x: idc(x) + j * ikk(x))]
    n, m = sym('nb', INT), sym('mb', INT)
    st = it.ctx
    for shape in ([n], [n, m], []):
        if didc is None and len(shape) == 2:
            continue                     # boolean selection from matrices is outside the engine: bounded replays
        it.ctx = st.add(le(0, n), le(0, m))
        idx = [sym('i%d' % d, INT) for d in range(len(shape))]
        facts = [f for i, d in zip(idx, shape) for f in (le(0, i), lt(i, d))]
        arg = fun_arr(it, 'bias', shape) if shape else Num(real('vb'), 'float')
        x = app('bias', idx, REAL) if shape else real('vb')
        for nm, spec in want:
            if spec is None:
                continue
            try:
                got = it.call(it.r, [arg], {}) if nm == '__call__' else it.call(it.getattr(it.r, nm), [arg], {})
            except PyRaise as e:
                ob.fact('%s can be evaluated' % nm, False, str(e))
                continue
            if shape:
                if check_shape(ob, it, nm, got, shape):
                    ob.equal('%s at every voltage' % nm, at(it, got, *idx), spec(x), it.ctx.add(*facts))
            else:
                ob.equal('%s of a number' % nm, it.num(got).p, spec(x), it.ctx)
    it.ctx = st


def base_stubs(it):
    it.contracts['qmix.mathfn.kktrans.kk_trans'] = kk_stub
    it.contracts['qmix.mathfn.filters.gauss_conv'] = gauss_stub
    it.contracts[R + '_setup_interpolation'] = setup_stub


EVAL = [R + 'RespFn.' + m for m in METHODS]


@unit('C11', 'construction from a curve', [R + 'RespFn.__init__', R + '_default_params'] + EVAL, 90, each=[(s, g) for s in ('plain', 'smeared') for g in ('defaults', 'options')])
def construct(ob, smear, given):
    v, c = F('v'), F('c')

    def setup(it):
        it.n = sym('n', INT)
        it.v, it.c = fun_arr(it, 'v', [it.n]), fun_arr(it, 'c', [it.n])
        it.r = instance(it, R + 'RespFn')
        it.kw = opts(smear == 'smeared', given == 'options')
        base_stubs(it)
        return [le(2, it.n), le(1, sym('kkn', INT))]

    def call(it):
        return it.call(it.getattr(it.r, '__init__'), [it.v, it.c], dict(it.kw))

    def okr(it, ctx, exc, msg):
        return exc == 'AssertionError'

    def post(it, k, r):
        if k == 'raise':
            ob.fact('only bad data is refused', r.exc == 'AssertionError', str(r))
            return
        ob.equal('first voltage is zero', v(ZERO), 0, it.ctx)
        ob.true('last voltage beyond 5', lt(5, v(it.n - 1)), it.ctx)
        N = 2 * it.n - 1
        odd = lambda g: (lambda i: ite(lt(i, it.n - 1), neg(g(it.n - 1 - i)), g(i - it.n + 1)))
        V, C0 = odd(v), odd(c)
        if smear == 'smeared':
            u = fresh('s')
            lam = mk_lam([u], C0(P(u)) - V(P(u)))
            step = v(it.n - 1) - v(it.n - 2)
            C = lambda i: app('smooth', [lam, N, pos('smear') / step, con(3), i], REAL) + V(i)
        else:
            C = C0
        m = it.kw['kk_n'].p if 'kk_n' in it.kw else con(50)
        KKv = lambda i: kk_spec(it, V, C, N, N * m, i)
        check_fit(ob, it, N, V, C, KKv, it.kw, Opts.defaults)
        no_input_writes(ob, it)
    ob.run(setup, call, post, raises_ok=okr)


def grid(i):
    return i / 200


GRID_N = 7001


@unit('C11', 'I-V models', [R + 'RespFnPolynomial.__init__', R + 'RespFnExponential.__init__', R + 'RespFn.__init__', R + '_default_params'] + EVAL, 90,
      each=[(m, g) for m in ('RespFnPolynomial', 'RespFnExponential') for g in ('defaults', 'options')])
def models(ob, cls, given):
    def setup(it):
        it.r = instance(it, R + cls)
        it.kw = opts(False, given == 'options')
        base_stubs(it)

        def model(name):
            def h(it, f, args, kw):
                it.margs = positional(it, f, args, kw)
                return it.elementwise(lambda q: app('model', [q], REAL), 'float', it.margs[0])
            it.contracts['qmix.mathfn.ivcurve_models.' + name] = h
        model('polynomial')
        model('exponential')
        it.par = [Num(x, 'float') for x in (pos('vgap'), pos('rn'), pos('rsg'), pos('agap'))] if cls == 'RespFnExponential' else [Num(sym('order', INT), 'int')]
        return [le(1, sym('kkn', INT))]

    def call(it):
        it.call(it.getattr(it.r, '__init__'), it.par, dict(it.kw))

    def post(it, k, r):
        if k == 'raise':
            ob.fact('only bad data is refused', r.exc == 'AssertionError', str(r))
            return
        N = 2 * GRID_N - 1
        h = GRID_N - 1
        V = lambda i: grid(i - h)
        M = lambda x: app('model', [x], REAL)
        C = lambda i: ite(lt(i, h), neg(M(neg(V(i)))), M(V(i)))
        m = it.kw['kk_n'].p if 'kk_n' in it.kw else con(50)
        dd = dict(Opts.defaults)
        if cls == 'RespFnExponential':
            dd['max_npts_kk'] = 251
        for a, w in zip(it.margs[1:], it.par):
            ob.equal('model parameter', it.num(a).p, w.p, it.ctx)
        if cls == 'RespFnExponential' and len(it.margs) > 5:
            ob.fact('the corrected exponential model is used', it.margs[5] in ('fixed', 'corrected'), repr(it.margs[5]))
        check_fit(ob, it, con(N), V, C, lambda i: kk_spec(it, V, C, con(N), N * m, i), it.kw, dd)
    ob.run(setup, call, post, raises_ok=lambda it, c, e, m: e == 'AssertionError')


@unit('C11', 'perfect response', [R + 'RespFnPerfect.__init__', R + '_default_params'] + EVAL, 90)
def perfect_resp(ob):
    A = lambda x: app('abs', [x])

    def idc(v):
        return ite(lt(A(v), 1), 0, ite(eq(v, 1), con('1/2'), ite(eq(v, -1), con('-1/2'), v)))

    def ikk(v):
        return ite(eq(A(v), 1), 100, neg(2 + v * app('log', [A((v - 1) / (v + 1))])) / PI)

    def setup(it):
        it.r = instance(it, R + 'RespFnPerfect')

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        N, h = 2 * GRID_N - 1, GRID_N - 1
        i, f = index('i', 0, N)
        c = it.ctx.add(*f)
        V = lambda i: grid(i - h)
        for nm, spec in (('voltage', V), ('current', lambda i: idc(V(i))), ('voltage_kk', V), ('current_kk', lambda i: ikk(V(i)))):
            a = attr(it, nm)
            if check_shape(ob, it, 'stored ' + nm, a, [con(N)]):
                ob.equal('stored %s' % nm, at(it, a, i), spec(i), c)
        check_methods(ob, it, idc, ikk)
    ob.run(setup, lambda it: it.call(it.getattr(it.r, '__init__'), [], {'verbose': False}), post)


@unit('C11', 'smeared perfect response', [R + 'RespFnPerfect.__init__', R + '_default_params'], 60, each=('defaults', 'options'))
def perfect_smeared(ob, given):
    def base(it, f, args, kw):
        it.base = positional(it, f, [args[0], args[1], args[2]], {})
        it.basekw = kw
        return None

    def setup(it):
        it.r = instance(it, R + 'RespFnPerfect')
        it.kw = opts(True, given == 'options')
        it.contracts[R + 'RespFn.__init__'] = base

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        if not ob.fact('the response function is built from the model', hasattr(it, 'base') and it.base[0] is it.r):
            return
        i, f = index('i', 0, GRID_N)
        c = it.ctx.add(*f)
        V, C = it.base[1:3]
        if check_shape(ob, it, 'voltage grid', V, [con(GRID_N)]) and check_shape(ob, it, 'current', C, [con(GRID_N)]):
            ob.equal('voltage grid', at(it, V, i), grid(i), c)
            g = grid(i)
            ob.equal('perfect model on the grid', at(it, C, i), ite(lt(g, 1), 0, ite(eq(g, 1), con('1/2'), g)), c)
        for nm in [q for q in Opts.names if q != "verbose"]:
            w = Opts.defaults[nm]
            same_opt(ob, it, nm, it.basekw.get(nm), it.kw.get(nm, w))
    ob.run(setup, lambda it: it.call(it.getattr(it.r, '__init__'), [], dict(it.kw)), post)


@unit('C11', 'measured data', [R + 'RespFnFromIVData.__init__', R + '_default_params'], 90, each=('default limit', 'given limit'))
def from_data(ob, lim):
    v, c = F('v'), F('c')

    def base(it, f, args, kw):
        it.base = positional(it, f, [args[0], args[1], args[2]], {})
        it.basekw = kw
        return None

    def setup(it):
        it.n = sym('n', INT)
        it.v, it.c = fun_arr(it, 'v', [it.n]), fun_arr(it, 'c', [it.n])
        it.r = instance(it, R + 'RespFnFromIVData')
        it.lim = con('9/5') if lim == 'default limit' else pos('vlimit')
        it.kw = {} if lim == 'default limit' else dict(opts(True, True), vlimit=Num(it.lim, 'float'))
        it.contracts[R + 'RespFn.__init__'] = base
        # the data covers the start: at least one voltage inside the used range
        it.z = sym('z', INT)
        u = fresh('u')
        it.ctx = it.ctx.add(le(0, it.z), lt(it.z, it.n))
        it.mask = canon(it, mk_lam([u], iv(And(le(0, v(P(u))), lt(v(P(u)), it.lim)))), it.n)
        return [le(0, it.z), lt(it.z, it.n), le(0, v(it.z)), lt(v(it.z), it.lim), le(0, app('rank', [it.mask, it.n, it.z], INT))]

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        if not ob.fact('the response function is built from the curve', hasattr(it, 'base')):
            return
        gv, gc = it.base[1], it.base[2]
        i, f = index('i', 0, GRID_N)
        ctx = it.ctx.add(*f)
        if check_shape(ob, it, 'voltage grid', gv, [con(GRID_N)]) and check_shape(ob, it, 'resampled current', gc, [con(GRID_N)]):
            ob.equal('voltage grid', at(it, gv, i), grid(i), ctx)
            got = at(it, gc, i)
            n, mask = it.n, it.mask
            cnt = app('count', [mask, n])
            last = app('sel', [mask, n, cnt - 1])
            b = c(last) - v(last)
            sel = lambda j: app('sel', [mask, n, j])
            w = fresh('w')
            tx = mk_lam([w], ite(lt(P(w), cnt), v(sel(P(w))), 50))
            ty = mk_lam([w], ite(lt(P(w), cnt), c(sel(P(w))), 50 + b))
            ob.equal('current is interpolated from the data inside [0, limit) and a unit-slope tail', got, app('interp', [grid(i), tx, ty, cnt + 1], REAL), ctx)
            # lemma: the tail has unit slope
            ob.equal('unit slope beyond the last point used', (50 + b - c(last)), 50 - v(last), ctx)
        default = dict(Opts.defaults, max_npts_dc=81, max_npts_kk=101, v_smear=None)
        default.pop("verbose")
        for nm, w in default.items():
            same_opt(ob, it, nm, it.basekw.get(nm), it.kw.get(nm, w))
        no_input_writes(ob, it)
    def okr(it, ctx, exc, msg):
        return False
    ob.run(setup, lambda it: it.call(it.getattr(it.r, '__init__'), [it.v, it.c], dict(it.kw)), post, raises_ok=okr)


def canon(it, lam, n):
    from qv.npmodel import canon_mask
    return canon_mask(it, lam, n)


# ---------------------------------------------------------------- sampling and error check (C22)

def slope_stub(it, f, args, kw):
    """contract of slope, established under C14: one value per sample"""
    x, y = positional(it, f, args, kw)
    it.same_dim(x.shape[0], y.shape[0])
    nm = 'slope%d' % it.hcount
    it.hcount += 1
    return it.arr([x.shape[0]], 'float', lambda idx: app(nm, [idx[0]], REAL))


def smooth_stub(it, f, args, kw):
    """contract of gauss_conv, established under C14: one value per sample, or refusal"""
    x = positional(it, f, args, kw)[0]
    it.raises.append((it.ctx, 'AssertionError', 'window'))
    nm = 'gauss%d' % it.hcount
    it.hcount += 1
    return it.arr([x.shape[0]], 'float', lambda idx: app(nm, [idx[0]], REAL))


@unit('C22', 'sampling', [R + '_sample_curve'], 90)
def sampling(ob):
    def setup(it):
        it.n = sym('n', INT)
        it.v, it.c = fun_arr(it, 'v', [it.n]), fun_arr(it, 'c', [it.n])
        it.contracts['qmix.mathfn.misc.slope'] = slope_stub
        it.contracts['qmix.mathfn.filters.gauss_conv'] = smooth_stub
        it.bag_inv = lambda x: And(le(0, x), lt(x, it.n))
        return [le(3, it.n), ne(app('v', [con(1)], REAL), app('v', [ZERO], REAL))]

    def call(it):
        return it.call(it.func(R + '_sample_curve'), [it.v, it.c, Num(sym('npts', INT), 'int'), Num(pos('smear'), 'float')], {})

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        if not ob.fact('a list of positions is returned', isinstance(r, VBag), repr(r)):
            return
        m, last, distinct, ordered = r.content
        ob.fact('the positions are sorted and distinct', distinct and ordered)
        for nm, want in (('first', ZERO), ('last', it.n - 1)):
            ob.fact('the %s sample is included' % nm, any(it.ctx.entails(eq(x, want)) for x in m), 'known members: %s' % (m,))
        no_input_writes(ob, it)
    ob.run(setup, call, post, maxpaths=400, raises_ok=lambda it, c, e, m: e == 'AssertionError')


def _ax_pick(enc, x, args):
    """positions handed out by _sample_curve are valid"""
    q = T.raw_app('pick0', args, INT)
    return [x >= 0, x < enc.poly(sym('n', INT))[0]]


S.EXTRA_AX['pick0'] = S.EXTRA_AX['pick1'] = _ax_pick


@unit('C22', 'interpolation and error check', [R + '_setup_interpolation'], 120, each=[(a, b) for a in ('silent', 'verbose') for b in ('checked', 'unchecked')])
def interpolation(ob, verb, chk):
    v, c, kk = F('v'), F('c'), F('kk')
    err = real('maxerr')

    def stub(it, f, args, kw):
        """contract of _sample_curve: strictly increasing valid positions, at least one"""
        d = positional(it, f, args, kw)
        i = len(it.samples)
        m = sym('m%d' % i, INT)
        it.ctx = it.ctx.add(le(1, m))
        it.samples.append((d, m))
        it.raises.append((it.ctx, 'AssertionError', 'window'))
        b = it.buffer([m], 'int', lambda idx: app('pick%d' % i, [idx[0]], INT), kind='list')
        return Arr(b)

    def setup(it):
        it.n = sym('n', INT)
        it.samples = []
        it.v, it.c, it.kk = fun_arr(it, 'v', [it.n]), fun_arr(it, 'c', [it.n]), fun_arr(it, 'kk', [it.n])
        it.contracts[R + '_sample_curve'] = stub
        it.kw = dict(max_npts_dc=Num(sym('ndc', INT), 'int'), max_npts_kk=Num(sym('nkk', INT), 'int'), max_interp_error=Num(err, 'float'),
                     check_error=chk == 'checked', verbose=verb == 'verbose', spline_order=Num(sym('order', INT), 'int'), v_smear=None, kk_n=Num(con(50), 'int'))
        u = fresh('u')
        it.ctx = it.ctx.add(le(1, it.n))
        it.mask = canon(it, mk_lam([u], iv(And(lt(-34, v(P(u))), lt(v(P(u)), 34)))), it.n)
        # the data reaches into the checked range (odd data contains 0 V), and positions handed out are valid
        it.z = sym('z', INT)
        return [le(1, it.n), le(0, it.z), lt(it.z, it.n), eq(v(it.z), 0), le(0, app('rank', [it.mask, it.n, it.z], INT))]

    def call(it):
        return it.call(it.func(R + '_setup_interpolation'), [it.v, it.c, it.kk], dict(it.kw))

    def table(it, i, y):
        pick = lambda j: app('pick%d' % i, [j], INT)
        m = it.samples[i][1]
        a, b = fresh('a'), fresh('b')
        ga = mk_lam([a], v(pick(P(a))))
        gb = mk_lam([b], y(pick(P(b))))
        return [ga, gb, m, sym('order', INT)]

    def post(it, k, r):
        if k == 'raise':
            ob.fact('only bad data is refused', r.exc == 'AssertionError', str(r))
            return
        if not ob.fact('both curves are sampled', len(it.samples) == 2, '%d' % len(it.samples)):
            return
        i, f = index('i', 0, it.n)
        c0 = it.ctx.add(*f)
        for s, nm, sz in ((0, 'DC', 'ndc'), (1, 'KK', 'nkk')):
            d = it.samples[s][0]
            ob.equal('%s sampling is given the voltages' % nm, at(it, d[0], i), v(i), c0)
            ob.equal('%s sampling size' % nm, it.num(d[2]).p, sym(sz, INT), it.ctx)
        x = real('x')
        want = [('spl', 0, c), ('spl', 1, kk), ('dspl', 0, c), ('dspl', 1, kk)]
        if not ob.fact('four functions are returned', isinstance(r, tuple) and len(r) == 4, repr(r)):
            return
        for fn, (kind, s, y) in zip(r, want):
            got = it.num(it.call(fn, [Num(x, 'float')], {})).p
            ob.equal('interpolation %s %d' % (kind, s), got, app(kind, [x] + table(it, s, y)), it.ctx)
        if chk == 'checked':
            # accepted: the error at every sample in the checked range is below the maximum
            cc = it.ctx.add(*f).add(lt(-34, v(i)), lt(v(i), 34), le(0, app('rank', [it.mask, it.n, i], INT)))
            rk = app('rank', [it.mask, it.n, i], INT)
            fit = lambda s, y: app('abs', [y(i) - app('spl', [v(i)] + table(it, s, y))])
            for s, y, nm in ((0, c, 'DC'), (1, kk, 'KK')):
                ob.true('accepted only if the %s error is below the maximum' % nm, lt(fit(s, y), err), with_instances(cc, rk, lambda q: back(it, q, i)))
        no_input_writes(ob, it)

    def back(it, q, i):
        """sel(rank(i)) = i for a masked position i"""
        rk = app('rank', [it.mask, it.n, i], INT)
        return T.map_apps(q, 'sel', lambda l, n, j: i if (l is it.mask and j is rk) else app('sel', [l, n, j]))

    def okr(it, ctx, exc, msg):
        """a refusal is for a reason: some sample in the checked range has too large an error"""
        if exc != 'AssertionError':
            return False
        if msg == 'window':
            return True
        if chk != 'checked' or len(it.samples) != 2:
            return False
        w = sym('w', INT)
        x = app('sel', [it.mask, it.n, w])
        for cx in with_witness(ctx, w):
            for s, y in ((0, c), (1, kk)):
                e = app('abs', [y(x) - app('spl', [v(x)] + table(it, s, y))])
                if cx.entails(le(err, e)) and cx.entails(And(lt(-34, v(x)), lt(v(x), 34))):
                    return True
        return False
    ob.run(setup, call, post, maxpaths=200, raises_ok=okr)
