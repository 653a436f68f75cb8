"""Contracts of the I-V data analysis in qmix.exp.iv_data (C16, C17)."""
from .base import *
from .clean import GOOD, FRESH, mask, keys, sel, count, perm, rank
from .resp import gauss_stub
from .yfactor import params
from qv import npmodel as N
from qv.npmodel import CONSTS

IV = 'qmix.exp.iv_data.'
F = lambda n: (lambda i: app(n, [i], REAL))
V, A = F('v'), F('i')
slope_ = lambda t: app('lsqslope', list(t), REAL)
icept_ = lambda t: app('lsqicept', list(t), REAL)


def tab(it, m, *cols):
    """the samples selected by a mask, as named columns"""
    c = count(m, it.n)
    return [N.table(it, c, lambda j: f(sel(m, it.n, j))) for f in cols] + [c]


def fitted(ob, it, what, fit, m, ctx):
    """the fit is the one through exactly the samples in the mask"""
    want = tab(it, m, V, A)
    if all(x is y for x, y in zip(fit, want)):
        return ob.fact('%s: exactly the samples of the range are fitted' % what, True)
    ok = ob.equal('%s: number of fitted points' % what, fit[2], want[2], ctx)
    j, f = index('j', 0, want[2])
    for nm, g, w in zip(('voltage', 'current'), fit, want):
        ok = ok and ob.equal('%s: fitted %s' % (what, nm), N.recanon(it, T.lam_apply(g, [j]), ctx), T.lam_apply(w, [j]), ctx.add(*f))
    return ok


def curve(it):
    it.n = sym('n', INT)
    it.args = [fun_arr(it, 'v', [it.n]), fun_arr(it, 'i', [it.n])]
    N.NO_NAN[0] = True


def ranged(it, lo, hi):
    return mask(it, it.n, lambda i: And(lt(lo, V(i)), lt(V(i), hi)))


def vrn_option(it, how):
    if how == 'default':
        r = it.getitem(params(it), 'vrn')
        it.kw = {}
        return tuple(it.num(it.getitem(r, k)).p for k in (0, 1))
    lo, hi = real('vlo'), real('vhi')
    r = [Num(lo, 'float'), Num(hi, 'float')]
    it.kw = {'vrn': tuple(r) if how == 'tuple' else VList(r)}
    return lo, hi


@unit('C17', 'normal resistance', [IV + '_find_normal_resistance'], 30, each=('tuple', 'list', 'default'))
def normal_resistance(ob, how):
    def setup(it):
        curve(it)
        it.rng = vrn_option(it, how)
        it.m = ranged(it, *it.rng)
        return [le(1, it.n), le(1, count(it.m, it.n))]

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        fits = getattr(it, 'fits', [])
        if not ob.fact('one line is fitted', len(fits) == 1, '%d fits' % len(fits)) or not fitted(ob, it, 'normal state', fits[0], it.m, it.ctx):
            return
        if not ob.fact('two results', isinstance(r, tuple) and len(r) == 2, repr(r)):
            return
        s, b = slope_(fits[0]), icept_(fits[0])
        c = it.ctx.add(ne(s, 0))
        ob.equal('normal resistance is the inverse slope', it.num(r[0]).p * s, ONE, c)
        ob.equal('the line is zero at the intercept voltage', s * it.num(r[1]).p + b, ZERO, c)
        no_input_writes(ob, it)
    ob.run(setup, lambda it: it.call(it.func(IV + '_find_normal_resistance'), list(it.args), dict(it.kw)), post)


@unit('C17', 'subgap resistance', [IV + '_find_subgap_resistance'], 30, each=('given', 'default'))
def subgap_resistance(ob, how):
    def setup(it):
        curve(it)
        if how == 'given':
            v = real('vrsg')
            it.kw = {'vrsg': Num(v, 'float')}
        else:
            v = it.num(it.getitem(params(it), 'vrsg')).p
            it.kw = {}
        it.m = ranged(it, v - con('1/10000'), v + con('1/10000'))
        return [le(1, it.n), le(1, count(it.m, it.n))]

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        fits = getattr(it, 'fits', [])
        if not ob.fact('one line is fitted', len(fits) == 1, '%d fits' % len(fits)) or not fitted(ob, it, 'subgap', fits[0], it.m, it.ctx):
            return
        s = slope_(fits[0])
        ob.equal('subgap resistance is the inverse slope', it.num(r).p * s, ONE, it.ctx.add(ne(s, 0)))
        no_input_writes(ob, it)
    ob.run(setup, lambda it: it.call(it.func(IV + '_find_subgap_resistance'), list(it.args), dict(it.kw)), post)


def slope_of(it, f, args, kw):
    """contract of slope, established under C14: one value per sample, determined by the two columns"""
    x, y = positional(it, f, args, kw)
    (lx, n), (ly, m) = N.column(it, x), N.column(it, y)
    it.same_dim(n, m)
    it.slopes.append((lx, ly, n))
    return it.arr([n], 'float', lambda idx: app('deriv', [lx, ly, n, idx[0]], REAL))


T.NOLIFT.add('deriv')


@unit('C17', 'gap voltage', [IV + '_find_gap_voltage'], 60, each=('tuple', 'list', 'default'))
def gap_voltage(ob, how):
    def setup(it):
        curve(it)
        it.slopes = []
        it.contracts['qmix.mathfn.misc.slope'] = slope_of
        it.contracts['qmix.mathfn.filters.gauss_conv'] = gauss_stub
        it.rng = vrn_option(it, how)
        it.m = ranged(it, *it.rng)
        it.up = mask(it, it.n, lambda i: lt(con('2/1000'), V(i)))
        return [le(2, it.n), le(1, count(it.m, it.n)), le(2, count(it.up, it.n)), lt(V(ZERO), V(ONE))]

    def allowed(it, c, exc, msg):
        return exc == 'AssertionError' and msg == 'window' or exc == 'TypeError' and msg == 'fit of an empty vector'

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        fits = getattr(it, 'fits', [])
        if not ob.fact('two lines are fitted', len(fits) == 2, '%d fits' % len(fits)):
            return
        cu = count(it.up, it.n)
        # the steepest point
        reds = [x for x in getattr(it, 'reds', []) if x[0] == 'argmax']
        if not ob.fact('one steepest point', len(reds) == 1 and len(reds[0][2]) == 1, str(len(reds))):
            return
        fn, x, us, dom, body = reds[0]
        a = T.atom_of(body)
        if not ob.fact('the derivative is smoothed', a is not None and a.kind == 'app' and a.a[0] == 'smooth', str(body)[:300]):
            return
        lam, ln, sg, ext, ix = a.a[1]
        ob.equal('one derivative per sample above 2 mV', ln, cu, it.ctx)
        ob.equal('smoothing width', sg * (V(ONE) - V(ZERO)), con('2/10000'), it.ctx)
        j, f = index('j', 0, cu)
        ob.equal('the derivative is searched in place', T.lam_apply(T.mk_lam(list(us), ix), [j]), j, it.ctx.add(*f))
        want = app('deriv', tab(it, it.up, V, A) + [j], REAL)
        ob.equal('derivative of current with respect to voltage', T.lam_apply(lam, [j]), want, it.ctx.add(*f))
        v0 = V(sel(it.up, it.n, x))
        near = ranged(it, v0 - con('1/100000'), v0 + con('1/100000'))
        normal = [t for t in fits if t[0] is tab(it, it.m, V)[0]]
        prn = normal[0] if normal else fits[0]
        pgap = [t for t in fits if t is not prn][0]
        if not fitted(ob, it, 'normal state', prn, it.m, it.ctx) or not fitted(ob, it, 'steepest point', pgap, near, it.ctx):
            return
        p0, p1, q0, q1 = slope_(prn), icept_(prn), slope_(pgap), icept_(pgap)
        c = it.ctx.add(ne(q0, 0), ne(p0, q0), ne(p0 - q0, 0))
        corner = (q1 - p1) / (p0 - q0)
        ob.equal('the lines meet at the corner', p0 * corner + p1, q0 * corner + q1, c)
        ob.equal('at the gap the line reaches half the corner current', 2 * (q0 * it.num(r).p + q1), p0 * corner + p1, c)
        no_input_writes(ob, it)
    ob.run(setup, lambda it: it.call(it.func(IV + '_find_gap_voltage'), list(it.args), dict(it.kw)), post, raises_ok=allowed)


# ---------------------------------------------------------------- C16: series resistance

def series(rs, v, i):
    """voltage across the junction: V - I R with the static resistance V / I floored at zero"""
    return ite(eq(i, 0), v, ite(lt(v * i, 0), 0, v) - i * rs)


@unit('C16', 'series resistance', [IV + '_correct_series_resistance'], 30, each=('given', 'none', 'default'))
def series_resistance(ob, how):
    def setup(it):
        curve(it)
        it.kw = {'given': {'rseries': Num(pos('rs'), 'float')}, 'none': {'rseries': None}, 'default': {}}[how]
        it.rs = it.kw['rseries'] if 'rseries' in it.kw else it.getitem(params(it), 'rseries')
        return [le(0, it.n)]

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        if not ob.fact('voltage and current', isinstance(r, tuple) and len(r) == 2, repr(r)):
            return
        j, f = index('j', 0, it.n)
        c = it.ctx.add(*f)
        if check_shape(ob, it, 'voltage', r[0], [it.n]):
            want = V(j) if it.rs is None else series(it.num(it.rs).p, V(j), A(j))
            ob.equal('voltage across the junction', at(it, r[0], j), want, c)
        if check_shape(ob, it, 'current', r[1], [it.n]):
            ob.equal('current is unchanged', at(it, r[1], j), A(j), c)
        no_input_writes(ob, it)
    ob.run(setup, lambda it: it.call(it.func(IV + '_correct_series_resistance'), list(it.args), dict(it.kw)), post)


# ---------------------------------------------------------------- one sweep

@unit('C16', 'single sweep', [IV + '_take_one_pass'], 60, each=('any order',))
def one_pass(ob, how):
    def setup(it):
        curve(it)
        return [le(1, it.n)]

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        if not ob.fact('voltage and current', isinstance(r, tuple) and len(r) == 2 and all(isinstance(a, Arr) for a in r), repr(r)):
            return
        x, y = r
        if not ob.fact('one dimension', len(x.shape) == len(y.shape) == 1):
            return
        ob.equal('voltage and current have one length', x.shape[0], y.shape[0], it.ctx)
        m = x.shape[0]
        j, f = index('j', 0, m)
        c = it.ctx.add(*f)
        # the position each sample comes from, read off the model of the voltage
        px, py = S.norm(at(it, x, j), c), S.norm(at(it, y, j), c)
        pairs(ob, it, 'samples are input samples', px, py, c)
        ob.true('at least one sample', le(1, m), it.ctx)
        k_, g = index('k', 0, it.n)
        c = it.ctx.add(*g).add(*lowest_first(it, getattr(it, 'reds', []), (k_,)))
        ob.true('the sweep starts at the lowest voltage', le(at(it, x, ZERO), V(k_)), c)
        ob.true('the sweep ends at the highest voltage', le(V(k_), at(it, x, m - 1)), c)
        # one sweep: from the first sample to the first extremum, then on from the sample nearest the first to the other extremum
        col = N.table(it, it.n, V)
        lo, hi = app('argmin', [col, it.n], INT), app('argmax', [col, it.n], INT)
        for a, b in ((lo, hi), (hi, lo)):
            cc = c.add(le(a, b))
            whole = And(eq(a, 0), eq(b, it.n - 1))
            ob.true('sorted data is one sweep', eq(m, it.n), cc.add(whole))
            s = a + b + 2 - m
            cc = cc.add(Not(whole)).add(le(a, k_), le(k_, b)).add(*lowest_first(it, getattr(it, 'reds', []), (k_ - a,)))
            ob.true('the second part starts between the extrema', And(le(a, s), le(s, b)), cc)
            ob.true('the second part starts nearest the first voltage', le(app('abs', [V(s) - V(ZERO)]), app('abs', [V(k_) - V(ZERO)])), cc)
        no_input_writes(ob, it)
    ob.run(setup, lambda it: it.call(it.func(IV + '_take_one_pass'), list(it.args), {}), post)


def pairs(ob, it, what, px, py, c):
    """px = v(q), py = i(q) for one position q in range, in every case"""
    cases = [(c, px, py)]
    n = 0
    while cases:
        c, px, py = cases.pop()
        n += 1
        if n > 200 or c.inconsistent():
            continue
        g = sorted(set(px.guards) | set(py.guards), key=lambda l: l.id)
        if g:
            for l in (g[0], T.neg_lit(g[0])):
                cases.append((c.add(l), T.assume(px, l), T.assume(py, l)))
            continue
        a = T.atom_of(px)
        if not ob.fact(what + ': a voltage', a is not None and a.kind == 'app' and a.a[0] == 'v', str(px)[:300]):
            return
        q = a.a[1][0]
        ob.true(what + ': valid position', And(le(0, q), lt(q, it.n)), c)
        ob.equal(what + ': current of the same sample', py, A(q), c)


# ---------------------------------------------------------------- import

UNIT = {'u': con('1/1000000'), 'm': con('1/1000'), '': con(1)}


def lowest_first(it, reds, ks):
    """what the recorded extrema say about the samples ks"""
    fs = []
    for (fn, x, us, dom, body) in reds:
        if len(us) != 1:
            continue
        b = lambda t: subst(body, {us[0]: t})
        for k in ks:
            d = bl(subst(iv(dom), {us[0]: k}))
            e = b(x) if fn.startswith('arg') else x
            fs.append(Or(Not(d), le(e, b(k)) if fn.endswith('min') else le(b(k), e)))
    return fs


def stub_pass(it, f, args, kw):
    """contract of _take_one_pass (unit above): input samples, voltage and current of each kept together"""
    x, y = positional(it, f, args, kw)
    lx, n = N.column(it, x)
    it.same_dim(n, y.shape[0])
    sx, sy = it.snap(x), it.snap(y)
    if not it.ctx.entails(lt(0, n)):
        it.raises.append((it.ctx.add(le(n, 0)), 'ValueError', 'no samples'))
    it.passes.append((lx, n))
    q = lambda j: app('pass', [lx, n, j], INT)
    m = app('npass', [lx, n], INT)
    return tuple(it.arr([m], 'float', (lambda s: lambda idx: s([q(idx[0])]))(s)) for s in (sx, sy))


def _ax_pass(enc, x, args):
    import z3
    lam, n, j = args
    m = app('npass', [lam, n], INT)
    return [z3.Implies(enc.form(And(lt(0, n), le(0, j), lt(j, m))), z3.And(x >= 0, x < enc.poly(n)[0]))]


def _ax_npass(enc, x, args):
    import z3
    return [x >= 0, z3.Implies(enc.form(lt(0, args[1])), x >= 1)]


for _n, _a in (('pass', _ax_pass), ('npass', _ax_npass)):
    N.SORTS[_n] = INT
    T.NOLIFT.add(_n)
    S.EXTRA_AX[_n] = _a


@unit('C16', 'I-V data import', [IV + '_load_iv'], 60, each=[v + 'V ' + i + 'A' for v in ('u', 'm', '') for i in ('u', 'm', '')] + ['default'])
def load_iv(ob, units):
    D = lambda i, j: app('m', [i, pol(j)], REAL)

    def setup(it):
        N.NO_NAN[0] = False
        it.nan_data = True
        N.NAN_DATA.update(('m',))
        it.passes = []
        it.n = sym('n', INT)
        it.m = fun_arr(it, 'm', [it.n, con(2)])
        it.cols = [lambda i: D(i, 0), lambda i: D(i, 1)]
        it.contracts[IV + '_take_one_pass'] = stub_pass
        it.kw = {} if units == 'default' else dict(zip(('v_fmt', 'i_fmt'), units.split()))
        it.u = [UNIT[(it.kw[o] if it.kw else it.getitem(params(it), o))[:-1]] for o in ('v_fmt', 'i_fmt')]
        it.m1 = mask(it, it.n, GOOD(it))
        return [le(1, it.n), le(1, count(it.m1, it.n))]

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        if not ob.fact('one sweep is selected', len(it.passes) == 1, str(len(it.passes))):
            return
        if not ob.fact('voltage and current', isinstance(r, tuple) and len(r) == 2 and all(isinstance(a, Arr) for a in r), repr(r)):
            return
        n, c1 = it.n, count(it.m1, it.n)
        lp = N.table(it, c1, lambda j: D(sel(it.m1, n, j), 0) * it.u[0])
        ok = S.prove_zero(it.passes[0][1] - c1, it.ctx) and it.passes[0][0] is lp
        if not ob.fact('the sweep is selected from the NaN-free samples', ok, str(it.passes[0][0])[:300]):
            return
        np_ = app('npass', [lp, it.passes[0][1]], INT)
        p2 = lambda j: sel(it.m1, n, app('pass', [lp, it.passes[0][1], j], INT))
        ks = keys(it, np_, lambda j: D(p2(j), 0) * it.u[0])
        p3 = lambda j: p2(perm(ks, np_, j))
        m3 = mask(it, np_, FRESH(lambda j: D(p3(j), 0) * it.u[0]))
        c3 = count(m3, np_)
        p4 = lambda j: p3(sel(m3, np_, j))
        j, f = index('j', 0, c3)
        c = it.ctx.add(*f)
        for x, a, u, nm in zip((0, 1), r, it.u, ('voltage', 'current')):
            if check_shape(ob, it, nm, a, [c3]):
                ob.equal('%s of the cleaned samples in SI units' % nm, at(it, a, j), D(p4(j), x) * u, c)
                ob.fact('%s is a new array' % nm, a.buf is not it.m.buf)
        ob.fact('voltage and current do not share storage', r[0].buf is not r[1].buf)
        no_input_writes(ob, it)
    ob.run(setup, lambda it: it.call(it.func(IV + '_load_iv'), [it.m], dict(it.kw)), post)


# ---------------------------------------------------------------- offset

OFF = [(v, i, 'tuple') for v in ('voltage', '') for i in ('current', '')] + [('', '', r) for r in ('list', 'float', 'int', 'default')]


@unit('C16', 'offset', [IV + '_correct_offset'], 60, each=OFF)
def offset(ob, gv, gi, rng):
    def setup(it):
        curve(it)
        it.args = [fun_arr(it, 'v', [it.n], origin=False), fun_arr(it, 'i', [it.n], origin=False)]
        r0, r1 = real('r0'), real('r1')
        it.kw = {}
        if gv:
            it.kw['voffset'] = Num(real('vo'), 'float')
        if gi:
            it.kw['ioffset'] = Num(real('io'), 'float')
        if rng in ('tuple', 'list'):
            rr = [Num(r0, 'float'), Num(r1, 'float')]
            it.kw['voffset_range'] = tuple(rr) if rng == 'tuple' else VList(rr)
        elif rng == 'default':
            d = it.getitem(params(it), 'voffset_range')
            r0, r1 = (it.num(it.getitem(d, k)).p for k in (0, 1))
        else:
            r1 = pos('r') if rng == 'float' else sym('ri', INT)
            r0 = neg(r1)
            it.kw['voffset_range'] = Num(r1, rng)
        it.r = (r0, r1)
        it.near = mask(it, it.n, lambda i: And(le(r0, V(i)), le(V(i), r1)))
        return [le(1, it.n), le(1, count(it.near, it.n))] + ([le(1, r1)] if rng == 'int' else [])

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        if not ob.fact('voltage, current and offset', isinstance(r, tuple) and len(r) == 3 and isinstance(r[2], tuple) and len(r[2]) == 2, repr(r)):
            return
        mins = getattr(it, 'mins', [])
        every = lambda g: (lambda u: S.forall([u], Implies(And(le(0, P(u)), lt(P(u), it.n)), g(V(P(u))))))(fresh('u'))
        bip = And(Not(every(lambda v: le(it.r[0], v))), Not(every(lambda v: le(v, it.r[1]))))
        given = [real('vo') if gv else ZERO, real('io') if gi else ZERO]
        if gv and gi:
            ob.fact('nothing is searched', not mins)
            cases = [('given', it.ctx, given)]
        else:
            # the case distinction is the data's: a path may have merged both
            both = [(nm, it.ctx.add(q)) for nm, q in (('bipolar', bip), ('unipolar', Not(bip)))]
            cases = []
            for nm, c in both:
                if c.inconsistent():
                    continue
                if nm == 'unipolar':
                    cases.append((nm, c, given))
                elif ob.fact('one search for an unknown offset in bipolar data', len(mins) == 1, str(len(mins))):
                    cases.append((nm, c, [app(mins[0][2], [con(t)], REAL) for t in (0, 1)]))
                    keep, it.ctx = it.ctx, c
                    objective(ob, it, mins[0], gv, gi)
                    it.ctx = keep
        j, f = index('j', 0, it.n)
        for nm, c, o in cases:
            for arr, col, off, x, q in zip(r, (V, A), o, r[2], ('voltage', 'current')):
                ob.equal('%s offset, %s' % (q, nm), it.num(x).p, off, c)
                if check_shape(ob, it, q, arr, [it.n]):
                    ob.equal('%s is shifted, %s' % (q, nm), at(it, arr, j), col(j) - off, c.add(*f))
    ob.run(setup, lambda it: it.call(it.func(IV + '_correct_offset'), list(it.args), dict(it.kw)), post)


def objective(ob, it, rec, gv, gi):
    """the search minimises the distance between the curve near the origin and its reflection"""
    fun, x0, nm = rec
    cnt = count(it.near, it.n)
    q = lambda j: sel(it.near, it.n, j)
    if check_shape(ob, it, 'start of the search', x0, [2]):
        ob.equal('start: voltage', at(it, x0, 0), real('vo') if gv else ZERO, it.ctx)
        u = fresh('s')
        mean = T.mk_sum([u], And(le(0, P(u)), lt(P(u), cnt)), A(q(P(u)))) / cnt
        ob.equal('start: current', at(it, x0, 1), real('io') if gi else mean, it.ctx)
    a, b = real('a0'), real('a1')
    got = it.num(it.call(fun, [const_arr(it, [a, b])], {})).p
    up = [N.table(it, cnt, lambda j: V(q(j)) - a), N.table(it, cnt, lambda j: A(q(j)) - b), cnt]
    rev = lambda j: q(cnt - 1 - j)
    down = [N.table(it, cnt, lambda j: a - V(rev(j))), N.table(it, cnt, lambda j: b - A(rev(j))), cnt]
    u = fresh('s')
    x = it.r[0] / 2 + P(u) * (it.r[1] - it.r[0]) / 200
    want = T.mk_sum([u], And(le(0, P(u)), lt(P(u), 101)), N.absP(app('interp', [x] + up, REAL) - app('interp', [x] + down, REAL)))
    ob.equal('the reflected curve is matched to the curve', got, want, it.ctx)


# ---------------------------------------------------------------- filter

def columns_of(it, *arrs):
    return [N.column(it, a)[0] for a in arrs] + [arrs[0].shape[0]]


@unit('C16', 'filter', [IV + '_filter_iv_data', IV + '_rotate'], 60, each=('off', 'on', 'default'))
def filter_iv(ob, how):
    def setup(it):
        curve(it)
        it.npts = sym('npts', INT)
        it.kw = {'filter_data': how == 'on'}
        if how == 'on':
            it.kw.update(filter_nwind=Num(sym('nwind', INT), 'int'), filter_npoly=Num(sym('npoly', INT), 'int'), filter_theta=Num(real('theta'), 'float'), npts=Num(it.npts, 'int'))
        elif how == 'default':
            it.kw = {}
        p = params(it)
        val = lambda k: it.num(it.kw[k] if k in it.kw else it.getitem(p, k)).p
        it.on = it.kw['filter_data'] if 'filter_data' in it.kw else it.getitem(p, 'filter_data')
        it.opt = [val(k) for k in ('filter_nwind', 'filter_npoly', 'filter_theta', 'npts')] if it.on else None
        return [le(1, it.n)] + ([le(2, it.opt[3])] if it.on else [])

    def allowed(it, c, exc, msg):
        return exc == 'ValueError' and msg == 'window'

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        if not ob.fact('voltage and current', isinstance(r, tuple) and len(r) == 2, repr(r)):
            return
        if not it.on:
            j, f = index('j', 0, it.n)
            for a, col, nm in zip(r, (V, A), ('voltage', 'current')):
                if check_shape(ob, it, nm, a, [it.n]):
                    ob.equal('%s is unchanged' % nm, at(it, a, j), col(j), it.ctx.add(*f))
            no_input_writes(ob, it)
            return
        nw, po, th, m = it.opt
        top = lambda n, g, fn='max': (lambda u: app(fn + 'red', [T.mk_lam([u], iv(And(le(0, P(u)), lt(P(u), n)))), T.mk_lam([u], g(P(u)))], REAL))(fresh('u'))
        vm, im = top(it.n, V), top(it.n, A)
        co, si = app('cos', [th], REAL), app('sin', [th], REAL)
        # rotated by -theta, filtered on an even grid, rotated back and resampled
        x = lambda j: co * V(j) / vm + si * A(j) / im
        y = lambda j: co * A(j) / im - si * V(j) / vm
        even = lambda lo, hi: (lambda j: lo + j * (hi - lo) / (m - 1))
        xg = even(top(it.n, x, 'min'), top(it.n, x))
        yg = lambda j: app('interp', [xg(j), N.table(it, it.n, x), N.table(it, it.n, y), it.n], REAL)
        yf = lambda j: app('savgol', [N.table(it, m, yg), m, nw, po, j], REAL)
        xb = lambda j: co * xg(j) - si * yf(j)
        yb = lambda j: si * xg(j) + co * yf(j)
        xe = even(top(m, xb, 'min'), top(m, xb))
        j, f = index('j', 0, m)
        c = it.ctx.add(*f).add(ne(vm, 0), ne(im, 0))
        for a, want, nm in zip(r, (xe(j) * vm, app('interp', [xe(j), N.table(it, m, xb), N.table(it, m, yb), m], REAL) * im), ('voltage', 'current')):
            if check_shape(ob, it, 'filtered ' + nm, a, [m]):
                ob.equal('filtered ' + nm, at(it, a, j), want, c)
        no_input_writes(ob, it)
    ob.run(setup, lambda it: it.call(it.func(IV + '_filter_iv_data'), list(it.args), dict(it.kw)), post, raises_ok=allowed)


# ---------------------------------------------------------------- the chain of corrections

class Token(object):
    """a value only handed on"""

    def __init__(self, name):
        self.name = name


def chain(it):
    """contracts of the steps (units above); every step records its options"""
    it.made = []

    def step(name, fn):
        def h(i, f, args, kw):
            it.made.append((name, kw))
            return fn(i, *args)
        it.contracts[IV + name] = h

    def load(i, data):
        it.loaded = data
        return fun_arr(i, 'lv', [it.nl], origin=False), fun_arr(i, 'li', [it.nl], origin=False)

    def off(i, v, c):
        o = (real('vo'), real('io'))
        sv, sc = i.snap(v), i.snap(c)
        i.aug_arr(v, 'Sub', Num(o[0], 'float'))
        i.aug_arr(c, 'Sub', Num(o[1], 'float'))
        return v, c, tuple(Num(x, 'float') for x in o)

    def filt(i, v, c):
        cols = columns_of(i, v, c)
        return tuple(i.arr([it.nf], 'float', (lambda nm: lambda idx: app(nm, cols + [idx[0]], REAL))(nm)) for nm in ('filtv', 'filtc'))

    def ser(i, v, c):
        sv, sc = i.snap(v), i.snap(c)
        if it.rs is None:
            return v, c
        return i.arr([v.shape[0]], 'float', lambda idx: series(it.rs, sv(idx), sc(idx))), i.arr([v.shape[0]], 'float', lambda idx: sc(idx))

    def number(*names):
        def h(i, v, c):
            cols = columns_of(i, v, c)
            r = tuple(Num(app(nm, cols, REAL), 'float') for nm in names)
            return r if len(r) > 1 else r[0]
        return h
    step('_load_iv', load)
    step('_correct_offset', off)
    step('_filter_iv_data', filt)
    step('_correct_series_resistance', ser)
    step('_find_gap_voltage', number('findgap'))
    step('_find_normal_resistance', number('findrn', 'findvint'))
    step('_find_subgap_resistance', number('findrsg'))


for _n in ('filtv', 'filtc'):
    T.NOLIFT.add(_n)

STEP_OPTIONS = {'_load_iv': ('v_fmt', 'i_fmt'), '_correct_offset': ('voffset', 'ioffset', 'voffset_range'), '_filter_iv_data': ('filter_data', 'filter_nwind', 'filter_npoly', 'filter_theta', 'npts'),
                '_correct_series_resistance': ('rseries',), '_find_gap_voltage': ('vrn',), '_find_normal_resistance': ('vrn',), '_find_subgap_resistance': ('vrsg',)}
CHOICES = ['options', 'no series resistance', 'defaults']


def iv_options(it, how, extra=()):
    it.nl, it.nf, it.npts = sym('nl', INT), sym('nf', INT), sym('npts', INT)
    p = params(it)
    if how == 'defaults':
        it.kw = {}
    else:
        it.kw = {'v_multiplier': Num(real('gv'), 'float'), 'i_multiplier': Num(real('gi'), 'float'), 'vmax': Num(pos('vmax'), 'float'), 'npts': Num(it.npts, 'int'),
                 'debug': False, 'rseries': Num(pos('rs'), 'float') if how == 'options' else None, 'voffset': Num(real('kvo'), 'float'), 'ioffset': Num(real('kio'), 'float')}
        for o in ('v_fmt', 'i_fmt', 'voffset_range', 'filter_nwind', 'filter_npoly', 'filter_theta', 'vrn', 'vrsg'):
            it.kw[o] = Token(o)
        it.kw['filter_data'] = True
    for k in extra:
        it.kw[k] = extra[k]
    val = lambda k: (lambda v: None if v is None else it.num(v).p)(it.kw[k] if k in it.kw else it.getitem(p, k))
    it.gv, it.gi, it.vmax, it.npts, it.rs = (val(k) for k in ('v_multiplier', 'i_multiplier', 'vmax', 'npts', 'rseries'))
    return [le(1, it.nl), le(2, it.nf), le(2, it.npts)]


def step_order(ob, it, names):
    got = [n for n, _ in it.made]
    if not ob.fact('every correction is made once', sorted(got) == sorted(names), str(got)):
        return False
    for n, kw in it.made:
        for o in STEP_OPTIONS[n]:
            ob.fact('option %s reaches %s' % (o, n), kw.get(o) is it.kw.get(o))
    return True


def corrected(it, ov, oi):
    """the columns after each correction"""
    lv = N.table(it, it.nl, lambda j: app('lv', [j], REAL) * it.gv - ov)
    li = N.table(it, it.nl, lambda j: app('li', [j], REAL) * it.gi - oi)
    fv = lambda j: app('filtv', [lv, li, it.nl, j], REAL)
    fc = lambda j: app('filtc', [lv, li, it.nl, j], REAL)
    return fv, fc, (fv if it.rs is None else lambda j: series(it.rs, fv(j), fc(j)))


def same_column(ob, it, what, lam, want, n, c):
    j, f = index('j', 0, n)
    return ob.equal(what, T.lam_apply(lam, [j]), want(j), c.add(*f))


def resampled(ob, it, r, x, y, scale_, zero, c):
    """voltage: the symmetric grid; current: interpolated between the points (x, y)"""
    v, cur = r
    if not (check_shape(ob, it, 'voltage', v, [it.npts]) and check_shape(ob, it, 'current', cur, [it.npts])):
        return
    j, f = index('j', 0, it.npts)
    cc = c.add(*f)
    g = (2 * it.vmax * j / (it.npts - 1) - it.vmax) * scale_
    ob.equal('voltage is the symmetric grid', at(it, v, j), g, cc)
    got = at(it, cur, j)
    used = {tuple(a.a[1][1:]) for a in T.subterms_atoms(got, set()) if a.kind == 'app' and a.a[0] == 'interp'}
    if not ob.fact('one curve is interpolated', len(used) == 1, str(got)[:400]):
        return
    (lx, ly, n), = used
    ok = ob.equal('number of points', n, it.nf, c)
    ok = ok and same_column(ob, it, 'interpolated voltage', lx, x, it.nf, c)
    ok = ok and same_column(ob, it, 'interpolated current', ly, y, it.nf, c)
    if ok:
        p = app('interp', [g, lx, ly, n], REAL)
        if zero:
            p = ite(lt(g, x(ZERO)), 0, ite(lt(x(it.nf - 1), g), 0, p))
        ob.equal('current is interpolated' + (', zero outside the data' if zero else ''), got, p, cc)


@unit('C16', 'DC I-V curve', [IV + 'dciv_curve'], 90, each=[(h, g) for h in CHOICES for g in ('gap found', 'gap given')])
def dciv(ob, how, gap):
    def setup(it):
        N.NO_NAN[0] = True
        chain(it)
        it.raw = Token('raw data')
        return iv_options(it, how, {'vgap': Num(pos('vgap'), 'float')} if gap == 'gap given' else {'vgap': None} if how == 'options' else {})

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        if not ob.fact('three results', isinstance(r, tuple) and len(r) == 3, repr(r)):
            return
        names = ['_load_iv', '_correct_offset', '_filter_iv_data', '_correct_series_resistance', '_find_normal_resistance', '_find_subgap_resistance']
        if not step_order(ob, it, names + (['_find_gap_voltage'] if gap == 'gap found' else [])):
            return
        ob.fact('the data is loaded', it.loaded is it.raw)
        fv, fc, sv = corrected(it, real('vo'), real('io'))
        cols = [N.table(it, it.nf, sv), N.table(it, it.nf, fc), it.nf]
        dc = r[2]
        num = lambda n: it.num(attr_(it, dc, n)).p
        vgap = pos('vgap') if gap == 'gap given' else app('findgap', cols, REAL)
        rn = app('findrn', cols, REAL)
        c = it.ctx.add(ne(vgap, 0), ne(rn, 0))
        ob.equal('gap voltage', num('vgap'), vgap, c)
        ob.equal('normal resistance', num('rn'), rn, c)
        ob.equal('gap current', num('igap') * rn, vgap, c)
        ob.equal('gap frequency', num('fgap'), CONSTS['e'] * vgap / CONSTS['h'], c)
        ob.equal('subgap resistance', num('rsg'), app('findrsg', cols, REAL), c)
        ob.equal('intercept voltage', num('vint'), app('findvint', cols, REAL), c)
        off = attr_(it, dc, 'offset')
        if ob.fact('offset stored', isinstance(off, tuple) and len(off) == 2, repr(off)):
            ob.equal('voltage offset', it.num(off[0]).p, real('vo'), c)
            ob.equal('current offset', it.num(off[1]).p, real('io'), c)
        rs = attr_(it, dc, 'rseries')
        ob.fact('series resistance stored', rs is None if it.rs is None else rs is not None and S.prove_zero(it.num(rs).p - it.rs, it.ctx), repr(rs))
        for nm, col in (('vraw', fv), ('iraw', fc)):
            a = attr_(it, dc, nm)
            if check_shape(ob, it, nm, a, [it.nf]):
                j, f = index('j', 0, it.nf)
                ob.equal('%s is offset corrected and filtered only' % nm, at(it, a, j), col(j), c.add(*f))
        x = lambda j: sv(j) / vgap
        y = lambda j: fc(j) * rn / vgap
        resampled(ob, it, r[:2], x, y, 1 / vgap, False, c)
        for nm, a in (('vnorm', r[0]), ('inorm', r[1])):
            b = attr_(it, dc, nm)
            ob.fact('%s stored' % nm, b is a or same_array(it, b, a.shape, lambda idx: it.read_arr(a, idx)))
    ob.run(setup, lambda it: it.call(it.func(IV + 'dciv_curve'), [it.raw], dict(it.kw)), post)


def attr_(it, o, name):
    return it.getattr(o, name)


@unit('C16', 'pumped I-V curve', [IV + 'iv_curve'], 90, each=[(h, o) for h in CHOICES for o in ('both offsets', 'voltage offset', 'current offset', 'no offset')])
def pumped(ob, how, off):
    def setup(it):
        from .ifcal import make_dc
        N.NO_NAN[0] = True
        chain(it)
        it.raw = Token('raw data')
        it.dc = make_dc(it)
        ex = {}
        if off in ('both offsets', 'voltage offset'):
            ex['voffset'] = Num(real('kvo'), 'float')
        if off in ('both offsets', 'current offset'):
            ex['ioffset'] = Num(real('kio'), 'float')
        fs = iv_options(it, how, ex)
        for o in ('voffset', 'ioffset'):
            if o not in ex and how != 'defaults':
                it.kw[o] = None
        return fs

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        if not ob.fact('two results', isinstance(r, tuple) and len(r) == 2, repr(r)):
            return
        if not step_order(ob, it, ['_load_iv', '_filter_iv_data', '_correct_series_resistance']):
            return
        ob.fact('the data is loaded', it.loaded is it.raw)
        o = (real('kvo'), real('kio')) if off == 'both offsets' else it.off
        fv, fc, sv = corrected(it, *o)
        ig = it.num(attr_(it, it.dc, 'igap')).p
        resampled(ob, it, r, lambda j: sv(j) / it.vgap, lambda j: fc(j) / ig, 1 / it.vgap, True, it.ctx)
        no_input_writes(ob, it)
    ob.run(setup, lambda it: it.call(it.func(IV + 'iv_curve'), [it.raw, it.dc], dict(it.kw)), post)
