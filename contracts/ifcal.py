"""Contracts of the IF power calibration in qmix.exp.if_data (C20)."""
from .base import *
from .clean import GOOD, FRESH, mask, keys, sel, count, perm, rank
from .resp import gauss_stub
from .yfactor import params
from qv import npmodel as N

I = 'qmix.exp.if_data.'
IVD = 'qmix.exp.iv_data.'
F = lambda n: (lambda i: app(n, [i], REAL))
FIELDS = ('vraw', 'iraw', 'vnorm', 'inorm', 'vgap', 'igap', 'fgap', 'rn', 'rsg', 'offset', 'vint', 'rseries')


def make_dc(it, arrays=False):
    """DC I-V metadata with arbitrary contents"""
    it.vgap, it.vint = pos('vgap'), real('vint')
    it.off = (real('voff'), real('ioff'))
    val = {'vgap': Num(it.vgap, 'float'), 'vint': Num(it.vint, 'float'), 'offset': tuple(Num(o, 'float') for o in it.off),
           'igap': Num(pos('igap'), 'float'), 'rn': Num(pos('rn'), 'float')}
    if arrays:
        it.nd = sym('nd', INT)
        it.ctx = it.ctx.add(le(2, it.nd))
        val['vraw'], val['iraw'] = fun_arr(it, 'vraw', [it.nd]), fun_arr(it, 'iraw', [it.nd])
    return it.call(it.mod_attr('qmix.exp.iv_data', 'DCIVData'), [val.get(f) for f in FIELDS], {})


def attr(it, o, name):
    return it.getattr(o, name)


# ---------------------------------------------------------------- shot noise fit

def span_stub(it, f, args, kw):
    """contract of slope_span_n (C14): one value per sample"""
    x = positional(it, f, args, kw)[0]
    nm = 'span%d' % it.hcount
    it.hcount += 1
    return it.arr([x.shape[0]], 'float', lambda idx: app(nm, [idx[0]], REAL))


@unit('C20', 'shot noise calibration', [I + '_find_if_noise'], 120, each=('one range', 'list', 'two ranges', 'three ranges', 'automatic', 'default'))
def if_noise(ob, rng):
    D = lambda i, j: app('d', [i, pol(j)], REAL)
    nr = {'one range': 1, 'list': 1, 'two ranges': 2, 'three ranges': 3}.get(rng, 0)
    bounds = [(real('lo%d' % k), real('hi%d' % k)) for k in range(nr)]

    def setup(it):
        N.NO_NAN[0] = True
        it.n = sym('n', INT)
        it.d = fun_arr(it, 'd', [it.n, con(2)])
        it.dc = make_dc(it)
        it.contracts['qmix.mathfn.misc.slope_span_n'] = span_stub
        b = [tuple(Num(x, 'float') for x in r) for r in bounds]
        if rng == 'one range':
            it.kw = {'vshot': b[0]}
        elif rng == 'list':
            it.kw = {'vshot': VList(list(b[0]))}
        elif rng == 'default':
            it.kw = {}
        elif rng == 'automatic':
            it.kw = {'vshot': None}
        else:
            it.kw = {'vshot': tuple(b) if nr == 2 else VList(list(b))}
        it.x, it.y = (lambda i: D(i, 0)), (lambda i: D(i, 1))
        it.req = mask(it, it.n, lambda i: Or(*[And(lt(lo, it.x(i) * it.vgap), lt(it.x(i) * it.vgap, hi)) for lo, hi in bounds])) if nr else None
        it.high = mask(it, it.n, lambda i: lt(2, it.x(i)))
        return [le(60, it.n)]

    def allowed(it, c, exc, msg):
        return exc in ('TypeError', 'ValueError') and msg in ('fit of an empty vector', 'window') or \
            nr == 0 and exc == 'ValueError'

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        if not ob.fact('four results', isinstance(r, tuple) and len(r) == 4, repr(r)):
            return
        fits = getattr(it, 'fits', [])
        if not ob.fact('one line is fitted', len(fits) == 1, '%d fits' % len(fits)):
            return
        if nr:
            five = le(5, count(it.req, it.n))
            for case, m, what in ((five, it.req, 'the line is fitted to exactly the requested points'),
                                  (Not(five), it.high, 'fewer than five points: fitted to everything above twice the gap')):
                if it.ctx.entails(Not(case)):
                    continue
                cc = it.ctx.add(case)
                cnt = count(m, it.n)
                ob.equal(what + ' (number)', N.recanon(it, fits[0][2], cc), cnt, cc)
                j, f = index('j', 0, cnt)
                for lam, col, nm in zip(fits[0][:2], (it.x, it.y), ('voltage', 'power')):
                    ob.equal('%s (%s)' % (what, nm), N.recanon(it, T.lam_apply(lam, [j]), cc), col(sel(m, it.n, j)), cc.add(*f))
        # automatic selection: the points are samples of the data, in order
        lx, ly, cnt = fits[0]
        if not nr:
            j, f = index('j', 0, cnt)
            px, py = T.lam_apply(lx, [j]), T.lam_apply(ly, [j])
            ax = T.atom_of(px)
            ok = ax is not None and ax.kind == 'app' and ax.a[0] == 'd'
            if ob.fact('fitted voltages are data samples', ok, str(px)[:300]):
                e = ax.a[1][0]
                ob.equal('fitted voltage and power belong together', py, it.y(e), it.ctx.add(*f))
                ob.equal('fitted voltages', px, it.x(e), it.ctx.add(*f))
        s, b = app('lsqslope', list(fits[0]), REAL), app('lsqicept', list(fits[0]), REAL)
        noise, corr, line, good = r
        c = it.ctx.add(ne(s, 0))
        cw = con('29/5') / s * it.vgap * 1000
        ob.equal('calibration factor', it.num(corr).p, cw, c)
        ob.equal('the calibrated line rises by 5.8 K per mV', s * it.num(corr).p / it.vgap / 1000, con('29/5'), c)
        L = lambda i: (s * it.x(i) + b) * cw
        if check_shape(ob, it, 'shot noise line', line, [it.n]):
            i, f = index('i', 0, it.n)
            ob.equal('shot noise line is calibrated', at(it, line, i), L(i), c.add(*f))
        got = it.num(noise).p
        v = it.vint / it.vgap
        # the code's own line table, shown above to be L
        tl = N.column(it, line)[0]
        want = app('interp', [v, N.table(it, it.n, it.x), tl, it.n], REAL)
        ob.equal('IF noise is the calibrated line at the intercept voltage', got, want, c)
        ob.true('flagged good exactly between 0 and 50 K', And(Or(Not(it.formula(good)), And(lt(0, got), lt(got, 50))), Or(it.formula(good), Not(And(lt(0, got), lt(got, 50))))), c)
        no_input_writes(ob, it)
    ob.run(setup, lambda it: it.call(it.func(I + '_find_if_noise'), [it.d, it.dc], dict(it.kw)), post, maxpaths=200, raises_ok=allowed)


# ---------------------------------------------------------------- loading

UNITS_ = {'uV': con('1/1000000'), 'mV': con('1/1000'), 'V': con(1)}


def columns(ob, it, p, tx, ty, n, c):
    """the imported power is interpolated between the corrected data points"""
    used = {(a.a[1][1], a.a[1][2]): a.a[1][3] for a in T.subterms_atoms(p, set()) if a.kind == 'app' and a.a[0] == 'interp' and a.a[1][1] is not it.iv[0]}
    if not ob.fact('one curve is interpolated', len(used) == 1, '%d curves: %s' % (len(used), str(p)[:600])):
        return False
    (lams, ln), = used.items()
    ok = ob.equal('number of interpolated points', ln, n, it.ctx)
    j, f = index('j', 0, n)
    for nm, got, want in zip(('voltage', 'power'), lams, (tx, ty)):
        ok = ok and ob.equal('interpolated %s' % nm, T.lam_apply(got, [j]), T.lam_apply(want, [j]), c.add(*f))
    return ok


@unit('C20', 'IF data import', [I + '_load_if'], 150,
      each=[(u, s, w) for u in ('uV', 'mV', 'V') for s in ('series resistance', 'no series resistance') for w in ('smoothed',)]
      + [('mV', s, w) for s in ('series resistance', 'no series resistance') for w in ('not smoothed', 'samples', 'defaults')])
def load_if(ob, units, series, smooth):
    D = lambda i, j: app('m', [i, pol(j)], REAL)

    def setup(it):
        N.NO_NAN[0] = False
        it.nan_data = True
        N.NAN_DATA.update(('m',))
        N.NAN_DATA.discard('x')
        it.n = sym('n', INT)
        it.m = fun_arr(it, 'm', [it.n, con(2)])
        it.cols = [lambda i: D(i, 0), lambda i: D(i, 1)]
        it.dc = make_dc(it, arrays=True)
        it.contracts['qmix.mathfn.filters.gauss_conv'] = gauss_stub
        p = params(it)
        kw = {'v_fmt': units}
        if smooth != 'defaults':
            it.npts = sym('npts', INT)
            kw.update(v_multiplier=Num(pos('gain'), 'float'), vmax=Num(pos('vmax'), 'float'), ifdata_npts=Num(it.npts, 'int'))
            kw['ifdata_sigma'] = {'smoothed': Num(pos('sigma'), 'float'), 'samples': Num(pos('sigma'), 'float'), 'not smoothed': None}[smooth]
        kw['rseries'] = Num(pos('rs'), 'float') if series == 'series resistance' else None
        it.kw = kw
        val = lambda k: (lambda v: None if v is None else it.num(v).p)(kw[k] if k in kw else it.getitem(p, k))
        it.gain, it.vmax, it.sigma, it.npts = val('v_multiplier'), val('vmax'), val('ifdata_sigma'), val('ifdata_npts')
        it.m1 = mask(it, it.n, GOOD(it))
        it.iv = [N.table(it, it.nd, F(x)) for x in ('vraw', 'iraw')]
        facts = [le(1, it.n), le(1, count(it.m1, it.n)), le(2, it.npts)]
        if smooth == 'smoothed':
            facts.append(le(it.sigma, con('1/2')))
        if smooth == 'samples':
            facts.append(lt(con('1/2'), it.sigma))
        return facts

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        n, m1 = it.n, it.m1
        c1 = count(m1, n)
        fmt = UNITS_[units]
        p1 = lambda j: sel(m1, n, j)
        ks = keys(it, c1, lambda j: D(p1(j), 0) * fmt)
        p2 = lambda j: p1(perm(ks, c1, j))
        m3 = mask(it, c1, FRESH(lambda j: D(p2(j), 0) * fmt))
        c3 = count(m3, c1)
        p3 = lambda j: p2(sel(m3, c1, j))
        V = lambda j: D(p3(j), 0) * fmt * it.gain - it.off[0]
        if series == 'series resistance':
            nd = it.nd
            cur = lambda j: app('interp', [V(j)] + it.iv + [nd], REAL)
            VV = lambda j: ite(lt(V(j) * cur(j), 0), 0, V(j)) - cur(j) * pos('rs')
        else:
            VV = V
        X = lambda j: VV(j) / it.vgap
        tx, ty = N.table(it, c3, X), N.table(it, c3, lambda j: D(p3(j), 1))
        if not check_shape(ob, it, 'IF data', r, [it.npts, 2]):
            return
        i, f = index('i', 0, it.npts)
        c = it.ctx.add(*f)
        step = it.vmax / it.vgap / (it.npts - 1)
        grid = lambda i: i * step
        ob.equal('voltages are the requested grid', at(it, r, i, 0), grid(i), c)
        P_ = lambda i: ite(lt(grid(i), X(ZERO)), 0, ite(lt(X(c3 - 1), grid(i)), 0, app('interp', [grid(i), tx, ty, c3], REAL)))
        got = at(it, r, i, 1)
        a = T.atom_of(got)
        lam = a.a[1][0] if it.sigma is not None and a is not None and a.kind == 'app' and a.a[0] == 'smooth' else None
        if not columns(ob, it, got if lam is None else T.lam_apply(lam, [i]), tx, ty, c3, c):
            return
        if it.sigma is None:
            ob.equal('power is interpolated, zero outside the data', got, P_(i), c)
        else:
            a = T.atom_of(got)
            if ob.fact('power is smoothed', a is not None and a.kind == 'app' and a.a[0] == 'smooth', str(got)[:300]):
                lam, ln, sg, ext, ix = a.a[1]
                j, g = index('j', 0, it.npts)
                ob.equal('smoothed power has one value per sample', ln, it.npts, it.ctx)
                ob.equal('the interpolated power is smoothed', T.lam_apply(lam, [j]), P_(j), it.ctx.add(*g))
                vs = step * it.vgap
                ob.equal('smoothing width', sg, it.sigma if smooth == 'samples' else it.sigma / vs, c)
                ob.equal('smoothed in place', ix, i, c)
        no_input_writes(ob, it)

    def allowed(it, c, exc, msg):
        return exc == 'AssertionError' and msg == 'window'
    ob.run(setup, lambda it: it.call(it.func(I + '_load_if'), [it.m, it.dc], dict(it.kw)), post, maxpaths=100, raises_ok=allowed)


# ---------------------------------------------------------------- calibration applied

KW = ('v_fmt', 'rseries', 'v_multiplier', 'ifdata_npts', 'ifdata_sigma', 'vshot', 'vmax', 'freq', 't_hot', 't_cold', 'vbest', 'best_pt')


def options(it, ob, verb):
    kw = {k: Opaque('option ' + k) for k in KW}
    kw['verbose'] = verb == 'verbose'
    return kw


def passed_on(ob, it, what, kw, got):
    for k in KW:
        ob.fact('option %s reaches %s' % (k, what), got.get(k) is kw[k])


def stub_load(it, f, args, kw):
    """contract of _load_if (unit above): a new (m, 2) array on the grid shared by all data"""
    d, dc = args[:2]
    it.loads.append((d, dc, kw))
    nm = it.names.get(id(d), 'other')
    m = sym('m', INT)
    g = app
    return Arr(it.buffer([m, con(2)], 'float', lambda idx: ite(eq(idx[1], 0), app('grid', [idx[0]], REAL), app('p' + nm, [idx[0]], REAL))))


def stub_noise(it, f, args, kw):
    """contract of _find_if_noise (unit above)"""
    d, dc = args[:2]
    s = it.snap(d)
    it.noise.append((lambda i, j: s([pol(i), pol(j)]), d.shape, dc, kw))
    m = d.shape[0]
    return (Num(real('noise'), 'float'), Num(real('corr'), 'float'), it.arr([m], 'float', lambda idx: app('line', [idx[0]], REAL)), vbool(mk_lit('b', app('goodfit', [ZERO], BOOL))))


def stub_tn(it, f, args, kw):
    """contract of _find_tn_gain (C18)"""
    h, c, dc = args[:3]
    sh, sc = it.snap(h), it.snap(c)
    it.tn.append((lambda i, j: sh([pol(i), pol(j)]), lambda i, j: sc([pol(i), pol(j)]), dc, kw))
    m = h.shape[0]
    return (it.arr([m], 'float', lambda idx: app('tn', [idx[0]], REAL)), it.arr([m], 'float', lambda idx: app('gain', [idx[0]], REAL)), Num(sym('best', INT), 'int'))


def world(it, ob, verb):
    it.loads, it.noise, it.tn, it.names = [], [], [], {}
    it.contracts[I + '_load_if'] = stub_load
    it.contracts[I + '_find_if_noise'] = stub_noise
    it.contracts[I + '_find_tn_gain'] = stub_tn
    it.dc = make_dc(it)
    it.kw = options(it, ob, verb)
    it.m = sym('m', INT)
    it.ctx = it.ctx.add(le(2, it.m))


def vmax_is_last(ob, it, got):
    """the largest voltage of the (increasing) grid times the gap voltage"""
    reds = [x for x in getattr(it, 'reds', []) if x[0] == 'max']
    ok = any(S.prove_zero(got - x[1] * it.vgap, it.ctx) and S.prove_zero(x[4] - app('grid', [P(x[2][0])], REAL), it.ctx.add(x[3])) for x in reds if len(x[2]) == 1)
    ok = ok or S.prove_zero(got - app('grid', [it.m - 1], REAL) * it.vgap, it.ctx)
    ob.fact('maximum voltage', ok, str(got)[:200])


@unit('C20', 'DC IF data', [I + 'dcif_data'], 60, each=('verbose', 'silent'))
def dcif(ob, verb):
    def setup(it):
        world(it, ob, verb)
        it.raw = fun_arr(it, 'raw', [sym('k', INT), con(2)])
        it.names[id(it.raw)] = 'dc'

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        if not ob.fact('two results', isinstance(r, tuple) and len(r) == 2, repr(r)):
            return
        data, meta = r
        g, p = (lambda i: app('grid', [i], REAL)), (lambda i: app('pdc', [i], REAL))
        ob.fact('the data is loaded once', len(it.loads) == 1 and it.loads[0][0] is it.raw and it.loads[0][1] is it.dc, str(len(it.loads)))
        ob.fact('the calibration is found once', len(it.noise) == 1, str(len(it.noise)))
        if len(it.loads) != 1 or len(it.noise) != 1:
            return
        passed_on(ob, it, 'the import', it.kw, it.loads[0][2])
        passed_on(ob, it, 'the calibration', it.kw, it.noise[0][3])
        i, f = index('i', 0, it.m)
        c = it.ctx.add(*f)
        ob.equal('calibrated voltage column', it.noise[0][0](i, 0), g(i), c)
        ob.equal('calibrated power column', it.noise[0][0](i, 1), p(i), c)
        corr = real('corr')
        if check_shape(ob, it, 'DC IF data', data, [it.m, 2]):
            ob.equal('voltage', at(it, data, i, 0), g(i), c)
            ob.equal('power is calibrated', at(it, data, i, 1), p(i) * corr, c)
        ob.equal('calibration factor stored', it.num(attr(it, meta, 'corr')).p, corr, it.ctx)
        ob.equal('IF noise stored', it.num(attr(it, meta, 'if_noise')).p, real('noise'), it.ctx)
        ob.true('fit flag stored', eqf(it.formula(attr(it, meta, 'if_fit')), mk_lit('b', app('goodfit', [ZERO], BOOL))), it.ctx)
        sl = attr(it, meta, 'shot_slope')
        if check_shape(ob, it, 'shot noise slope', sl, [it.m, 2]):
            ob.equal('shot noise voltage', at(it, sl, i, 0), g(i), c)
            ob.equal('shot noise line', at(it, sl, i, 1), app('line', [i], REAL), c)
        vmax_is_last(ob, it, it.num(attr(it, meta, 'vmax')).p)
        no_input_writes(ob, it)
    ob.run(setup, lambda it: it.call(it.func(I + 'dcif_data'), [it.raw, it.dc], dict(it.kw)), post)


def eqf(a, b):
    return And(Or(Not(a), b), Or(a, Not(b)))


@unit('C20', 'hot/cold IF data', [I + 'if_data'], 60, each=[(c, v) for c in ('no calibration', 'calibration without factor', 'calibration supplied') for v in ('verbose', 'silent')])
def hotcold(ob, cal, verb):
    def setup(it):
        world(it, ob, verb)
        it.hot = fun_arr(it, 'rawh', [sym('k', INT), con(2)])
        it.cold = fun_arr(it, 'rawc', [sym('l', INT), con(2)])
        it.names.update({id(it.hot): 'hot', id(it.cold): 'cold'})
        if cal != 'no calibration':
            it.slope = fun_arr(it, 'given', [it.m, con(2)])
            it.kw['dcif'] = it.call(it.mod_attr('qmix.exp.if_data', 'DCIFData'), [],
                                    {'if_noise': Num(real('noise0'), 'float'), 'corr': Num(real('corr0'), 'float') if cal == 'calibration supplied' else None,
                                     'if_fit': True, 'shot_slope': it.slope, 'vmax': Num(real('vmax0'), 'float')})

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        if not ob.fact('three results', isinstance(r, tuple) and len(r) == 3, repr(r)):
            return
        res, best, meta = r
        g, h, l = [(lambda nm: lambda i: app(nm, [i], REAL))(nm) for nm in ('grid', 'phot', 'pcold')]
        ob.fact('hot and cold data are loaded', sorted(it.names.get(id(d), '?') for d, _, _ in it.loads) == ['cold', 'hot'] and all(x[1] is it.dc for x in it.loads))
        for x in it.loads:
            passed_on(ob, it, 'the import', it.kw, x[2])
        own = cal != 'calibration supplied'
        if not ob.fact('a calibration is found exactly when none is supplied', len(it.noise) == (1 if own else 0), '%d' % len(it.noise)):
            return
        i, f = index('i', 0, it.m)
        c = it.ctx.add(*f)
        corr = real('corr' if own else 'corr0')
        if own:
            passed_on(ob, it, 'the calibration', it.kw, it.noise[0][3])
            ob.equal('calibrated on the average: voltage', it.noise[0][0](i, 0), g(i), c)
            ob.equal('calibrated on the average: power', it.noise[0][0](i, 1), (h(i) + l(i)) / 2, c)
        if ob.fact('noise temperature is found once', len(it.tn) == 1, '%d' % len(it.tn)):
            sh, sc, dc, kw = it.tn[0]
            passed_on(ob, it, 'the noise temperature', it.kw, kw)
            for nm, s, q in (('hot', sh, h), ('cold', sc, l)):
                ob.equal('noise temperature uses calibrated %s power' % nm, s(i, 1), q(i) * corr, c)
                ob.equal('noise temperature uses the %s voltages' % nm, s(i, 0), g(i), c)
            ob.fact('junction data reaches the noise temperature', dc is it.dc)
        if check_shape(ob, it, 'results', res, [it.m, 5]):
            for j, nm, w in ((0, 'voltage', g(i)), (1, 'hot power', h(i) * corr), (2, 'cold power', l(i) * corr), (3, 'noise temperature', app('tn', [i], REAL)), (4, 'gain', app('gain', [i], REAL))):
                ob.equal('results: %s' % nm, at(it, res, i, j), w, c)
        ob.equal('best index', it.num(best).p, sym('best', INT), it.ctx)
        ob.equal('calibration factor stored', it.num(attr(it, meta, 'corr')).p, corr, it.ctx)
        ob.equal('IF noise stored', it.num(attr(it, meta, 'if_noise')).p, real('noise' if own else 'noise0'), it.ctx)
        fit = attr(it, meta, 'if_fit')
        if own:
            ob.true('fit flag stored', eqf(it.formula(fit), mk_lit('b', app('goodfit', [ZERO], BOOL))), it.ctx)
        else:
            ob.fact('fit flag is that of the supplied calibration', fit is True)
        sl = attr(it, meta, 'shot_slope')
        if check_shape(ob, it, 'shot noise slope', sl, [it.m, 2]):
            ob.equal('shot noise voltage', at(it, sl, i, 0), g(i) if own else app('given', [i, ZERO], REAL), c)
            ob.equal('shot noise line', at(it, sl, i, 1), app('line', [i], REAL) if own else app('given', [i, ONE], REAL), c)
        vmax_is_last(ob, it, it.num(attr(it, meta, 'vmax')).p)
        no_input_writes(ob, it)
    ob.run(setup, lambda it: it.call(it.func(I + 'if_data'), [it.hot, it.cold, it.dc], dict(it.kw)), post)
