"""Contracts of the impedance recovery in qmix.exp.exp_data (C21)."""
from .base import *
from .yfactor import params
from .clean import mask, count, sel
from qv import npmodel as N
from qv.npmodel import CONSTS

E = 'qmix.exp.exp_data.'
JV = lambda n, x: app('besselj', [pol(n), x], REAL)
F = lambda n: (lambda i: app(n, [i], REAL))
C = lambda n: (lambda i: app(n, [i], CPLX))
V, A, DC, KK = F('v'), F('alpha'), F('idc'), F('ikk')
VW, ZW = C('vw'), C('zw')
absv = lambda x: app('abs', [x])


class Resp(object):
    """response function: its two curves, element by element (C11, C13)"""

    def __init__(self, it):
        self.o = it.new(Obj(it.mod_attr('qmix.respfn', 'RespFn')))
        self.o.content.update({'idc': Builtin('idc', self.curve('idc')), 'ikk': Builtin('ikk', self.curve('ikk'))})

    @staticmethod
    def curve(nm):
        def h(it, args, kw):
            v, = args
            s = it.snap(v)
            return it.arr(list(v.shape), 'float', lambda idx: app(nm, [s(idx)], REAL))
        return h


def tucker(it, what, num_b):
    """the Tucker sums at sample i"""
    def term(n, i):
        x = V(i) + n * it.vph
        j = lambda m: JV(n + m, A(i))
        if what == 'dc':
            return j(0) ** 2 * DC(x)
        return j(0) * (j(-1) + j(1)) * DC(x) + T.IU * j(0) * (j(-1) - j(1)) * KK(x)
    if isinstance(num_b, int):
        return lambda i: sum((term(con(n), i) for n in range(-num_b, num_b + 1)), ZERO)
    n = fresh('n')
    return lambda i: T.mk_sum([n], And(le(neg(num_b), P(n)), le(P(n), num_b)), term(P(n), i))


@unit('C21', 'Tucker sums', [E + '_find_pumped_iv_curve', E + '_find_ac_current'], 60, each=[(f, b) for f in ('dc', 'ac') for b in ('given', 'default')])
def sums(ob, which, b):
    def setup(it):
        it.n, it.vph, it.nb = sym('n', INT), pos('vph'), sym('num_b', INT)
        it.resp = Resp(it)
        it.args = [it.resp.o, fun_arr(it, 'v', [it.n]), Num(it.vph, 'float'), fun_arr(it, 'alpha', [it.n])]
        it.kw = {'num_b': Num(it.nb, 'int'), 'comment': StrV('other option')} if b == 'given' else {}
        return [le(1, it.n), le(0, it.nb)]

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        if check_shape(ob, it, 'current', r, [it.n]):
            i, f = index('i', 0, it.n)
            ob.equal('tunnelling current is the Tucker sum', at(it, r, i), tucker(it, which, it.nb if b == 'given' else 20)(i), it.ctx.add(*f))
        no_input_writes(ob, it)
    ob.run(setup, lambda it: it.call(it.func(E + {'dc': '_find_pumped_iv_curve', 'ac': '_find_ac_current'}[which]), list(it.args), dict(it.kw)), post)


def divider(zs):
    return lambda i: ZW(i) * inv(zs + ZW(i))


def total(it, body):
    i = fresh('i')
    return T.mk_sum([i], And(le(0, P(i)), lt(P(i), it.n)), body(P(i)))


@unit('C21', 'fit', [E + '_error_function', E + '_find_source_voltage'], 60, each=('error', 'source voltage'))
def fit(ob, which):
    def setup(it):
        it.n, it.zs = sym('n', INT), sym('zs', CPLX)
        it.args = [fun_arr(it, 'vw', [it.n], 'complex'), fun_arr(it, 'zw', [it.n], 'complex'), Num(it.zs, 'complex')]
        return [le(1, it.n)]

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        d = divider(it.zs)
        a = total(it, lambda i: absv(VW(i)) ** 2)
        b = total(it, lambda i: absv(VW(i) * d(i)))
        c = total(it, lambda i: absv(d(i)) ** 2)
        if which == 'error':
            ob.equal('fit error per sample', it.num(r).p, (a - b ** 2 * inv(c)) * inv(it.n), it.ctx.add(ne(c, 0)))
        else:
            ob.equal('source voltage', it.num(r).p, b * inv(c), it.ctx.add(ne(c, 0)))
        no_input_writes(ob, it)
    ob.run(setup, lambda it: it.call(it.func(E + {'error': '_error_function', 'source voltage': '_find_source_voltage'}[which]), list(it.args), {}), post)


# ---------------------------------------------------------------- drive level

TUCK = lambda v, w, a, n: app('tuckerdc', [v, w, a, n], REAL)
EXP, ROOT = F('iexp'), F('root')


def tucker_stub(it, f, args, kw):
    """contract of _find_pumped_iv_curve (unit above): the current of a sample is determined by its voltage and drive level"""
    d = dict(zip([x.arg for x in f.node.args.args], args))
    d.update(kw)
    vb, al = d['vb'], d['alpha']
    ob_fact = it.resp.o is d['resp']
    if not ob_fact:
        raise Unsupported('another response function')
    nb = it.num(d.get('num_b', Num(20))).p
    w = it.num(d['vph']).p
    sv = it.snap(vb)
    sa = it.snap(al) if isinstance(al, Arr) else (lambda idx, p=it.num(al).p: p)
    return it.arr(list(vb.shape), 'float', lambda idx: TUCK(sv(idx), w, sa(idx), nb))


T.NOLIFT.add('tuckerdc')
MAXS = [('given', 'given'), ('default', 'default')]


@unit('C21', 'drive level', [E + '_find_alpha'], 60, each=['given', 'default'])
def drive(ob, how):
    def setup(it):
        N.NO_NAN[0] = True
        it.cut_loops = True
        it.n, it.vph = sym('n', INT), pos('vph')
        it.resp = Resp(it)
        it.contracts[E + '_find_pumped_iv_curve'] = tucker_stub
        dc = it.new(Obj(it.mod_attr('qmix.exp.exp_data', 'DCData')))
        dc.content['resp'] = it.resp.o
        it.args = [dc, fun_arr(it, 'v', [it.n]), fun_arr(it, 'iexp', [it.n]), Num(it.vph, 'float')]
        it.top = pos('alpha_max') if how == 'given' else con('3/2')
        it.nb = sym('num_b', INT) if how == 'given' else con(20)
        it.kw = {'num_b': Num(it.nb, 'int'), 'alpha_max': Num(it.top, 'float'), 'comment': StrV('x')} if how == 'given' else {}

        def hook(t, when, rec, fr):
            rec['frame'] = fr
        it.loop_hooks = [hook]
        return [le(1, it.n), le(0, it.nb)]

    def near(a, s):
        i = index('i', 0, 1)[0]
        return [le(a - ROOT(i), 2 * s), le(ROOT(i) - a, 2 * s)]

    def root(it, i, a):
        """the pumped current crosses the measured current once, upwards, at the level ROOT"""
        t = TUCK(V(i), it.vph, a, it.nb)
        return [le(0, ROOT(i)), Or(Not(lt(a, ROOT(i))), lt(t, EXP(i))), Or(Not(lt(ROOT(i), a)), lt(EXP(i), t)), Or(ne(a, ROOT(i)), eq(t, EXP(i)))]

    def step(it, rec):
        st = state(ob, it, rec)
        if st is None:
            return
        old, cur, end, s0, s, s1 = st
        i, f = index('i', 0, it.n)
        c = it.ctx.add(*root(it, i, cur(i))).add(*f).add(lt(0, s), le(0, cur(i)), *near(cur(i), s))
        ob.equal('the step is halved', s1(), s / 2, c)
        ob.true('drive level is not negative', le(0, end(i)), c)
        ob.true('drive level approaches the crossing', And(*near(end(i), s1())), c)

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        if not check_shape(ob, it, 'drive level', r, [it.n]):
            return
        i, f = index('i', 0, it.n)
        ob.true('drive level is not negative', le(0, at(it, r, i)), it.ctx.add(*f))
        no_input_writes(ob, it)
        if not ob.fact('one search', len(it.havocs) == 1, str(len(it.havocs))):
            return
        st = state(ob, it, it.havocs[0])
        if st is None:
            return
        old, cur, end, s0, s, s1 = st
        # the search starts on the line from no drive to the largest drive
        u, p = DC(V(i)), TUCK(V(i), it.vph, it.top, it.nb)
        g = it.top * (EXP(i) - u) * inv(p - u)
        c = it.pre.add(*f).add(ne(p - u, 0))
        ob.equal('first guess', old(i), ite(lt(g, 0), 0, g), c)
        ob.equal('first step', s0, it.top / 4, it.pre)
        j = it.havocs[0]['index']
        ob.true('fifteen steps', eq(j, 14), it.ctx)
        c = it.ctx.add(*root(it, i, cur(i))).add(*f).add(lt(0, s), le(0, cur(i)), *near(cur(i), s))
        ob.true('the last level approaches the crossing', And(*near(end(i), s1())), c)
        ob.true('the result is the last level', eq(at(it, r, i), end(i)), it.ctx.add(*f))
    ob.run(setup, lambda it: it.call(it.func(E + '_find_alpha'), list(it.args), dict(it.kw)), post, step=step)


def state(ob, it, rec):
    """the drive levels and the step carried by the search: at entry, in an arbitrary iteration, at its end"""
    arr = num = None
    for key, nm, old in rec['state']:
        if isinstance(key, str) and isinstance(old, Num):
            num = (lambda: it.num(rec['frame'].env[key]).p), nm, old.p
            if old.ty == 'int':
                num = None
                continue
            n1 = key
            num = (old.p, nm, (lambda n1=n1: it.num(rec['frame'].env[n1]).p))
        elif not isinstance(key, str) and key.dtype == 'float' and len(key.shape) == 1:
            arr = (lambda i, key=key, old=old: it.read_content(key, old, [pol(i)])), (lambda i, nm=nm: app(nm, [i], REAL)), \
                (lambda i, key=key: it.read_content(key, key.content, [pol(i)]))
    if arr is None or num is None:
        if ob is None:
            return None
        ob.fact('the search carries drive levels and a step', False, str([str(r[0]) for r in rec['state']]))
        return None
    return arr + num


# ---------------------------------------------------------------- search for the embedding impedance

AC = lambda *t: app('tuckerac', list(t), CPLX)
ERR = lambda t, zs: app('fiterr', list(t) + [zs], REAL)
SRC = lambda t, zs: app('fitsrc', list(t) + [zs], REAL)
for _n in ('tuckerac', 'fiterr', 'fitsrc'):
    T.NOLIFT.add(_n)


def search_stubs(it):
    """contracts of the steps (units above)"""
    it.seen = {}

    def options(f, args, kw):
        d = dict(zip([x.arg for x in f.node.args.args], args))
        d.update(kw)
        return d

    def alpha(i, f, args, kw):
        d = options(f, args, kw)
        i.seen['alpha'] = d
        v, c = N.column(i, d['vdc_exp'])
        u, c2 = N.column(i, d['idc_exp'])
        i.same_dim(c, c2)
        i.cols = [v, u, c]
        i.level = lambda j: app('level', [v, u, c, j], REAL)
        return i.arr([c], 'float', lambda idx: i.level(idx[0]))

    def ac(i, f, args, kw):
        d = options(f, args, kw)
        i.seen['ac'] = d
        s, a = i.snap(d['vb']), i.snap(d['alpha'])
        w, nb = i.num(d['vph']).p, i.num(d.get('num_b', Num(20))).p
        return i.arr(list(d['vb'].shape), 'complex', lambda idx: AC(s(idx), w, a(idx), nb))

    def number(fn):
        def h(i, f, args, kw):
            d = options(f, args, kw)
            v, c = N.column(i, d['vwi'])
            z, c2 = N.column(i, d['zwi'], True)
            i.same_dim(c, c2)
            return Num(fn([v, z, c], i.num(d['zs']).p), 'float')
        return h
    it.contracts[E + '_find_alpha'] = alpha
    it.contracts[E + '_find_ac_current'] = ac
    it.contracts[E + '_error_function'] = number(ERR)
    it.contracts[E + '_find_source_voltage'] = number(SRC)


T.NOLIFT.add('level')


def N_(it, c):
    return c


def best(ob, it, z, Z, err, p, q, c):
    """z is a grid point and no grid point has a smaller error"""
    done = False
    for (fn, x, us, dom, body) in getattr(it, 'reds', []):
        if fn != 'argmin' or len(us) != 1 or not it.ctx.entails(lt(x, con(101 * 201))):
            continue
        a, b = (it.num(it.binop(o, Num(x, 'int'), Num(con(201), 'int'))).p for o in ('FloorDiv', 'Mod'))
        if not S.prove_zero(z - Z(a, b), it.ctx):
            continue
        done = True
        f = lambda t: subst(body, {us[0]: t})
        ob.true('the impedance lies on the grid', And(le(0, a), lt(a, 101), le(0, b), lt(b, 201)), it.ctx)
        ob.equal('error of the chosen impedance', err(z), err(Z(a, b)), it.ctx)
        ob.true('no grid point has a smaller error', le(err(Z(a, b)), err(Z(p, q))), c.add(le(f(x), S.norm(f(p * 201 + q), c)), le(f(x), err(Z(p, q))) if S.prove_zero(f(p * 201 + q) - err(Z(p, q)), c) else TRUE))
    ob.fact('the impedance is the grid point of least error', done, str(z)[:600])


def middle(ob, it, alpha, lv, zw, zt, v, c):
    """drive level and junction impedance reported for the sample nearest the middle of the first photon step"""
    dist = lambda i: absv(v(i) - (1 - it.vph / 2))
    for (fn, x, us, dom, body) in getattr(it, 'reds', []):
        if fn == 'argmin' and len(us) == 1 and S.prove_zero(lv(x) - alpha, c):
            j, f = index('j', 0, it.cols[2])
            g = lambda t: subst(body, {us[0]: t})
            ob.true('no fitted sample is nearer the middle', le(dist(x), dist(j)), c.add(*f).add(le(g(x), g(j))))
            ob.equal('junction impedance of that sample', zw, zt(x), c)
            return
    ob.fact('drive level of one fitted sample is reported', False, str(alpha)[:600])


@unit('C21', 'impedance search', [E + 'PumpedData._recover_zemb'], 120, each=['searched', 'forced', 'default'])
def search(ob, how):
    def setup(it):
        N.NO_NAN[0] = True
        search_stubs(it)
        it.n = sym('n', INT)
        it.resp = Resp(it)
        p = params(it)
        items = [(k_, v_) for k_, v_ in p.content]
        given = {}
        if how != 'default':
            it.fr = [real('f0'), real('f1')]
            it.rr = [real('r0'), real('r1')]
            it.xr = [real('x0'), real('x1')]
            given = {'fit_range': it.fr, 'remb_range': it.rr, 'xemb_range': it.xr}
            given = {k_: tuple(Num(x, 'float') for x in v_) for k_, v_ in given.items()}
            given['num_b'] = Num(sym('num_b', INT), 'int')
            given['alpha_max'] = Num(pos('alpha_max'), 'float')
        if how == 'forced':
            it.z = sym('zf', CPLX)
            given['zemb'] = Num(it.z, 'complex')
        kw = [(a, b) for a, b in items if a not in given] + list(given.items())
        it.kw = it.vdict(kw)
        if how == 'default':
            val = lambda k_: [it.num(it.getitem(it.getitem(p, k_), q)).p for q in (0, 1)]
            it.fr, it.rr, it.xr = val('fit_range'), val('remb_range'), val('xemb_range')
        it.freq, it.fgap = pos('freq'), pos('fgap')
        g = lambda nm: Num(pos(nm), 'float')
        meta = dict(vgap=g('vgap'), rn=g('rn'), fgap=g('fgap'), igap=g('igap'), offset=(Num(real('off0'), 'float'), Num(real('off1'), 'float')), vint=Num(real('vint'), 'float'))
        dc = instance(it, E + 'DCData', resp=it.resp.o, **meta)
        # the attributes every constructed object has (unit 'pumped data' of C23)
        it.o = instance(it, E + 'PumpedData', kwargs=it.kw, freq=g('freq'), vph=Num(it.freq * con(10) ** 9 / it.fgap, 'float'), **meta,
                        dciv=dc, voltage=fun_arr(it, 'v', [it.n]), current=fun_arr(it, 'i', [it.n]))
        it.dc = dc
        it.before = dict(it.o.content)
        w = it.vph = it.freq * con(10) ** 9 / it.fgap
        it.m = mask(it, it.n, lambda i: And(le(1 - w + w * it.fr[0], V(i)), le(V(i), 1 - w * (1 - it.fr[1]))))
        return [le(1, it.n), le(1, count(it.m, it.n))]

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        c = it.ctx
        a = it.seen.get('alpha')
        if not ob.fact('drive levels are recovered', a is not None):
            return
        # exactly the samples of the fit interval
        want = [N.table(it, count(it.m, it.n), lambda j, f=f: f(sel(it.m, it.n, j))) for f in (V, F('i'))] + [count(it.m, it.n)]
        ok = ob.equal('number of fitted samples', it.cols[2], want[2], c)
        j, f = index('j', 0, want[2])
        for nm, g, w_ in zip(('voltage', 'current'), it.cols, want):
            ok = ok and ob.equal('%s of the fit interval' % nm, N.recanon(it, T.lam_apply(g, [j]), c), T.lam_apply(w_, [j]), c.add(*f))
        ob.equal('photon voltage', it.num(a['vph']).p, it.vph, c)
        ob.fact('DC data of the junction', a['dciv'] is it.dc)
        for o in ('num_b', 'alpha_max'):
            if how != 'default':
                ob.fact('option %s reaches the drive level' % o, o in a and same_num(it, a[o], sym('num_b', INT) if o == 'num_b' else pos('alpha_max')))
        # the table of junction voltages and impedances
        nb = sym('num_b', INT) if how != 'default' else con(20)
        lv = it.level
        vt = N.table(it, it.cols[2], lambda q: lv(q) * it.vph)
        zt = N.table(it, it.cols[2], lambda q: lv(q) * it.vph * inv(AC(T.lam_apply(it.cols[0], [q]), it.vph, lv(q), nb)))
        tabs = [vt, zt, it.cols[2]]
        grid = lambda rng, q, m: rng[0] + q * (rng[1] - rng[0]) / (m - 1)
        Z = lambda p, q: grid(it.rr, p, 101) + T.IU * grid(it.xr, q, 201)
        num = lambda nm: it.num(it.getattr(it.o, nm)).p
        es = it.getattr(it.o, 'err_surf')
        p, fp = index('p', 0, 101)
        q, fq = index('q', 0, 201)
        cc = c.add(*(fp + fq))
        if check_shape(ob, it, 'error surface', es, [con(101), con(201)]):
            ob.equal('error surface', at(it, es, p, q), ERR(tabs, Z(p, q)), cc)
        z = num('zt')
        if how == 'forced':
            ob.equal('the forced impedance is used', z, it.z, c)
        else:
            best(ob, it, z, Z, lambda x: ERR(tabs, x), p, q, cc)
            lim = it.num(it.mod_attr('qmix.exp.exp_data', '_good_error')).p
            good = it.formula(it.getattr(it.o, 'fit_good'))
            ob.true('a small error is a good fit', Or(lt(lim, ERR(tabs, z)), good), N_(it, c))
            ob.true('a good fit has a small error', Or(Not(good), le(ERR(tabs, z), lim)), N_(it, c))
        ob.equal('source voltage', num('vt'), SRC(tabs, z), c)
        middle(ob, it, num('alpha'), lv, num('zw'), lambda i: T.lam_apply(zt, [i]), lambda i: T.lam_apply(it.cols[0], [i]), c)
        new = {n_ for n_ in it.o.content if it.before.get(n_) is not it.o.content[n_]}
        ob.fact('measured data is kept', not (new & set(it.before)), str(new))
        no_input_writes(ob, it)
    ob.run(setup, lambda it: it.call(it.getattr(it.o, '_recover_zemb'), [], {}), post)
