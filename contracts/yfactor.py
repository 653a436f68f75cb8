"""Contracts of the Y-factor analysis: qmix.exp.if_data noise temperature and gain (C18), qmix.exp.if_response (C19)."""
from .base import *
from qv.npmodel import CONSTS
from qv import npmodel as N

I = 'qmix.exp.if_data.'
RS = 'qmix.exp.if_response.'
F = lambda n: (lambda i: app(n, [i], REAL))
M = lambda n: (lambda i, j: app(n, [i, pol(j)], REAL))
A = lambda x: N.absP(pol(x))


def params(it):
    """the dictionary of default parameters"""
    return it.mod_attr('qmix.exp.parameters', 'params')


def cw(f, t):
    """Callen-Welton temperature of a load at temperature t and frequency f [Hz]"""
    q = CONSTS['h'] * f / 2 / CONSTS['k']
    return q / app('tanh', [q / t])


@unit('C18', 'Callen-Welton', [I + '_temp_cw'], 30, each=('float', 'int'))
def callen(ob, kind):
    def setup(it):
        it.f, it.t = pos('f') if kind == 'float' else sym('fi', INT), pos('t')
        return [] if kind == 'float' else [le(1, it.f)]

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        ob.equal('effective load temperature', it.num(r).p, cw(it.f, it.t), it.ctx)
    ob.run(setup, lambda it: it.call(it.func(I + '_temp_cw'), [Num(it.f, kind), Num(it.t, 'float')], {}), post)


def cw_stub(it, f, args, kw):
    """contract of _temp_cw (unit above): a positive number determined by frequency and temperature"""
    x, t = positional(it, f, args, kw)
    return Num(app('cw', [it.num(x).p, it.num(t).p], REAL), 'float')


def extrema(it, ctx, spec, facts, idx):
    """what the recorded extrema say about spec, abstracted to an uninterpreted opt(i): facts over opt at the positions idx.
    facts(i): conditions under which spec(i) is considered (data values positive)"""
    opt = lambda i: app('opt', [i], REAL)
    out, done = ctx, []
    for (fn, x, us, dom, body) in getattr(it, 'reds', []):
        if len(us) != 1:
            continue
        u = P(us[0])
        # each form with the real extremum (for matching) and with its name (for the facts)
        forms = [(lambda t: t, lambda t: t), (lambda t: neg(t), lambda t: neg(t))]
        for y, nm in done:
            forms += [(lambda t, y=y: A(t - y), lambda t, nm=nm: A(t - nm)), (lambda t, y=y: A(neg(t) - y), lambda t, nm=nm: A(neg(t) - nm))]
        c = it.ctx.add(dom, *facts(u))
        form = next((h for g, h in forms if S.prove_zero(body - g(spec(u)), c)), None)
        if form is None:
            continue
        bd = lambda i: form(opt(i))
        dm = lambda i: bl(subst(iv(dom), {us[0]: i}))
        small = fn in ('argmin', 'min')
        if fn in ('min', 'max'):
            w = P(fresh('w'))
            val = P(fresh('ext', REAL))
            out = out.add(dm(w), eq(bd(w), val))
            idx = list(idx) + [w]
            done.append((x, val))
        else:
            val = bd(x)
            out = out.add(dm(x))
        for i in idx:
            out = out.add(Implies(dm(i), le(val, bd(i)) if small else le(bd(i), val)))
    return out, opt


RULES = ('bias', 'max gain', 'min tn', 'default', 'unknown')


@unit('C18', 'noise temperature and gain', [I + '_find_tn_gain'], 120,
      each=[(r, v, o) for r in RULES for v in ('verbose', 'silent') for o in ('given', 'defaults') if not (r != 'default' and o == 'defaults' and v == 'silent')])
def tn_gain(ob, rule_, verb, opts):
    H, C = M('hot'), M('cold')

    def setup(it):
        N.NO_NAN[0] = True
        it.n, it.w = ints('n', 'w')
        it.hot = fun_arr(it, 'hot', [it.n, it.w])
        it.cold = fun_arr(it, 'cold', [it.n, it.w])
        it.contracts[I + '_temp_cw'] = cw_stub
        it.vgap = pos('vgap')
        DC = it.mod_attr('qmix.exp.iv_data', 'DCIVData')
        it.dc = it.call(DC, [None] * 4 + [Num(it.vgap, 'float')] + [None] * 7, {})
        p = params(it)
        dflt = lambda nm: it.getitem(p, nm)
        kw = {'verbose': verb == 'verbose', 'freq': Num(pos('freq'), 'float')}
        if opts == 'given':
            kw['t_hot'], kw['t_cold'] = Num(pos('th'), 'float'), Num(pos('tc'), 'float')
        th, tc = [it.num(kw.get(x, dflt(x))).p for x in ('t_hot', 't_cold')]
        it.vbest = real('vbest')
        if rule_ == 'bias':
            kw['vbest'] = Num(it.vbest, 'float')
        elif rule_ in ('max gain', 'min tn'):
            kw['best_pt'] = {'max gain': 'Max Gain', 'min tn': 'MIN Tn'}[rule_] if verb == 'verbose' else rule_
        elif rule_ == 'unknown':
            kw['best_pt'] = 'best'
        it.kw = kw
        it.rule = {'default': 'max gain'}.get(rule_, rule_)
        hz = pos('freq') * con(10 ** 9)
        it.th, it.tc = app('cw', [hz, th], REAL), app('cw', [hz, tc], REAL)
        z = fresh('z')
        it.z = P(z)
        return [le(1, it.n), le(2, it.w), ne(it.th, it.tc)]

    def call(it):
        return it.call(it.func(I + '_find_tn_gain'), [it.hot, it.cold, it.dc], dict(it.kw))

    floor_ = 1 + con('1/10000000000')

    def post(it, k, r):
        if k == 'raise':
            ob.fact('refused only for a reason', allowed(it, it.ctx, r.exc), str(r))
            return
        if it.rule == 'unknown':
            ob.fact('unknown criterion refused', False, repr(r))
            return
        if not ob.fact('three results', isinstance(r, tuple) and len(r) == 3, repr(r)):
            return
        tn, gain, ix = r
        i, f = index('i', 0, it.n)
        # powers are positive
        c = it.ctx.add(*f).add(lt(0, H(i, 1)), lt(0, C(i, 1)))
        ob.true('accepted voltages match', eq(H(i, 0), C(i, 0)), with_instances(c, i))
        y = lambda i: H(i, 1) / C(i, 1)
        Y = lambda i: ite(le(y(i), floor_), floor_, y(i))
        TN = lambda i: (it.th - it.tc * Y(i)) / (Y(i) - 1)
        G = lambda i: (H(i, 1) - C(i, 1)) / (it.th - it.tc)
        if check_shape(ob, it, 'noise temperature', tn, [it.n]):
            ob.equal('noise temperature', at(it, tn, i), TN(i), c)
        if check_shape(ob, it, 'gain', gain, [it.n]):
            ob.equal('gain', at(it, gain, i), G(i), c)
        x = it.num(ix).p
        ob.true('best point is a valid position', And(le(0, x), lt(x, it.n)), it.ctx)
        best = {'bias': lambda i: A(H(i, 0) * it.vgap - it.vbest), 'max gain': lambda i: neg(G(i)), 'min tn': TN}[it.rule]
        cc, opt = extrema(it, c, best, lambda u: [lt(0, H(u, 1)), lt(0, C(u, 1))], [i, x])
        ob.true('the best point is best (%s)' % it.rule, le(opt(x), opt(i)), cc)
        no_input_writes(ob, it)

    def allowed(it, ctx, exc):
        if exc == 'ValueError':
            return it.rule == 'unknown'
        w = sym('w0', INT)
        return exc == 'AssertionError' and any(c.entails(And(le(0, w), lt(w, it.n), ne(H(w, 0), C(w, 0)))) for c in with_witness(ctx, w))
    ob.run(setup, call, post, raises_ok=lambda it, c, e, m: allowed(it, c, e))


# ---------------------------------------------------------------- IF response

@unit('C19', 'IF response', [RS + 'if_response', RS + '_db_to_lin'], 90, each=[(o, k) for o in ('columns', 'rows', 'square') for k in ('given', 'defaults')])
def response(ob, orient, opts):
    D = M('d')

    def setup(it):
        it.n = sym('n', INT)
        sh = [it.n, con(3)] if orient == 'columns' else [con(3), it.n] if orient == 'rows' else [con(3), con(3)]
        it.d = fun_arr(it, 'd', sh)
        p = params(it)
        names = {'t_hot': 'th', 't_cold': 'tc', 'ifresp_maxtn': 'maxtn'}
        it.kw = {k: Num(pos(v), 'float') for k, v in names.items()} if opts == 'given' else {}
        it.val = {k: it.num(it.kw.get(k, it.getitem(p, k))).p for k in names}
        if orient == 'square':
            it.n = con(3)
            return []
        return [le(0, it.n)] + ([ne(it.n, 3)] if orient == 'rows' else [])

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        col = (lambda i, j: D(i, j)) if orient != 'rows' else (lambda i, j: app('d', [pol(j), i], REAL))
        i, f = index('i', 0, it.n)
        c = it.ctx.add(*f)
        if not check_shape(ob, it, 'result', r, [4, it.n]):
            return
        for row, j, nm in ((0, 0, 'frequency'), (2, 1, 'hot power'), (3, 2, 'cold power')):
            ob.equal('%s is returned unchanged' % nm, at(it, r, row, i), col(i, j), c)
        pw = lambda x: app('pow', [con(10), x / 10])
        q = pw(col(i, 1)) / pw(col(i, 2))
        c = c.add(lt(0, pw(col(i, 1))), lt(0, pw(col(i, 2))))
        th, tc, mx = it.val['t_hot'], it.val['t_cold'], it.val['ifresp_maxtn']
        Y = ite(le(q, 1), 1 + con('1/1000000'), q)
        T_ = (th - tc * Y) / (Y - 1)
        want = lambda t: ite(Or(lt(t, 0), lt(mx, t)), mx, t)
        for nm, h in (('Y above one', lt(1, q)), ('Y at or below one', le(q, 1))):
            ob.equal('noise temperature, %s' % nm, at(it, r, 1, i), want(T_), c.add(h))
        no_input_writes(ob, it)
    ob.run(setup, lambda it: it.call(it.func(RS + 'if_response'), [it.d], dict(it.kw)), post)


@unit('C19', 'refusals', [RS + 'if_response'], 30, each=('list', 'vector', 'two columns'))
def refusals(ob, case):
    def setup(it):
        it.n, it.m = ints('n', 'm')
        it.d = VList([1, 2, 3]) if case == 'list' else fun_arr(it, 'd', [it.n] if case == 'vector' else [it.n, it.m])
        return [le(0, it.n), le(0, it.m), ne(it.n, 3), ne(it.m, 3)]

    def post(it, k, r):
        ob.fact('%s refused' % case, k == 'raise' and r.exc == ('ValueError' if case == 'list' else 'AssertionError'), repr(r))
    ob.run(setup, lambda it: it.call(it.func(RS + 'if_response'), [it.d], {}), post, raises_ok=lambda it, c, e, m: e == ('ValueError' if case == 'list' else 'AssertionError'))
