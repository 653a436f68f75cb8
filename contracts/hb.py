"""Contracts of qmix.harmonic_balance."""
from .base import *
from qv.npmodel import handle
from . import circ

HB = 'qmix.harmonic_balance.'
Q = 'qmix.qtcurrent.'
NP, NPTS, MAXIT = ints('num_p', 'npts', 'max_it')
NBV = sym('num_b', INT)
TOL = pos('stop_rerror')
DAMP = real('damp_coeff')
ZG = pos('zj_guess')
FREQ = [None] + [pos('f%d' % i) for i in range(1, 5)]
MINV = con(Fraction('1e-10'))
DVV = con(Fraction('0.001'))
VT0 = lambda f, p: app('vt', [f, p], CPLX)
ZT0 = lambda f, p: app('zt', [f, p], CPLX)


def vtl(f, p):
    """source voltage with the documented floor"""
    return ite(lt(app('abs', [VT0(f, p)]), MINV), MINV, VT0(f, p))


def freq_arr(it, nf):
    a = const_arr(it, [ZERO] + FREQ[1:nf + 1])
    a.buf.origin = 'cct.freq'
    return a


def circuit(it, nf):
    return instance(it, 'qmix.circuit.EmbeddingCircuit', num_f=Num(con(nf)), num_p=Num(NP), num_n=Num(nf * NP), vb_npts=Num(NPTS),
                    freq=freq_arr(it, nf), vb=fun_arr(it, 'vb', [NPTS]), name='',
                    vt=fun_arr(it, 'vt', [con(nf + 1), NP + 1], 'complex'), zt=fun_arr(it, 'zt', [con(nf + 1), NP + 1], 'complex'),
                    **{n: Num(sym(n, REAL), 'float') for n in ('vgap', 'rn', 'fgap', 'igap')})


def base_facts():
    return [le(1, NP), le(1, NPTS), le(0, MAXIT), le(1, NBV)]


class RespV(Builtin):
    pass


def response():
    def f(it, a, k):
        raise Unsupported('response called directly')
    return Builtin('resp', f)


def env_ok(it, c, nf):
    """the circuit handed on is the caller's circuit, unchanged as far as the current calculation reads it"""
    g = c.content.get
    if not isinstance(c, Obj) or not same_num(it, g('num_f'), nf) or not same_num(it, g('num_p'), NP) or not same_num(it, g('vb_npts'), NPTS):
        return False
    fr, vb = g('freq'), g('vb')
    return isinstance(fr, Arr) and isinstance(vb, Arr) and all(S.prove_zero(it.read_arr(fr, [con(i)]) - FREQ[i], it.ctx) for i in range(1, nf + 1)) \
        and same_array(it, vb, [NPTS], lambda u: app('vb', u, REAL))


def qt_stub(nf):
    """qtcurrent (contract verified in C01, C04): row r holds the current at the r-th requested frequency, rounded to four decimals;
    the current is a function of the junction voltage array, the frequency and the bias point"""
    def h(it, f, args, kw):
        a = positional(it, f, args, kw)
        if a is None:
            return NotImplemented
        vj, c, resp, fl, nb, verbose, rm = a[:7]
        canon = env_ok(it, c, nf) and isinstance(resp, Builtin) and resp.name == 'resp' and same_num(it, nb, NBV) and \
            (rm is None or (isinstance(rm, Arr) and rm.buf.tag == 'respm'))
        if not isinstance(vj, Arr) or len(vj.shape) != 3:
            raise Unsupported('junction voltage of another shape')
        if not all(it.ctx.entails(eq(x, y)) for x, y in zip(vj.shape, [con(nf + 1), NP + 1, NPTS])):
            raise Unsupported('junction voltage of another shape')
        if isinstance(fl, (VList, tuple)):
            fl = it.np.asarray(it, fl)
        scalar = isinstance(fl, Num)
        if not scalar and (not isinstance(fl, Arr) or len(fl.shape) != 1):
            raise Unsupported('frequency list')
        # only the elements for tones and harmonics >= 1 matter
        inner = it.view(vj, (SliceV(Num(ONE), None, None), SliceV(Num(ONE), None, None), SliceV(None, None, None)))
        nm, ps = handle(it, 'qtc' if canon else 'other', inner)
        if scalar:
            fr = it.num(fl).p
            return it.arr([NPTS], 'complex', lambda idx: app(nm, ps + [app('rnd', [fr, con(4)]), idx[0]], CPLX))
        rd = it.snap(fl)
        return it.arr([fl.shape[0], NPTS], 'complex', lambda idx: app(nm, ps + [app('rnd', [rd([idx[0]]), con(4)]), idx[1]], CPLX))
    return h


def respm_stub(nf):
    def h(it, f, args, kw):
        a = positional(it, f, args, kw)
        if a is None:
            return NotImplemented
        canon = env_ok(it, a[0], nf) and isinstance(a[1], Builtin) and a[1].name == 'resp' and same_num(it, a[2], NBV)
        r = it.arr([sym('respm_len', INT), NPTS], 'complex', lambda u: app('respm', u, CPLX))
        r.buf.tag = 'respm' if canon else 'other'
        return r
    return h


def quiet(it, f, args, kw):
    return None


def stubs(it, nf):
    it.contracts[Q + 'qtcurrent'] = qt_stub(nf)
    it.contracts[Q + 'interpolate_respfn'] = respm_stub(nf)
    it.contracts['qmix.misc.progbar.progress_bar'] = quiet


def current_of(it, nf, v3):
    """spec: current at tone f, harmonic p, bias x of the junction voltage v3(f, p, x)"""
    arr = it.arr([con(nf), NP, NPTS], 'complex', lambda i: v3(i[0] + 1, i[1] + 1, i[2]))
    nm, ps = handle(it, 'qtc', arr)
    return lambda f, p, x: app(nm, ps + [app('rnd', [FREQ[int(pol(f).const())] * p, con(4)]), x], CPLX)


def announced(it):
    return [e for e in it.events if e[0] == 'print']


def initial_state(it, nf):
    return fun_arr(it, 'vj0', [con(nf + 1), NP + 1, NPTS], 'complex')


# --------------------------------------------------------------- helper
def current_hb(ob, nf, which):
    """the currents of all signals: row k = (f-1) P + (p-1) is the current at tone f, harmonic p"""
    def setup(it):
        stubs(it, nf)
        return base_facts()

    def call(it):
        c = circuit(it, nf)
        if which == '2d':
            vj = fun_arr(it, 'v', [nf * NP, NPTS], 'complex')
            return it.call(it.func(HB + '_qt_current_for_hb'), [vj, c, response(), Num(NBV)], {})
        vj = fun_arr(it, 'v', [con(nf + 1), NP + 1, NPTS], 'complex')
        return it.call(it.func(HB + '_qtcurrent_all_freq'), [vj, c, response(), Num(NBV)], {})

    def post(it, kind, v):
        if not ob.no_raise(it, kind, v):
            return
        no_input_writes(ob, it)
        if which == '2d':
            if not check_shape(ob, it, 'current', v, [nf * NP, NPTS]):
                return
            cur = current_of(it, nf, lambda f, p, x: app('v', [(f - 1) * NP + p - 1, x], CPLX))
        else:
            if not check_shape(ob, it, 'current', v, [con(nf + 1), NP + 1, NPTS]):
                return
            cur = current_of(it, nf, lambda f, p, x: app('v', [f, p, x], CPLX))
        p, fp = index('p', 1, NP + 1)
        x, fx = index('x', 0, NPTS)
        c = it.ctx.add(*(fp + fx))
        for f in range(1, nf + 1):
            code = it.read_arr(v, [(f - 1) * NP + p - 1, x] if which == '2d' else [con(f), p, x])
            ob.equal('current of tone %d' % f, code, cur(con(f), p, x), c)
    ob.run(setup, call, post)


for _p in ('C05', 'C06'):
    unit(_p, 'current of all signals', [HB + '_qt_current_for_hb', HB + '_qtcurrent_all_freq'], 100,
         [(nf, w) for nf in (1, 2, 3, 4) for w in ('2d', '3d')])(current_hb)


# ------------------------------------------------------------ result check
def err_of(nf, cur, v):
    return lambda f, p, x: vtl(f, p) - ZT0(f, p) * cur(f, p, x) - v(f, p, x)


def check_unit(ob, nf):
    V = lambda f, p, x: app('v', [f, p, x], CPLX)

    def setup(it):
        stubs(it, nf)
        return base_facts()

    def call(it):
        c = circuit(it, nf)
        vj = fun_arr(it, 'v', [con(nf + 1), NP + 1, NPTS], 'complex')
        return it.call(it.func(HB + 'check_hb_error'), [vj, c, response(), Num(NBV), Num(TOL, 'float')], {})

    def raises_ok(it, c, exc, msg):
        """an AssertionError is only raised when some point misses the target"""
        if exc != 'AssertionError':
            return False
        cur = current_of(it, nf, V)
        E = err_of(nf, cur, V)
        sk, ws = S.skolem(c)
        loopv = [P(v) for f in c.facts for v in f.fv if v.kind == 'sym' and v.a.startswith('_i')]
        c2 = c.add(*sk)
        for f in range(1, nf + 1):
            for p in set(loopv + [ONE, NP]):
                for x in ws:
                    r = app('abs', [E(con(f), p, x)]) * inv(app('abs', [V(con(f), p, x)]))
                    if c2.add(le(1, p), le(p, NP), le(0, x), lt(x, NPTS), lt(r, TOL)).inconsistent():
                        return True
        return False

    def post(it, kind, v):
        if kind == 'raise':
            ob.fact('only an AssertionError is raised', False, str(v))
            return
        no_input_writes(ob, it)
        cur = current_of(it, nf, V)
        E = err_of(nf, cur, V)
        p, fp = index('p', 1, NP + 1)
        x, fx = index('x', 0, NPTS)
        for f in range(1, nf + 1):
            a = app('abs', [V(con(f), p, x)])
            bad = le(TOL, app('abs', [E(con(f), p, x)]) * inv(a))
            c = it.ctx.add(*(fp + fx + [ne(V(con(f), p, x), 0), bad]))
            ok = False
            for (rc, exc, msg) in it.raises:
                extra = [g for g in rc.facts if g not in it.ctx.facts]
                lv = {u for g in extra for u in g.fv if u.kind == 'sym' and u.a.startswith('_i')}
                hit = True
                for g in extra:
                    g2 = T.subst_f(g, {u: p for u in lv})
                    c3 = c.add(Not(g2))
                    c3 = c3.add(*S.instantiate(c3, [x, p]))
                    if not c3.inconsistent():
                        hit = False
                        break
                if hit:
                    ok = True
            ob.fact('a point of tone %d missing the target is refused' % f, ok, '%d raising statements' % len(it.raises))
    ob.run(setup, call, post, raises_ok=raises_ok)


unit('C05', 'result check', [HB + 'check_hb_error'], 100, [1, 2, 3, 4])(check_unit)


# ------------------------------------------------------------------- solver
def brief(c):
    return ' ; '.join(str(f)[:260] for f in c.facts[-7:])


def find_state(it, nf):
    """the arrays carried by the iteration: (name, entry Arr reader, reader at the end of the body)"""
    return it.havocs[-1]


def loop_state(ob, it, rec, nf):
    """the junction voltage carried by the iteration: (value at entry, value at the start of an arbitrary iteration, value at its end)"""
    for key, nm, old in rec['state']:
        if isinstance(key, str):
            if not isinstance(old, Arr):
                continue
            shape, dt = old.shape, old.dtype
        else:
            shape, dt = key.shape, key.dtype
        if dt != 'complex' or len(shape) != 2 or not all(it.ctx.entails(eq(a, b)) for a, b in zip(shape, [nf * NP, NPTS])):
            continue
        if isinstance(key, str):
            return (lambda k, x: it.read_arr(old, [k, x])), (lambda k, x: app(nm, [k, x], CPLX)), (lambda k, x: it.read_arr(rec['frame'].env[key], [k, x]))
        return (lambda k, x: it.read_content(key, old, [pol(k), pol(x)])), (lambda k, x: app(nm, [k, x], CPLX)), \
            (lambda k, x: it.read_content(key, key.content, [pol(k), pol(x)]))
    ob.fact('the iteration carries the junction voltages', False, str([str(r[0]) for r in rec['state']]))
    return None


def solve_unit(ob, prop, nf, mode, guess, verbose):
    def setup(it):
        stubs(it, nf)
        def hook(t, when, rec, fr):
            rec['frame'] = fr
            if when == 'start':
                t.inv_calls = []
        it.loop_hooks = [hook]
        return base_facts()

    def call(it):
        c = it.c = circuit(it, nf)
        it.before = dict(c.content)
        kw = dict(num_b=Num(NBV), max_it=Num(MAXIT), stop_rerror=Num(TOL, 'float'), damp_coeff=Num(DAMP, 'float'), mode=mode,
                  verbose=verbose, zj_guess=Num(ZG, 'float'))
        if guess:
            kw['vj_initial'] = initial_state(it, nf)
        return it.call(it.func(HB + 'harmonic_balance'), [c, response()], kw)

    def frame(it):
        no_input_writes(ob, it)
        circ.unchanged(ob, it, it.c, it.before)

    def initial(it, rec):
        st = loop_state(ob, it, rec, nf)
        if st is None:
            return
        p, fp = index('p', 1, NP + 1)
        x, fx = index('x', 0, NPTS)
        c = it.ctx = it.ctx.add(*(fp + fx))
        for f in range(1, nf + 1):
            want = app('vj0', [con(f), p, x], CPLX) if guess else vtl(con(f), p) * ZG * inv(ZG + ZT0(con(f), p))
            ob.equal('initial voltage of tone %d' % f, st[0]((f - 1) * NP + p - 1, x), want, c)

    def post(it, kind, v):
        if not ob.no_raise(it, kind, v):
            return
        if prop == 'C07':
            frame(it)
            return
        p, fp = index('p', 1, NP + 1)
        x, fx = index('x', 0, NPTS)
        allz = not it.havocs
        n = {'o': 1, 'x': 3, 'm': 2}[mode]
        if n == 1:
            vout = v
        else:
            if not ob.fact('%d results' % n, isinstance(v, tuple) and len(v) == n, repr(v)[:300]):
                return
            vout = v[0]
        if not check_shape(ob, it, 'voltage', vout, [con(nf + 1), NP + 1, NPTS]):
            return
        if allz:
            # no iteration was needed: every source impedance is zero
            c = it.ctx.add(*(fp + fx))
            c = it.ctx = c.add(*S.instantiate(c, [con(i) for i in range(0, nf + 1)] + [p]))
            for f in range(1, nf + 1):
                ob.zero('zero source impedance of tone %d' % f, ZT0(con(f), p), c)
                ob.equal('source voltage of tone %d is returned' % f, it.read_arr(vout, [con(f), p, x]), VT0(con(f), p), c)
            if mode == 'm' and check_shape(ob, it, 'mask', v[1], [NPTS]):
                ob.true('every point is marked', T.bl(it.read_arr(v[1], [x])), c)
            if mode == 'x':
                ob.fact('reported as converged without iterations', same_num(it, v[1], 0) and v[2] is True, repr(v[1:]))
            return
        if prop == 'C06':
            initial(it, it.havocs[0])
            return
        V = lambda f, p, x: it.read_arr(vout, [f, p, x])
        j, fj = index('j', 0, NP + 1)
        c0 = it.ctx.add(*(fx + fj))
        ob.equal('unused tone row is zero', V(ZERO, j, x), 0, c0)
        for f in range(0, nf + 1):
            ob.equal('unused harmonic column is zero (%d)' % f, V(con(f), ZERO, x), 0, c0)
        cur = current_of(it, nf, lambda f, p, x: it.read_arr(vout, [f, p, x]))
        E = err_of(nf, cur, V)
        c = it.ctx = it.ctx.add(*(fp + fx))
        rel = lambda f, p, x: app('abs', [E(con(f), p, x)]) * inv(app('abs', [V(con(f), p, x)]))
        said = [e for e in announced(it) if not verbose or ('NOT' in e[1].upper() and 'TARGET' in e[1].upper())]
        ks = [(f - 1) * NP + p - 1 for f in range(1, nf + 1)]
        if not said:
            for f in range(1, nf + 1):
                c1 = c.add(ne(V(con(f), p, x), 0), lt(TOL, rel(f, p, x)))
                c1 = c1.add(*S.instantiate(c1, [x] + ks))
                ob.fact('success is only claimed when tone %d meets the target' % f, c1.inconsistent(), brief(c1))
        if mode == 'm':
            m = v[1]
            if check_shape(ob, it, 'mask', m, [NPTS]):
                f = T.bl(it.read_arr(m, [x]))
                # marked => every signal meets the target at this point
                c1 = c.add(f)
                c1 = c1.add(*S.instantiate(c1, [x] + ks))
                for t in range(1, nf + 1):
                    c2 = c1.add(ne(V(con(t), p, x), 0), le(TOL, rel(t, p, x)))
                    ob.fact('marked points meet the target (tone %d)' % t, c2.inconsistent(), brief(c2))
        if mode == 'x':
            ob.fact('number of iterations is an integer', isinstance(v[1], Num) and v[1].ty == 'int', repr(v[1]))

    def step(it, rec):
        if prop == 'C07':
            frame(it)
        if prop == 'C06':
            newton(it, rec)

    def newton(it, rec):
        st = loop_state(ob, it, rec, nf)
        calls = getattr(it, 'inv_calls', [])
        if st is None or not ob.fact('one matrix is inverted per update', len(calls) == 1, str(len(calls))):
            return
        _, v0, v1 = st
        nm, shape, jac = calls[0]
        N = nf * NP
        ob.fact('one square matrix of twice the number of signals per bias point',
                len(shape) == 3 and all(it.ctx.entails(eq(a, b)) for a, b in zip(shape, [NPTS, 2 * N, 2 * N])), str(shape))
        p, fp = index('p', 1, NP + 1)
        q, fq = index('q', 0, N)
        x, fx = index('x', 0, NPTS)
        base = it.ctx
        c = it.ctx = base.add(*(fp + fq + fx))
        it.hparams = [v for v in q.fv]
        cur = current_of(it, nf, lambda f, h, x: v0((f - 1) * NP + h - 1, x))
        E0 = lambda f: vtl(con(f), p) - ZT0(con(f), p) * cur(con(f), p, x) - v0((f - 1) * NP + p - 1, x)
        for d, part in ((DVV, 're'), (DVV * T.IU, 'im')):
            vs = lambda f, h, x, d=d: v0((f - 1) * NP + h - 1, x) + d * T.iv(eq((f - 1) * NP + h - 1, q))
            cd = current_of(it, nf, vs)
            for f in range(1, nf + 1):
                k = (f - 1) * NP + p - 1
                Ed = vtl(con(f), p) - ZT0(con(f), p) * cd(con(f), p, x) - vs(con(f), p, x)
                D = (Ed - E0(f)) * inv(DVV)
                col = 2 * q + (0 if part == 're' else 1)
                ob.equal('real error of tone %d by the %s part' % (f, part), jac([x, 2 * k, col]), T.re(D), c)
                ob.equal('imaginary error of tone %d by the %s part' % (f, part), jac([x, 2 * k + 1, col]), T.im(D), c)
        # update: v - damp * inverse . error
        c = it.ctx = base.add(*(fp + fx))
        J = lambda r, s: app(nm, [x, r, s], REAL)
        for f in range(1, nf + 1):
            k = (f - 1) * NP + p - 1
            def part(K, e):
                re_, im_ = T.re(e), T.im(e)
                return J(2 * k, 2 * K) * re_ + J(2 * k, 2 * K + 1) * im_ + T.IU * (J(2 * k + 1, 2 * K) * re_ + J(2 * k + 1, 2 * K + 1) * im_)
            # signal K is harmonic 1 + K mod P of tone 1 + K div P
            h = T.fresh('h')
            K = P(h)
            t = app('floor', [K * inv(NP)], INT) if nf > 1 else ZERO
            tot = T.mk_sum([h], And(le(0, K), lt(K, N)), part(K, vtl(1 + t, 1 + K - NP * t) - v0(K, x)))
            for g in range(1, nf + 1):
                h = T.fresh('h')
                K = P(h)
                H = K - (g - 1) * NP + 1
                tot = tot - T.mk_sum([h], And(le((g - 1) * NP, K), lt(K, g * NP)), part(K, ZT0(con(g), H) * cur(con(g), H, x)))
            ob.equal('update of tone %d is a damped Newton step' % f, v1(k, x), v0(k, x) - DAMP * tot, c)
    ob.run(setup, call, post, step=step)


for _p, _cases in (('C05', (('o', 0, False), ('o', 1, False), ('x', 0, False), ('m', 1, False), ('m', 0, True))),
                   ('C06', (('o', 0, False), ('o', 1, False))),
                   ('C07', (('o', 0, False), ('m', 1, True)))):
    unit(_p, 'solver', [HB + 'harmonic_balance'], 200,
         [(_p, nf, m, g, vb) for nf in (1, 2, 3, 4) for m, g, vb in _cases])(solve_unit)
