"""Contracts of qmix.qtcurrent (multi-tone spectral-domain tunnelling currents)."""
from .base import *

Q = 'qmix.qtcurrent.'
NB = [sym('B%d' % i, INT) for i in range(0, 9)]      # NB[1..]
NP, NPTS = ints('num_p', 'npts')
FREQ = [None] + [pos('f%d' % i) for i in range(1, 5)]


def freq_arr(it, nf):
    a = const_arr(it, [ZERO] + FREQ[1:nf + 1])
    a.buf.origin = 'cct.freq'
    return a


def circuit(it, nf):
    """an embedding circuit satisfying its class invariant, as far as the current calculation reads it"""
    return instance(it, 'qmix.circuit.EmbeddingCircuit', num_f=Num(con(nf)), num_p=Num(NP), num_n=Num(nf * NP), vb_npts=Num(NPTS),
                    freq=freq_arr(it, nf), vb=fun_arr(it, 'vb', [NPTS]), name='',
                    vt=fun_arr(it, 'vt', [con(nf + 1), NP + 1], 'complex'), zt=fun_arr(it, 'zt', [con(nf + 1), NP + 1], 'complex'), **rig(it))


def rig(it):
    g = lambda n: Num(sym(n, REAL), 'float')
    return dict(vgap=g('vgap'), rn=g('rn'), fgap=g('fgap'), igap=g('igap'))


def response(name='resp'):
    """an arbitrary response function: complex valued function of the (real) voltage"""
    def f(it, a, k):
        v = a[0]
        if isinstance(v, Arr):
            s = it.snap(v)
            return it.arr(v.shape, 'complex', lambda idx: app(name, [s(idx)], CPLX))
        return Num(app(name, [it.num(v).p], CPLX), 'complex')
    return Builtin(name, f)


def base_facts(nf):
    return [le(1, NP), le(1, NPTS)] + [le(1, NB[i]) for i in range(1, nf + 1)]


# ------------------------------------------------------------------ spec
def coeff_spec(nf, orders, C, R):
    """I(a,b,...) of the multi-tone spectral domain analysis, for one bias point"""
    def S_(sgn):
        ks = [fresh('k') for _ in range(nf)]
        dom, body = [], R([P(k) for k in ks])
        for t in range(nf):
            k, b, a = P(ks[t]), NB[t + 1], scale(orders[t], sgn)
            dom += [le(-b, k), le(k, b), le(-b, k + a), le(k + a, b)]
            body = body * C(t + 1, k) * conj(C(t + 1, k + a))
        return mk_sum(ks, And(*dom), body)
    sp, sm = S_(1), S_(-1)
    zero = And(*[eq(o, 0) for o in orders])
    ac = (im(sp) + im(sm)) - IU * (re(sp) - re(sm))
    return ite(zero, im(sp), ac)


def current_spec(nf, fo, C, R):
    os_ = [fresh('a') for _ in range(nf)]
    dom = And(*[f for o in os_ for f in (le(-NP, P(o)), le(P(o), NP))])
    tot = psum([P(o) * FREQ[t + 1] for t, o in enumerate(os_)])
    hit = eq(app('rnd', [tot, con(4)]), app('rnd', [fo, con(4)]))
    return mk_sum(os_, And(dom, hit), coeff_spec(nf, [P(o) for o in os_], C, R))


# ------------------------------------------------------- callee contracts
def nb_value(nf, form):
    """the ways a caller may give the summation limits"""
    if form == 'int':
        return Num(NB[1])
    return tuple(Num(NB[i]) for i in range(1, nf + 1 + (1 if form == 'long' else 0)))


def nb_facts(nf, form):
    if form == 'int':
        return [eq(NB[i], NB[1]) for i in range(2, nf + 1)]
    return [le(1, NB[nf + 1])] if form == 'long' else []


def nb_ok(it, nb, nf, form):
    if form == 'int':
        return isinstance(nb, Num) and same_num(it, nb, NB[1])
    return isinstance(nb, tuple) and len(nb) >= nf and all(same_num(it, nb[i], NB[i + 1]) for i in range(nf))


M = sym('M', INT)       # number of phase factor coefficients kept on either side


def phase_contract(nf, form):
    """calculate_phase_factor_coeff applied to the caller's own arguments (the contract itself is verified in C02)"""
    def h(it, f, args, kw):
        a = positional(it, f, args, kw)
        if a is None or len(a) != 5:
            return NotImplemented
        vj, fr, nfv, npv, nb = a
        ok = (same_array(it, vj, [con(nf + 1), NP + 1, NPTS], lambda u: app('vj', u, CPLX)) and
              same_num(it, nfv, nf) and same_num(it, npv, NP) and isinstance(fr, Arr) and
              all(S.prove_zero(it.read_arr(fr, [con(i)]) - FREQ[i], it.ctx) for i in range(1, nf + 1)) and nb_ok(it, nb, nf, form))
        if not ok:
            return NotImplemented
        return it.arr([con(nf + 1), 2 * M + 1, NPTS], 'complex', lambda u: app('C', u, CPLX))
    return h


def same_circuit(it, c, nf):
    g = lambda n: c.content.get(n)
    return isinstance(c, Obj) and same_num(it, g('num_f'), nf) and isinstance(g('freq'), Arr) and isinstance(g('vb'), Arr) and \
        all(S.prove_zero(it.read_arr(g('freq'), [con(i)]) - FREQ[i], it.ctx) for i in range(1, nf + 1)) and \
        same_array(it, g('vb'), [NPTS], lambda u: app('vb', u, REAL))


def respm_contract(nf, form):
    """interpolate_respfn (verified in C03)"""
    def h(it, f, args, kw):
        a = positional(it, f, args, kw)
        if a is None or len(a) != 3 or not same_circuit(it, a[0], nf) or not isinstance(a[1], Builtin) or a[1].name != 'resp' \
                or not nb_ok(it, a[2], nf, form):
            return NotImplemented
        return it.arr([2 * NB[i] + 1 for i in range(1, nf + 1)] + [NPTS], 'complex', lambda u: app('R', u, CPLX))
    return h


def wR(name):
    """entry of the response matrix for the (possibly negative) harmonic indices ks"""
    return lambda ks, x: app(name, [app('wrap', [k, 2 * NB[t + 1] + 1]) for t, k in enumerate(ks)] + [x], CPLX)


def wC(x):
    return lambda t, k: app('C', [con(t), app('wrap', [k, 2 * M + 1]), x], CPLX)


# ------------------------------------------------------------------ units
def current_unit(ob, nf, form, mode, frame=None):
    """qtcurrent: mode list / scalar / dc (scalar 0) / matrix (response matrix supplied by the caller)"""
    L = sym('nlist', INT)
    FO = sym('fo', REAL)

    def setup(it):
        it.contracts[Q + 'calculate_phase_factor_coeff'] = phase_contract(nf, form)
        it.contracts[Q + 'interpolate_respfn'] = respm_contract(nf, form)
        facts = base_facts(nf) + nb_facts(nf, form) + [le(1, L)] + [le(NB[i], M) for i in range(1, nf + 1)]
        if mode == 'dc':
            facts.append(eq(app('rnd', [FO, con(4)]), 0))
        elif mode == 'scalar':
            facts.append(ne(app('rnd', [FO, con(4)]), 0))
        return facts

    def call(it):
        vj = fun_arr(it, 'vj', [con(nf + 1), NP + 1, NPTS], 'complex')
        if mode in ('list', 'matrix'):
            fl = fun_arr(it, 'fl', [L], 'float', kind='list')
        elif mode == 'array':
            fl = fun_arr(it, 'fl', [L], 'float')
        else:
            fl = Num(FO)
        args = [vj, circuit(it, nf), response(), fl, nb_value(nf, form), False]
        if mode == 'matrix':
            args.append(fun_arr(it, 'RM', [2 * NB[i] + 1 for i in range(1, nf + 1)] + [NPTS], 'complex'))
        return it.call(it.func(Q + 'qtcurrent'), args, {})

    def post(it, kind, v):
        if not ob.no_raise(it, kind, v):
            return
        no_input_writes(ob, it)
        if frame:
            return
        x, fx = index('x', 0, NPTS)
        r, fr = index('r', 0, L)
        ctx = it.ctx.add(*fx)
        Rn = 'RM' if mode == 'matrix' else 'R'
        Rm = wR(Rn)
        if mode in ('list', 'array', 'matrix'):
            if check_shape(ob, it, 'result', v, [L, NPTS]):
                ctx = ctx.add(*fr)
                ob.fact('result is complex', v.dtype == 'complex', v.dtype)
                ob.equal('current at every requested frequency and bias point', it.read_arr(v, [r, x]),
                         current_spec(nf, app('fl', [r], REAL), wC(x), lambda ks: Rm(ks, x)), ctx)
        else:
            if check_shape(ob, it, 'result', v, [NPTS]):
                sp = current_spec(nf, FO, wC(x), lambda ks: Rm(ks, x))
                if mode == 'dc':
                    ob.fact('dc result is real valued', v.dtype == 'float', v.dtype)
                    sp = re(sp)
                ob.equal('current at the requested frequency', it.read_arr(v, [x]), sp, ctx)
    ob.run(setup, call, post)


FU = ['qmix.qtcurrent.qtcurrent']
unit('C01', 'qtcurrent', FU, 150, [(nf, 'tuple', 'list') for nf in (1, 2, 3, 4)] + [(nf, 'int', 'list') for nf in (1, 2, 3, 4)])(current_unit)
MODES = [(nf, 'tuple', m) for nf in (1, 2, 3, 4) for m in ('array', 'scalar', 'dc', 'matrix')]
unit('C04', 'qtcurrent', FU, 150, [(nf, 'tuple', 'list') for nf in (1, 2, 3, 4)] + MODES)(current_unit)


# ------------------------------------------------ phase factor coefficients
def bessel_term(f, p, l, x, lim):
    """J_l(alpha_fp) exp(-i l phi_fp), zero beyond the summation limit of the tone"""
    v = app('vj', [f, p, x], CPLX)
    alpha = app('abs', [v]) * inv(p * freq_of(f))
    phi = app('angle', [v], REAL)
    n = app('abs', [l])
    sgn = ite(lt(l, 0), app('m1pow', [n]), ONE)
    return iv(And(le(-lim, l), le(l, lim))) * sgn * app('besselj', [n, alpha], REAL) * app('exp', [-IU * l * phi])


def freq_of(f):
    c = f.const()
    return FREQ[int(c)] if c is not None else psum([iv(eq(f, i)) * FREQ[i] for i in range(1, 5)])


def ck(q, f, k, x, Mx):
    """coefficient after convolving the first q harmonics (signed order k)"""
    return app('CK', [q, f, app('wrap', [k, 2 * Mx + 1]), x], CPLX)


def ck_step(q, f, k, x, Mx, lim):
    l = fresh('l')
    L = P(l)
    dom = And(le(-Mx, L), le(L, Mx), le(-Mx, k - q * L), le(k - q * L, Mx))
    return mk_sum([l], dom, ck(q - 1, f, k - q * L, x, Mx) * bessel_term(f, q, L, x, lim))


def ck_start(f, k, x, lim):
    return bessel_term(f, ONE, k, x, lim)


def conv_hint(ob, nf, Mx, lims):
    """loop invariant of the harmonic convolution: after harmonic q the array holds CK(q).  Established for the initial
    value and shown to be preserved by one arbitrary iteration; CK is the recursion stated in ck_start/ck_step."""
    def hint(it, name, ph, v0, v1, i, lo, hi, rev, dom):
        if rev or not isinstance(v0, Arr) or len(v0.shape) != 3 or len(v1.shape) != 3:
            return None
        I = P(i)
        x, fx = index('x', 0, NPTS)
        k, fk = index('k', -Mx, Mx + 1)
        q0 = I - lo + 1
        cell = app('wrap', [k, 2 * Mx + 1])

        def at_i(idx):
            return iv(le(1, idx[0])) * app('CK', [q0] + list(idx), CPLX)
        for t in range(0, nf + 1):
            c0 = it.ctx.add(*(fx + fk))
            a = it.read_arr(v0, [con(t), cell, x])
            ob.equal('convolution loop: %s initially (tone %d)' % (name, t), a,
                     ck_start(con(t), k, x, lims[t]) if t else ZERO, c0)
            c1 = it.ctx.add(*(fx + fk + [dom]))
            sc, it.ctx = it.ctx, c1
            b = it.hresolve(it.read_arr(v1, [con(t), cell, x]))
            it.ctx = sc
            b = T.map_apps(b, ph, lambda *ix: at_i(list(ix)))
            ob.equal('convolution loop: %s preserved (tone %d)' % (name, t), b,
                     ck_step(q0 + 1, con(t), k, x, Mx, lims[t]) if t else ZERO, c1)
        for d, e in zip(v1.shape, v0.shape):
            ob.equal('convolution loop: shape preserved', d, e, it.ctx.add(dom))
        qf = hi - lo + 1
        return at_i, it.arr(v0.shape, 'complex', lambda idx: iv(le(1, idx[0])) * app('CK', [qf] + list(idx), CPLX))
    return hint


def phase_unit(ob, nf, form, npv, frame=None):
    """calculate_phase_factor_coeff: npv '1' or 'many' harmonics"""
    def setup(it):
        facts = base_facts(nf) + nb_facts(nf, form)
        facts.append(eq(NP, 1) if npv == '1' else le(2, NP))
        # (which buffers are written does not depend on the values carried by the loop)
        it.hints.append(conv_hint(Ob('values') if frame else ob, nf, Mx, NB))
        return facts
    Mx = NB[1]
    if form != 'int':
        for t in range(2, (nf if form != 'long' else nf + 1) + 1):
            Mx = app('max', [Mx, NB[t]])

    def call(it):
        vj = fun_arr(it, 'vj', [con(nf + 1), NP + 1, NPTS], 'complex')
        return it.call(it.func(Q + 'calculate_phase_factor_coeff'), [vj, freq_arr(it, nf), Num(con(nf)), Num(NP), nb_value(nf, form)], {})

    def post(it, kind, v):
        if not ob.no_raise(it, kind, v):
            return
        no_input_writes(ob, it)
        if frame:
            return
        if not check_shape(ob, it, 'result', v, [con(nf + 1), 2 * Mx + 1, NPTS]):
            return
        x, fx = index('x', 0, NPTS)
        k, fk = index('k', -Mx, Mx + 1)
        for t in range(1, nf + 1):
            c = it.ctx.add(*(fx + fk))
            code = it.read_arr(v, [con(t), app('wrap', [k, 2 * Mx + 1]), x])
            if npv == '1':
                ob.equal('coefficient of tone %d' % t, code, bessel_term(con(t), ONE, k, x, NB[t]), c)
            else:
                ob.equal('coefficient of tone %d' % t, code, ck(NP, con(t), k, x, Mx), c)
    ob.run(setup, call, post)


FP = ['qmix.qtcurrent.calculate_phase_factor_coeff', 'qmix.qtcurrent._convolve_coefficients']
unit(('C02', 'C01'), 'phase factors', FP, 150, [(nf, fo, h) for nf in (1, 2, 3, 4) for fo in ('tuple', 'int', 'long') for h in ('1', 'many')])(phase_unit)


# ------------------------------------------------- interpolated response matrix
def respm_unit(ob, nf, form, frame=None):
    def setup(it):
        return base_facts(nf) + nb_facts(nf, form)

    def call(it):
        return it.call(it.func(Q + 'interpolate_respfn'), [circuit(it, nf), response(), nb_value(nf, form)], {})

    def post(it, kind, v):
        if not ob.no_raise(it, kind, v):
            return
        no_input_writes(ob, it)
        if frame:
            return
        if not check_shape(ob, it, 'result', v, [2 * NB[i] + 1 for i in range(1, nf + 1)] + [NPTS]):
            return
        x, fx = index('x', 0, NPTS)
        ks, facts = [], list(fx)
        for t in range(1, nf + 1):
            k, fk = index('k%d' % t, -NB[t], NB[t] + 1)
            ks.append(k)
            facts += fk
        code = it.read_arr(v, [app('wrap', [k, 2 * NB[t + 1] + 1]) for t, k in enumerate(ks)] + [x])
        spec = app('resp', [app('vb', [x], REAL) + psum([k * FREQ[t + 1] for t, k in enumerate(ks)])], CPLX)
        ob.equal('entry for every combination of orders', code, spec, it.ctx.add(*facts))
    ob.run(setup, call, post)


FR = ['qmix.qtcurrent.interpolate_respfn']
RU = unit(('C03', 'C01'), 'response matrix', FR, 150, [(nf, fo) for nf in (1, 2, 3, 4) for fo in ('tuple', 'int', 'long')])(respm_unit)


def respm_reject(ob):
    """circuits with an unsupported number of tones are refused"""
    nf = sym('nf', INT)

    def setup(it):
        return [Or(le(nf, 0), le(5, nf)), le(1, NPTS), le(1, NB[1])]

    def call(it):
        c = circuit(it, 1)
        c.content['num_f'] = Num(nf)
        return it.call(it.func(Q + 'interpolate_respfn'), [c, response(), Num(NB[1])], {})

    def post(it, kind, v):
        ob.fact('unsupported number of tones raises ValueError', kind == 'raise' and v.exc == 'ValueError', '%s %s' % (kind, v))
    ob.run(setup, call, post)




unit('C07', 'current: caller data', FU, 60, [(nf, 'tuple', m, 'frame') for nf in (1, 2, 3, 4) for m in ('list', 'array', 'matrix', 'scalar')])(current_unit)
unit('C07', 'phase factors: caller data', FP, 60, [(nf, 'tuple', h, 'frame') for nf in (1, 2, 3, 4) for h in ('1', 'many')])(phase_unit)
unit('C07', 'response matrix: caller data', FR, 60, [(nf, 'tuple', 'frame') for nf in (1, 2, 3, 4)])(respm_unit)
unit('C03', 'unsupported number of tones is refused', FR, 60)(respm_reject)
