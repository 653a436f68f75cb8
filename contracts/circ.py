"""Contracts of qmix.circuit (embedding circuit)."""
from .base import *

CC = 'qmix.circuit.EmbeddingCircuit'
NF, NPP, NPTS = ints('num_f', 'num_p', 'npts')
FI, PI_ = ints('f', 'p')
VGAP, RN, FGAP = pos('vgap'), pos('rn'), pos('fgap')
H, E = Fraction('6.62607015e-34'), Fraction('1.602176634e-19')


def base_facts():
    return [le(1, NF), le(NF, 4), le(1, NPP), le(1, NPTS), le(1, FI), le(FI, NF), le(1, PI_), le(PI_, NPP)]


def circuit(it, **kw):
    """an embedding circuit satisfying its class invariant"""
    at = dict(num_f=Num(NF), num_p=Num(NPP), num_n=Num(NF * NPP), vb_npts=Num(NPTS), vgap=Num(VGAP, 'float'), rn=Num(RN, 'float'),
              fgap=Num(FGAP, 'float'), igap=Num(VGAP * inv(RN), 'float'), name='',
              freq=fun_arr(it, 'freq', [NF + 1]), vt=fun_arr(it, 'vt', [NF + 1, NPP + 1], 'complex'),
              zt=fun_arr(it, 'zt', [NF + 1, NPP + 1], 'complex'), vb=fun_arr(it, 'vb', [NPTS]))
    at.update(kw)
    return instance(it, CC, **at)


def unchanged(ob, it, c, before, but=()):
    """frame condition: every attribute of the circuit but the listed ones is the object it was"""
    bad = [k for k in before if k not in but and c.content.get(k) is not before[k]]
    new = [k for k in c.content if k not in before]
    ob.fact('no other attribute is replaced or added', not bad and not new, '%s %s' % (bad, new))


VT0 = lambda f, p: app('vt', [f, p], CPLX)
ZT0 = lambda f, p: app('zt', [f, p], CPLX)
UNITS_W = {'W': 1, 'mW': Fraction(1, 10**3), 'uW': Fraction(1, 10**6), 'nW': Fraction(1, 10**9), 'pW': Fraction(1, 10**12), 'fW': Fraction(1, 10**15)}
PU = list(UNITS_W) + ['dBm', 'dBW']


def to_watt(x, u):
    if u in UNITS_W:
        return x * con(UNITS_W[u])
    return app('pow10', [x * con(Fraction(1, 10))]) * con(Fraction(1, 1000) if u == 'dBm' else 1)


def from_watt(w, u):
    if u in UNITS_W:
        return w * con(1 / Fraction(UNITS_W[u]))
    return 10 * app('log10', [w * con(1000 if u == 'dBm' else 1)])


def vt_frame(ob, it, c, val):
    """vt[f,p] is val, every other element is unchanged"""
    i, fi = index('i', 0, NF + 1)
    j, fj = index('j', 0, NPP + 1)
    vt = c.content['vt']
    if not check_shape(ob, it, 'vt', vt, [NF + 1, NPP + 1]):
        return
    ob.equal('source voltage of the signal', it.read_arr(vt, [FI, PI_]), val, it.ctx)
    ob.equal('other source voltages', it.read_arr(vt, [i, j]), VT0(i, j), it.ctx.add(*(fi + fj + [Or(ne(i, FI), ne(j, PI_))])))


def quiet_writes(ob, it, allowed):
    no_input_writes(ob, it, allowed)
    ob.fact('nothing is written to global state', not [e for e in it.events if e[0] == 'global'], str(it.events)[:300])


def set_power(ob, u, case):
    PW = pos('power') if u in UNITS_W else real('power')

    def setup(it):
        return base_facts() + [lt(0, re(ZT0(FI, PI_)))]

    def call(it):
        c = it.c = circuit(it)
        it.before = dict(c.content)
        return it.call(it.getattr(c, 'set_available_power'), [Num(PW, 'float'), Num(FI), Num(PI_)], {'units': u.upper() if case else u})

    def post(it, kind, v):
        if not ob.no_raise(it, kind, v):
            return
        quiet_writes(ob, it, ['vt'])
        unchanged(ob, it, it.c, it.before)
        vt_frame(ob, it, it.c, app('sqrt', [8 * to_watt(PW, u) * re(ZT0(FI, PI_)) * RN]) * inv(VGAP))
    ob.run(setup, call, post)


def get_power(ob, u, case):
    """reading the power of any signal (units given as in the interface or in another case)"""
    def setup(it):
        return base_facts() + [Or(ne(re(ZT0(FI, PI_)), 0), Const(u in UNITS_W)), Or(ne(VT0(FI, PI_), 0), Const(u in UNITS_W))]

    def call(it):
        it.c = circuit(it)
        it.before = dict(it.c.content)
        return it.call(it.getattr(it.c, 'available_power'), [Num(FI), Num(PI_)], {'units': u.lower() if case else u})

    def post(it, kind, v):
        if not ob.no_raise(it, kind, v):
            return
        quiet_writes(ob, it, [])
        unchanged(ob, it, it.c, it.before)
        r = re(ZT0(FI, PI_)) * RN
        w = app('abs', [VT0(FI, PI_) * VGAP]) ** 2 * inv(r) * con(Fraction(1, 8))
        z = eq(re(ZT0(FI, PI_)), 0)
        got = it.num(v).p
        c1 = it.ctx.add(Not(z))
        if not c1.inconsistent():
            ob.equal('power read back', got, from_watt(w, u), c1)
        c0 = it.ctx.add(z)
        if u in UNITS_W and not c0.inconsistent():
            ob.equal('no power without source resistance', got, 0, c0)
    ob.run(setup, call, post)


def round_trip(ob, u1):
    PW = pos('power') if u1 in UNITS_W else real('power')
    for u2 in PU:
        def setup(it):
            return base_facts() + [lt(0, re(ZT0(FI, PI_)))]

        def call(it):
            c = circuit(it)
            it.call(it.getattr(c, 'set_available_power'), [Num(PW, 'float'), Num(FI), Num(PI_), u1], {})
            return it.call(it.getattr(c, 'available_power'), [Num(FI), Num(PI_), u2], {})

        def post(it, kind, v):
            if ob.no_raise(it, kind, v):
                ob.equal('set in %s, read in %s' % (u1, u2), it.num(v).p, from_watt(to_watt(PW, u1), u2), it.ctx)
        ob.run(setup, call, post)


def power_refused(ob, meth, why):
    def setup(it):
        return base_facts() + ([] if why == 'impedance' else [lt(0, re(ZT0(FI, PI_)))]) + ([eq(ZT0(FI, PI_), 0)] if why == 'impedance' else [])

    def call(it):
        c = circuit(it, **({'vgap': None} if why == 'vgap' else {'rn': None} if why == 'rn' else {}))
        it.before = dict(c.content)
        it.c = c
        a = [Num(pos('power'), 'float')] if meth[0] == 's' else []
        return it.call(it.getattr(c, meth), a + [Num(FI), Num(PI_)], {'units': 'parsec' if why == 'units' else 'W'})

    def post(it, kind, v):
        ob.fact('refused with %s' % ('ValueError' if why == 'units' else 'AssertionError'),
                kind == 'raise' and v.exc == ('ValueError' if why == 'units' else 'AssertionError'), '%s %s' % (kind, v))
        quiet_writes(ob, it, [])
    ob.run(setup, call, post)


FS, FG = [CC + '.set_available_power'], [CC + '.available_power']
unit('C08', 'set power', FS, 100, [(u, c) for u in PU for c in (0, 1)])(set_power)
unit('C08', 'read power', FG, 100, [(u, c) for u in PU for c in (0, 1)])(get_power)
unit('C08', 'round trip', FS + FG, 100, PU)(round_trip)
unit('C08', 'refused', FS + FG, 60, [('set_available_power', w) for w in ('vgap', 'rn', 'units', 'impedance')] +
     [('available_power', w) for w in ('vgap', 'rn', 'units')])(power_refused)


# ------------------------------------------------------------- construction
def is_none(v):
    return v is None


def num_is(ob, it, name, v, p):
    if ob.fact(name + ' is a number', isinstance(v, Num), repr(v)):
        ob.equal(name, v.p, p, it.ctx)


def construct(ob, nf, hv, hf, hr):
    B0, B1 = real('vb_min'), real('vb_max')

    def setup(it):
        return [le(1, NPP), le(1, NPTS), le(B0, B1)]

    def call(it):
        kw = dict(vb_min=Num(B0, 'float'), vb_max=Num(B1, 'float'), vb_npts=Num(NPTS))
        if hv:
            kw['vgap'] = Num(VGAP, 'float')
        if hf:
            kw['fgap'] = Num(FGAP, 'float')
        if hr:
            kw['rn'] = Num(RN, 'float')
        return it.call(it.mod_attr('qmix.circuit', 'EmbeddingCircuit'), [Num(con(nf)), Num(NPP)], kw)

    def post(it, kind, c):
        if not ob.no_raise(it, kind, c):
            return
        g = c.content.get
        num_is(ob, it, 'number of tones', g('num_f'), con(nf))
        num_is(ob, it, 'number of harmonics', g('num_p'), NPP)
        num_is(ob, it, 'number of signals', g('num_n'), nf * NPP)
        num_is(ob, it, 'number of bias points', g('vb_npts'), NPTS)
        i, fi = index('i', 0, con(nf + 1))
        j, fj = index('j', 0, NPP + 1)
        k, fk = index('k', 0, NPTS)
        for nm, sh, dt, ix in (('freq', [con(nf + 1)], 'float', [i]), ('vt', [con(nf + 1), NPP + 1], 'complex', [i, j]),
                               ('zt', [con(nf + 1), NPP + 1], 'complex', [i, j])):
            if check_shape(ob, it, nm, g(nm), sh):
                ob.fact(nm + ' data type', g(nm).dtype == dt, g(nm).dtype)
                ob.equal(nm + ' is zero', it.read_arr(g(nm), ix), 0, it.ctx.add(*(fi + fj)))
                ob.fact(nm + ' is writeable', g(nm).buf.writeable is not False, '')
        bufs = [g(n).buf for n in ('freq', 'vt', 'zt', 'vb') if isinstance(g(n), Arr)]
        ob.fact('the arrays are distinct', len(set(map(id, bufs))) == 4, '')
        if check_shape(ob, it, 'bias voltage', g('vb'), [NPTS]):
            ob.equal('first bias point', it.read_arr(g('vb'), [ZERO]), B0, it.ctx)
            c2 = it.ctx.add(le(2, NPTS), *fk)
            ob.equal('bias point', it.read_arr(g('vb'), [k]), B0 + k * (B1 - B0) * inv(NPTS - 1), c2)
        vg = VGAP if hv else (FGAP * con(H / E) if hf else None)
        fg = FGAP if hf else (VGAP * con(E / H) if hv else None)
        for nm, v in (('vgap', vg), ('fgap', fg), ('rn', RN if hr else None), ('igap', vg * inv(RN) if vg is not None and hr else None)):
            if v is None:
                ob.fact(nm + ' stays undefined', is_none(g(nm)), repr(g(nm)))
            else:
                num_is(ob, it, nm, g(nm), v)
    ob.run(setup, call, post)


def construct_refused(ob, why):
    X = sym('X', INT)

    def setup(it):
        base = {'num_f': Or(le(X, 0), le(5, X)), 'num_p': le(X, 0), 'vb_npts': le(X, 0), 'range': lt(real('vb_max'), real('vb_min')),
                'num_p type': TRUE, 'vb_npts type': TRUE}
        return [base[why], le(1, NPTS), le(1, NPP)]

    def call(it):
        kw = dict(vb_min=Num(real('vb_min'), 'float'), vb_max=Num(real('vb_max'), 'float'), vb_npts=Num(NPTS))
        if why != 'range':
            kw['vb_min'] = Num(ZERO)
            kw['vb_max'] = Num(ONE)
        a = [Num(ONE), Num(ONE)]
        if why == 'num_f':
            a[0] = Num(X)
        elif why == 'num_p':
            a[1] = Num(X)
        elif why == 'num_p type':
            a[1] = Num(real('Y'), 'float')
        elif why == 'vb_npts type':
            kw['vb_npts'] = Num(real('Y'), 'float')
        elif why == 'vb_npts':
            kw['vb_npts'] = Num(X)
        return it.call(it.mod_attr('qmix.circuit', 'EmbeddingCircuit'), a, kw)

    def post(it, kind, v):
        ob.fact('refused with AssertionError', kind == 'raise' and v.exc == 'AssertionError', '%s %s' % (kind, v))
    ob.run(setup, call, post)


FU_ = {'Hz': 1, 'MHz': 10**6, 'GHz': 10**9, 'THz': 10**12}


def freq_frame(ob, it, c, val):
    i, fi = index('i', 0, NF + 1)
    fr = c.content['freq']
    if not check_shape(ob, it, 'freq', fr, [NF + 1]):
        return
    ob.equal('frequency of the tone', it.read_arr(fr, [FI]), val, it.ctx)
    ob.equal('other frequencies', it.read_arr(fr, [i]), app('freq', [i], REAL), it.ctx.add(*(fi + [ne(i, FI)])))


def set_freq(ob, u, case, known):
    VAL = real('value')

    def setup(it):
        return base_facts()

    def call(it):
        c = it.c = circuit(it, **({} if known else {'fgap': None, 'vgap': None, 'igap': None}))
        it.before = dict(c.content)
        return it.call(it.getattr(c, 'set_freq'), [Num(VAL, 'float')], {'f': Num(FI), 'units': u.upper() if case else u})

    def post(it, kind, v):
        if not known and u != 'norm':
            ob.fact('refused without gap frequency', kind == 'raise' and v.exc == 'AssertionError', '%s %s' % (kind, v))
            quiet_writes(ob, it, [])
            return
        if not ob.no_raise(it, kind, v):
            return
        quiet_writes(ob, it, ['freq'])
        unchanged(ob, it, it.c, it.before)
        if u in FU_:
            val = VAL * FU_[u] * inv(FGAP)
        else:
            val = {'V': VAL * inv(VGAP), 'mV': VAL * con(Fraction(1, 1000)) * inv(VGAP), 'norm': VAL}[u]
        freq_frame(ob, it, it.c, val)
    ob.run(setup, call, post)


def set_freq_unit_refused(ob):
    def call(it):
        c = it.c = circuit(it)
        return it.call(it.getattr(c, 'set_freq'), [Num(real('value'), 'float'), Num(FI), 'parsec'], {})

    def post(it, kind, v):
        ob.fact('refused with ValueError', kind == 'raise' and v.exc == 'ValueError', '%s %s' % (kind, v))
        quiet_writes(ob, it, [])
    ob.run(lambda it: base_facts(), call, post)


def set_alpha(ob):
    AL, ZJ = real('alpha'), pos('zj')

    def setup(it):
        return base_facts() + [ne(ZT0(FI, PI_), 0), ne(app('freq', [FI], REAL), 0)]

    def call(it):
        c = it.c = circuit(it)
        it.before = dict(c.content)
        return it.call(it.getattr(c, 'set_alpha'), [Num(AL, 'float'), Num(FI), Num(PI_), Num(ZJ, 'float')], {})

    def post(it, kind, v):
        if not ob.no_raise(it, kind, v):
            return
        quiet_writes(ob, it, ['vt'])
        unchanged(ob, it, it.c, it.before)
        # the voltage divider with the assumed junction impedance gives alpha times the photon voltage of the harmonic
        vt_frame(ob, it, it.c, AL * app('freq', [FI], REAL) * PI_ * (ZT0(FI, PI_) + ZJ) * inv(ZJ))
    ob.run(setup, call, post)


def set_alpha_refused(ob, why):
    def setup(it):
        return base_facts() + [eq(ZT0(FI, PI_), 0) if why == 'impedance' else eq(app('freq', [FI], REAL), 0)] + \
            ([ne(ZT0(FI, PI_), 0)] if why != 'impedance' else [])

    def call(it):
        c = it.c = circuit(it)
        return it.call(it.getattr(c, 'set_alpha'), [Num(real('alpha'), 'float'), Num(FI), Num(PI_)], {})

    def post(it, kind, v):
        ob.fact('refused with AssertionError', kind == 'raise' and v.exc == 'AssertionError', '%s %s' % (kind, v))
        quiet_writes(ob, it, [])
    ob.run(setup, call, post)


ARRS = ('freq', 'vt', 'zt', 'vb')


def lock(ob, meth):
    def call(it):
        c = it.c = circuit(it)
        it.before = dict(c.content)
        if meth != 'lock':
            for n in ARRS:
                it.call(it.getattr(it.getattr(c.content[n], 'flags'), '__setattr__'), ['writeable', False], {}) if False else setattr(c.content[n].buf, 'writeable', False)
        return it.call(it.getattr(c, meth), [], {})

    def post(it, kind, v):
        if not ob.no_raise(it, kind, v):
            return
        unchanged(ob, it, it.c, it.before)
        for n in ARRS:
            w = it.c.content[n].buf.writeable is not False
            ob.fact('%s is %s' % (n, 'read-only' if meth == 'lock' else 'writeable'), w == (meth != 'lock'), str(w))
    ob.run(lambda it: base_facts(), call, post)


def lock_blocks(ob):
    """writing an element of a locked array raises"""
    def call(it):
        c = it.c = circuit(it)
        it.call(it.getattr(c, 'lock'), [], {})
        return it.call(it.getattr(c, 'set_freq'), [Num(real('value'), 'float'), Num(FI), 'norm'], {})

    def post(it, kind, v):
        ob.fact('writing to a locked circuit raises', kind == 'raise' and v.exc == 'ValueError', '%s %s' % (kind, v))
        quiet_writes(ob, it, [])
    ob.run(lambda it: base_facts(), call, post)


def init_vj(ob):
    def call(it):
        c = it.c = circuit(it)
        return it.call(it.getattr(c, 'initialize_vj'), [], {})

    def post(it, kind, v):
        if ob.no_raise(it, kind, v) and check_shape(ob, it, 'junction voltage', v, [NF + 1, NPP + 1, NPTS]):
            ob.fact('complex', v.dtype == 'complex', v.dtype)
            i, fi = index('i', 0, NF + 1)
            j, fj = index('j', 0, NPP + 1)
            k, fk = index('k', 0, NPTS)
            ob.equal('zero', it.read_arr(v, [i, j, k]), 0, it.ctx.add(*(fi + fj + fk)))
    ob.run(lambda it: base_facts(), call, post)


def vph(ob):
    def call(it):
        c = it.c = circuit(it)
        return it.getattr(c, 'vph')

    def post(it, kind, v):
        if ob.no_raise(it, kind, v) and check_shape(ob, it, 'photon voltage', v, [NF + 1]):
            i, fi = index('i', 0, NF + 1)
            ob.equal('photon voltage equals the frequency', it.read_arr(v, [i]), app('freq', [i], REAL), it.ctx.add(*fi))
    ob.run(lambda it: base_facts(), call, post)


unit('C09', 'construction', [CC + '.__init__'], 100, [(nf, hv, hf, hr) for nf in (1, 2, 3, 4) for hv in (0, 1) for hf in (0, 1) for hr in (0, 1)])(construct)
unit('C09', 'construction refused', [CC + '.__init__'], 60, ['num_f', 'num_p', 'vb_npts', 'range', 'num_p type', 'vb_npts type'])(construct_refused)
unit('C09', 'set frequency', [CC + '.set_freq'], 60, [(u, c, k) for u in list(FU_) + ['V', 'mV', 'norm'] for c in (0, 1) for k in (1, 0)])(set_freq)
unit('C09', 'set frequency: unknown unit', [CC + '.set_freq'], 60)(set_freq_unit_refused)
unit('C09', 'set drive level', [CC + '.set_alpha'], 60)(set_alpha)
unit('C09', 'set drive level refused', [CC + '.set_alpha'], 60, ['impedance', 'frequency'])(set_alpha_refused)
unit('C09', 'lock', [CC + '.lock', CC + '.unlock'], 60, ['lock', 'unlock'])(lock)
unit('C09', 'locked circuit cannot be written', [CC + '.lock', CC + '.set_freq'], 60)(lock_blocks)
unit('C09', 'junction voltage array', [CC + '.initialize_vj'], 60)(init_vj)
unit('C09', 'photon voltage', [CC + '.vph'], 60)(vph)
