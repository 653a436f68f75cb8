"""Contracts of the experimental data objects in qmix.exp.exp_data (C23)."""
from .base import *
from .ivdata import Token
from .ifcal import FIELDS
from .yfactor import params
from qv import npmodel as N

E = 'qmix.exp.exp_data.'
R = 'qmix.respfn.RespFnFromIVData'
CLS = ('vgap', 'igap', 'fgap', 'rn', 'rsg', 'vint')


def named(f, args, kw):
    names = [x.arg for x in f.node.args.args]
    d = dict(zip(names, args))
    d.update(kw)
    return d


def metadata(it):
    """result of the DC import: the fields are arbitrary numbers"""
    it.n = sym('n', INT)
    val = {k: Num(pos(k), 'float') for k in ('vgap', 'igap', 'fgap', 'rn', 'rsg')}
    val['vint'] = Num(real('vint'), 'float')
    val['offset'] = (Num(real('voff'), 'float'), Num(real('ioff'), 'float'))
    it.meta = it.call(it.mod_attr('qmix.exp.iv_data', 'DCIVData'), [val.get(f) for f in FIELDS], {})
    return it.meta


def calibration(it, nm):
    fields = ('if_noise', 'corr', 'if_fit', 'shot_slope')
    o = it.new(Obj(ClassV('DCIFData', [], None, None)))
    it.cal = {f: Token('%s of %s' % (f, nm)) for f in fields}
    it.cal['corr'] = Num(real('corr'), 'float')
    o.content.update(it.cal)
    return o


def stubs(it):
    it.seen = []

    def dciv(i, f, args, kw):
        d = named(f, args, kw)
        i.seen.append(('dciv', d))
        return (fun_arr(i, 'vn', [i.n], origin=False), fun_arr(i, 'cn', [i.n], origin=False), i.meta)

    def resp(i, f, args, kw):
        d = named(f, args, kw)
        i.seen.append(('resp', d))
        o = d['self']
        for k in ('voltage', 'current'):
            o.content[k] = d[k]
        return None

    def dcif(i, f, args, kw):
        i.seen.append(('dcif', named(f, args, kw)))
        i.dcif = calibration(i, 'DC IF')
        i.ifd = fun_arr(i, 'ifd', [sym('m', INT), con(2)], origin=False)
        return (i.ifd, i.dcif)

    def iv(i, f, args, kw):
        i.seen.append(('iv', named(f, args, kw)))
        return (fun_arr(i, 'pv', [i.n], origin=False), fun_arr(i, 'pc', [i.n], origin=False))

    def span(i, f, args, kw):
        a = positional(i, f, args, kw)
        i.seen.append(('span', dict(x=a[0], y=a[1], n=a[2])))
        i.rd = i.arr([a[0].shape[0]], 'float', lambda idx: app('rd', [idx[0]], REAL))
        return i.rd

    def recover(i, f, args, kw):
        i.seen.append(('recover', dict(self=args[0], has=set(args[0].content))))
        return None

    def ifdata(i, f, args, kw):
        i.seen.append(('if', named(f, args, kw)))
        i.dcif = calibration(i, 'IF')
        i.best = sym('best', INT)
        i.res = fun_arr(i, 'res', [sym('m', INT), con(5)], origin=False)
        return (i.res, Num(i.best, 'int'), i.dcif)
    it.contracts['qmix.exp.iv_data.dciv_curve'] = dciv
    it.contracts['qmix.exp.iv_data.iv_curve'] = iv
    it.contracts['qmix.exp.if_data.dcif_data'] = dcif
    it.contracts['qmix.exp.if_data.if_data'] = ifdata
    it.contracts[R + '.__init__'] = resp
    it.contracts['qmix.mathfn.misc.slope_span_n'] = span
    it.contracts[E + 'PumpedData._recover_zemb'] = recover


def options(it, how, given):
    """(arguments of the caller, value of every parameter)"""
    p = params(it)
    kw = {} if how == 'defaults' else dict(given)
    val = dict(p.content)
    it.defaults = dict(val)
    val.update(kw)
    return kw, val


def once(ob, it, what):
    l = [d for k, d in it.seen if k == what]
    ob.fact('%s is used once' % what, len(l) == 1, str(len(l)))
    return l[0] if len(l) == 1 else None


def same_options(ob, it, what, got, val, but=()):
    for k in val:
        if k not in but:
            ob.fact('parameter %s reaches %s' % (k, what), k in got and (got[k] is val[k] or got[k] == val[k] or alike(it, got[k], val[k])), '%r for %r' % (got.get(k), val[k]))


def alike(it, a, b):
    if isinstance(a, Num) and isinstance(b, Num):
        return a.p is b.p
    if isinstance(a, (tuple, VList)) and isinstance(b, (tuple, VList)):
        x, y = [v.content if isinstance(v, VList) else v for v in (a, b)]
        return len(x) == len(y) and all(p is q or p == q or alike(it, p, q) for p, q in zip(x, y))
    return False


def is_column(it, a, nm, n):
    return isinstance(a, Arr) and same_array(it, a, [n], lambda idx: app(nm, [idx[0]], REAL))


DC_OPT = {'v_smear': Num(pos('smear'), 'float'), 'vleak': Num(pos('vleak'), 'float'), 'area': Num(pos('area'), 'float'), 'comment': 'a junction', 'verbose': False,
          'v_fmt': 'V', 'npts': Num(sym('npts', INT), 'int'), 'vmax': Num(pos('vmax'), 'float')}


@unit('C23', 'DC data', [E + 'DCData.__init__'], 60, each=[(h, f) for h in ('options', 'defaults') for f in ('with IF data', 'without IF data')])
def dc_data(ob, how, iff):
    def setup(it):
        stubs(it)
        metadata(it)
        it.data = fun_arr(it, 'data', [sym('k', INT), con(2)])
        it.ifraw = fun_arr(it, 'ifraw', [sym('k2', INT), con(2)])
        it.kw, it.val = options(it, how, DC_OPT)
        it.kw0 = dict(it.kw)
        return [le(2, it.n), le(2, sym('m', INT))]

    def call(it):
        o = it.call(it.mod_attr('qmix.exp.exp_data', 'DCData'), [it.data] + ([it.ifraw] if iff == 'with IF data' else []), dict(it.kw))
        return o

    def post(it, k, o):
        if not ob.no_raise(it, k, o):
            return
        c = it.ctx
        g = lambda n: it.getattr(o, n)
        num = lambda n: it.num(g(n)).p
        d = once(ob, it, 'dciv')
        if d is not None:
            ob.fact('the DC data is imported', list(d.values())[0] is it.data)
            same_options(ob, it, 'the DC import', d, it.val)
        ob.fact('voltage', is_column(it, g('voltage'), 'vn', it.n))
        ob.fact('current', is_column(it, g('current'), 'cn', it.n))
        ob.fact('metadata', g('dc') is it.meta)
        for nm in CLS:
            ob.fact('%s is that of the import' % nm, same_num(it, g(nm), it.num(it.getattr(it.meta, nm)).p), repr(g(nm)))
        off = g('offset')
        ob.fact('offset is that of the import', isinstance(off, tuple) and len(off) == 2 and all(same_num(it, a, it.num(b).p) for a, b in zip(off, it.getattr(it.meta, 'offset'))))
        vgap, rn, rsg, igap = pos('vgap'), pos('rn'), pos('rsg'), pos('igap')
        area = it.num(it.val['area']).p
        ob.equal('quality factor', num('q') * rn, rsg, c)
        ob.equal('resistance-area product', num('rna'), rn * area / con(10) ** 12, c)
        ob.equal('critical current density', num('jc') * rn * area, vgap * con(10) ** 12, c.add(ne(area, 0)))
        vl = it.num(it.val['vleak']).p
        F = lambda nm: N.table(it, it.n, lambda j: app(nm, [j], REAL))
        ob.equal('leakage current', num('ileak'), app('interp', [vl / vgap, F('vn'), F('cn'), it.n], REAL) * igap, c)
        # response functions
        rs = {id(x['self']): x for kk, x in it.seen if kk == 'resp'}
        for nm, smear in (('resp', None), ('resp_smear', it.val['v_smear'])):
            x = rs.get(id(g(nm)))
            if not ob.fact('%s is a response function of measured data' % nm, x is not None):
                continue
            ob.fact('%s: curve of the import' % nm, is_column(it, x['voltage'], 'vn', it.n) and is_column(it, x['current'], 'cn', it.n))
            s = x.get('v_smear')
            ob.fact('%s: smearing' % nm, s is smear or alike(it, s, smear), repr(s))
        # IF data
        l = [x for kk, x in it.seen if kk == 'dcif']
        if iff == 'with IF data':
            x = once(ob, it, 'dcif')
            if x is not None:
                a = list(x.values())
                ob.fact('the IF data is calibrated with the DC import', a[0] is it.ifraw and a[1] is it.meta)
                same_options(ob, it, 'the IF import', x, it.val)
                ob.fact('IF data', g('if_data') is it.ifd or same_array(it, g('if_data'), it.ifd.shape, lambda idx: app('ifd', idx, REAL)))
                ob.fact('calibration', g('dcif') is it.dcif)
                for nm in ('if_noise', 'corr', 'shot_slope', 'if_fit'):
                    ob.fact('%s is that of the calibration' % nm, g(nm) is it.cal[nm], repr(g(nm)))
        else:
            ob.fact('no IF data', not l and all(g(nm) is None for nm in ('if_data', 'dcif', 'if_noise', 'corr', 'shot_slope', 'if_fit')))
        stored_options(ob, it, o)
        ob.fact('the default parameters are kept', params_kept(it))
        no_input_writes(ob, it)
    ob.run(setup, call, post)


def params_kept(it):
    p = dict(params(it).content)
    return not [e for e in it.events if e[0] == 'global'] and set(p) == set(it.defaults) and all(p[k] is v for k, v in it.defaults.items())


def stored_options(ob, it, o):
    d = it.getattr(o, 'kwargs')
    if ob.fact('parameters stored', isinstance(d, VDict), repr(d)[:300]):
        got = dict(d.content)
        ob.fact('no other parameters', set(got) == set(it.val))
        same_options(ob, it, 'the object', got, it.val)
        ob.fact('parameters are a copy', d is not params(it))


P_OPT = {'freq': Num(pos('freq'), 'float'), 'comment': 'pumped', 'verbose': False, 'analyze_iv': True, 'analyze_if': True, 'v_fmt': 'V', 'npts': Num(sym('npts', INT), 'int'),
         't_hot': Num(pos('thot'), 'float'), 'best_pt': 'Min Tn'}
SHAPES = ['all', 'no recovery', 'no IF analysis', 'no cold load', 'no hot load', 'no IF data', 'defaults']


@unit('C23', 'pumped data', [E + 'PumpedData.__init__'], 90, each=SHAPES)
def pumped_data(ob, case):
    def setup(it):
        N.NO_NAN[0] = True
        stubs(it)
        metadata(it)
        it.data = fun_arr(it, 'data', [sym('k', INT), con(2)])
        it.hot, it.cold = fun_arr(it, 'hot', [sym('k2', INT), con(2)]), fun_arr(it, 'cold', [sym('k2', INT), con(2)])
        cal = Token('DC IF calibration')
        it.cal0 = cal
        g = lambda n: it.getattr(it.meta, n)
        it.dc = instance(it, E + 'DCData', dc=it.meta, rn=g('rn'), vgap=g('vgap'), igap=g('igap'), fgap=g('fgap'), offset=g('offset'), vint=g('vint'), rsg=g('rsg'), dcif=cal,
                         voltage=fun_arr(it, 'vn', [it.n], origin=False), current=fun_arr(it, 'cn', [it.n], origin=False))
        it.before = dict(it.dc.content)
        opt = dict(P_OPT)
        if case == 'no recovery':
            opt['analyze_iv'] = False
        if case == 'no IF analysis':
            opt['analyze_if'] = False
        if case == 'defaults':
            opt = {'freq': P_OPT['freq'], 'verbose': False}
        it.kw, it.val = options(it, 'options', opt)
        return [le(22, it.n), le(2, sym('m', INT)), le(0, sym('best', INT)), lt(sym('best', INT), sym('m', INT)), le(1, sym('k', INT)), le(1, sym('k2', INT))]

    def call(it):
        a = {'no cold load': {'if_hot': it.hot}, 'no hot load': {'if_cold': it.cold}, 'no IF data': {}}.get(case, {'if_hot': it.hot, 'if_cold': it.cold})
        a.update(it.kw)
        return it.call(it.mod_attr('qmix.exp.exp_data', 'PumpedData'), [it.data, it.dc], a)

    def post(it, k, o):
        if not ob.no_raise(it, k, o):
            return
        c = it.ctx
        g = lambda n: it.getattr(o, n)
        num = lambda n: it.num(g(n)).p
        val = it.val
        d = once(ob, it, 'iv')
        if d is not None:
            a = list(d.values())
            ob.fact('the pumped data is imported with the DC import', a[0] is it.data and a[1] is it.meta)
            same_options(ob, it, 'the pumped import', d, val)
        ob.fact('voltage', is_column(it, g('voltage'), 'pv', it.n))
        ob.fact('current', is_column(it, g('current'), 'pc', it.n))
        for nm in CLS:
            if nm != 'rsg':
                ob.fact('%s is that of the DC data' % nm, same_num(it, g(nm), it.num(it.getattr(it.meta, nm)).p), repr(g(nm)))
        ob.fact('DC data', g('dciv') is it.dc and g('dc') is it.meta)
        ob.fact('DC curve', is_column(it, g('voltage_dc'), 'vn', it.n) and is_column(it, g('current_dc'), 'cn', it.n))
        ob.fact('offset is that of the DC data', g('offset') is it.getattr(it.meta, 'offset'))
        ob.equal('frequency', num('freq'), pos('freq'), c)
        ob.equal('photon voltage', num('vph') * pos('fgap'), pos('freq') * con(10) ** 9, c)
        s = once(ob, it, 'span')
        if s is not None:
            ob.fact('dynamic resistance: derivative of the voltage over 21 samples of the current', is_column(it, s['x'], 'pc', it.n) and is_column(it, s['y'], 'pv', it.n) and same_num(it, s['n'], 21))
            ob.fact('dynamic resistance stored', g('rdyn') is it.rd)
        rec = [x for kk, x in it.seen if kk == 'recover']
        if case == 'no recovery':
            ob.fact('no recovery', not rec and all(g(nm) is None for nm in ('zt', 'vt', 'fit_good', 'zw', 'alpha')))
        elif ob.fact('the impedance is recovered once', len(rec) == 1):
            ob.fact('recovery works on this data', rec[0]['self'] is o and {'voltage', 'current', 'vph', 'freq', 'fgap', 'dciv', 'kwargs', 'vgap', 'rn'} <= rec[0]['has'])
        l = [x for kk, x in it.seen if kk == 'if']
        if case in ('no IF analysis', 'no cold load', 'no hot load', 'no IF data'):
            ob.fact('no IF analysis', not l and all(g(nm) is None for nm in ('if_hot', 'if_cold', 'tn', 'gain', 'idx_best', 'if_noise', 'shot_slope', 'tn_best', 'g_db')))
        else:
            if_part(ob, it, o, g, num, c)
        stored_options(ob, it, o)
        ob.fact('the default parameters are kept', params_kept(it))
        ob.fact('the DC data is kept', all(it.dc.content.get(kk) is v for kk, v in it.before.items()) and set(it.dc.content) == set(it.before))
        no_input_writes(ob, it)

    def if_part(ob, it, o, g, num, c):
        x = once(ob, it, 'if')
        if x is None:
            return
        a = list(x.values())
        ob.fact('hot and cold data are analysed with the DC import', a[0] is it.hot and a[1] is it.cold and a[2] is it.meta)
        ob.fact('the calibration of the DC data is reused', x.get('dcif') is it.cal0, repr(x.get('dcif')))
        same_options(ob, it, 'the IF analysis', x, it.val)
        m, b = sym('m', INT), sym('best', INT)
        res = lambda i, j: app('res', [i, con(j)], REAL)
        i, f = index('i', 0, m)
        cc = c.add(*f)
        for nm, cols in (('if_hot', (0, 1)), ('if_cold', (0, 2))):
            if check_shape(ob, it, nm, g(nm), [m, con(2)]):
                for q, j in enumerate(cols):
                    ob.equal('%s column %d' % (nm, q), at(it, g(nm), i, q), res(i, j), cc)
        for nm, j in (('tn', 3), ('gain', 4)):
            if check_shape(ob, it, nm, g(nm), [m]):
                ob.equal(nm, at(it, g(nm), i), res(i, j), cc)
        for nm, fld in (('if_noise',) * 2, ('corr',) * 2, ('shot_slope',) * 2, ('good_if_noise_fit', 'if_fit')):
            ob.fact('%s is that of the calibration' % nm, g(nm) is it.cal[fld], repr(g(nm)))
        ob.equal('index of the best point', num('idx_best'), b, c)
        ob.equal('best noise temperature', num('tn_best'), res(b, 3), c)
        ob.equal('best gain', num('gain_best'), res(b, 4), c)
        ob.equal('best gain in dB', num('g_db'), 10 * app('log10', [res(b, 4)]), c.add(lt(0, res(b, 4))))
        ob.equal('best bias', num('v_best'), res(b, 0), c)
        impedance(ob, it, num, res(b, 0), c)

    def impedance(ob, it, num, vb, c):
        """normal resistance over the slope of the line through the ten samples from the one nearest the best bias"""
        v, cur = (lambda j: app('pv', [j], REAL)), (lambda j: app('pc', [j], REAL))
        z = num('zj_if')
        for (fn, x, us, dom, body) in getattr(it, 'reds', []):
            if fn != 'argmin' or len(us) != 1:
                continue
            j, f = index('j', 0, it.n)
            bd = lambda t: subst(body, {us[0]: t})
            dist = lambda t: app('abs', [v(t) - vb])
            ob.true('no sample is nearer the best bias', le(dist(x), dist(j)), c.add(*f).add(le(bd(x), bd(j))))
            w = T.ite(le(x + 10, it.n), 10, it.n - x)
            for a in T.subterms_atoms(z, set()):
                if a.kind == 'app' and a.a[0] == 'lsqslope':
                    lx, ly, nn = a.a[1][:3]
                    jj, ff = index('jj', 0, nn)
                    ob.equal('samples of the slope', nn, w, c)
                    ob.equal('voltages of the slope', T.lam_apply(lx, [jj]), v(x + jj), c.add(*ff))
                    ob.equal('currents of the slope', T.lam_apply(ly, [jj]), cur(x + jj), c.add(*ff))
                    ob.equal('junction impedance', z * P(a), pos('rn'), c.add(ne(P(a), 0)))
                    return
        ob.fact('junction impedance from the slope at the best bias', False, str(z)[:400])
    ob.run(setup, call, post)


@unit('C23', 'refusals', [E + 'DCData.__init__', E + 'PumpedData.__init__'], 30, each=['DC list', 'DC file name', 'pumped list', 'pumped file name', 'no frequency', 'frequency None'])
def refusals(ob, case):
    def setup(it):
        stubs(it)
        metadata(it)
        it.data = fun_arr(it, 'data', [sym('k', INT), con(2)])
        return [le(22, it.n), le(1, sym('k', INT))]

    def call(it):
        bad = it.vlist([Num(ZERO), Num(ONE)]) if 'list' in case else 'file.csv'
        if case.startswith('DC'):
            return it.call(it.mod_attr('qmix.exp.exp_data', 'DCData'), [bad], {'verbose': False})
        g = lambda n: it.getattr(it.meta, n)
        dc = instance(it, E + 'DCData', dc=it.meta, rn=g('rn'), vgap=g('vgap'), igap=g('igap'), fgap=g('fgap'), rsg=g('rsg'), offset=g('offset'), vint=g('vint'), dcif=None, voltage=fun_arr(it, 'vn', [it.n]), current=fun_arr(it, 'cn', [it.n]))
        kw = {'verbose': False}
        if case.startswith('pumped'):
            kw['freq'] = Num(pos('freq'), 'float')
        elif case == 'frequency None':
            kw['freq'] = None
        return it.call(it.mod_attr('qmix.exp.exp_data', 'PumpedData'), [bad if case.startswith('pumped') else it.data, dc], kw)

    def post(it, k, r):
        ob.fact('%s: refused' % case, k == 'raise' and r.exc == 'ValueError', repr(r))
    ob.run(setup, call, post, raises_ok=lambda it, c, e, m: e == 'ValueError')
