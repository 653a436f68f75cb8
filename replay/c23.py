"""The experimental data objects: parameters exposed by DCData and PumpedData."""
import copy
import warnings
import numpy as np
from common import note, check, close, oracle
from qmix.exp import exp_data as X, iv_data as IV, if_data as IF
from qmix.exp.parameters import params
from qmix.mathfn.misc import slope_span_n
from qmix.respfn import RespFnFromIVData
import c16

ORACLES = []


def power(rng, vfmt, hot=0., base=2.):
    """IF power (K) against voltage with shot noise line above the gap"""
    v = np.sort(rng.uniform(-2e-4, 6.5e-3, 400))
    g = 8 * np.exp(-((v - 2.2e-3) / 3e-4) ** 2)
    return np.stack([v / c16.VU[vfmt], base + 5.8e3 * np.abs(v) * .6 + g * (1 + hot) + .01 * rng.rand(400)], 1)


def sweep(rng, k, kw, top=6.5e-3, step=0.):
    """a recorded curve of the junction of these settings"""
    vf, cf = kw['v_fmt'], kw['i_fmt']
    v = np.linspace(-top, top, int(rng.randint(2400, 3200)))
    i = c16.curve(v, 2.8e-3, RN, 15.) + step * (c16.curve(np.abs(v) + 1e-3, 2.8e-3, RN, 15.) - c16.curve(np.abs(v), 2.8e-3, RN, 15.)) * np.sign(v)
    m = np.vstack(((v + 2e-5) / c16.VU[vf], (i + 5e-7) / c16.IU[cf])).T
    if k % 3 == 1:
        m = m[::-1]
    if k % 3 == 2:
        m[rng.choice(m.shape[0], 7, replace=False), int(rng.randint(2))] = np.nan
    return m


RN = 14.


def setting(rng, k):
    vf, cf = c16.pick(rng, list(c16.VU)), c16.pick(rng, list(c16.IU))
    kw = dict(v_fmt=vf, i_fmt=cf, npts=int(rng.choice([2001, 3001])), ifdata_npts=int(rng.choice([301, 501])), verbose=False,
              filter_data=bool(k % 3), v_smear=float(rng.uniform(.005, .05)), vleak=float(rng.uniform(1e-3, 2.3e-3)), area=float(rng.uniform(.5, 3)),
              voffset=float(rng.uniform(-5e-5, 5e-5)), ioffset=float(rng.uniform(-1e-6, 1e-6)), comment='run %d' % k)
    if k % 4 == 1:
        kw['vgap'] = float(rng.uniform(2.5e-3, 3e-3))
    if k % 4 == 2:
        del kw['voffset'], kw['ioffset']
    if k % 2:
        kw['vshot'] = [[4e-3, 5.5e-3]]
    return vf, cf, kw


def full(kw):
    p = copy.deepcopy(params)
    p.update(kw)
    return p


def same(a, b, what):
    if a is None or b is None:
        check(a is b, '%s: %r, expected %r' % (what, a, b))
        return
    close(a, b, what, rtol=1e-9, atol=1e-12)


def direct(rng, k, vf, cf, kw):
    iv = sweep(rng, k, kw)
    pw = power(rng, vf, base=90. if k % 4 == 3 else 2.) if k % 3 else None
    note(k=k, iv=iv, dcif=pw, **kw)
    before = copy.deepcopy((iv, pw, kw, params))
    o = X.DCData(iv, pw, **kw) if k % 3 else X.DCData(iv, **kw)
    for a, b in zip(before, (iv, pw, kw, params)):
        check(repr(a) == repr(b) if not isinstance(a, np.ndarray) else np.array_equal(a, b, equal_nan=True), 'input or defaults modified')
    return iv, pw, o


def defaults_equal(o, kw):
    for q, x in full(kw).items():
        check(repr(o.kwargs[q]) == repr(x), 'parameter %s is %r, expected %r' % (q, o.kwargs[q], x))


@oracle(ORACLES, 14)
def dc_object(rng, k):
    vf, cf, kw = setting(rng, k)
    iv, pw, o = direct(rng, k, vf, cf, kw)
    defaults_equal(o, kw)
    check(o.comment == kw['comment'] and o.vleak == kw['vleak'], 'comment or vleak')
    v, i, m = IV.dciv_curve(iv, **full(kw))
    for q, a, b in (('voltage', o.voltage, v), ('current', o.current, i), ('vgap', o.vgap, m.vgap), ('igap', o.igap, m.igap), ('fgap', o.fgap, m.fgap), ('rn', o.rn, m.rn), ('rsg', o.rsg, m.rsg),
                    ('vint', o.vint, m.vint), ('offset', o.offset, m.offset), ('q', o.q, m.rsg / m.rn), ('rna', o.rna, m.rn * kw['area'] * 1e-12), ('jc', o.jc, m.vgap / (m.rn * kw['area'] * 1e-12)),
                    ('ileak', o.ileak, np.interp(kw['vleak'] / m.vgap, v, i) * m.igap), ('dc.vraw', o.dc.vraw, m.vraw)):
        same(a, b, q)
    x = np.linspace(-1.8, 1.8, 97)
    for r, s in ((o.resp, None), (o.resp_smear, kw['v_smear'])):
        ref = RespFnFromIVData(v, i, check_error=False, verbose=False, v_smear=s)
        for f in ('idc', 'ikk'):
            same(getattr(r, f)(x), getattr(ref, f)(x), '%s of the response function (smear %r)' % (f, s))
    if pw is None:
        check(o.dcif is None and o.if_data is None and o.if_noise is None, 'IF parameters without IF data')
        return
    w, d = IF.dcif_data(pw, m, **full(kw))
    for q, a, b in (('if_data', o.if_data, w), ('if_noise', o.if_noise, d.if_noise), ('corr', o.corr, d.corr), ('shot_slope', o.shot_slope, d.shot_slope)):
        same(a, b, q)
    check(bool(o.if_fit) == bool(d.if_fit) and o.dcif.corr == o.corr, 'IF fit')


@oracle(ORACLES, 14)
def pumped_object(rng, k):
    vf, cf, kw = setting(rng, k)
    _, pw, o = direct(rng, k, vf, cf, kw)
    kw = dict(kw, freq=float(rng.uniform(200, 400)), analyze_iv=False)
    iv = sweep(rng, k, kw, step=.3)
    hot, cold = (power(rng, vf, 1.), power(rng, vf)) if k % 4 else (None, None)
    if k % 5 == 3:
        kw['analyze_if'] = False
    if k % 7 == 2:
        cold = None
    if k % 7 == 6:
        hot = None
    if k % 3 == 1:
        kw['v_best'] = float(rng.uniform(1.5e-3, 2.5e-3))
    note(pumped=iv, hot=hot, cold=cold, **kw)
    before = [repr(x) for x in (kw, params)] + [x.copy() for x in (o.voltage, o.current, iv)]
    p = X.PumpedData(iv, o, hot, cold, **kw)
    now = [repr(x) for x in (kw, params)] + [x for x in (o.voltage, o.current, iv)]
    check(all(a == b if isinstance(a, str) else np.array_equal(a, b, equal_nan=True) for a, b in zip(before, now)), 'input or defaults modified')
    defaults_equal(p, kw)
    v, i = IV.iv_curve(iv, o.dc, **full(kw))
    for q, a, b in (('voltage', p.voltage, v), ('current', p.current, i), ('rdyn', p.rdyn, slope_span_n(i, v, 21)), ('vgap', p.vgap, o.vgap), ('igap', p.igap, o.igap), ('fgap', p.fgap, o.fgap), ('rn', p.rn, o.rn),
                    ('vint', p.vint, o.vint), ('offset', p.offset, o.offset), ('DC voltage', p.voltage_dc, o.voltage), ('DC current', p.current_dc, o.current), ('freq', p.freq, kw['freq']),
                    ('vph', p.vph, kw['freq'] * 1e9 / o.fgap)):
        same(a, b, q)
    check(p.zt is None and p.vt is None and p.alpha is None, 'impedance recovery was not asked for')
    if hot is None or cold is None or kw.get('analyze_if') is False:
        check(p.if_hot is None and p.tn is None and p.gain is None and p.idx_best is None, 'IF results without IF analysis')
        return
    r, best, d = IF.if_data(hot, cold, o.dc, dcif=o.dcif, **full(kw))
    for q, a, b in (('best index', p.idx_best, best), ('hot', p.if_hot, r[:, :2]), ('cold', p.if_cold, r[:, [0, 2]]), ('tn', p.tn, r[:, 3]), ('gain', p.gain, r[:, 4]), ('if_noise', p.if_noise, d.if_noise),
                    ('corr', p.corr, d.corr), ('shot_slope', p.shot_slope, d.shot_slope), ('best tn', p.tn_best, r[best, 3]), ('best gain', p.gain_best, r[best, 4]),
                    ('best gain in dB', p.g_db, 10 * np.log10(r[best, 4])), ('best bias', p.v_best, r[best, 0])):
        same(a, b, q)
    if o.dcif is not None:
        check(p.corr == o.corr, 'the calibration of the DC data is not reused')
    check(bool(p.good_if_noise_fit) == bool(d.if_fit), 'IF fit flag')
    near = np.abs(v - r[best, 0])
    ok = []
    for j in np.flatnonzero(near <= near.min() + 1e-12):
        x, y = v[j:j + 10], i[j:j + 10]
        ok.append(o.rn * np.sum((x - x.mean()) ** 2) / np.sum((x - x.mean()) * (y - y.mean())))
    check(any(abs(a - p.zj_if) <= 1e-6 * abs(a) for a in ok), 'dynamic resistance at the best bias: %r, expected %r' % (p.zj_if, ok))


@oracle(ORACLES, 3)
def recovered(rng, k):
    """what the impedance recovery sees and leaves behind"""
    vf, cf, kw = setting(rng, 2)
    _, _, o = direct(rng, 0, vf, cf, kw)
    kw = dict(kw, freq=float(rng.uniform(200, 300)), analyze_iv=bool(k != 2), num_b=8, alpha_max=1.4)
    if k == 1:
        kw['zemb'] = complex(.4, -.2)
    iv = sweep(rng, k, kw, step=.3)
    note(pumped=iv, **kw)
    p = X.PumpedData(iv, o, **kw)
    if k == 2:
        check(p.zt is None, 'impedance recovery was not asked for')
        return
    q = object.__new__(X.PumpedData)
    q.dciv, q.vgap, q.rn, q.fgap, q.freq, q.voltage, q.current, q.kwargs, q.vph = o, o.vgap, o.rn, o.fgap, kw['freq'], p.voltage, p.current, full(kw), p.vph
    q.igap, q.vint, q.offset, q.dc = o.igap, o.vint, o.offset, o.dc
    q._recover_zemb()
    for f in ('zt', 'vt', 'zw', 'alpha'):
        same(getattr(p, f), getattr(q, f), f)
    check(bool(p.fit_good) == bool(q.fit_good), 'fit flag')


@oracle(ORACLES, 8)
def refused(rng, k):
    vf, cf, kw = setting(rng, 2)
    kw['verbose'] = False
    iv = sweep(rng, k, kw)
    bad = [[list(r) for r in iv], 'data.csv', None, tuple(map(tuple, iv))][k % 4]
    note(kind=type(bad).__name__, pumped=k >= 4)
    try:
        if k < 4:
            X.DCData(bad, **kw)
        else:
            o = X.DCData(iv, **kw)
            if k == 7:
                bad = iv
                X.PumpedData(iv, o, analyze_iv=False, **kw)          # no frequency
            else:
                X.PumpedData(bad, o, analyze_iv=False, freq=230., **kw)
    except ValueError:
        return
    check(False, 'accepted')
