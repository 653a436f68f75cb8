from circ_or import *
ORACLES = []


@oracle(ORACLES, 150)
def construction(rng, k):
    nf, npp, n = int(rng.randint(1, 5)), int(rng.randint(1, 8)), int(rng.randint(1, 60))
    b0 = rng.uniform(-2, 1)
    b1 = b0 + rng.uniform(0, 3) * (k % 9 != 0)
    if k % 5 == 0:
        b0, b1 = int(np.floor(b0)), int(np.ceil(b1))
    if k % 11 == 0:
        n = 1
    vg, fg, rn = rng.uniform(1e-3, 4e-3), rng.uniform(3e11, 9e11), rng.uniform(1, 50)
    if k % 7 == 0:
        vg, fg, rn = 1, 2, 3
    kw = {}
    for i, (nm, v) in enumerate((('vgap', vg), ('fgap', fg), ('rn', rn))):
        if (k >> i) & 1:
            kw[nm] = v
    note(nf=nf, npp=npp, n=n, b0=b0, b1=b1, **kw)
    c = EmbeddingCircuit(nf, npp, vb_min=b0, vb_max=b1, vb_npts=n, **kw) if k % 3 else \
        EmbeddingCircuit(nf, npp, b0, b1, n, kw.get('fgap'), kw.get('vgap'), kw.get('rn'), 'nm')
    check((c.num_f, c.num_p, c.num_n, c.vb_npts) == (nf, npp, nf * npp, n), 'sizes')
    for a, sh, dt in ((c.freq, (nf + 1,), float), (c.vt, (nf + 1, npp + 1), complex), (c.zt, (nf + 1, npp + 1), complex)):
        check(a.shape == sh and a.dtype == dt and not a.any() and a.flags.writeable, 'array %s %s' % (a.shape, a.dtype))
    check(c.vt is not c.zt and not np.shares_memory(c.vt, c.zt), 'arrays shared')
    close(c.vb, np.linspace(b0, b1, n), 'bias sweep', rtol=1e-12, atol=1e-14)
    V = kw.get('vgap', kw['fgap'] * sc.h / sc.e if 'fgap' in kw else None)
    F = kw.get('fgap', kw['vgap'] * sc.e / sc.h if 'vgap' in kw else None)
    R = kw.get('rn')
    I = V / R if V is not None and R is not None else None
    for nm, v in (('vgap', V), ('fgap', F), ('rn', R), ('igap', I)):
        got = getattr(c, nm)
        if v is None:
            check(got is None, '%s should be undefined, is %r' % (nm, got))
        else:
            check(got is not None, '%s is undefined' % nm)
            close(got, v, nm, rtol=1e-12, atol=0)
    vj = c.initialize_vj()
    check(vj.shape == (nf + 1, npp + 1, n) and vj.dtype == complex and not vj.any(), 'junction voltage array')
    check(len(c.comment) == nf + 1 and all(len(x) == npp + 1 for x in c.comment), 'comments')
    st = state(c)
    c.set_name('LO', nf, npp)
    check(c.comment[nf][npp] == 'LO' and sum(x != '' for r in c.comment for x in r) == 1, 'name of one signal')
    same_state(c, st, ('comment',))


@oracle(ORACLES, 3)
def construction_refused(rng, k):
    for nf in (0, 5, -1, 6, 1.5):
        raises(AssertionError, lambda: EmbeddingCircuit(nf, 1), 'num_f=%r' % nf)
    for npp in (0, -1, 1.5):
        raises((AssertionError, TypeError), lambda: EmbeddingCircuit(1, npp), 'num_p=%r' % npp)
    for n in (0, -3, 2.5):
        raises(AssertionError, lambda: EmbeddingCircuit(1, 1, vb_npts=n), 'vb_npts=%r' % n)
    raises(AssertionError, lambda: EmbeddingCircuit(1, 1, vb_min=1., vb_max=0.5), 'range')


@oracle(ORACLES, 200)
def set_frequency(rng, k):
    u = list(FU)[k % 7]
    kw = [dict(vgap=rng.uniform(1e-3, 4e-3)), dict(fgap=rng.uniform(3e11, 9e11)), dict(vgap=rng.uniform(1e-3, 4e-3), fgap=rng.uniform(3e11, 9e11), rn=9.)][k // 7 % 3]
    if u == 'norm' and k % 2:
        kw = {}
    c = rand_circuit(rng, **kw)
    f = int(rng.randint(1, c.num_f + 1))
    x = rng.uniform(0.1, 900)
    note(units=u, value=x, f=f, **kw)
    st = state(c)
    if k % 2:
        c.set_freq(x, f, case(rng, u))
    else:
        c.set_freq(x, units=u, f=f)
    e = x * FU[u] / c.fgap if FU[u] else (x if u == 'norm' else x * (1e-3 if u == 'mV' else 1) / c.vgap)
    close(c.freq[f], e, 'stored frequency', rtol=1e-12, atol=0)
    only_entry(st['freq'], c.freq, f, 'frequency')
    same_state(c, st, ('freq',))
    check(c.vph is c.freq, 'photon voltage')


@oracle(ORACLES, 4)
def set_frequency_refused(rng, k):
    c = rand_circuit(rng)
    for u in ('Hz', 'GHz', 'V', 'mV'):
        raises(AssertionError, lambda: c.set_freq(1., 1, u), 'no gap frequency')
    c = rand_circuit(rng, vgap=2.8e-3)
    st = state(c)
    for u in ('kHz', '', 'volts'):
        raises(ValueError, lambda: c.set_freq(1., 1, u), 'unknown unit')
    same_state(c, st)


@oracle(ORACLES, 100)
def drive_level(rng, k):
    c = rand_circuit(rng)
    f, p = int(rng.randint(1, c.num_f + 1)), int(rng.randint(1, c.num_p + 1))
    al = rng.uniform(0, 3)
    zj = rng.uniform(0.3, 1.2) + (1j * rng.normal() if k % 3 == 0 else 0)
    st = state(c)
    note(f=f, p=p, alpha=al, zj=zj, freq=c.freq, zt=c.zt)
    if k % 2:
        c.set_alpha(al, f, p, zj)
    else:
        zj = 0.66
        c.set_alpha(al, p=p, f=f)
    vj = c.vt[f, p] * zj / (c.zt[f, p] + zj)          # voltage divider
    close(vj, al * p * c.freq[f], 'voltage across the assumed junction impedance', rtol=1e-9, atol=1e-12)
    only_entry(st['vt'], c.vt, (f, p), 'source voltage')
    same_state(c, st, ('vt',))
    c.zt[f, p] = 0
    raises(AssertionError, lambda: c.set_alpha(1., f, p), 'zero impedance')
    c.zt[f, p] = 1
    c.freq[f] = 0
    raises(AssertionError, lambda: c.set_alpha(1., f, p), 'zero frequency')


@oracle(ORACLES, 20)
def locking(rng, k):
    c = rand_circuit(rng, vgap=2.8e-3, rn=14.)
    if k % 3 == 1:
        c.zt[:], c.vt[:] = c.zt.real, c.vt.real      # still complex arrays
    if k % 5 == 2:
        c.zt[:] = 0
        c.zt[1, 1] = 0.3
    held = {nm: getattr(c, nm) for nm in ('freq', 'vt', 'zt', 'vb')}
    st = state(c)
    c.lock()
    same_state(c, st)
    for nm in ('freq', 'vt', 'zt', 'vb'):
        check(not getattr(c, nm).flags.writeable, '%s writeable after lock' % nm)

    def w():
        c.set_freq(3., 1, 'GHz')
    raises(ValueError, w, 'write to locked circuit')
    raises(ValueError, lambda: c.set_available_power(3e-9, 1, 1), 'write to locked circuit')
    raises(ValueError, lambda: c.set_alpha(1., 1, 1), 'write to locked circuit')
    same_state(c, st)
    if k % 2:
        c.lock()
    c.unlock()
    for nm in ('freq', 'vt', 'zt', 'vb'):
        check(getattr(c, nm).flags.writeable, '%s read-only after unlock' % nm)
    same_state(c, st)
    for nm, a in held.items():
        check(getattr(c, nm) is a, '%s was replaced by another array' % nm)
    c.zt[1, 1], c.vt[1, 1] = 0.1 + 0.7j, 0.2 - 0.3j
    check(c.zt[1, 1] == 0.1 + 0.7j and c.vt[1, 1] == 0.2 - 0.3j, 'values stored after unlocking')
