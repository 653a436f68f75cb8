from circ_or import *
ORACLES = []


@oracle(ORACLES, 300)
def round_trip(rng, k):
    vg, rn = rng.uniform(1e-3, 4e-3), rng.uniform(1, 50)
    c = rand_circuit(rng, vgap=vg, rn=rn)
    f, p = int(rng.randint(1, c.num_f + 1)), int(rng.randint(1, c.num_p + 1))
    us = list(PU)
    u, v = us[k % 8], us[(k // 8) % 8]
    w = 10.**rng.uniform(-14, -3)
    if k % 17 == 5:
        w = 10.**rng.uniform(-17, 1)
    x = from_watts(w, u)
    pos = bool(rng.randint(2))
    note(f=f, p=p, power=x, units=u, read=v, vgap=vg, rn=rn, zt=c.zt, positional=pos)
    st = state(c)
    if pos:
        c.set_available_power(x, f, p, case(rng, u))
        got = c.available_power(f, p, case(rng, v))
    else:
        c.set_available_power(x, f=f, p=p, units=case(rng, u))
        got = c.available_power(units=case(rng, v), p=p, f=f)
    w = to_watts(x, u)
    close(got, from_watts(w, v), 'power read back', rtol=1e-9, atol=1e-9 if v.startswith('dB') else 0)
    close(abs(c.vt[f, p] * vg)**2 / (8 * c.zt[f, p].real * rn), w, '|V|^2 / 8R', rtol=1e-9, atol=0)
    only_entry(st['vt'], c.vt, (f, p), 'source voltage')
    same_state(c, st, ('vt',))


@oracle(ORACLES, 60)
def read_formula(rng, k):
    """any complex source voltage; every unit; reading changes nothing"""
    vg, rn = rng.uniform(1e-3, 4e-3), rng.uniform(1, 50)
    c = rand_circuit(rng, vgap=vg, rn=rn)
    st = state(c)
    for f in range(1, c.num_f + 1):
        for p in range(1, c.num_p + 1):
            w = abs(c.vt[f, p] * vg)**2 / (8 * c.zt[f, p].real * rn)
            for u in PU:
                close(c.available_power(f, p, u), from_watts(w, u), 'available power in %s' % u, rtol=1e-9, atol=1e-9 if u.startswith('dB') else 0)
    w = abs(c.vt[1, 1] * vg)**2 / (8 * c.zt[1, 1].real * rn)
    close(c.available_power(), w, 'default signal and unit', rtol=1e-9, atol=0)
    same_state(c, st)


@oracle(ORACLES, 20)
def zero_resistance(rng, k):
    c = rand_circuit(rng, vgap=2.8e-3, rn=14.)
    f, p = int(rng.randint(1, c.num_f + 1)), int(rng.randint(1, c.num_p + 1))
    c.zt[f, p] = [0., 1j * rng.normal()][k % 2]
    note(f=f, p=p, zt=c.zt[f, p])
    for u in ('W', 'mW', 'uW', 'nW', 'pW', 'fW'):
        check(c.available_power(f, p, u) == 0, 'zero source resistance must give zero power')


@oracle(ORACLES, 12)
def refusals(rng, k):
    c = rand_circuit(rng, 2, 2, vgap=2.8e-3, rn=14.)
    st = state(c)
    for u in ('kW', 'dB', 'watts', '', 'mw2'):
        raises(ValueError, lambda: c.available_power(1, 1, u), 'unknown unit %r' % u)
        raises(ValueError, lambda: c.set_available_power(1., 1, 1, u), 'unknown unit %r' % u)
    same_state(c, st)
    c.zt[2, 1] = 0
    raises(AssertionError, lambda: c.set_available_power(1e-9, 2, 1), 'zero impedance')
    for kw in ({}, {'vgap': 2.8e-3}, {'rn': 14.}, {'fgap': 7e11}):
        c = rand_circuit(rng, 2, 2, **kw)
        raises(AssertionError, lambda: c.set_available_power(1e-9, 2, 1), 'missing constants')
        raises(AssertionError, lambda: c.available_power(2, 1), 'missing constants')
