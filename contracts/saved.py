"""Contracts of saving a circuit to a text file and reading it back (qmix.circuit)."""
from .base import *
from .circ import circuit, base_facts, unchanged, NF, NPP, FI, PI_, VT0, ZT0, CC

READ = 'qmix.circuit.read_circuit'
SAVE = CC + '.save_info'


def rounded(ob, it, name, v, x, least, cplx):
    """v is x, exact or rounded to at least so many decimals"""
    def cand(d):
        r = lambda q: app('rnd', [con(d), q], REAL)
        return r(re(x)) + r(im(x)) * T_I if cplx else r(x)
    ok = S.prove_zero(v - x, it.ctx) or any(S.prove_zero(v - cand(d), it.ctx) for d in range(least, 21))
    ob.fact('%s agrees to %d decimals' % (name, least), ok, 'read back: %s' % str(v)[:300])


T_I = P(T.I_ATOM)


@unit('C10', 'round trip', [SAVE, READ], 120, each=[(n, k) for n in ('given name', 'default name', 'by keyword') for k in ('with constants', 'without constants')])
def round_trip(ob, how, const):
    name = 'embedding-circuit.txt' if how == 'default name' else 'some/where.txt'
    args = {'given name': ([name], {}), 'default name': ([], {}), 'by keyword': ([], {'filename': name})}[how]

    def setup(it):
        it.texts = True
        return base_facts()

    def call(it):
        kw = {} if const == 'with constants' else dict(vgap=None, rn=None, fgap=None, igap=None)
        it.c = circuit(it, **kw)
        it.before = dict(it.c.content)
        it.call(it.getattr(it.c, 'save_info'), list(args[0]), dict(args[1]))
        return it.call(it.func(READ), [name], {})

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        no_input_writes(ob, it)
        unchanged(ob, it, it.c, it.before)
        if not ob.fact('a circuit is returned', isinstance(r, Obj) and getattr(r.cls, 'name', '') == 'EmbeddingCircuit', repr(r)):
            return
        for nm, n in (('num_f', NF), ('num_p', NPP)):
            v = it.getattr(r, nm)
            ob.fact('%s is the number of the circuit saved' % nm, same_num(it, v, n), repr(v))
        for nm, sh, x, least, cplx in (('freq', [NF + 1], app('freq', [FI], REAL), 4, False), ('vt', [NF + 1, NPP + 1], VT0(FI, PI_), 4, True),
                                       ('zt', [NF + 1, NPP + 1], ZT0(FI, PI_), 2, True)):
            a = it.getattr(r, nm)
            if check_shape(ob, it, nm, a, sh):
                rounded(ob, it, nm, at(it, a, *([FI, PI_][:len(sh)])), x, least, cplx)
    ob.run(setup, call, post)
