"""Differential test of the executor: small functions (mini/qmix/samples.py) are executed symbolically
once and concretely many times; on every concrete input exactly one symbolic path must apply, and the
terms it returns (and leaves in the argument arrays, and the exceptions it reports) must evaluate to
what Python computes.  Constructs the executor refuses (Unsupported) are listed, not failed.

    python3-vt selftest/differ.py [NAME...]
"""
import cmath
import inspect
import itertools
import math
import os
import random
import sys
from fractions import Fraction as Fr

HERE = os.path.dirname(os.path.abspath(__file__))
os.environ['QV_REPO'] = os.path.join(HERE, 'mini')
sys.path[:0] = [os.path.dirname(HERE), os.path.join(HERE, 'mini')]
sys.setrecursionlimit(20000)

import numpy as np                                       # noqa: E402
from contracts.base import *                             # noqa: E402,F403
from qv.framework import program                         # noqa: E402
from qv.interp import Interp, explore, caught                    # noqa: E402
from qv.values import *                                  # noqa: E402,F403
from qv import terms as T                                # noqa: E402
from qmix import samples                                 # noqa: E402

B = 9                       # brute force bound for bound variables (inputs are shorter)


class Unknown(Exception):
    pass


class Eval(object):
    """value of a term under a concrete input"""

    def __init__(self, env, arrays):
        self.env, self.arrays = env, arrays
        self.memo = {}

    def poly(self, p, env=()):
        r = Fr(0)
        for (g, f), c in p.t.items():
            if all(self.lit(l, env) for l in g):
                x = c
                for a, e in f:
                    v = self.atom(a, env)
                    if e < 0 and v == 0:
                        raise Unknown('division by zero')
                    x = x * (v ** e if not isinstance(v, int) else Fr(v) ** e)
                r = r + x
        return r

    def lit(self, l, env):
        if l.kind in ('b', 'nb'):
            return (self.poly(l.p, env) if isinstance(l.p, T.Poly) else self.atom(l.p, env)) != 0 if l.kind == 'b' else not self.lit(T.neg_lit(l), env)
        v = self.poly(l.p, env)
        if isinstance(v, complex):
            if l.kind in ('eq', 'ne'):
                z = abs(v) < 1e-12
                return z if l.kind == 'eq' else not z
            v = v.real
        if isinstance(v, float) and abs(v) < 1e-12:
            v = 0
        return {'le': v <= 0, 'lt': v < 0, 'eq': v == 0, 'ne': v != 0}[l.kind]

    def form(self, f, env=()):
        if f is T.TRUE or f is T.FALSE:
            return f is T.TRUE
        if isinstance(f, T.Lit):
            return self.lit(f, env)
        g = (self.form(a, env) for a in f.args)
        return all(g) if f.op == 'and' else any(g)

    def some(self, fs):
        """the facts hold for some values of their loop variables"""
        free = sorted({v for f in fs for v in f.fv if v.kind == 'sym' and v.a not in self.env}, key=lambda v: v.id)
        if len(free) > 2:
            raise Unknown('symbols %s' % free)
        return any(all(self.form(f, tuple(zip(free, xs))) for f in fs) for xs in itertools.product(range(-B, B + 1), repeat=len(free)))

    def lam(self, l, env, *xs):
        return self.poly(l.body, env + tuple(zip(l.vars, xs)))

    def rng(self, l, n, env):
        return [j for j in range(int(n)) if self.lam(l, env, j) != 0]

    def atom(self, a, env):
        k = a.kind
        if k == 'I':
            return 1j
        if k == 'sym':
            for v, x in reversed(env):
                if v is a:
                    return Fr(x) if not isinstance(x, complex) else x
            if a.a not in self.env:
                raise Unknown('symbol %s' % a.a)
            return self.env[a.a]
        if k == 'inv':
            v = self.poly(a.a, env) if isinstance(a.a, T.Poly) else self.poly(a.a[0], env)
            if v == 0:
                raise Unknown('division by zero')
            return 1 / v
        if k == 'sum':
            vs, gs, body = a.a
            r = Fr(0)
            for xs in itertools.product(range(-B, B + 1), repeat=len(vs)):
                e = env + tuple(zip(vs, xs))
                if all(self.lit(l, e) for l in gs):
                    x = Fr(1)
                    for b, m in body:
                        x = x * self.atom(b, e) ** m
                    r = r + x
            return r
        if k == 'app':
            return self.app(a.a[0], a.a[1], env)
        raise Unknown('atom kind %s' % k)

    def app(self, fn, args, env):
        if fn in self.arrays:
            arr = self.arrays[fn]
            idx = tuple(int(self.poly(x, env)) for x in args)
            if any(not 0 <= i < n for i, n in zip(idx, arr.shape)):
                return Fr(0)                   # guarded by its range condition
            v = arr[idx].item()
            return v if isinstance(v, complex) else Fr(v)
        if fn in ('count', 'sel', 'rank'):
            n = self.poly(args[1], env)
            js = self.rng(args[0], n, env)
            if fn == 'count':
                return Fr(len(js))
            i = int(self.poly(args[2], env))
            if fn == 'sel':
                return Fr(js[i]) if 0 <= i < len(js) else Fr(0)
            return Fr(sum(j < i for j in js))
        if fn in ('perm', 'iperm', 'argmin', 'argmax'):
            n = int(self.poly(args[1], env))
            ks = [self.lam(args[0], env, j) for j in range(n)]
            o = sorted(range(n), key=lambda j: ks[j])
            if fn.startswith('arg'):
                return Fr(ks.index((min if fn == 'argmin' else max)(ks))) if ks else Fr(0)
            i = int(self.poly(args[2], env))
            return Fr(0) if not 0 <= i < n else Fr(o[i] if fn == 'perm' else o.index(i))
        if fn in ('maxred', 'minred'):
            vs = [self.lam(args[1], env, *xs) for xs in itertools.product(range(-B, B + 1), repeat=len(args[0].vars))
                  if self.lam(args[0], env, *xs) != 0]
            vs += [self.poly(x, env) for x in args[2:]]
            if not vs:
                raise Unknown('empty reduction')
            return (max if fn == 'maxred' else min)(vs)
        if fn == 'forall':
            return Fr(all(self.lam(args[0], env, *xs) != 0 for xs in itertools.product(range(-B, B + 1), repeat=len(args[0].vars))))
        if fn == 'interp':
            n = int(self.poly(args[3], env))
            q = self.poly(args[0], env)
            xs = [self.lam(args[1], env, j) for j in range(n)]
            ys = [self.lam(args[2], env, j) for j in range(n)]
            return float(np.interp(float(q), [float(x) for x in xs], [float(y) for y in ys]))
        v = [self.poly(x, env) if isinstance(x, T.Poly) else None for x in args]
        if any(x is None for x in v):
            raise Unknown('application %s' % fn)
        x = v[0]
        if fn in ('max', 'min'):
            return max(v) if fn == 'max' else min(v)
        if fn == 'abs':
            return abs(x)
        if fn in ('floor', 'ceil', 'trunc'):
            return Fr(getattr(math, fn)(x))
        if fn == 'rnd':
            return Fr(round(x, int(v[1])))
        if fn == 'm1pow':
            return Fr(-1) ** int(x)
        if fn == 'conj':
            return x.conjugate()
        if fn == 'pow':
            return x ** int(v[1]) if v[1].denominator == 1 else float(x) ** float(v[1])
        if fn == 'wrap':
            return x if x >= 0 else x + v[1]
        if fn == 'angle':
            return cmath.phase(complex(x))
        if fn in ('exp', 'sqrt', 'sin', 'cos', 'tanh', 'log', 'log10', 'pow10', 'sinh', 'cosh'):
            if fn == 'pow10':
                return 10. ** float(x)
            if isinstance(x, complex):
                return getattr(cmath, fn)(x)
            if fn in ('sqrt', 'log', 'log10') and x < 0:
                raise Unknown('domain')
            return getattr(math, fn)(float(x))
        raise Unknown('application %s' % fn)


# ------------------------------------------------------------------ inputs
def kind_of(name):
    return {'x': 'float', 'y': 'float', 'w': 'float', 'z': 'complex', 'm': 'matrix', 'q': 'int1', 'b': 'bool', 'd': 'sorted',
            's': 'scalar', 't': 'scalar', 'k': 'int', 'l': 'int', 'c': 'cplx'}[name[0]]


def symbolic(it, name, n):
    k = kind_of(name)
    if k in ('float', 'sorted'):
        return fun_arr(it, name, [n])
    if k == 'complex':
        return fun_arr(it, name, [n], 'complex')
    if k == 'int1':
        return fun_arr(it, name, [n], 'int')
    if k == 'bool':
        return fun_arr(it, name, [n], 'bool')
    if k == 'matrix':
        return fun_arr(it, name, [n, con(3)])
    return Num(sym(name, {'scalar': REAL, 'int': INT, 'cplx': CPLX}[k]))


def concrete(rng, name, n):
    k = kind_of(name)
    half = lambda *s: rng.randint(-4, 5, s) / 2.
    if k == 'float':
        return half(n)
    if k == 'sorted':
        return np.cumsum(rng.randint(1, 4, n)) / 2.
    if k == 'complex':
        return half(n) + 1j * half(n)
    if k == 'int1':
        return rng.randint(0, n, n)
    if k == 'bool':
        return rng.randint(0, 2, n).astype(bool)
    if k == 'matrix':
        return half(n, 3)
    if k == 'scalar':
        return float(half())
    if k == 'cplx':
        return complex(half(), half())
    return int(rng.randint(-2, 4))


def deep(v):
    """a concrete value with its arrays copied"""
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return type(v)(deep(x) for x in v)
    if isinstance(v, dict):
        return {a: deep(x) for a, x in v.items()}
    return v


class Differ(Exception):
    pass


def num_close(a, b):
    a, b = complex(a), complex(b)
    return abs(a - b) <= 1e-9 * (1 + abs(a))


def compare(it, ev, sv, cv, where):
    """symbolic value sv against concrete value cv"""
    if isinstance(sv, Partial):
        if not ev.form(sv.cond):
            raise Differ('%s: undefined' % where)
        sv = sv.v
    if isinstance(sv, Opaque):
        raise Unknown('opaque value')
    if isinstance(sv, (tuple, VList)):
        xs = sv if isinstance(sv, tuple) else sv.content
        if not isinstance(cv, (tuple, list)) or len(xs) != len(cv) or isinstance(cv, list) != isinstance(sv, VList):
            raise Differ('%s: %r, expected %r' % (where, sv, cv))
        for i, (a, b) in enumerate(zip(xs, cv)):
            compare(it, ev, a, b, '%s[%d]' % (where, i))
        return
    if isinstance(sv, VDict):
        if not isinstance(cv, dict) or [a for a, _ in sv.content] != list(cv):
            raise Differ('%s: keys %r, expected %r' % (where, sv.content, cv))
        for a, b in sv.content:
            compare(it, ev, b, cv[a], '%s[%r]' % (where, a))
        return
    if isinstance(sv, Arr):
        sh = tuple(int(ev.poly(n)) for n in sv.shape)
        if not isinstance(cv, np.ndarray) or sh != cv.shape:
            raise Differ('%s: shape %r, expected %r' % (where, sh, cv))
        kd = {'f': 'float', 'i': 'int', 'c': 'complex', 'b': 'bool'}[cv.dtype.kind]
        if sv.dtype != kd:
            raise Differ('%s: type %s, expected %s' % (where, sv.dtype, kd))
        us = [fresh('e') for _ in sh]
        t = it.read_arr(sv, [P(u) for u in us])
        for idx in itertools.product(*map(range, sh)):
            a, b = ev.poly(t, tuple(zip(us, idx))), cv[idx]
            if not num_close(a, b):
                raise Differ('%s%s: %s, expected %s' % (where, list(idx), a, b))
        return
    if isinstance(sv, VBool):
        if not isinstance(cv, (bool, np.bool_)) or ev.form(sv.f) != bool(cv):
            raise Differ('%s: %s, expected %r' % (where, ev.form(sv.f), cv))
        return
    if isinstance(sv, Num):
        if isinstance(cv, (bool, np.bool_)) or not isinstance(cv, (int, float, complex, np.number)) or not num_close(ev.poly(sv.p), cv):
            raise Differ('%s: %s, expected %r' % (where, sv if not isinstance(cv, (int, float, complex, np.number)) else ev.poly(sv.p), cv))
        kd = 'int' if isinstance(cv, (int, np.integer)) else 'complex' if isinstance(cv, (complex, np.complexfloating)) else 'float'
        if sv.ty != kd:
            raise Differ('%s: type %s, expected %s' % (where, sv.ty, kd))
        return
    if sv is None or isinstance(sv, (bool, str, int, float)):
        if type(sv) is not type(cv) and not (isinstance(sv, bool) and isinstance(cv, np.bool_)) and not isinstance(cv, np.number) or sv != cv:
            raise Differ('%s: %r, expected %r' % (where, sv, cv))
        return
    raise Unknown('value %r' % (sv,))


def paths(name, nmin):
    f = getattr(samples, name)
    ps = list(inspect.signature(f).parameters)
    n = sym('n', INT)

    def make(dec):
        it = Interp(program(), [], ())
        facts = [le(con(nmin), n)]
        it.argv = [symbolic(it, p, n) for p in ps]
        if any(kind_of(p) == 'int1' for p in ps):
            u = fresh('u')
        it.ctx = it.ctx.add(*facts)
        it.pre = it.ctx
        if dec:
            it.ctx = it.ctx.add(*dec)
        it.base_ctx = it.ctx
        return it, lambda it: it.call(it.mod_attr('qmix.samples', name), it.argv, {})
    return f, ps, list(explore(make, 200))


def run(name, cases=150):
    f = getattr(samples, name)
    nmin = getattr(f, 'nmin', 2)
    try:
        f, ps, out = paths(name, nmin)
    except Unsupported as e:
        return 'refused', str(e), 0
    except (PyRaise, NeedSplit) as e:
        return 'error', repr(e), 0
    for o in out:
        for (nm, ok, d) in o[1].obligs if o[1] is not None else ():
            if not ok:
                return 'refused', 'obligation %s' % nm, 0
        if o[2] == 'iter':
            return 'refused', 'inductive loop', 0
    rng = np.random.RandomState(1)
    done = 0
    unknown = ''
    for case in range(cases):
        n = int(rng.randint(nmin, 7))
        args = [concrete(rng, p, n) for p in ps]
        before = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
        env = {'n': Fr(n)}
        arrays = {}
        for p, a in zip(ps, before):
            if isinstance(a, np.ndarray):
                arrays[p] = a
            else:
                env[p] = Fr(a) if not isinstance(a, complex) else a
        try:
            with np.errstate(all='ignore'):
                cv, exc = f(*args), None
            if not finite(cv) or not finite(args):
                continue
        except Exception as e:
            cv, exc = None, type(e).__name__
        ev = Eval(env, arrays)
        hits = []
        try:
            for dec, it, kind, v in out:
                if all(ev.form(g) for g in dec) and all(ev.form(g) for g in it.base_ctx.facts):
                    hits.append((it, kind, v))
            if len(hits) != 1:
                raise Differ('%d symbolic paths apply' % len(hits))
            it, kind, v = hits[0]
            guarded = [x for (c, x, m) in it.raises if ev.some(c.facts)]
            se = guarded[0] if guarded else (v.exc if kind == 'raise' else None)
            if (se is None) != (exc is None):
                raise Differ('exception %s, expected %s' % (se, exc))
            if exc is None:
                compare(it, ev, v, cv, 'result')
                for p, sa, ca in zip(ps, it.argv, args):
                    if isinstance(ca, np.ndarray):
                        compare(it, ev, sa, ca, 'argument %s' % p)
            elif not caught(exc, se):
                raise Differ('exception %s, expected %s' % (se, exc))
            done += 1
        except (Unknown, Unsupported, NeedSplit) as e:
            unknown = str(e)
        except Differ as e:
            return 'DIFFERS', '%s for n=%d %s' % (e, n, dict(zip(ps, before))), done
    return ('ok' if done else 'undecided'), unknown, done


def finite(v):
    if isinstance(v, np.ndarray):
        return bool(np.isfinite(v).all()) if v.dtype.kind in 'fc' else True
    if isinstance(v, (tuple, list)):
        return all(finite(x) for x in v)
    if isinstance(v, (float, complex, np.floating, np.complexfloating)):
        return bool(np.isfinite(v))
    return True


def worker(name):
    try:
        return (name,) + run(name)
    except Exception as e:
        if os.environ.get('QV_TRACE'):
            raise
        return name, 'error', '%s: %s' % (type(e).__name__, e), 0


def main(only):
    names = [k for k, f in vars(samples).items() if inspect.isfunction(f) and f.__module__ == samples.__name__ and not k.startswith('_')
             and not getattr(f, 'helper', False)]
    names = [k for k in names if not only or k in only]
    import multiprocessing as mp
    tot = {}
    with mp.get_context('fork').Pool(6, maxtasksperchild=1) as pool:
        for name, st, why, done in pool.imap(worker, names, 1):
            tot[st] = tot.get(st, 0) + 1
            if st != 'ok' or only:
                print('%-10s %-28s %4d %s' % (st, name, done, why[:300]))
    print(tot)
    return 1 if tot.get('DIFFERS') or tot.get('error') else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
