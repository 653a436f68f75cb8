"""Term language of the verifier.

A *Poly* is a polynomial with rational coefficients over interned *atoms*; each
monomial additionally carries a set of guard literals (Iverson brackets), so
`ite(c, a, b)` is `b + [c]*(a - b)` and finite sums are first-class atoms.  All
machine floats are treated as mathematical reals / complexes, ints as
mathematical integers.
"""
from fractions import Fraction as Fr
import itertools
import math

INT, REAL, CPLX, BOOL = 'i', 'r', 'c', 'b'
_ORD = {INT: 0, REAL: 1, CPLX: 2}


def join(a, b):
    return a if _ORD[a] >= _ORD[b] else b


_tab = {}
_cnt = itertools.count()


class TermError(Exception):
    pass


class Atom(object):
    __slots__ = ('kind', 'a', 'sort', 'id', 'fv', 'height', '_s', 'apps', '_p', '_conj')

    def __repr__(self):
        return s_atom(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


EMPTY = frozenset()


def _mk(kind, a, sort, fv, height, apps):
    key = (kind, a, sort)
    x = _tab.get(key)
    if x is None:
        x = Atom.__new__(Atom)
        x.kind, x.a, x.sort = kind, a, sort
        x.id = next(_cnt)
        x.fv, x.height, x._s, x.apps = fv, height, None, apps
        x._p = None
        x._conj = None
        if kind == 'sym':
            x.fv = frozenset([x])
        _tab[key] = x
    return x


def SymA(name, sort=REAL):
    return _mk('sym', name, sort, EMPTY, 0, EMPTY)


def sym(name, sort=REAL):
    return P(SymA(name, sort))


_fresh = itertools.count()
POS = set()      # atoms (syms) known positive
NONNEG = set()   # atoms known non-negative


def fresh(prefix='f', sort=INT):
    return SymA('_%s%d' % (prefix, next(_fresh)), sort)


I_ATOM = _mk('I', None, CPLX, EMPTY, 0, EMPTY)


class Lam(object):
    __slots__ = ('vars', 'body', 'id', 'fv', 'height', 'apps')
    _tab = {}

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id

    def __repr__(self):
        return '(\\%s. %s)' % (','.join(map(str, self.vars)), self.body)


def bvar(h, i, sort=INT):
    return SymA('_b%d.%d' % (h, i), sort)


def mk_lam(vars, body):
    """vars: list of Sym atoms (open names); body Poly."""
    h = body.height + 1
    nv = tuple(bvar(h, i, v.sort) for i, v in enumerate(vars))
    body = subst(body, {v: P(n) for v, n in zip(vars, nv)})
    h2 = body.height + 1
    if h2 != h:   # height changed by simplification: rename again
        return mk_lam(list(nv), body)
    key = (nv, body)
    x = Lam._tab.get(key)
    if x is None:
        x = Lam.__new__(Lam)
        x.vars, x.body, x.id = nv, body, next(_cnt)
        x.fv = body.fv - frozenset(nv)
        x.height = h
        x.apps = body.apps
        Lam._tab[key] = x
    return x


def lam_apply(lam, args):
    return subst(lam.body, {v: pol(a) for v, a in zip(lam.vars, args)})


def lam_open(lam):
    vs = [fresh('o', v.sort) for v in lam.vars]
    return vs, lam_apply(lam, [P(v) for v in vs])


# ---------------------------------------------------------------- polynomials

class Poly(object):
    __slots__ = ('t', 'id', '_fv', '_h', '_apps', '_sort', '_g')
    _tab = {}

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        raise TermError('Poly ordering is symbolic')

    @property
    def fv(self):
        if self._fv is None:
            s = set()
            for (g, f) in self.t:
                for l in g:
                    s |= l.fv
                for a, e in f:
                    s |= a.fv
            self._fv = frozenset(s)
        return self._fv

    @property
    def height(self):
        if self._h is None:
            h = 0
            for (g, f) in self.t:
                for l in g:
                    h = max(h, l.height)
                for a, e in f:
                    h = max(h, a.height)
            self._h = h
        return self._h

    @property
    def apps(self):
        """function names applied anywhere inside"""
        if self._apps is None:
            s = set()
            for (g, f) in self.t:
                for l in g:
                    s |= l.apps
                for a, e in f:
                    s |= a.apps
            self._apps = frozenset(s)
        return self._apps

    @property
    def sort(self):
        if self._sort is None:
            s = INT
            for (g, f), c in self.t.items():
                if c.denominator != 1:
                    s = join(s, REAL)
                for a, e in f:
                    s = join(s, REAL if a.sort == BOOL else a.sort)
                    if e < 0:
                        s = join(s, REAL)
            self._sort = s
        return self._sort

    @property
    def guards(self):
        if self._g is None:
            s = set()
            for (g, f) in self.t:
                s |= g
            self._g = frozenset(s)
        return self._g

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE_M in self.t)

    def const(self):
        if not self.t:
            return Fr(0)
        if len(self.t) == 1:
            return self.t.get(ONE_M)
        return None

    def is_zero(self):
        return not self.t

    def __repr__(self):
        return s_poly(self)

    def __add__(self, o):
        return add(self, pol(o))
    __radd__ = __add__

    def __sub__(self, o):
        return add(self, neg(pol(o)))

    def __rsub__(self, o):
        return add(pol(o), neg(self))

    def __neg__(self):
        return neg(self)

    def __mul__(self, o):
        return mul(self, pol(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return mul(self, inv(pol(o)))

    def __rtruediv__(self, o):
        return mul(pol(o), inv(self))

    def __pow__(self, n):
        return ipow(self, n)


ONE_M = (EMPTY, ())


def mkpoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    key = frozenset(d.items())
    x = Poly._tab.get(key)
    if x is None:
        x = Poly.__new__(Poly)
        x.t = d
        x.id = next(_cnt)
        x._fv = x._h = x._apps = x._sort = x._g = None
        Poly._tab[key] = x
    return x


def con(c):
    c = Fr(c)
    return mkpoly({ONE_M: c} if c != 0 else {})


ZERO = con(0)
ONE = con(1)


def P(atom):
    if atom._p is None:
        atom._p = mkpoly({(EMPTY, ((atom, 1),)): Fr(1)})
    return atom._p


IU = P(I_ATOM)


def pol(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return P(x)
    if isinstance(x, bool):
        return con(int(x))
    if isinstance(x, (int, Fr)):
        return con(x)
    if isinstance(x, float):
        return con(Fr(repr(x)))
    if isinstance(x, complex):
        return con(Fr(repr(x.real))) + con(Fr(repr(x.imag))) * IU
    raise TermError('not a number: %r' % (x,))


def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    d = dict(a.t)
    for m, c in b.t.items():
        v = d.get(m)
        if v is None:
            d[m] = c
        else:
            v = v + c
            if v == 0:
                del d[m]
            else:
                d[m] = v
    return mkpoly(d)


def psum(ps):
    d = {}
    for p in ps:
        for m, c in p.t.items():
            d[m] = d.get(m, 0) + c
    return mkpoly(d)


def neg(a):
    return mkpoly({m: -c for m, c in a.t.items()})


def scale(a, c):
    if c == 1:
        return a
    return mkpoly({m: v * c for m, v in a.t.items()})


def join_guards(g, h):
    if not g:
        return h
    if not h:
        return g
    if g is h or g == h:
        return g
    for l in h:
        if neg_lit(l) in g:
            return None
    return g | h


def _merge_factors(f1, f2):
    """returns (factors tuple, coef) or ('poly', Poly) if rules fire"""
    if not f1:
        return f2, 1, None
    if not f2:
        return f1, 1, None
    d = dict(f1)
    for a, e in f2:
        d[a] = d.get(a, 0) + e
    return _norm_factors(d)


def _norm_factors(d):
    coef = 1
    extra = None
    special = {}
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]
            continue
        if a.kind == 'I':
            r = e % 4
            del d[a]
            if r == 1:
                d[a] = 1
            elif r == 2:
                coef = -coef
            elif r == 3:
                d[a] = 1
                coef = -coef
        elif a.kind == 'inv' and e < 0:
            del d[a]
            p = ipow(a.a, -e)
            extra = p if extra is None else mul(extra, p)
        elif a.kind == 'app':
            fn = a.a[0]
            if fn == 'abs' and (e >= 2 or e <= -2):
                base = a.a[1][0]
                k = e // 2 if e > 0 else -((-e) // 2)
                r = e - 2 * k
                del d[a]
                if r:
                    d[a] = r
                sq = mul(base, conj(base))
                q = ipow(sq, k) if k > 0 else inv(ipow(sq, -k))
                extra = q if extra is None else mul(extra, q)
            elif fn == 'sqrt' and (e >= 2 or e <= -1):
                base = a.a[1][0]
                # keep exponent in {0,1}: sqrt^-1 = sqrt * base^-1
                k = e // 2
                r = e - 2 * k
                del d[a]
                if r:
                    d[a] = r
                q = ipow(base, k) if k > 0 else inv(ipow(base, -k))
                extra = q if extra is None else mul(extra, q)
            elif fn in ('exp', 'm1pow', 'pow10'):
                special.setdefault(fn, []).append(a)
    for fn, l in special.items():
        if len(l) > 1 or any(d[a] != 1 for a in l):
            arg = psum([scale(a.a[1][0], d[a]) for a in l])
            for a in l:
                del d[a]
            q = app(fn, [arg])
            extra = q if extra is None else mul(extra, q)
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id)), coef, extra


_mulcache = {}


def mul(a, b):
    if not a.t or not b.t:
        return ZERO
    ca, cb = a.const(), b.const()
    if ca is not None:
        return scale(b, ca)
    if cb is not None:
        return scale(a, cb)
    key = (a.id, b.id) if a.id <= b.id else (b.id, a.id)
    r = _mulcache.get(key)
    if r is not None:
        return r
    d = {}
    rest = []
    for (g1, f1), c1 in a.t.items():
        for (g2, f2), c2 in b.t.items():
            g = join_guards(g1, g2)
            if g is None:
                continue
            f, k, extra = _merge_factors(f1, f2)
            c = c1 * c2 * k
            if extra is None:
                m = (g, f)
                d[m] = d.get(m, 0) + c
            else:
                rest.append(mul(mkpoly({(g, f): c}), extra))
    r = mkpoly(d)
    if rest:
        r = psum([r] + rest)
    _mulcache[key] = r
    return r


def ipow(a, n):
    if n < 0:
        return inv(ipow(a, -n))
    r = ONE
    while n:
        if n & 1:
            r = mul(r, a)
        a = mul(a, a) if n > 1 else a
        n >>= 1
    return r


def inv(a):
    """1/a (a assumed non-zero)"""
    if not a.t:
        raise TermError('division by zero constant')
    gs = a.guards
    if gs:
        # a zero in one case: the quotient there is an unknown value (0/0, x/0), not an error of the other cases
        return lift_guards(a, lambda q: inv(q) if q.t else app('undefined', [], REAL))
    if len(a.t) == 1:
        (m, c), = a.t.items()
        d = {x: -e for x, e in m[1]}
        f, k, extra = _norm_factors(d)
        r = mkpoly({(EMPTY, f): Fr(1) * k / c})
        return r if extra is None else mul(r, extra)
    # pull out common monomial + content
    lead = leading(a)
    common = None
    for (g, f), c in a.t.items():
        ff = dict(f)
        if common is None:
            common = ff
        else:
            common = {x: (min(e, ff[x])) for x, e in common.items() if x in ff and (e > 0) == (ff[x] > 0)}
            if not common:
                break
    c0 = a.t[lead]
    common = {x: e for x, e in (common or {}).items() if x.kind != 'I' and x.kind != 'sum'}
    if common or c0 != 1:
        f, k, extra = _norm_factors({x: -e for x, e in common.items()})
        m = mkpoly({(EMPTY, f): Fr(1) * k / c0})
        if extra is not None:
            m = mul(m, extra)
        b = mul(a, m)
        if b is not a and len(b.t) == len(a.t):
            return mul(m, _inv_atom(b))
    return _inv_atom(a)


def _inv_atom(a):
    if len(a.t) == 1:
        return inv(a)
    s = join(a.sort, REAL)
    return P(_mk('inv', a, s, a.fv, a.height, a.apps))


def leading(a):
    return min(a.t, key=lambda m: (-sum(e for x, e in m[1]), [(x.id, -e) for x, e in m[1]], sorted(l.id for l in m[0])))


# ------------------------------------------------------------------- literals

class Lit(object):
    """kind: le (p<=0) lt (p<0) eq ne over polys; b / nb over a boolean atom"""
    __slots__ = ('kind', 'p', 'id', 'fv', 'height', 'apps', '_n')
    _tab = {}

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id

    def __repr__(self):
        if self.kind == 'b':
            return str(self.p)
        if self.kind == 'nb':
            return '!' + str(self.p)
        return '%s %s 0' % (self.p, {'le': '<=', 'lt': '<', 'eq': '==', 'ne': '!='}[self.kind])


def mk_lit(kind, p):
    key = (kind, p)
    x = Lit._tab.get(key)
    if x is None:
        x = Lit.__new__(Lit)
        x.kind, x.p, x.id = kind, p, next(_cnt)
        x.fv, x.height, x.apps = p.fv, p.height, p.apps
        x._n = None
        Lit._tab[key] = x
    return x


def neg_lit(l):
    if l._n is None:
        k, p = l.kind, l.p
        if k == 'b':
            n = mk_lit('nb', p)
        elif k == 'nb':
            n = mk_lit('b', p)
        elif k == 'eq':
            n = mk_lit('ne', p)
        elif k == 'ne':
            n = mk_lit('eq', p)
        else:
            n = cmp0('lt' if k == 'le' else 'le', neg(p))
            assert isinstance(n, Lit), n
        l._n = n
        n._n = l
    return l._n


# ------------------------------------------------------------------- formulas
class Conn(object):
    __slots__ = ('op', 'args', 'id', 'fv', 'height', 'apps')
    _tab = {}

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return '(' + (' & ' if self.op == 'and' else ' | ').join(map(str, sorted(self.args, key=lambda x: x.id))) + ')'


class Const(object):
    __slots__ = ('v', 'id', 'fv', 'height', 'apps')

    def __init__(self, v):
        self.v, self.id, self.fv, self.height, self.apps = v, next(_cnt), EMPTY, 0, EMPTY

    def __repr__(self):
        return str(self.v)


TRUE, FALSE = Const(True), Const(False)


def _conn(op, args):
    key = (op, args)
    x = Conn._tab.get(key)
    if x is None:
        x = Conn.__new__(Conn)
        x.op, x.args, x.id = op, args, next(_cnt)
        x.fv = frozenset().union(*[a.fv for a in args])
        x.height = max(a.height for a in args)
        x.apps = frozenset().union(*[a.apps for a in args])
        Conn._tab[key] = x
    return x


def And(*fs):
    s = set()
    for f in fs:
        if f is TRUE:
            continue
        if f is FALSE:
            return FALSE
        if isinstance(f, Conn) and f.op == 'and':
            s |= f.args
        else:
            s.add(f)
    for f in list(s):
        if isinstance(f, Lit) and neg_lit(f) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s.pop()
    return _conn('and', frozenset(s))


def Or(*fs):
    s = set()
    for f in fs:
        if f is FALSE:
            continue
        if f is TRUE:
            return TRUE
        if isinstance(f, Conn) and f.op == 'or':
            s |= f.args
        else:
            s.add(f)
    for f in list(s):
        if isinstance(f, Lit) and neg_lit(f) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s.pop()
    return _conn('or', frozenset(s))


def Not(f):
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    if isinstance(f, Lit):
        return neg_lit(f)
    if f.op == 'and':
        return Or(*[Not(a) for a in f.args])
    return And(*[Not(a) for a in f.args])


def Implies(a, b):
    return Or(Not(a), b)


def cmp0(kind, p):
    """formula for p <kind> 0"""
    c = p.const()
    if c is not None:
        return TRUE if {'le': c <= 0, 'lt': c < 0, 'eq': c == 0, 'ne': c != 0}[kind] else FALSE
    gs = p.guards
    if gs:
        if len(gs) > 14:
            raise TermError('too many guards in comparison: %d' % len(gs))
        g = min(gs, key=lambda l: l.id)
        return Or(And(g, cmp0(kind, assume(p, g))), And(neg_lit(g), cmp0(kind, assume(p, neg_lit(g)))))
    s = p.sort
    if p.sort == CPLX and kind in ('le', 'lt'):
        if conj(p) is not p:
            raise TermError('ordering complex numbers: %s' % p)
    # normalise scale
    if s == INT:
        from math import gcd
        g = 0
        for m, c in p.t.items():
            if m != ONE_M:
                g = gcd(g, c.numerator)
        k = p.t.get(ONE_M, Fr(0))
        if kind == 'lt':
            p = p + 1
            kind = 'le'
            k = k + 1
        if g > 1:
            if kind == 'le':
                # g*q + k <= 0  <=> q + ceil(k/g) <= 0
                q = scale(p - k, Fr(1, g))
                p = q + con(-((-k) // g))
            elif k % g == 0:
                p = scale(p, Fr(1, g))
            else:
                return TRUE if kind == 'ne' else FALSE
        if kind in ('eq', 'ne') and p.t[leading(p)] < 0:
            p = neg(p)
    else:
        c = p.t[leading(p)]
        if kind in ('le', 'lt'):
            c = abs(c)
        if c != 1:
            p = scale(p, 1 / c)
    # sign knowledge
    if kind in ('le', 'lt', 'eq', 'ne'):
        sg = sign_of(p)
        if sg is not None:
            if sg == '+':
                return {'le': FALSE, 'lt': FALSE, 'eq': FALSE, 'ne': TRUE}[kind]
            if sg == '-':
                return {'le': TRUE, 'lt': TRUE, 'eq': FALSE, 'ne': TRUE}[kind]
            if sg == '+0' and kind == 'lt':
                return FALSE
            if sg == '-0' and kind == 'le':
                return TRUE
    if kind in ('eq', 'ne') and len(p.t) == 1:
        # product == 0
        (m, c), = p.t.items()
        if len(m[1]) > 1 or m[1][0][1] != 1:
            fs = [cmp0('eq', P(a)) for a, e in m[1] if e > 0 and a.kind != 'I']
            r = Or(*fs) if fs else FALSE
            return r if kind == 'eq' else Not(r)
        if m[1][0][0].kind == 'inv':
            return FALSE if kind == 'eq' else TRUE
    if kind in ('le', 'lt') and RED_HOOK and ('maxred' in p.apps or 'minred' in p.apps):
        r = RED_HOOK[0](kind, p)
        if r is not None:
            return r
    return mk_lit(kind, p)


RED_HOOK = []


def sign_of_atom(a, e=1):
    if a in POS:
        return '+'
    if e % 2 == 0 and a.sort in (INT, REAL):
        return '+0'
    if a in NONNEG:
        return '+0' if e > 0 else '+'
    if a.kind == 'app':
        fn = a.a[0]
        if fn in ('exp', 'pow10') and a.sort == REAL:
            return '+'
        if fn in ('abs', 'sqrt', 'len'):
            return '+0'
        if fn == 'pow' and a.sort == REAL:
            return '+'
    if a.kind == 'inv':
        return sign_of(a.a)
    if a.kind == 'sum' and a.sort != CPLX:
        r = '+0'
        for x, k in a.a[2]:
            s = sign_of_atom(x, k)
            if s not in ('+', '+0'):
                return None
        return r
    return None


def sign_of(p):
    pos = neg_ = strict = False
    for (g, f), c in p.t.items():
        for a, e in f:
            s = sign_of_atom(a, e)
            if s is None:
                return None
        st = all(sign_of_atom(a, e) == '+' for a, e in f) and not g
        if c > 0:
            pos = True
        else:
            neg_ = True
        strict = strict or st
    if pos and neg_:
        return None
    if pos:
        return '+' if strict else '+0'
    if neg_:
        return '-' if strict else '-0'
    return None


def le(a, b):
    return cmp0('le', pol(a) - pol(b))


def lt(a, b):
    return cmp0('lt', pol(a) - pol(b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    return cmp0('eq', pol(a) - pol(b))


def ne(a, b):
    return cmp0('ne', pol(a) - pol(b))


def bl(p):
    """formula of a boolean-sorted poly (single atom) or 0/1 numeric poly"""
    c = p.const()
    if c is not None:
        return TRUE if c != 0 else FALSE
    if p.guards:
        g = min(p.guards, key=lambda l: l.id)
        return Or(And(g, bl(assume(p, g))), And(neg_lit(g), bl(assume(p, neg_lit(g)))))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m[1]) == 1 and m[1][0][1] == 1 and m[1][0][0].sort == BOOL:
            return mk_lit('b', p)
    return cmp0('ne', p)


def iv(f):
    """Iverson bracket"""
    if f is TRUE:
        return ONE
    if f is FALSE:
        return ZERO
    if isinstance(f, Lit):
        if f.kind == 'nb':
            return ONE - mkpoly({(frozenset([neg_lit(f)]), ()): Fr(1)})
        return mkpoly({(frozenset([f]), ()): Fr(1)})
    if f.op == 'and':
        lits = [a for a in f.args if isinstance(a, Lit) and a.kind != 'nb']
        r = mkpoly({(frozenset(lits), ()): Fr(1)})
        for a in f.args:
            if not (isinstance(a, Lit) and a.kind != 'nb'):
                r = mul(r, iv(a))
        return r
    args = sorted(f.args, key=lambda a: (isinstance(a, Conn), a.id))
    r = ZERO
    notprev = TRUE
    for a in args:
        r = r + iv(And(notprev, a))
        notprev = And(notprev, Not(a))
    return r


def assume(p, lit):
    """p under the syntactic assumption lit"""
    n = neg_lit(lit)
    d = {}
    ch = False
    for (g, f), c in p.t.items():
        if lit in g:
            m = (g - {lit}, f)
            ch = True
        elif n in g:
            ch = True
            continue
        else:
            m = (g, f)
        d[m] = d.get(m, 0) + c
    return mkpoly(d) if ch else p


def ite(c, a, b):
    a, b = pol(a), pol(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isinstance(c, Lit):
        return iv(c) * assume(a, c) + iv(neg_lit(c)) * assume(b, neg_lit(c))
    if b.is_zero():
        return iv(c) * a
    if a.is_zero():
        return iv(Not(c)) * b
    return b + iv(c) * (a - b)


MAXLIFT = 8


def lift_guards(p, fn):
    """apply fn to p by case distinction over p's guards"""
    gs = p.guards
    if not gs:
        return fn(p)
    g = min(gs, key=lambda l: l.id)
    return iv(g) * lift_guards(assume(p, g), fn) + iv(neg_lit(g)) * lift_guards(assume(p, neg_lit(g)), fn)


# ---------------------------------------------------------------- applications
RULES = {}
SORTS = {}     # fn -> sort or callable(args)


def rule(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
        return f
    return deco


def app(fn, args, sort=None):
    args = tuple(a if isinstance(a, (Lam, str)) else pol(a) for a in args)
    gs = set()
    for a in args:
        if isinstance(a, Poly):
            gs |= a.guards
    if gs and len(gs) <= MAXLIFT and fn not in NOLIFT:
        g = min(gs, key=lambda l: l.id)
        n = neg_lit(g)
        a1 = [assume(a, g) if isinstance(a, Poly) else a for a in args]
        a2 = [assume(a, n) if isinstance(a, Poly) else a for a in args]
        return iv(g) * app(fn, a1, sort) + iv(n) * app(fn, a2, sort)
    r = RULES.get(fn)
    if r is not None:
        v = r(*args)
        if v is not None:
            return v
    return raw_app(fn, args, sort)


NOLIFT = set()


def raw_app(fn, args, sort=None):
    if sort is None:
        s = SORTS.get(fn)
        if s is None:
            raise TermError('no sort for %s' % fn)
        sort = s(*args) if callable(s) else s
    fv = EMPTY
    h = 0
    ap = {fn}
    for a in args:
        if isinstance(a, (Poly, Lam)):
            fv = fv | a.fv
            h = max(h, a.height)
            ap |= a.apps
    return P(_mk('app', (fn, tuple(args)), sort, fv, h, frozenset(ap)))


def is_real(p):
    return p.sort in (INT, REAL) or conj(p) is p


@rule('abs')
def _abs(p):
    c = p.const()
    if c is not None:
        return con(abs(c))
    s = sign_of(p) if p.sort != CPLX else None
    if s in ('+', '+0'):
        return p
    if s in ('-', '-0'):
        return neg(p)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m[1]) > 1 or abs(c) != 1 or m[1][0][1] != 1 or m[1][0][0].kind in ('I', 'inv'):
            r = con(abs(c))
            for a, e in m[1]:
                if a.kind == 'I':
                    continue
                if a.kind == 'inv':
                    r = r * ipow(inv(app('abs', [a.a])), e)
                elif a.kind == 'app' and a.a[0] == 'exp' and a.sort == CPLX:
                    r = r * ipow(app('exp', [re(a.a[1][0])]), e)
                else:
                    r = r * (ipow(app('abs', [P(a)]), e) if e > 0 else inv(ipow(app('abs', [P(a)]), -e)))
            return r
        a = m[1][0][0]
        if c == -1:
            return app('abs', [P(a)])
        if a.kind == 'app' and a.a[0] == 'conj':
            return app('abs', [a.a[1][0]])
        if a.kind == 'app' and a.a[0] == 'exp' and a.sort == CPLX:
            return app('exp', [re(a.a[1][0])])
        if a.kind == 'app' and a.a[0] == 'm1pow':
            return ONE
        return None
    if p.t[leading(p)] < 0:
        return app('abs', [neg(p)])
    return None


SORTS['abs'] = lambda p: INT if p.sort == INT else REAL


@rule('exp')
def _exp(p):
    if p.is_zero():
        return ONE


SORTS['exp'] = lambda p: join(p.sort, REAL)


@rule('m1pow')
def _m1pow(p):
    # (-1)**p, p integer: reduce coefficients mod 2
    if p.sort != INT:
        return None
    d = {}
    for m, c in p.t.items():
        if int(c) % 2:
            d[m] = Fr(1)
    q = mkpoly(d)
    k = q.const()
    if k is not None:
        return con(-1 if k == 1 else 1)
    if ONE_M in d:
        return neg(app('m1pow', [q - 1]))
    if q is not p:
        return app('m1pow', [q])
    return None


SORTS['m1pow'] = INT


@rule('sqrt')
def _sqrt(p):
    c = p.const()
    if c is not None and c >= 0:
        from math import isqrt
        n, d = isqrt(c.numerator), isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return con(Fr(n, d))
        return None
    if len(p.t) == 1:
        (m, c), = p.t.items()
        out = ONE
        inn = ONE
        for a, e in m[1]:
            k = (abs(e) // 2) * (1 if e > 0 else -1)
            r = e - 2 * k
            if k and a.sort != CPLX:
                ab = app('abs', [P(a)])
                out = out * (ipow(ab, k) if k > 0 else inv(ipow(ab, -k)))
                if r:
                    inn = inn * (ipow(P(a), r) if r > 0 else inv(ipow(P(a), -r)))
            else:
                inn = inn * (ipow(P(a), e) if e > 0 else inv(ipow(P(a), -e)))
        if out is not ONE:
            return out * app('sqrt', [inn * c])
    else:
        # content
        c0 = p.t[leading(p)]
    return None


SORTS['sqrt'] = REAL
SORTS['conj'] = CPLX
SORTS['angle'] = REAL
SORTS['arg'] = REAL
for _f in ('sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh', 'log', 'log10', 'pow10', 'pow', 'arctan', 'i0', 'expm1'):
    SORTS[_f] = REAL
SORTS['besselj'] = REAL


@rule('log10')
def _log10(p):
    if p is ONE:
        return ZERO
    c = p.const()
    if c is not None and c > 0:
        k = 0
        while c >= 10 and c % 10 == 0:
            c /= 10
            k += 1
        while c < 1 and (c * 10).denominator < c.denominator:
            c *= 10
            k -= 1
        while c.denominator > 1 and c < 1:
            c *= 10
            k -= 1
            if k < -60:
                break
        if c == 1:
            return con(k)
        return None
    # log10(a*b) for positive monomials
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0 and (len(m[1]) > 1 or c != 1 or m[1][0][1] != 1):
            # only pull out factors whose sign is known positive
            r = ZERO if c == 1 else app('log10', [con(c)])
            rest = ONE
            pulled = c != 1
            for a, e in m[1]:
                if sign_of_atom(a) == '+':
                    r = r + scale(app('log10', [P(a)]), e)
                    pulled = True
                else:
                    rest = rest * (ipow(P(a), e) if e > 0 else inv(ipow(P(a), -e)))
            if rest is ONE:
                return r
            if pulled:
                return r + raw_app('log10', [rest])
        if c == 1 and len(m[1]) == 1:
            a = m[1][0][0]
            if a.kind == 'app' and a.a[0] == 'pow10':
                return a.a[1][0]
    return None


@rule('pow10')
def _pow10(p):
    k = p.const()
    if k is not None and k.denominator == 1:
        return con(Fr(10) ** int(k))
    # 10**(c*log10(x) + rest)
    r = ONE
    rest = {}
    for m, c in p.t.items():
        if len(m[1]) == 1 and not m[0] and m[1][0][1] == 1 and m[1][0][0].kind == 'app' \
                and m[1][0][0].a[0] == 'log10' and c.denominator == 1:
            x = m[1][0][0].a[1][0]
            r = r * (ipow(x, int(c)) if c > 0 else inv(ipow(x, -int(c))))
        elif m == ONE_M and (c.numerator // c.denominator) != 0:
            k = c.numerator // c.denominator
            r = r * con(Fr(10) ** k)
            rest[m] = c - k
        else:
            rest[m] = c
    q = mkpoly(rest)
    if q is not p:
        return r * app('pow10', [q])
    return None


@rule('log')
def _log(p):
    if p is ONE:
        return ZERO
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m[1]) == 1 and m[1][0][1] == 1 and m[1][0][0].kind == 'app' and m[1][0][0].a[0] == 'exp' \
                and m[1][0][0].sort == REAL:
            return m[1][0][0].a[1][0]


def _odd(fn):
    def f(p):
        if p.is_zero():
            return ZERO
        if p.t[leading(p)] < 0:
            return neg(app(fn, [neg(p)]))
    return f


for _f in ('sin', 'tan', 'tanh', 'sinh', 'arctan'):
    RULES[_f] = _odd(_f)


def _even(fn):
    def f(p):
        if p.is_zero():
            return ONE
        if p.t[leading(p)] < 0:
            return app(fn, [neg(p)])
    return f


for _f in ('cos', 'cosh', 'i0'):
    RULES[_f] = _even(_f)


SORTS['wrap'] = INT


@rule('wrap')
def _wrap(k, n):
    """python index normalisation: k if k >= 0 else k + n"""
    c = k.const()
    if c is not None:
        return k if c >= 0 else k + n
    if not k.guards:
        s = sign_of(k)
        if s in ('+', '+0'):
            return k
        # -1 - nonneg?
        s = sign_of(k + 1)
        if s in ('-', '-0') or s == '-':
            return k + n
    return None


@rule('rnd')
def _rnd(x, n):
    """round(x, n); idempotent and odd (round half even on the reals)"""
    c = x.const()
    if c is not None and n.const() is not None:
        return con(Fr(round(c, int(n.const()))))
    if x.sort == INT and n.const() is not None and n.const() >= 0:
        return x
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if c == 1 and len(m[1]) == 1 and m[1][0][1] == 1:
            a = m[1][0][0]
            if a.kind == 'app' and a.a[0] == 'rnd':
                n2 = a.a[1][1]
                if n2 is n or (n2.const() is not None and n.const() is not None and n2.const() <= n.const()):
                    return x
    return None


SORTS['rnd'] = REAL


@rule('trunc', 'floor', 'ceil')
def _trunc0(x):
    return None


def _mk_toint(fn, f):
    def g(x):
        if x.sort == INT:
            return x
        c = x.const()
        if c is not None:
            return con(f(c))
        if fn != 'trunc' and not x.guards:
            # an integer plus a constant
            one = x.t.get(ONE_M)
            if one is not None and one.denominator != 1:
                rest = x - one
                if rest.sort == INT:
                    return rest + f(one)
    RULES[fn] = g
    SORTS[fn] = INT


import math as _math
_mk_toint('trunc', lambda c: _math.trunc(c))
_mk_toint('floor', lambda c: _math.floor(c))
_mk_toint('ceil', lambda c: _math.ceil(c))


@rule('pow')
def _pow(b, e):
    c = e.const()
    if c is not None and c.denominator == 1:
        return ipow(b, int(c))
    if c is not None and c.denominator == 2 and c.numerator == 1:
        return app('sqrt', [b])
    if b.const() is not None and b.const() == 10:
        return app('pow10', [e])
    if b.const() is not None and b.const() == -1 and e.sort == INT:
        return app('m1pow', [e])
    if b is ONE:
        return ONE
    if e.sort == INT and not e.guards and not b.guards and b.t:
        # integer exponents: the sign of the base splits off, and a positive constant part when the rest is non-negative
        if b.t[leading(b)] < 0:
            return app('m1pow', [e]) * app('pow', [neg(b), e])
        c = e.t.get(ONE_M, 0)
        q = e - con(c)
        if c > 0 and sign_of(q) in ('+', '+0'):
            return ipow(b, int(c)) * app('pow', [b, q])
    return None


SORTS['pow'] = lambda b, e: join(REAL, b.sort)


@rule('besselj')
def _besselj(n, x):
    c = n.const()
    if x.is_zero() and c is not None:
        return ONE if c == 0 else ZERO
    if c is not None and c.denominator == 1 and c < 0:
        return scale(app('besselj', [con(-c), x]), Fr(-1 if int(c) % 2 else 1))
    return None


# ------------------------------------------------------------------ conjugate

def conj_atom(a):
    if a._conj is None:
        a._conj = _conj_atom(a)
    return a._conj


def _conj_atom(a):
    if a.kind == 'I':
        return neg(IU)
    if a.sort in (INT, REAL, BOOL):
        return P(a)
    if a.kind == 'sum':
        return sum_map_body(a, conj)
    if a.kind == 'inv':
        return inv(conj(a.a))
    if a.kind == 'app':
        if a.a[0] == 'conj':
            return a.a[1][0]
        if a.a[0] == 'exp':
            return app('exp', [conj(a.a[1][0])])
        if a.a[0] in CONJ_COMMUTES:
            return app(a.a[0], [conj(x) if isinstance(x, Poly) else x for x in a.a[1]], a.sort)
        if a.a[0] in REALFN_C:
            pass
    return raw_app('conj', (P(a),))


CONJ_COMMUTES = set()
REALFN_C = set()


def conj(p):
    if p.sort != CPLX:
        return p
    rs = []
    for (g, f), c in p.t.items():
        r = mkpoly({(g, ()): c})
        for a, e in f:
            q = conj_atom(a)
            r = r * (ipow(q, e) if e > 0 else inv(ipow(q, -e)))
        rs.append(r)
    return psum(rs)


def _conj_rule(p):
    if len(p.t) == 1 and not p.guards:
        (m, c), = p.t.items()
        if len(m[1]) == 1 and m[1][0][1] == 1 and c == 1 and m[1][0][0].sort == CPLX and m[1][0][0].kind in ('sym', 'app') \
                and not (m[1][0][0].kind == 'app' and (m[1][0][0].a[0] in ('conj', 'exp') or m[1][0][0].a[0] in CONJ_COMMUTES)):
            return None
    return conj(p)


RULES['conj'] = _conj_rule


def re(p):
    if p.sort != CPLX:
        return p
    return scale(p + conj(p), Fr(1, 2))


def im(p):
    if p.sort != CPLX:
        return ZERO
    return scale(p - conj(p), Fr(-1, 2)) * IU


# ------------------------------------------------------------------------ sums

def sum_open(a):
    """SumAtom -> (vars, guards, factors) with fresh names"""
    vs = a.a[0]
    fr = [fresh('o') for _ in vs]
    mp = {v: P(f) for v, f in zip(vs, fr)}
    g = [subst_lit(l, mp) for l in a.a[1]]
    body = subst_factors(a.a[2], mp)
    return fr, g, body


def sum_map_body(a, f):
    vs, g, body = sum_open(a)
    return mk_sum(vs, And(*g), f(body))


def mk_sum(vs, dom, body):
    vs = [v if isinstance(v, Atom) else atom_of(v) for v in vs]
    body = mul(iv(dom), pol(body))
    rs = []
    for (g, f), c in body.t.items():
        rs.append(scale(_sum_mono(list(vs), g, f), c))
    return psum(rs)


def solve_linear(p, v):
    """p == 0 for int v: returns the solution Poly if v occurs linearly with coefficient +-1"""
    c = None
    rest = {}
    for m, k in p.t.items():
        if len(m[1]) == 1 and m[1][0][0] is v and m[1][0][1] == 1 and not m[0]:
            c = k
        else:
            rest[m] = k
    if c is None or abs(c) != 1:
        return None
    r = mkpoly(rest)
    if v in r.fv:
        return None
    return scale(r, -1 / c)


def no_int_root(p):
    """p == 0 has no integer solution because of divisibility"""
    if p.sort != INT or p.guards:
        return False
    g, k = 0, Fr(0)
    for m, c in p.t.items():
        if not m[1]:
            k = c
            continue
        if c.denominator != 1 or any(e < 0 or a.sort != INT for a, e in m[1]):
            return False
        g = math.gcd(g, int(c))
    return g > 1 and (k.denominator != 1 or int(k) % g != 0)


def solve_scaled(p, v):
    """p == 0 for int v with an integer coefficient c, |c| > 1: (value, condition) with value = floor of the quotient"""
    c, rest = None, {}
    for m, k in p.t.items():
        if len(m[1]) == 1 and m[1][0][0] is v and m[1][0][1] == 1 and not m[0]:
            c = k
        else:
            rest[m] = k
    if c is None or c.denominator != 1 or p.guards:
        return None
    r = mkpoly(rest)
    if v in r.fv or r.sort != INT:
        return None
    q = scale(r, -1 / c)
    # exact quotient
    if all(k.denominator == 1 for k in q.t.values()):
        return q, TRUE
    z = app('floor', [q])
    return z, cmp0('eq', scale(z, c) + r)


def _sum_mono(vs, guards, factors):
    vset = set(vs)
    if not vs:
        return mkpoly({(guards, factors): Fr(1)})
    # 1. flatten nested sums depending on vs
    if any(a.kind == 'sum' and a.fv & vset and e > 0 for a, e in factors):
        g = list(guards)
        rest = ONE
        for a, e in factors:
            if a.kind == 'sum' and a.fv & vset and e > 0:
                for _ in range(e):
                    nv, ng, nb = sum_open(a)
                    vs = vs + nv
                    g += ng
                    rest = rest * nb
            else:
                rest = rest * (ipow(P(a), e) if e > 0 else inv(ipow(P(a), -e)))
        return mk_sum(vs, And(*g), rest)
    # 2. eliminate by equalities
    for l in guards:
        if l.kind == 'eq':
            for v in vs:
                if v in l.fv:
                    s = solve_linear(l.p, v)
                    if s is not None and s.sort == INT:
                        mp = {v: s}
                        ng = And(*[subst_lit(x, mp) for x in guards if x is not l])
                        return mk_sum([x for x in vs if x is not v], ng, subst_factors(factors, mp))
    # 3. pull out independents / components
    og = [l for l in guards if not (l.fv & vset)]
    of = [(a, e) for a, e in factors if not (a.fv & vset)]
    ig = [l for l in guards if l.fv & vset]
    inf = [(a, e) for a, e in factors if a.fv & vset]
    parent = {v: v for v in vs}

    def find(x):
        while parent[x] is not x:
            x = parent[x]
        return x
    for it in ig + [a for a, e in inf]:
        l = [v for v in it.fv if v in vset]
        for x in l[1:]:
            parent[find(x)] = find(l[0])
    comps = {}
    for v in vs:
        comps.setdefault(find(v), []).append(v)
    res = mkpoly({(frozenset(og), tuple(of)): Fr(1)})
    for root, cv in comps.items():
        cs = set(cv)
        cg = frozenset(l for l in ig if l.fv & cs)
        cf = tuple((a, e) for a, e in inf if a.fv & cs)
        res = res * _sum_atom(cv, cg, cf)
    return res


def _sum_atom(vs, guards, factors):
    if len(vs) == 1 and not factors:
        v = vs[0]
        lo = hi = None
        ok = True
        for l in guards:
            if l.kind != 'le':
                ok = False
                break
            c = l.p.t.get((EMPTY, ((v, 1),)))
            r = l.p - (scale(P(v), c) if c else ZERO)
            if c == 1 and v not in r.fv and hi is None:
                hi = neg(r)
            elif c == -1 and v not in r.fv and lo is None:
                lo = r
            else:
                ok = False
                break
        if ok and lo is not None and hi is not None:
            n = hi - lo + 1
            return iv(le(0, n)) * n
    h = 0
    for l in guards:
        h = max(h, l.height)
    for a, e in factors:
        h = max(h, a.height)
    h += 1
    if len(vs) > 1:
        vs = sorted(vs, key=lambda v: _sig(v, guards, factors, vs))
    nv = tuple(bvar(h, i) for i in range(len(vs)))
    mp = {v: P(n) for v, n in zip(vs, nv)}
    g2 = [subst_lit(l, mp) for l in guards]
    body = subst_factors(factors, mp)
    if any(not isinstance(l, Lit) for l in g2) or len(body.t) != 1 or body.guards:
        # simplification changed the shape
        back = {n: P(fresh('o')) for n in nv}
        g3 = And(*[subst_f(l, back) for l in g2])
        return mk_sum([atom_of(back[n]) for n in nv], g3, subst(body, back))
    (m, c), = body.t.items()
    g2 = frozenset(g2)
    fv = set()
    ap = set()
    sort = INT
    for l in g2:
        fv |= l.fv
        ap |= l.apps
    for a, e in m[1]:
        fv |= a.fv
        ap |= a.apps
        sort = join(sort, REAL if a.sort == BOOL else a.sort)
        if e < 0:
            sort = join(sort, REAL)
    h2 = max([0] + [l.height for l in g2] + [a.height for a, e in m[1]]) + 1
    if h2 != h:
        back = {n: P(fresh('o')) for n in nv}
        q = subst_factors(m[1], back)
        return mk_sum([atom_of(back[n]) for n in nv], And(*[subst_lit(l, back) for l in g2]), scale(q, c))
    return scale(P(_mk('sum', (nv, g2, m[1]), sort, frozenset(fv) - set(nv), h, frozenset(ap))), c)


def _sig(v, guards, factors, vs):
    mp = {x: P(SymA('@' if x is v else '*', INT)) for x in vs}
    out = []
    for l in guards:
        if v in l.fv:
            out.append(str(subst_f(l, mp)))
    for a, e in factors:
        if v in a.fv:
            out.append(str(subst_factors(((a, e),), mp)))
    out.sort()
    return out


def atom_of(p):
    if isinstance(p, Atom):
        return p
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and not m[0] and len(m[1]) == 1 and m[1][0][1] == 1:
            return m[1][0][0]
    return None


# ---------------------------------------------------------------- substitution

def subst(p, mp):
    if not mp:
        return p
    return _subst(p, mp, {})


def _relevant(x, mp):
    fv = x.fv
    for k in mp:
        if k in fv:
            return True
    return False


def _subst(p, mp, memo):
    if not _relevant(p, mp):
        return p
    r = memo.get(p)
    if r is not None:
        return r
    rs = []
    keep = {}
    for (g, f), c in p.t.items():
        if not any(_relevant(l, mp) for l in g) and not any(_relevant(a, mp) for a, e in f):
            keep[(g, f)] = c
            continue
        q = con(c)
        for l in g:
            q = q * iv(_subst_lit(l, mp, memo))
            if q.is_zero():
                break
        if q.is_zero():
            continue
        q = q * _subst_factors(f, mp, memo)
        rs.append(q)
    r = psum([mkpoly(keep)] + rs)
    memo[p] = r
    return r


def subst_factors(f, mp):
    return _subst_factors(f, mp, {})


def _subst_factors(f, mp, memo):
    r = ONE
    same = []
    for a, e in f:
        if _relevant(a, mp):
            q = _subst_atom(a, mp, memo)
            r = r * (ipow(q, e) if e > 0 else inv(ipow(q, -e)))
        else:
            same.append((a, e))
    if same:
        r = r * mkpoly({(EMPTY, tuple(same)): Fr(1)})
    return r


def _subst_atom(a, mp, memo):
    if a.kind == 'sym':
        return mp.get(a, P(a))
    r = memo.get(a)
    if r is not None:
        return r
    if a.kind == 'app':
        fn, args = a.a
        na = [_subst(x, mp, memo) if isinstance(x, Poly) else (_subst_lam(x, mp) if isinstance(x, Lam) else x) for x in args]
        r = app(fn, na, a.sort if fn not in SORTS else None)
    elif a.kind == 'inv':
        r = inv(_subst(a.a, mp, memo))
    elif a.kind == 'sum':
        vs = a.a[0]
        fr = [fresh('o') for _ in vs]
        m2 = {k: v for k, v in mp.items()}
        for v, f in zip(vs, fr):
            m2[v] = P(f)
        memo2 = {}
        g = And(*[_subst_lit(l, m2, memo2) for l in a.a[1]])
        body = _subst_factors(a.a[2], m2, memo2)
        r = mk_sum(fr, g, body)
    else:
        r = P(a)
    memo[a] = r
    return r


def _subst_lam(l, mp):
    if not _relevant(l, mp):
        return l
    fr = [fresh('o', v.sort) for v in l.vars]
    m2 = dict(mp)
    for v, f in zip(l.vars, fr):
        m2[v] = P(f)
    return mk_lam(fr, _subst(l.body, m2, {}))


def _subst_lit(l, mp, memo=None):
    """-> formula"""
    if not _relevant(l, mp):
        return l
    p = _subst(l.p, mp, {} if memo is None else memo)
    if l.kind == 'b':
        return bl(p)
    if l.kind == 'nb':
        return Not(bl(p))
    return cmp0(l.kind, p)


def subst_lit(l, mp):
    return _subst_lit(l, mp)


def subst_f(f, mp):
    if isinstance(f, Const):
        return f
    if isinstance(f, Lit):
        return _subst_lit(f, mp)
    if not _relevant(f, mp):
        return f
    if f.op == 'and':
        return And(*[subst_f(a, mp) for a in f.args])
    return Or(*[subst_f(a, mp) for a in f.args])


def map_apps(p, fn, f, memo=None):
    """replace every application of fn (anywhere) by f(args)"""
    if memo is None:
        memo = {}
    if fn not in p.apps:
        return p
    if p in memo:
        return memo[p]
    rs = []
    for (g, fs), c in p.t.items():
        q = con(c)
        for l in g:
            q = q * iv(map_apps_f(l, fn, f, memo))
        for a, e in fs:
            r = map_apps_atom(a, fn, f, memo)
            q = q * (ipow(r, e) if e > 0 else inv(ipow(r, -e)))
        rs.append(q)
    r = psum(rs)
    memo[p] = r
    return r


def map_apps_f(l, fn, f, memo=None):
    if memo is None:
        memo = {}
    if isinstance(l, Const) or fn not in l.apps:
        return l
    if isinstance(l, Lit):
        p = map_apps(l.p, fn, f, memo)
        if l.kind == 'b':
            return bl(p)
        if l.kind == 'nb':
            return Not(bl(p))
        return cmp0(l.kind, p)
    args = [map_apps_f(a, fn, f, memo) for a in l.args]
    return And(*args) if l.op == 'and' else Or(*args)


def map_apps_atom(a, fn, f, memo):
    if fn not in a.apps:
        return P(a)
    if a in memo:
        return memo[a]
    if a.kind == 'app':
        args = []
        for x in a.a[1]:
            if isinstance(x, Poly):
                args.append(map_apps(x, fn, f, memo))
            elif isinstance(x, Lam):
                vs, b = lam_open(x)
                args.append(mk_lam(vs, map_apps(b, fn, f, memo)))
            else:
                args.append(x)
        if a.a[0] == fn:
            r = f(*args)
        else:
            r = app(a.a[0], args, a.sort if a.a[0] not in SORTS else None)
    elif a.kind == 'inv':
        r = inv(map_apps(a.a, fn, f, memo))
    elif a.kind == 'sum':
        vs, g, b = sum_open(a)
        r = mk_sum(vs, And(*[map_apps_f(x, fn, f, {}) for x in g]), map_apps(b, fn, f, {}))
    memo[a] = r
    return r


# -------------------------------------------------------------------- printing

def s_atom(a):
    if a._s is None:
        if a.kind == 'sym':
            s = a.a
        elif a.kind == 'I':
            s = 'i'
        elif a.kind == 'app':
            s = '%s(%s)' % (a.a[0], ', '.join(map(str, a.a[1])))
        elif a.kind == 'inv':
            s = '1/(%s)' % (a.a,)
        else:
            s = 'Sum{%s | %s}(%s)' % (','.join(map(str, a.a[0])), ' & '.join(sorted(map(str, a.a[1]))), s_factors(a.a[2]))
        a._s = s
    return a._s


def s_factors(f):
    if not f:
        return '1'
    return '*'.join(str(a) if e == 1 else '%s^%d' % (a, e) for a, e in f)


def s_poly(p):
    if not p.t:
        return '0'
    out = []
    for m in sorted(p.t, key=lambda m: (sorted(l.id for l in m[0]), [(a.id, e) for a, e in m[1]])):
        c = p.t[m]
        s = s_factors(m[1])
        if m[0]:
            s = '[%s]*%s' % (' & '.join(sorted(map(str, m[0]))), s)
        if c == 1:
            out.append(s)
        elif c == -1:
            out.append('-' + s)
        elif s == '1':
            out.append(str(c))
        else:
            out.append('%s*%s' % (c, s))
    return ' + '.join(out)


def subterms_atoms(p, acc=None):
    """top-level atoms (not inside binders)"""
    if acc is None:
        acc = set()
    for (g, f) in p.t:
        for l in g:
            subterms_atoms(l.p, acc)
        for a, e in f:
            if a in acc:
                continue
            acc.add(a)
            if a.kind == 'app':
                for x in a.a[1]:
                    if isinstance(x, Poly):
                        subterms_atoms(x, acc)
            elif a.kind == 'inv':
                subterms_atoms(a.a, acc)
    return acc
