"""Entailment and equality proving: own normaliser + z3 (cvc5 as cross-check back end)."""
import collections
import time
from fractions import Fraction as Fr
import z3
from .terms import *
from . import terms as T

STATS = {'z3': 0, 'z3_time': 0.0, 'cvc5': 0, 'eq': 0, 'norm': 0}
TIMEOUT_MS = 1500
_deadline = [None]


class Timeout(Exception):
    pass


def set_deadline(t):
    _deadline[0] = t


def check_deadline():
    if _deadline[0] is not None and time.time() > _deadline[0]:
        raise Timeout('obligation budget exhausted')


# ------------------------------------------------------------------ z3 encoding
class Enc(object):
    """shared z3 encoding of atoms; axioms are collected per atom"""

    def __init__(self):
        self.atoms = {}
        self.ax = {}
        self.lits = {}

    def atom(self, a):
        """-> (re, im) z3 terms; im None if real"""
        r = self.atoms.get(a)
        if r is not None:
            return r
        nm = 'a%d' % a.id
        ax = []
        if a.kind == 'sym':
            if a.sort == INT:
                r = (z3.Int(nm), None)
            elif a.sort == REAL:
                r = (z3.Real(nm), None)
            elif a.sort == BOOL:
                r = (z3.If(z3.Bool(nm), z3.RealVal(1), z3.RealVal(0)), None)
            else:
                r = (z3.Real(nm + 'r'), z3.Real(nm + 'i'))
            if a in POS:
                ax.append(r[0] > 0)
            elif a in NONNEG:
                ax.append(r[0] >= 0)
        elif a.kind == 'I':
            r = (z3.RealVal(0), z3.RealVal(1))
        elif a.kind == 'inv':
            d = self.poly(a.a)
            if d[1] is None:
                x = z3.Real(nm)
                ax.append(z3.Implies(d[0] != 0, x * d[0] == 1))
                r = (x, None)
            else:
                x, y = z3.Real(nm + 'r'), z3.Real(nm + 'i')
                nz = z3.Or(d[0] != 0, d[1] != 0)
                ax.append(z3.Implies(nz, z3.And(x * d[0] - y * d[1] == 1, x * d[1] + y * d[0] == 0)))
                r = (x, y)
        elif a.kind == 'sum':
            if a.sort == CPLX and conj_atom(a) is not P(a):
                r = (z3.Real(nm + 'r'), z3.Real(nm + 'i'))
            else:
                r = (z3.Int(nm) if a.sort == INT else z3.Real(nm), None)
        else:
            fn, args = a.a
            if fn == 'wrap':
                k, n = self.poly(args[0])[0], self.poly(args[1])[0]
                r = (z3.If(k >= 0, k, k + n), None)
            elif fn == 'abs':
                p = self.poly(args[0])
                if p[1] is None:
                    r = (z3.If(p[0] >= 0, p[0], -p[0]), None)
                else:
                    x = z3.Real(nm)
                    ax.append(x >= 0)
                    ax.append(x * x == p[0] * p[0] + p[1] * p[1])
                    r = (x, None)
            elif fn in ('trunc', 'floor', 'ceil'):
                x = z3.Int(nm)
                p = args[0]
                # multiply through by a positive denominator if there is one
                den = ONE
                for (g, f), c in p.t.items():
                    for b, e in f:
                        if e < 0 and (sign_of_atom(b) == '+'):
                            den = den * ipow(P(b), -e)
                num = p * den
                D, N = self.poly(den)[0], self.poly(num)[0]
                if fn == 'trunc':
                    ax.append(z3.If(N >= 0, z3.And(x * D <= N, N < x * D + D), z3.And(x * D - D < N, N <= x * D)))
                elif fn == 'floor':
                    ax.append(z3.And(x * D <= N, N < x * D + D))
                else:
                    ax.append(z3.And(x * D - D < N, N <= x * D))
                r = (x, None)
            elif fn == 'sqrt':
                p = self.poly(args[0])
                x = z3.Real(nm)
                if p[1] is None:
                    ax.append(x >= 0)
                    ax.append(z3.Implies(p[0] >= 0, x * x == p[0]))
                r = (x, None)
            elif fn == 'm1pow':
                x = z3.Int(nm)
                ax.append(z3.Or(x == 1, x == -1))
                r = (x, None)
            elif fn == 'conj':
                p = self.poly(args[0])
                r = (p[0], -p[1] if p[1] is not None else None)
            elif a.sort == CPLX:
                r = (z3.Real(nm + 'r'), z3.Real(nm + 'i'))
            else:
                enc = []
                ok = True
                for x in args:
                    if isinstance(x, Poly) and x.sort != CPLX:
                        enc.append(self.poly(x)[0])
                    elif isinstance(x, Poly):
                        q = self.poly(x)
                        enc += [q[0], q[1]]
                    elif isinstance(x, Lam):
                        enc.append(z3.IntVal(x.id))
                    else:
                        enc.append(z3.IntVal(abs(hash(x)) % (10 ** 9)))
                enc = [z3.ToReal(e) if z3.is_int(e) else e for e in enc]
                rs = {INT: z3.IntSort(), REAL: z3.RealSort(), BOOL: z3.BoolSort()}[a.sort]
                f = z3.Function('f_%s_%d_%s' % (fn, len(enc), a.sort), *([z3.RealSort()] * len(enc) + [rs])) if enc else None
                x = f(*enc) if enc else z3.Const(nm, rs)
                if a.sort == BOOL:
                    x = z3.If(x, z3.RealVal(1), z3.RealVal(0))
                r = (x, None)
                sg = sign_of_atom(a)
                if sg == '+':
                    ax.append(x > 0)
                elif sg == '+0':
                    ax.append(x >= 0)
                if fn in EXTRA_AX:
                    self.atoms[a] = r
                    self.ax[a] = ax
                    ax += EXTRA_AX[fn](self, x, args)
        self.atoms[a] = r
        self.ax[a] = ax
        return r

    def boolatom(self, p):
        a = atom_of(p)
        if a is None:
            return z3.Bool('bp%d' % p.id)
        if a.kind == 'sym':
            return z3.Bool('a%d' % a.id)
        r = self.atom(a)[0]
        return r == 1

    def poly(self, p):
        re_, im_ = [], []
        for (g, f), c in p.t.items():
            if p.sort == INT:
                tr, ti = z3.IntVal(c.numerator), None
            else:
                tr, ti = z3.RealVal(c.numerator) / z3.RealVal(c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator), None
            for a, e in f:
                ar, ai = self.atom(a)
                if e < 0:
                    # 1/atom
                    q = self.inv_const(a)
                    ar, ai = q
                for _ in range(abs(e)):
                    if ti is None and ai is None:
                        tr = tr * ar
                    elif ti is None:
                        tr, ti = tr * ar, tr * ai
                    elif ai is None:
                        tr, ti = tr * ar, ti * ar
                    else:
                        tr, ti = tr * ar - ti * ai, tr * ai + ti * ar
            if g:
                c_ = z3.And(*[self.lit(l) for l in g])
                zero = z3.IntVal(0) if z3.is_int(tr) else z3.RealVal(0)
                tr = z3.If(c_, tr, zero)
                if ti is not None:
                    ti = z3.If(c_, ti, z3.RealVal(0))
            re_.append(tr)
            if ti is not None:
                im_.append(ti)
        if not re_:
            return (z3.IntVal(0), None)
        return (z3.Sum(*re_) if len(re_) > 1 else re_[0], (z3.Sum(*im_) if len(im_) > 1 else im_[0]) if im_ else None)

    def inv_const(self, a):
        key = ('inv', a)
        r = self.atoms.get(key)
        if r is None:
            ar, ai = self.atom(a)
            x = z3.Real('inv%d' % a.id)
            if ai is None:
                r = (x, None)
                axs = [z3.Implies(ar != 0, x * ar == 1)]
                sg = sign_of_atom(a)
                if sg == '+':
                    axs.append(x > 0)
            else:
                y = z3.Real('invi%d' % a.id)
                r = (x, y)
                axs = [z3.Implies(z3.Or(ar != 0, ai != 0), z3.And(x * ar - y * ai == 1, x * ai + y * ar == 0))]
            self.atoms[key] = r
            self.ax.setdefault(a, [])
            self.ax[a] = self.ax[a] + axs
        return r

    def lit(self, l):
        r = self.lits.get(l)
        if r is not None:
            return r
        if l.kind in ('nb', 'b'):
            r = self.boolatom(l.p)
            if l.kind == 'nb':
                r = z3.Not(r)
        else:
            re_, im_ = self.poly(l.p)
            if l.kind == 'le':
                r = re_ <= 0
            elif l.kind == 'lt':
                r = re_ < 0
            elif l.kind == 'eq':
                r = re_ == 0 if im_ is None else z3.And(re_ == 0, im_ == 0)
            else:
                r = re_ != 0 if im_ is None else z3.Or(re_ != 0, im_ != 0)
        self.lits[l] = r
        return r

    def form(self, f):
        if isinstance(f, Const):
            return z3.BoolVal(f.v)
        if isinstance(f, Lit):
            return self.lit(f)
        args = [self.form(a) for a in f.args]
        return z3.And(*args) if f.op == 'and' else z3.Or(*args)


EXTRA_AX = {}
ENC = Enc()


def atoms_of_f(f, acc):
    if isinstance(f, Const):
        return acc
    if isinstance(f, Lit):
        return subterms_atoms(f.p, acc)
    for a in f.args:
        atoms_of_f(a, acc)
    return acc


_acache = {}


def axioms_for(f):
    r = _acache.get(f)
    if r is None:
        ENC.form(f)
        r = []
        for a in atoms_of_f(f, set()):
            r.append(a)
        _acache[f] = r
    out = []
    for a in r:
        out += ENC.ax.get(a, [])
    return out


class Ctx(object):
    """an immutable set of facts"""
    __slots__ = ('facts', 'fset', '_solver', '_cache', '_sub', 'axs')

    def __init__(self, facts=()):
        fs = []
        seen = set()
        for f in facts:
            if isinstance(f, Conn) and f.op == 'and':
                for a in sorted(f.args, key=lambda x: x.id):
                    if a not in seen:
                        seen.add(a)
                        fs.append(a)
            elif f is not TRUE and f not in seen:
                seen.add(f)
                fs.append(f)
        self.facts = tuple(fs)
        self.fset = frozenset(seen)
        self._solver = None
        self._cache = {}
        self._sub = None

    _tab = {}

    def add(self, *fs):
        new = []
        for f in fs:
            if isinstance(f, Conn) and f.op == 'and':
                new += list(f.args)
            else:
                new.append(f)
        new = [f for f in new if f not in self.fset and f is not TRUE]
        if not new:
            return self
        key = (self.fset | frozenset(new))
        c = Ctx._tab.get(key)
        if c is None:
            c = Ctx(self.facts + tuple(sorted(new, key=lambda x: x.id)))
            Ctx._tab[key] = c
        return c

    _live = collections.OrderedDict()      # contexts whose z3 solver is kept, least recently used first

    def solver(self):
        Ctx._live[self] = True
        Ctx._live.move_to_end(self)
        if len(Ctx._live) > 64:
            old, _ = Ctx._live.popitem(last=False)
            old._solver = None
        if self._solver is None:
            s = z3.Solver()
            s.set('timeout', TIMEOUT_MS)
            self.axs = set()
            for f in self.facts:
                s.add(ENC.form(f))
                for x in axioms_for(f):
                    i = x.get_id()
                    if i not in self.axs:
                        self.axs.add(i)
                        s.add(x)
            self._solver = s
        return self._solver

    def unsat_with(self, f):
        """True iff facts & f is unsatisfiable (proved)"""
        if f is FALSE:
            return True
        r = self._cache.get(f)
        if r is not None:
            return r
        check_deadline()
        s = self.solver()
        t0 = time.time()
        s.push()
        s.add(ENC.form(f))
        for x in axioms_for(f):
            if x.get_id() not in self.axs:
                s.add(x)
        res = s.check()
        s.pop()
        STATS['z3'] += 1
        dt = time.time() - t0
        STATS['z3_time'] += dt
        if TRACE_SLOW and dt > TRACE_SLOW:
            print('slow z3 %.2f %s: %s' % (dt, res, str(f)[:300]))
        r = res == z3.unsat
        self._cache[f] = r
        return r

    def entails(self, f):
        if f is TRUE:
            return True
        if f in self.fset:
            return True
        if f is FALSE:
            return self.unsat_with(TRUE)
        if isinstance(f, Lit) and neg_lit(f) in self.fset:
            return self.unsat_with(TRUE)
        if isinstance(f, Conn) and f.op == 'and':
            return all(self.entails(a) for a in sorted(f.args, key=lambda x: x.id))
        return self.unsat_with(Not(f))

    def inconsistent(self):
        return self.unsat_with(TRUE)

    def substitution(self):
        """variable eliminations implied by equality facts (syms only)"""
        if self._sub is None:
            mp = {}
            for f in self.facts:
                if isinstance(f, Lit) and f.kind == 'eq':
                    p = subst(f.p, mp)
                    if p.guards or p.is_const():
                        continue
                    for v in sorted(p.fv, key=lambda v: (not v.a.startswith('_'), v.id)):
                        if v.sort == INT and p.sort != INT:
                            continue
                        s = solve_linear(p, v) if v.sort == INT else _solve_lin_real(p, v)
                        if s is not None and (v.sort != INT or s.sort == INT) and (v.sort != REAL or s.sort != CPLX):
                            mp = {k: subst(q, {v: s}) for k, q in mp.items()}
                            mp[v] = s
                            break
            self._sub = mp
        return self._sub


TRACE_SLOW = 0


def _solve_lin_real(p, v):
    c = None
    rest = {}
    for m, k in p.t.items():
        if len(m[1]) == 1 and m[1][0][0] is v and m[1][0][1] == 1 and not m[0]:
            c = k
        else:
            rest[m] = k
    if c is None:
        return None
    r = mkpoly(rest)
    if v in r.fv:
        return None
    return scale(r, -1 / c)


CTX0 = Ctx()


# -------------------------------------------------------------- normalisation

def lit_truth(l, ctx):
    if ctx.entails(l):
        return True
    if ctx.entails(neg_lit(l)):
        return False
    return None


def norm(p, ctx, deep=True):
    """simplify p under ctx"""
    sub = ctx.substitution()
    if sub:
        p = subst(p, sub)
    return _norm(p, ctx, deep)


_normcache = {}


def _norm(p, ctx, deep):
    if not p.t:
        return p
    key = (p, ctx, deep)
    r = _normcache.get(key)
    if r is not None:
        return r
    STATS['norm'] += 1
    # decide guards globally first
    q = p
    for g in sorted(p.guards, key=lambda l: l.id):
        if g not in q.guards and neg_lit(g) not in q.guards:
            continue
        t = lit_truth(g, ctx)
        if t is True:
            q = assume(q, g)
        elif t is False:
            q = assume(q, neg_lit(g))
    out = []
    for (g, f), c in q.t.items():
        c2 = ctx
        if g:
            c2 = ctx.add(*g)
            if len(g) > 1 and c2.inconsistent():
                continue
        r = mkpoly({(g, ()): c})
        if deep:
            for a, e in f:
                x = norm_atom(a, c2)
                r = r * (ipow(x, e) if e > 0 else inv(ipow(x, -e)))
        else:
            r = r * mkpoly({(EMPTY, f): Fr(1)})
        out.append(r)
    r = psum(out)
    _normcache[key] = r
    return r


_cancelled = {}


def cancel_inv(p):
    """p with quotients N/D replaced where D divides N exactly"""
    r = _cancelled.get(p)
    if r is None:
        r = _cancelled[p] = _cancel_inv(p)
    return r


def _cancel_inv(p):
    for _ in range(4):
        dens = set(a for (g, f) in p.t for a, e in f if a.kind == 'inv')
        if not dens:
            return p
        q0 = p
        for d in sorted(dens, key=lambda a: a.id):
            by = {}
            for (g, f), c in p.t.items():
                e = dict(f).get(d, 0)
                if e > 0:
                    ff = tuple(x for x in f if x[0] is not d)
                    by.setdefault((g, e), []).append(mkpoly({(EMPTY, ff): c}))
            for (g, e), ms in by.items():
                if len(ms) < len(d.a.t):
                    continue
                n = psum(ms)
                q = divide(n, d.a)
                if q is not None:
                    gp = mkpoly({(g, ()): Fr(1)})
                    p = p - mul(gp, mul(n, ipow(P(d), e))) + mul(gp, mul(q, ipow(P(d), e - 1)))
        if p is q0:
            return p
    return p


def divide(n, d, limit=40):
    """exact quotient n/d of guard free polynomials, or None"""
    if d.guards or n.guards:
        return None
    lm = leading(d)
    lc = d.t[lm]
    lf = dict(lm[1])
    q, r = ZERO, n
    for _ in range(limit):
        if not r.t:
            return q if mul(q, d) is n else None
        m = leading(r)
        mf = dict(m[1])
        for a, e in lf.items():
            k = mf.get(a, 0) - e
            if (e > 0 and mf.get(a, 0) < e) or (e < 0 and mf.get(a, 0) > e):
                return None
            mf[a] = k
        t = mkpoly({(EMPTY, tuple(sorted(((a, e) for a, e in mf.items() if e), key=lambda x: x[0].id))): r.t[m] / lc})
        q = q + t
        r = r - mul(t, d)
    return None


def norm_atom(a, ctx):
    if a.kind == 'app':
        fn, args = a.a
        na = []
        for x in args:
            if isinstance(x, Poly):
                x = norm(x, ctx)
                na.append(cancel_inv(x) if len(x.t) > 1 else x)
            elif isinstance(x, Lam):
                na.append(norm_lam(x, ctx))
            else:
                na.append(x)
        if fn == 'wrap' and not na[0].guards:
            k, n = na
            if ctx.entails(le(0, k)):
                return k
            if ctx.entails(lt(k, 0)):
                return norm(k + n, ctx)
        if fn == 'abs' and na[0].sort != CPLX and not na[0].guards:
            if ctx.entails(le(0, na[0])):
                return na[0]
            if ctx.entails(le(na[0], 0)):
                return neg(na[0])
        if fn in NORM_HOOKS:
            r = NORM_HOOKS[fn](na, ctx)
            if r is not None:
                return r
        if tuple(na) == args:
            return P(a)
        return app(fn, na, a.sort if fn not in SORTS else None)
    if a.kind == 'inv':
        x = norm(a.a, ctx)
        if x is a.a:
            return P(a)
        if x.is_zero():
            return P(a)
        return inv(x)
    if a.kind == 'sum':
        return norm_sum(a, ctx)
    return P(a)


NORM_HOOKS = {}


def norm_lam(l, ctx):
    if not (l.apps & NORM_SENSITIVE) and not l.body.guards and not ctx.substitution():
        return l
    vs, b = lam_open(l)
    return mk_lam(vs, norm(b, ctx))


NORM_SENSITIVE = {'wrap', 'abs'}


def clear_pos(p, ctx):
    """p times a positive quantity, without denominators known positive under ctx"""
    for _ in range(6):
        dens = {}
        for (g, f), c in p.t.items():
            for a, e in f:
                if a.kind == 'inv':
                    dens[a] = max(dens.get(a, 0), e)
                elif e < 0:
                    dens[a] = max(dens.get(a, 0), -e)
        if not dens:
            return p
        done = False
        for a in sorted(dens, key=lambda a: a.id):
            e = dens[a]
            base = a.a if a.kind == 'inv' else P(a)
            if base.sort != CPLX and ctx.entails(lt(0, base)):
                out = []
                for (g, f), c in p.t.items():
                    ff = dict(f)
                    if a.kind == 'inv':
                        k = ff.pop(a, 0)
                        m = mkpoly({(g, tuple(sorted(ff.items(), key=lambda x: x[0].id))): c})
                        out.append(m * ipow(base, e - k))
                    else:
                        out.append(mkpoly({(g, f): c}) * ipow(base, e))
                p = psum(out)
                done = True
                break
        if not done:
            return None
    return None


_xl = {}


def expand_lit(l, ctx):
    """literals equivalent to l under ctx (a conjunction), or None"""
    if not isinstance(l, Lit) or l.kind not in ('le', 'lt') or not (l.p.apps & {'max', 'min', 'trunc', 'floor', 'ceil'}):
        return None
    key = (l, ctx)
    if key in _xl:
        return _xl[key]
    _xl[key] = None
    r = _expand_lit(l, ctx)
    _xl[key] = r
    return r


def _expand_lit(l, ctx):
    for (g, f), c in l.p.t.items():
        if g or len(f) != 1 or f[0][1] != 1 or f[0][0].kind != 'app':
            continue
        a = f[0][0]
        fn = a.a[0]
        rest = l.p - mkpoly({(g, f): c})
        out = None
        if fn in ('max', 'min') and len(a.a[1]) == 2:
            x, y = a.a[1]
            if (c > 0) == (fn == 'max'):
                out = [cmp0(l.kind, scale(x, c) + rest), cmp0(l.kind, scale(y, c) + rest)]
            else:
                b = None
                if ctx.entails(le(x, y)):
                    b = y if fn == 'max' else x
                elif ctx.entails(le(y, x)):
                    b = x if fn == 'max' else y
                if b is not None:
                    out = [cmp0(l.kind, scale(b, c) + rest)]
        elif fn in ('trunc', 'floor', 'ceil') and abs(c) == 1 and rest.sort == INT and all(k.denominator == 1 for k in rest.t.values()):
            q = a.a[1][0]
            if fn == 'trunc':
                z = clear_pos(q, ctx)
                if z is None:
                    continue
                if ctx.entails(le(0, z)):
                    fn = 'floor'
                elif ctx.entails(le(z, 0)):
                    fn = 'ceil'
                else:
                    continue
            r = rest if l.kind == 'le' else rest + 1      # c*a + r <= 0
            if fn == 'floor':
                k, z = ('lt', q + r - 1) if c > 0 else ('le', r - q)
            else:
                k, z = ('le', q + r) if c > 0 else ('lt', r - 1 - q)
            z = clear_pos(z, ctx)
            if z is None:
                continue
            out = [cmp0(k, z)]
        if out is None:
            continue
        fin = []
        for x in out:
            if isinstance(x, Lit):
                y = expand_lit(x, ctx)
                fin += y if y is not None else [x]
            elif isinstance(x, Const):
                fin.append(x)
            else:
                return None
        return fin
    return None


def norm_guards(vs, g, ctx):
    """tidy the guards of a sum: returns list of (sub-)domains covering it"""
    g = list(g)
    for _ in range(12):
        ch = False
        for l in list(g):
            others = [x for x in g if x is not l]
            c2 = ctx.add(*others)
            if 'wrap' in l.apps and isinstance(l, Lit):
                n = norm(l.p, c2)
                if n is not l.p:
                    f = cmp0(l.kind, n)
                    if f is FALSE:
                        return []
                    if isinstance(f, Lit):
                        g = others + [f]
                        ch = True
                        break
                    if f is TRUE:
                        g = others
                        ch = True
                        break
                w = [a for a in subterms_atoms(l.p) if a.kind == 'app' and a.a[0] == 'wrap' and a.fv & set(vs) and not a.a[1][0].guards]
                for a in sorted(w, key=lambda a: a.id):
                    c = le(0, a.a[1][0])
                    if isinstance(c, Lit) and not c2.entails(c) and not c2.entails(neg_lit(c)):
                        return norm_guards(vs, g + [c], ctx) + norm_guards(vs, g + [neg_lit(c)], ctx)
            x = expand_lit(l, c2)
            if x is not None:
                if FALSE in x:
                    return []
                g = others + [y for y in x if y is not TRUE]
                ch = True
                break
            if isinstance(l, Lit) and l.kind == 'ne' and l.p.sort == INT and l.fv & set(vs):
                f = None
                if c2.entails(le(0, l.p)):
                    f = lt(0, l.p)
                elif c2.entails(le(l.p, 0)):
                    f = lt(l.p, 0)
                if isinstance(f, Lit):
                    g = others + [f]
                    ch = True
                    break
        if not ch:
            break
    return [g]


def norm_sum(a, ctx):
    vs, g, body = sum_open(a)
    # equalities through wrap
    c2 = ctx.add(*g)
    if c2.inconsistent():
        return ZERO
    if any(isinstance(l, Lit) and (l.kind == 'ne' or l.apps & {'max', 'min', 'trunc', 'floor', 'ceil', 'wrap'}) for l in g):
        gs = norm_guards(vs, g, ctx)
        if not (len(gs) == 1 and set(gs[0]) == set(g)):
            return psum([norm(mk_sum(vs, And(*x), body), ctx) for x in gs])
    for l in g:
        if isinstance(l, Lit) and l.kind == 'eq' and 'wrap' in l.apps:
            r = elim_wrap_eq(l, vs, g, body, ctx)
            if r is not None:
                return r
    body0 = body
    if 'floor' in body.apps:
        body = map_apps(body, 'floor', simple_floor(Ctx([f for f in c2.facts if isinstance(f, Lit) and not f.apps and f.kind in ('le', 'lt', 'eq', 'ne')])))
    b2 = norm(body, c2)
    # drop domain guards implied by the others / by ctx
    g2 = list(g)
    for l in list(g2):
        if isinstance(l, Lit):
            others = [x for x in g2 if x is not l]
            if ctx.add(*others).entails(l):
                g2 = others
    if b2 is body0 and g2 == g:
        return P(a)
    r = mk_sum(vs, And(*g2), b2)
    if r is P(a):
        return r
    at = atom_of(r)
    return r


def elim_wrap_eq(l, vs, g, body, ctx):
    """sum guard  wrap(v + c, N) == e  with v summed: substitute when unique"""
    p = l.p
    wr = [(m, c) for m, c in p.t.items() if len(m[1]) == 1 and m[1][0][1] == 1 and m[1][0][0].kind == 'app'
          and m[1][0][0].a[0] == 'wrap' and abs(c) == 1 and (m[1][0][0].fv & set(vs))]
    for m, c in wr:
        w = m[1][0][0]
        e = scale(p - mkpoly({m: c}), -1 / c)     # w == e
        k, n = w.a[1]
        for v in vs:
            if v not in k.fv or v in n.fv or v in e.fv:
                continue
            others = [x for x in g if x is not l]
            cands = []
            ea = atom_of(e)
            if ea is not None and ea.kind == 'app' and ea.a[0] == 'wrap' and ea.a[1][1] is n:
                cands.append(ea.a[1][0])
            cands += [e, e - n]
            # only one candidate must be feasible: case-free requirement
            dom = ctx.add(*others)
            for cd in cands:
                if dom.add(l).entails(eq(k, cd)):
                    s = solve_linear(k - cd, v)
                    if s is None or s.sort != INT:
                        continue
                    mp = {v: s}
                    ng = And(*[subst_f(x, mp) for x in others])
                    # keep the equality itself (now v-free)
                    ng = And(ng, subst_f(l, mp))
                    return mk_sum([x for x in vs if x is not v], ng, subst(body, mp))
    return None


# ------------------------------------------------------------- sum unification

def unify_poly(pat, tgt, pv, sg, budget):
    """solve pat[sg, pv] == tgt for pattern vars pv; yields substitutions (dict)"""
    p = subst(pat, sg)
    if p is tgt:
        yield sg
        return
    free = [v for v in p.fv if v in pv and v not in sg]
    if not free:
        return
    d = p - tgt
    done = False
    for v in sorted(free, key=lambda v: v.id):
        s = solve_linear(d, v)
        if s is None:
            r = T.solve_scaled(d, v)
            s = r[0] if r is not None and r[1] is TRUE else None
        if s is not None and not any(w in pv and w not in sg for w in s.fv) and s.sort == INT:
            s2 = dict(sg)
            s2[v] = s
            yield s2
            done = True
    if done:
        return
    # structural: single atoms differ
    d1 = [(m, c) for m, c in p.t.items() if tgt.t.get(m) != c]
    d2 = [(m, c) for m, c in tgt.t.items() if p.t.get(m) != c]
    if len(d1) == 1 and len(d2) == 1 and d1[0][1] == d2[0][1]:
        f1, f2 = d1[0][0][1], d2[0][0][1]
        for s in unify_factors(f1, f2, pv, sg, budget):
            yield s


def unify_atom(a, b, pv, sg, budget):
    if a is b:
        yield sg
        return
    if a.kind == 'app' and b.kind == 'app' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
        def rec(i, s):
            if i == len(a.a[1]):
                yield s
                return
            x, y = a.a[1][i], b.a[1][i]
            if isinstance(x, Poly) and isinstance(y, Poly):
                for s2 in unify_poly(x, y, pv, s, budget):
                    for r in rec(i + 1, s2):
                        yield r
            elif isinstance(x, Lam) and isinstance(y, Lam):
                if x is y or _subst_lam_eq(x, y, s):
                    for r in rec(i + 1, s):
                        yield r
                elif len(x.vars) == len(y.vars):
                    fr = [P(fresh('u')) for _ in x.vars]
                    for s2 in unify_poly(lam_apply(x, fr), lam_apply(y, fr), pv, s, budget):
                        for r in rec(i + 1, s2):
                            yield r
            elif x == y:
                for r in rec(i + 1, s):
                    yield r
        # args with pattern vars linear first
        for r in rec(0, sg):
            yield r
    elif a.kind == 'inv' and b.kind == 'inv':
        for s in unify_poly(a.a, b.a, pv, sg, budget):
            yield s


def _subst_lam_eq(x, y, s):
    return T._subst_lam(x, s) is y


def unify_factors(f1, f2, pv, sg, budget):
    """match the factor list f1 (pattern) against f2"""
    budget[0] -= 1
    if budget[0] < 0:
        return
    pend = [(a, e) for a, e in f1 if any(v in pv and v not in sg for v in a.fv)]
    if not pend:
        yield sg
        return
    for a, e in pend[:1] if len(pend) == 1 else pend:
        for b, e2 in f2:
            if e2 != e or b.kind != a.kind:
                continue
            for s in unify_atom(a, b, pv, sg, budget):
                if s is sg and any(v in pv and v not in s for v in a.fv):
                    continue
                for r in unify_factors([x for x in f1 if x[0] is not a], [x for x in f2 if x[0] is not b], pv, s, budget):
                    yield r
        break


def sum_matches(s1, o1, s2, limit=12):
    """candidate substitutions for the vars of (vs2,g2,b2) making its body match o1's"""
    vs1, g1, b1 = o1
    vs2, g2, b2 = s2
    pv = set(vs2)
    seen = set()
    out = []
    if len(b1.t) == 1 and len(b2.t) == 1:
        (m1, c1), = b1.t.items()
        (m2, c2), = b2.t.items()
        budget = [400]
        for s in unify_factors(m2[1], m1[1], pv, {}, budget):
            key = tuple(s.get(v) for v in vs2)
            if key in seen:
                continue
            seen.add(key)
            out.append(s)
            if len(out) >= limit:
                break
    return out


def _complete(s, vs1, vs2):
    """vars of s2 not determined by the body: map to unused vars of s1"""
    import itertools
    free2 = [v for v in vs2 if v not in s]
    if not free2:
        return [s]
    used = set()
    for v in s.values():
        used |= v.fv
    free1 = [v for v in vs1 if v not in used]
    if len(free1) != len(free2):
        return []
    out = []
    for perm in itertools.permutations(free1):
        s2 = dict(s)
        for a, b in zip(free2, perm):
            s2[a] = P(b)
        out.append(s2)
    return out[:6]


def _is_bijection(s, vs1, vs2):
    """s maps vs2 -> affine in vs1; unimodular?"""
    if len(vs1) != len(vs2):
        return False
    import sympy
    M = []
    for v in vs2:
        row = []
        p = s[v]
        for u in vs1:
            c = p.t.get((EMPTY, ((u, 1),)), Fr(0))
            row.append(int(c) if c.denominator == 1 else None)
            p = p - scale(P(u), c)
        if any(x is None for x in row) or (p.fv & set(vs1)):
            return False
        M.append(row)
    return abs(sympy.Matrix(M).det()) == 1


def _perm_maps(vs1, vs2):
    import itertools
    if len(vs1) != len(vs2) or len(vs1) > 4:
        return
    for perm in itertools.permutations(vs1):
        yield {b: P(a) for a, b in zip(perm, vs2)}


def merge_sums(p, ctx, depth):
    """try to rewrite p so that provably equal sums share one atom; then try weight grouping"""
    sums = sorted({a for (g, f) in p.t for a, e in f if a.kind == 'sum'}, key=lambda a: a.id)
    if not sums:
        return p
    opened = {a: sum_open(a) for a in sums}
    rep = {}
    reps = []
    for a in sums:
        hit = None
        for b in reps:
            if len(b.a[0]) != len(a.a[0]):
                continue
            r = sum_equal(b, a, ctx, depth)
            if r is not None:
                hit = (b, r)
                break
        if hit:
            rep[a] = scale(P(hit[0]), hit[1])
        else:
            reps.append(a)
    if rep:
        p = replace_atoms(p, rep)
    return p


def replace_atoms(p, rep):
    rs = []
    for (g, f), c in p.t.items():
        r = mkpoly({(g, ()): c})
        for a, e in f:
            q = rep.get(a)
            q = P(a) if q is None else q
            r = r * (ipow(q, e) if e > 0 else inv(ipow(q, -e)))
        rs.append(r)
    return psum(rs)


_sumeq = {}


def sum_equal(s1, s2, ctx, depth):
    """s1 == s2 (returns 1) / s1 == -s2 (returns -1) / None"""
    key = (s1, s2, ctx)
    if key in _sumeq:
        return _sumeq[key]
    _sumeq[key] = None
    o1, o2 = sum_open(s1), sum_open(s2)
    r = None
    for s in sum_matches(s1, o1, o2):
        for s_ in _complete(s, o1[0], o2[0]):
            if not _is_bijection(s_, o1[0], o2[0]):
                continue
            b1 = iv(And(*o1[1])) * o1[2]
            b2 = iv(And(*[subst_f(l, s_) for l in o2[1]])) * subst(o2[2], s_)
            if b1 is b2 or prove_zero(b1 - b2, ctx, depth + 1):
                r = 1
                break
        if r:
            break
    if r is None and depth < 3:
        for s_ in _perm_maps(o1[0], o2[0]):
            b1 = iv(And(*o1[1])) * o1[2]
            b2 = iv(And(*[subst_f(l, s_) for l in o2[1]])) * subst(o2[2], s_)
            if similar(o1[2], subst(o2[2], s_)) and prove_zero(b1 - b2, ctx, depth + 1):
                r = 1
                break
    _sumeq[key] = r
    return r


def similar(a, b):
    fa, fb = a.apps, b.apps
    return fa == fb


def group_sums(p, ctx, depth, pin=True):
    """p == 0 by putting all sums (linear occurrences, equal co-factors) under one binder"""
    groups = {}
    plain = {}
    for (g, f), c in p.t.items():
        ss = [(a, e) for a, e in f if a.kind == 'sum']
        if len(ss) == 0:
            plain[(g, f)] = c
            continue
        if len(ss) != 1 or ss[0][1] != 1:
            return False if not pin else pin_sums(p, ctx, depth)
        s = ss[0][0]
        rest = tuple(x for x in f if x[0] is not s)
        groups.setdefault(len(s.a[0]), []).append((s, g, rest, c))
    if not plain:
        if all(group_zero(items, ctx, depth) for n, items in groups.items()):
            return True
    return pin_sums(p, ctx, depth) if pin else False


def pin_sums(p, ctx, depth):
    """split off the terms of sums at the constant end points that occur in the other sums"""
    cands = {}
    for a in subterms_atoms(p):
        if a.kind != 'sum':
            continue
        vs, g, body = sum_open(a)
        for l in g:
            if isinstance(l, Lit) and l.kind in ('le', 'ne') and len(l.fv) == 1 and not l.apps:
                v = next(iter(l.fv))
                if v in vs:
                    s = solve_linear(l.p, v)
                    if s is not None and s.const() is not None and abs(s.const()) <= 3:
                        cands.setdefault(len(vs), set()).add(int(s.const()))
    if not cands:
        return False
    rep = {}
    for (g, f) in p.t:
        for a, e in f:
            if a.kind != 'sum' or a in rep:
                continue
            vs, gd, body = sum_open(a)
            c2 = ctx.add(*gd)
            for v in vs:
                hit = False
                for c in sorted(cands.get(len(vs), ())):
                    if c2.add(eq(P(v), c)).inconsistent():
                        continue
                    rep[a] = mk_sum(vs, And(*(gd + [eq(P(v), c)] if isinstance(gd, list) else list(gd) + [eq(P(v), c)])), body) + \
                        mk_sum(vs, And(*(list(gd) + [ne(P(v), c)])), body)
                    hit = True
                    break
                if hit:
                    break
    if not rep:
        return False
    q = norm(replace_atoms(p, rep), ctx)
    if q is p:
        return False
    return prove_zero(q, ctx, depth)


def group_zero(items, ctx, depth):
    """sum of c*[g]*rest*S over items == 0, all sums with the same number of vars"""
    items = list(items)
    while items:
        s0 = items[0][0]
        o0 = sum_open(s0)
        total = mkpoly({(items[0][1], items[0][2]): items[0][3]}) * iv(And(*o0[1])) * o0[2]
        used = [0]
        for i in range(1, len(items)):
            s, g, rest, c = items[i]
            o = sum_open(s)
            for m in sum_matches(s0, o0, o):
                ok = False
                for m_ in _complete(m, o0[0], o[0]):
                    if not _is_bijection(m_, o0[0], o[0]):
                        continue
                    # rest factors may be folded under the binder as well
                    b = subst(o[2], m_)
                    if b is o0[2] or syn_same_apps(b, o0[2]):
                        total = total + mkpoly({(g, rest): c}) * iv(And(*[subst_f(l, m_) for l in o[1]])) * b
                        used.append(i)
                        ok = True
                        break
                if ok:
                    break
        if len(used) == 1:
            # perhaps the sum itself vanishes
            if not prove_zero(total, ctx, depth + 1):
                return False
        elif not prove_zero(total, ctx, depth + 1):
            return False
        items = [x for i, x in enumerate(items) if i not in used]
    return True


def syn_same_apps(a, b):
    return a.apps == b.apps


# -------------------------------------------------------------------- proving
_pz = {}
MAXDEPTH = 9


def prove_zero(p, ctx, depth=0, splits=0):
    if not p.t:
        return True
    key = (p, ctx)
    r = _pz.get(key)
    if r is not None:
        return r
    check_deadline()
    _pz[key] = False
    r = _prove_zero(p, ctx, depth, splits)
    _pz[key] = r
    return r


DEBUG = [0]


def _prove_zero(p, ctx, depth, splits):
    STATS['eq'] += 1
    if depth > MAXDEPTH:
        return False
    if ctx.inconsistent():
        return True
    p = norm(p, ctx)
    if not p.t:
        return True
    p2 = merge_apps(p, ctx, depth)
    if p2 is not p:
        p = norm(p2, ctx)
        if not p.t:
            return True
    p = merge_sums(p, ctx, depth)
    if not p.t:
        return True
    if p.is_const():
        return ctx.inconsistent()
    # linear grouping of sums
    if any(a.kind == 'sum' for (g, f) in p.t for a, e in f):
        if group_sums(p, ctx, depth):
            return True
    gs = p.guards
    if gs and splits < 24:
        cnt = {}
        for (g, f) in p.t:
            for l in g:
                b = min(l, neg_lit(l), key=lambda x: x.id)
                cnt[b] = cnt.get(b, 0) + 1
        l = max(cnt, key=lambda x: (cnt[x], -x.id))
        return (prove_zero(assume(p, l), ctx.add(l), depth, splits + 1) and
                prove_zero(assume(p, neg_lit(l)), ctx.add(neg_lit(l)), depth, splits + 1))
    # wrap case split
    w = find_app(p, 'wrap')
    if w is not None and splits < 24:
        c = le(0, w.a[1][0])
        if isinstance(c, Lit):
            return prove_zero(p, ctx.add(c), depth, splits + 1) and prove_zero(p, ctx.add(neg_lit(c)), depth, splits + 1)
    # clear denominators
    q = clear_inv(p, ctx)
    if q is not None and q is not p:
        if prove_zero(q, ctx, depth + 1, splits):
            return True
    # z3
    if z3_zero(p, ctx):
        return True
    # integer symbols whose value the facts determine
    if depth < MAXDEPTH:
        mp = implied_values(p, ctx)
        if mp:
            q = norm(subst(p, mp), ctx)
            if q is not p and prove_zero(q, ctx, depth + 1, splits):
                return True
    if DEBUG[0] > depth:
        print('UNPROVED(depth %d): %s\n   ctx: %s' % (depth, str(p)[:3000], ' ; '.join(map(str, ctx.facts))[:1500]))
    return False


def implied_values(p, ctx):
    """{sym: value} for the integer symbols of p with a value forced by the facts (or forced equal to another symbol)"""
    vs = sorted((v for v in p.fv if v.sort == INT), key=lambda v: v.id)
    if not vs or len(vs) > 12:
        return {}
    s = ctx.solver()
    check_deadline()
    s.push()
    ts = {v: ENC.atom(v)[0] for v in vs}
    for v in vs:
        for x in ENC.ax.get(v, []):
            s.add(x)
    r = s.check()
    vals = {}
    if r == z3.sat:
        m = s.model()
        for v in vs:
            x = m.eval(ts[v], model_completion=True)
            if z3.is_int_value(x):
                vals[v] = x.as_long()
    s.pop()
    mp = {}
    for v in vs:
        if v in vals and ctx.entails(eq(P(v), con(vals[v]))):
            mp[v] = con(vals[v])
    if not mp:
        for i, v in enumerate(vs):
            for w in vs[:i]:
                if v in vals and w in vals and v not in mp:
                    d = vals[v] - vals[w]
                    if abs(d) <= 2 and ctx.entails(eq(P(v), P(w) + d)):
                        mp[v] = P(w) + d
    return mp


def z3_zero(p, ctx):
    if len(p.t) > 400:
        return False
    return ctx.unsat_with(mk_lit('ne', p))


def find_app(p, fn):
    for a in sorted(subterms_atoms(p), key=lambda a: a.id):
        if a.kind == 'app' and a.a[0] == fn:
            return a
    return None


def clear_inv(p, ctx):
    """multiply p by the denominators (assumed non-zero where the division is reached)"""
    dens = {}
    for (g, f), c in p.t.items():
        for a, e in f:
            if a.kind == 'inv':
                dens[a] = max(dens.get(a, 0), e)
            elif e < 0:
                dens[a] = min(dens.get(a, 0), e)
    if not dens:
        return None
    q = p
    for a, e in dens.items():
        d = ipow(a.a, e) if a.kind == 'inv' else ipow(P(a), -e)
        out = []
        for (g, f), c in q.t.items():
            # multiply monomial by d, cancelling inv atom exactly
            ff = dict(f)
            if a.kind == 'inv':
                k = ff.pop(a, 0)
                m = mkpoly({(g, tuple(sorted(ff.items(), key=lambda x: x[0].id))): c})
                out.append(m * ipow(a.a, e - k))
            else:
                out.append(mkpoly({(g, f): c}) * d)
        q = psum(out)
    return q


def merge_apps(p, ctx, depth):
    """identify applications of the same function whose arguments are provably equal"""
    by = {}
    for (g, f) in p.t:
        for a, e in f:
            if a.kind in ('app',) and a.a[0] not in ('wrap',):
                by.setdefault((a.a[0], len(a.a[1])), set()).add(a)
            elif a.kind == 'inv':
                by.setdefault(('inv', 1), set()).add(a)
    rep = {}
    for k, l in by.items():
        if len(l) < 2:
            continue
        l = sorted(l, key=lambda a: a.id)
        if len(l) > 40:
            continue
        reps = []
        for a in l:
            for b in reps:
                if args_equal(a, b, ctx, depth):
                    rep[a] = P(b)
                    break
            else:
                reps.append(a)
    return replace_atoms(p, rep) if rep else p


_ae = {}


def args_equal(a, b, ctx, depth):
    key = (a, b, ctx)
    if key in _ae:
        return _ae[key]
    _ae[key] = False
    r = _args_equal(a, b, ctx, depth)
    _ae[key] = r
    return r


def _args_equal(a, b, ctx, depth):
    if a.kind == 'inv':
        return prove_zero(a.a - b.a, ctx, depth + 2)
    todo = []
    for x, y in zip(a.a[1], b.a[1]):
        if x is y:
            continue
        if isinstance(x, Poly) and isinstance(y, Poly):
            todo.append((x, y))
        elif isinstance(x, Lam) and isinstance(y, Lam) and len(x.vars) == len(y.vars):
            fr = [P(fresh('u', v.sort)) for v in x.vars]
            todo.append((lam_apply(x, fr), lam_apply(y, fr)))
        elif x != y:
            return False
    for x, y in todo:
        d = x - y
        if d.is_const() and not d.is_zero():
            return False
    for x, y in todo:
        d = x - y
        if not (d.apps & HARD) and not d.guards and d.sort != CPLX:
            if not ctx.entails(cmp0('eq', d)):
                return False
        elif not prove_zero(d, ctx, depth + 2):
            return False
    return True


HARD = set()


def prove(f, ctx, depth=0):
    """prove formula f under ctx"""
    check_deadline()
    if f is TRUE:
        return True
    if ctx.entails(f):
        return True
    if isinstance(f, Const):
        return ctx.inconsistent()
    if isinstance(f, Lit):
        if f.kind == 'eq':
            return prove_zero(f.p, ctx, depth)
        if f.kind in ('b', 'nb'):
            a = atom_of(f.p)
            if f.kind == 'b' and a is not None and a.kind == 'app' and a.a[0] == 'forall':
                vs, b = lam_open(a.a[1][0])
                return prove(bl(b), ctx, depth)
            # match with facts modulo argument equality
            for g in ctx.facts:
                if isinstance(g, Lit) and g.kind == f.kind:
                    b = atom_of(g.p)
                    if a is not None and b is not None and a.kind == b.kind == 'app' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
                        if args_equal(a, b, ctx, depth):
                            return True
            return False
        q = norm(f.p, ctx)
        if q is not f.p:
            g = cmp0(f.kind, q)
            if g is not f:
                return prove(g, ctx, depth)
        if f.kind in ('le', 'lt'):
            r = prove_order(f, ctx, depth)
            if r:
                return True
        return False
    if f.op == 'and':
        return all(prove(a, ctx, depth) for a in sorted(f.args, key=lambda x: x.id))
    # or: assume the negation of all but one
    args = sorted(f.args, key=lambda x: (not (isinstance(x, Lit) and x.kind in ('eq', 'b')), x.id))
    for a in args:
        rest = [Not(x) for x in args if x is not a]
        if prove(a, ctx.add(*rest), depth + 1):
            return True
        if depth > 4:
            break
    return False


def prove_order(f, ctx, depth):
    """p <= 0: match p against an ordering fact modulo equality proving"""
    for g in ctx.facts:
        if isinstance(g, Lit) and g.kind in ('le', 'lt') and (f.kind == 'le' or g.kind == 'lt'):
            d = f.p - g.p
            if len(d.t) < 40 and (g.p.apps & f.p.apps or g.p.fv & f.p.fv) and prove_zero(d, ctx, depth + 2):
                return True
    return False


def forall(vs, f):
    lam = mk_lam(vs, iv(f))
    if len(lam.body.guards) <= 10:
        lam = mk_lam(list(lam.vars), shannon(lam.body))
    return bl(app('forall', [lam], BOOL))


def shannon(p):
    """p as a decision diagram over its guards in a fixed order"""
    if not p.guards:
        return p
    l = min([x for g in p.guards for x in (g, neg_lit(g))], key=lambda x: x.id)
    a, b = shannon(assume(p, l)), shannon(assume(p, neg_lit(l)))
    return a if a is b else iv(l) * a + iv(neg_lit(l)) * b


@rule('forall')
def _r_forall(l):
    if l.body is ONE:
        return ONE
    if not (l.body.fv & set(l.vars)) and l.body.is_zero():
        return None


SORTS['forall'] = BOOL
NOLIFT.add('forall')


def _red_cmp(kind, p):
    """max over a set <= c  iff  every element <= c (and the other way round for min)"""
    for (g, f), c in p.t.items():
        if g or len(f) != 1 or f[0][1] != 1:
            continue
        a = f[0][0]
        if a.kind != 'app' or a.a[0] not in ('maxred', 'minred'):
            continue
        rest = p - scale(P(a), c)
        if any(a in x.fv or a is x for x in subterms_atoms(rest)):
            continue
        vs, dom = lam_open(a.a[1][0])
        body = lam_apply(a.a[1][1], [P(v) for v in vs])
        init = a.a[1][2] if len(a.a[1]) > 2 else None
        up = (a.a[0] == 'maxred') == (c > 0)
        if up:
            # every element satisfies the comparison
            r = forall(vs, Implies(bl(dom), cmp0(kind, scale(body, c) + rest)))
            return And(r, cmp0(kind, scale(init, c) + rest)) if init is not None else r
        r = Not(forall(vs, Implies(bl(dom), Not(cmp0(kind, scale(body, c) + rest)))))
        return Or(r, cmp0(kind, scale(init, c) + rest)) if init is not None else r
    return None


T.RED_HOOK.append(_red_cmp)


def _is_forall(l):
    a = atom_of(l.p) if isinstance(l, Lit) and l.kind in ('b', 'nb') else None
    return a is not None and a.kind == 'app' and a.a[0] == 'forall'


def reduce_f(f, ctx, memo=None):
    """f simplified by deciding its literals under ctx"""
    memo = {} if memo is None else memo
    r = memo.get(f)
    if r is not None:
        return r
    if isinstance(f, Const):
        r = f
    elif isinstance(f, Lit):
        if f.apps:
            r = TRUE if f in ctx.facts else FALSE if neg_lit(f) in ctx.facts else f
        else:
            r = TRUE if ctx.entails(f) else FALSE if ctx.entails(neg_lit(f)) else f
    elif f.op == 'and':
        out, r = [], None
        for a in sorted(f.args, key=lambda a: (isinstance(a, Conn), a.id)):
            b = reduce_f(a, ctx, memo)
            if b is FALSE:
                r = FALSE
                break
            out.append(b)
        r = And(*out) if r is None else r
    else:
        out, r = [], None
        for a in sorted(f.args, key=lambda a: (isinstance(a, Conn), a.id)):
            b = reduce_f(a, ctx, memo)
            if b is TRUE:
                r = TRUE
                break
            out.append(b)
        r = Or(*out) if r is None else r
    memo[f] = r
    return r


def simple_floor(ctx):
    """floor(A + B/n) = A when A is an integer and 0 <= B < n"""
    def f(e):
        den = {a for m in e.t for a, k in m[1] if k == -1}
        if len(den) == 1 and not e.guards:
            n = P(next(iter(den)))
            A = mkpoly({m: c for m, c in e.t.items() if not any(k < 0 for _, k in m[1])})
            B = mkpoly({m: c for m, c in e.t.items() if any(k < 0 for _, k in m[1])}) * n
            if A.sort == INT and B.sort == INT and not any(k < 0 for m in B.t for _, k in m[1]):
                # collect the multiples of n in B
                for c in (0, 1, 2, 3, -1):
                    if ctx.entails(le(0, B - c * n)) and ctx.entails(lt(B - c * n, n)):
                        return A + c
        return app('floor', [e])
    return f


def _open(facts, ctx, terms, wit, depth):
    import itertools
    new, todo, seen, ws, memo = [], list(facts), set(), [], {}
    full, ctx = ctx, Ctx([f for f in ctx.facts if isinstance(f, Lit) and f.kind in ('le', 'lt', 'eq', 'ne') and not f.apps])
    fl = simple_floor(ctx)
    for f in full.facts:
        memo[f] = TRUE
        if isinstance(f, Lit):
            memo[neg_lit(f)] = FALSE
    for _ in range(depth):
        nxt = []
        for f in todo:
            for l in (f.args if isinstance(f, Conn) and f.op == 'and' else (f,)):
                if l in seen or not _is_forall(l):
                    continue
                lam = atom_of(l.p).a[1][0]
                if l.kind == 'b' and terms is not None:
                    seen.add(l)
                    for tup in itertools.product(terms, repeat=len(lam.vars)):
                        nxt.append(reduce_f(map_apps_f(bl(lam_apply(lam, list(tup))), 'floor', fl), ctx, memo))
                elif l.kind == 'nb' and wit:
                    seen.add(l)
                    vs, b = lam_open(lam)
                    ws += [P(v) for v in vs]
                    nxt.append(Not(bl(b)))
        nxt = [f for f in nxt if f is not TRUE]
        new += nxt
        todo = nxt
        if not nxt:
            break
    return new, ws


def instantiate(ctx, terms, depth=3):
    """facts that follow from the universally quantified facts of ctx at the given terms"""
    return _open(ctx.facts, ctx, terms, False, depth)[0]


def skolem(ctx, depth=3):
    """witnesses of the existential (negated universal) facts of ctx -> (facts, witness Polys)"""
    out, ws = [], []
    facts = list(ctx.facts)
    for _ in range(depth):
        nxt, w = _open(facts, ctx, None, True, 1)
        if not nxt:
            break
        ws += w
        light = Ctx([g for g in ctx.facts if isinstance(g, Lit) and g.kind in ('le', 'lt', 'eq', 'ne') and not g.apps])
        ctx = ctx.add(*nxt)
        nxt = [reduce_f(f, light) for f in nxt]
        out += nxt
        facts = nxt
    return out, ws
