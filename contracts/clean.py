"""Contracts of qmix.exp.clean_data (C15)."""
from .base import *
from qv import npmodel as N
from .resp import canon

D = 'qmix.exp.clean_data.'
F = lambda n: (lambda i: app(n, [i], REAL))
isnan = lambda p: mk_lit('b', app('isnan', [p], BOOL))


class Data(object):
    """two-column data as x/y arrays or as a matrix with any number of columns"""

    def __init__(self, it, form, col=None, nan=True):
        self.form = form
        it.n = self.n = sym('n', INT)
        it.nan_data = nan
        if nan:
            N.NAN_DATA.update(('x', 'y', 'm'))
        if form == 'xy':
            it.args = [fun_arr(it, 'x', [self.n]), fun_arr(it, 'y', [self.n])]
            self.cols = [F('x'), F('y')]
        else:
            self.w = con(2) if col is None else sym('w', INT)
            it.args = [fun_arr(it, 'm', [self.n, self.w])]
            self.cell = lambda i, j: app('m', [i, j], REAL)
            self.cols = [lambda i: app('m', [i, ZERO], REAL), lambda i: app('m', [i, ONE], REAL)]

    def key(self, col):
        return self.cols[0] if self.form == 'xy' else (lambda i: self.cell(i, col))

    def check(self, ob, it, r, what, cnt, pos_):
        """the result consists of the input rows pos_(0), ..., pos_(cnt - 1)"""
        j, f = index('j', 0, cnt)
        c = it.ctx.add(*f)
        if self.form == 'xy':
            if not ob.fact('%s returns x and y' % what, isinstance(r, tuple) and len(r) == 2, repr(r)):
                return
            for a, col, nm in zip(r, self.cols, 'xy'):
                if check_shape(ob, it, '%s %s' % (what, nm), a, [cnt]):
                    ob.equal('%s keeps the pairing of %s' % (what, nm), at(it, a, j), col(pos_(j)), c)
        else:
            if check_shape(ob, it, what, r, [cnt, self.w]):
                k, g = index('k', 0, self.w)
                ob.equal('%s keeps whole rows' % what, at(it, r, j, k), self.cell(pos_(j), k), c.add(*g))
        no_input_writes(ob, it)


def mask(it, n, f):
    u = fresh('u')
    return canon(it, mk_lam([u], iv(f(P(u)))), n)


def keys(it, n, f):
    from qv.npmodel import canon_mask, under
    u = fresh('u')
    return canon_mask(it, mk_lam([u], under(it, And(le(0, P(u)), lt(P(u), n)), lambda: f(P(u)))), n, 'keys')


sel = lambda m, n, j: app('sel', [m, n, j], INT)
rank = lambda m, n, j: app('rank', [m, n, j], INT)
count = lambda m, n: app('count', [m, n], INT)
perm = lambda k, n, j: app('perm', [k, n, j], INT)
iperm = lambda k, n, j: app('iperm', [k, n, j], INT)
GOOD = lambda d: (lambda i: And(Not(isnan(d.cols[0](i))), Not(isnan(d.cols[1](i)))))
FRESH = lambda key: (lambda i: Or(eq(i, 0), ne(key(i), key(i - 1))))


def quiet(it, ctx, exc, msg):
    return False


@unit('C15', 'NaN removal', [D + 'remove_nans_xy', D + 'remove_nans_matrix'], 60, each=[(f, e) for f in ('xy', 'matrix') for e in ('any', 'empty')])
def nans(ob, form, size):
    fn = D + ('remove_nans_xy' if form == 'xy' else 'remove_nans_matrix')

    def setup(it):
        it.d = Data(it, form)
        return [le(0, it.n)] if size == 'any' else [eq(it.n, 0)]

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        d, n = it.d, it.n
        m = mask(it, n, GOOD(d))
        d.check(ob, it, r, 'NaN removal', count(m, n), lambda j: sel(m, n, j))
        j, f = index('j', 0, count(m, n))
        q = sel(m, n, j)
        ob.true('kept rows are input rows', And(le(0, q), lt(q, n)), it.ctx.add(*f))
        ob.true('kept rows hold no NaN', GOOD(d)(q), it.ctx.add(*f))
        i, g = index('i', 0, n)
        c = it.ctx.add(*g).add(GOOD(d)(i), le(0, rank(m, n, i)))
        ob.true('every NaN-free row is kept', And(le(0, rank(m, n, i)), lt(rank(m, n, i), count(m, n)), eq(sel(m, n, rank(m, n, i)), i)), c)
    ob.run(setup, lambda it: it.call(it.func(fn), list(it.args), {}), post)


COLS = ('default', 'requested', 'last')


def col_arg(it, d, col):
    """(column, keyword arguments)"""
    if col in (None, 'default'):
        return ZERO, {}, []
    if col == 'last':
        return d.w - 1, {'col': Num(con(-1), 'int')}, []
    c = sym('col', INT)
    return c, {'col': Num(c, 'int')}, [le(0, c), lt(c, d.w)]


@unit('C15', 'sorting', [D + 'sort_xy', D + 'sort_matrix'], 60, each=[('xy', None)] + [('matrix', c) for c in COLS])
def sorting(ob, form, col):
    fn = D + ('sort_xy' if form == 'xy' else 'sort_matrix')

    def setup(it):
        it.d = Data(it, form, col, nan=False)
        it.col, it.kw, facts = col_arg(it, it.d, col)
        return [le(0, it.n)] + ([le(1, it.d.w)] if form == 'matrix' else []) + facts

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        d, n = it.d, it.n
        key = d.key(it.col)
        ks = keys(it, n, key)
        p = lambda j: perm(ks, n, j)
        d.check(ob, it, r, 'sorting', n, p)
        j, f = index('j', 0, n)
        c = it.ctx.add(*f)
        ob.true('sorted rows are input rows', And(le(0, p(j)), lt(p(j), n)), c)
        i, g = index('i', 0, n)
        ob.true('every input row is represented', And(le(0, iperm(ks, n, i)), lt(iperm(ks, n, i), n), eq(p(iperm(ks, n, i)), i)), it.ctx.add(*g))
        ob.true('the requested column increases', le(key(p(j)), key(p(j + 1))), c.add(lt(j + 1, n)))
    ob.run(setup, lambda it: it.call(it.func(fn), list(it.args), dict(it.kw)), post)


def distinct_lemmas(ob, ctx, key, n, m, what):
    """rows selected by FRESH(key) from sorted rows are strictly increasing and represent every key"""
    cnt = count(m, n)
    j, f = index('j', 0, cnt)
    a, b = sel(m, n, j), sel(m, n, j + 1)
    # sorted rows are monotone at any distance (induction)
    s, t = ints('s', 't')
    rng = [le(0, s), le(s, t), lt(t + 1, n)]
    ob.true('%s: monotone, base' % what, le(key(s), key(s)), ctx)
    ob.true('%s: monotone, step' % what, le(key(s), key(t + 1)), ctx.add(*rng).add(le(key(s), key(t)), le(key(t), key(t + 1))))
    c = ctx.add(*f).add(lt(j + 1, cnt))
    ob.true('%s: kept positions increase' % what, And(le(0, a), le(a, b - 1), lt(b, n)), c)
    ob.true('%s: keys strictly increase' % what, lt(key(a), key(b)), c.add(le(key(a), key(b - 1)), le(key(b - 1), key(b))))
    # every key is represented by the first row of its run (induction over rows)
    i, w = ints('i', 'w')
    fresh_ = lambda q: FRESH(key)(q)
    ob.true('%s: the first row is kept' % what, fresh_(ZERO), ctx)
    c = ctx.add(le(0, w), le(w, i), lt(i + 1, n), eq(key(w), key(i)), fresh_(w))
    ob.true('%s: a later row is kept or repeats its predecessor' % what, Or(fresh_(i + 1), eq(key(w), key(i + 1))), c)
    c = ctx.add(le(0, w), lt(w, n), fresh_(w), le(0, rank(m, n, w)))
    ob.true('%s: kept rows appear in the result' % what, And(lt(rank(m, n, w), cnt), eq(sel(m, n, rank(m, n, w)), w)), c)


@unit('C15', 'duplicate removal', [D + 'remove_doubles_xy', D + 'remove_doubles_matrix'], 90,
      each=[('xy', None, 'checked'), ('xy', None, 'unchecked')] + [('matrix', c, k) for c in COLS for k in ('checked', 'unchecked')]
      + [('xy', None, 'empty'), ('matrix', 'default', 'empty'), ('xy', None, 'single'), ('matrix', 'default', 'single')])
def doubles(ob, form, col, chk):
    fn = D + ('remove_doubles_xy' if form == 'xy' else 'remove_doubles_matrix')

    def sorted_(it):
        u = fresh('u')
        key = it.d.key(it.col)
        return S.forall([u], Implies(And(le(0, P(u)), lt(P(u), it.n - 1)), le(key(P(u)), key(P(u) + 1))))

    def setup(it):
        it.d = Data(it, form, col, nan=False)
        it.col, it.kw, facts = col_arg(it, it.d, col)
        if chk == 'unchecked':
            it.kw['check'] = False
        size = {'empty': [eq(it.n, 0)], 'single': [eq(it.n, 1)]}.get(chk, [le(1, it.n)])
        return size + ([le(1, it.d.w)] if form == 'matrix' else []) + facts

    def post(it, k, r):
        if k == 'raise':
            c, e = it.ctx, r.exc
            ob.fact('only unsorted data is refused', refused(it, c, e), str(r))
            return
        d, n = it.d, it.n
        key = d.key(it.col)
        m = mask(it, n, FRESH(key))
        d.check(ob, it, r, 'duplicate removal', count(m, n), lambda j: sel(m, n, j))
        if chk == 'checked':
            j = sym('t', INT)
            ob.true('only sorted data is accepted', le(key(j), key(j + 1)), with_instances(it.ctx.add(le(0, j), lt(j + 1, n)), j))
        if chk in ('checked', 'unchecked'):
            distinct_lemmas(ob, S.Ctx((le(1, n), le(0, it.col))), key, n, m, 'sorted data')

    def refused(it, ctx, exc):
        w = sym('w', INT)
        key = it.d.key(it.col)
        return exc == 'AssertionError' and chk == 'checked' and \
            any(c.entails(And(le(0, w), lt(w + 1, it.n), lt(key(w + 1), key(w)))) for c in with_witness(ctx, w))
    ob.run(setup, lambda it: it.call(it.func(fn), list(it.args), dict(it.kw)), post, raises_ok=lambda it, c, e, m: refused(it, c, e))


@unit('C15', 'cleaning', [D + 'clean_xy', D + 'clean_matrix'], 120, each=[(f, e) for f in ('xy', 'matrix') for e in ('any', 'no rows')])
def cleaning(ob, form, size):
    fn = D + ('clean_xy' if form == 'xy' else 'clean_matrix')

    def setup(it):
        it.d = Data(it, form)
        it.m = mask(it, it.n, GOOD(it.d))
        cnt = count(it.m, it.n)
        return [le(0, it.n), (le(1, cnt) if size == 'any' else eq(cnt, 0))]

    def post(it, k, r):
        if not ob.no_raise(it, k, r):
            return
        d, n, m1 = it.d, it.n, it.m
        key = d.cols[0]
        c1 = count(m1, n)
        p1 = lambda j: sel(m1, n, j)
        ks = keys(it, c1, lambda j: key(p1(j)))
        p2 = lambda j: p1(perm(ks, c1, j))
        m3 = mask(it, c1, FRESH(lambda j: key(p2(j))))
        c3 = count(m3, c1)
        p3 = lambda j: p2(sel(m3, c1, j))
        d.check(ob, it, r, 'cleaning', c3, p3)
        if size != 'any':
            ob.equal('no rows remain', c3, 0, it.ctx)
            return
        j, f = index('j', 0, c3)
        c = it.ctx.add(*f)
        ob.true('cleaned rows are input rows', And(le(0, p3(j)), lt(p3(j), n)), c)
        ob.true('cleaned rows hold no NaN', GOOD(d)(p3(j)), c)
        # sortedness of the rows handed to duplicate removal, then its lemmas
        t, g = index('t', 0, c1 - 1)
        ob.true('rows are sorted before duplicates are removed', le(key(p2(t)), key(p2(t + 1))), it.ctx.add(*g))
        distinct_lemmas(ob, it.ctx, lambda j: key(p2(j)), c1, m3, 'cleaned data')
        i, g = index('i', 0, n)
        q = rank(m1, n, i)
        c = it.ctx.add(*g).add(GOOD(d)(i), le(0, q))
        ob.true('every NaN-free row reaches the sorted rows', And(le(0, iperm(ks, c1, q)), lt(iperm(ks, c1, q), c1), eq(p2(iperm(ks, c1, q)), i)), c)
    ob.run(setup, lambda it: it.call(it.func(fn), list(it.args), {}), post)


@unit('C15', 'refusals and conversions', [D + 'clean_xy', D + 'clean_matrix', D + 'xy_to_matrix', D + 'matrix_to_xy'], 60,
      each=('unequal lengths', 'wrong width', 'to matrix', 'to x/y'))
def refusals(ob, case):
    x, y = F('x'), F('y')

    def setup(it):
        it.n, it.k = ints('n', 'k')
        facts = [le(0, it.n), le(0, it.k)]
        if case == 'unequal lengths':
            it.fn, it.args = D + 'clean_xy', [fun_arr(it, 'x', [it.n]), fun_arr(it, 'y', [it.k])]
            facts.append(ne(it.n, it.k))
        elif case == 'wrong width':
            it.fn, it.args = D + 'clean_matrix', [fun_arr(it, 'm', [it.n, it.k])]
            facts.append(ne(it.k, 2))
        elif case == 'to matrix':
            it.fn, it.args = D + 'xy_to_matrix', [fun_arr(it, 'x', [it.n]), fun_arr(it, 'y', [it.n])]
        else:
            it.fn, it.args = D + 'matrix_to_xy', [fun_arr(it, 'm', [it.n, con(2)])]
        return facts

    def post(it, k, r):
        if case in ('unequal lengths', 'wrong width'):
            ob.fact('%s refused' % case, k == 'raise' and r.exc == 'AssertionError', repr(r))
            return
        if not ob.no_raise(it, k, r):
            return
        j, f = index('j', 0, it.n)
        c = it.ctx.add(*f)
        if case == 'to matrix':
            if check_shape(ob, it, 'matrix', r, [it.n, 2]):
                ob.equal('first column', at(it, r, j, 0), x(j), c)
                ob.equal('second column', at(it, r, j, 1), y(j), c)
        else:
            if ob.fact('x and y are returned', isinstance(r, tuple) and len(r) == 2):
                for a, q in zip(r, (0, 1)):
                    if check_shape(ob, it, 'column', a, [it.n]):
                        ob.equal('column %d' % q, at(it, a, j), app('m', [j, con(q)], REAL), c)
    ob.run(setup, lambda it: it.call(it.func(it.fn), list(it.args), {}), post, raises_ok=lambda it, c, e, m: e == 'AssertionError' and case in ('unequal lengths', 'wrong width'))
