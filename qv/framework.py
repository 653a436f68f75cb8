"""Runs the verification units of one property and collects the obligations."""
import multiprocessing as mp
import os
import sys
import time
import resource
import traceback

from . import solve as S
from . import terms as T
from .interp import Interp, Program, explore
from .values import *
from .terms import *

UNITS = {}          # property -> [Unit]


class Unit(object):
    def __init__(self, name, fn, funcs, budget):
        self.name, self.fn, self.funcs, self.budget = name, fn, funcs, budget


def unit(prop, name, funcs, budget=120, each=(None,)):
    """register a verification unit; `each` enumerates finite parameters (number of tones, ...)"""
    def deco(f):
        for pr in ((prop,) if isinstance(prop, str) else prop):
            for e in each:
                if e is None:
                    UNITS.setdefault(pr, []).append(Unit(name, f, funcs, budget))
                else:
                    args = e if isinstance(e, tuple) else (e,)
                    nm = '%s[%s]' % (name, ','.join(map(str, args)))
                    UNITS.setdefault(pr, []).append(Unit(nm, (lambda args: lambda ob: f(ob, *args))(args), funcs, budget))
        return f
    return deco


_PROG = [None]


def program():
    if _PROG[0] is None:
        _PROG[0] = Program()
    return _PROG[0]


def unreachable(c):
    """the facts of c contradict each other (negated universal facts are given a witness)"""
    if c.inconsistent():
        return True
    out, n = c, 0
    for g in list(c.facts):
        if isinstance(g, Lit) and g.kind == 'nb':
            a = T.atom_of(g.p)
            if a is not None and a.kind == 'app' and a.a[0] == 'forall':
                out = out.add(Not(bl(T.lam_apply(a.a[1][0], [P(T.fresh('w')) for _ in a.a[1][0].vars]))))
                n += 1
    return n > 0 and out.inconsistent()


class Ob(object):
    """obligation collector handed to a unit"""

    def __init__(self, uname):
        self.uname = uname
        self.items = []
        self.called = set()
        self.assumed = set()
        self.wd = set()
        self.reach = 0
        self.npaths = 0

    def add(self, name, ok, detail='', t=0.0):
        self.items.append({'name': '%s: %s' % (self.uname, name), 'ok': bool(ok), 'detail': str(detail)[:3000],
                           'time': round(t, 3)})
        return ok

    def zero(self, name, p, ctx, detail=''):
        t0 = time.time()
        p = pol(p)
        ok = S.prove_zero(p, ctx)
        d = detail
        if not ok:
            d = '%s residual: %s | facts: %s' % (detail, str(S.norm(p, ctx))[:1800], ' ; '.join(map(str, ctx.facts))[:900])
        return self.add(name, ok, d, time.time() - t0)

    def equal(self, name, code, spec, ctx, detail=''):
        return self.zero(name, pol(code) - pol(spec), ctx, detail)

    def true(self, name, f, ctx, detail=''):
        t0 = time.time()
        ok = S.prove(f, ctx)
        d = detail
        if not ok:
            d = '%s goal: %s | facts: %s' % (detail, str(f)[:1800], ' ; '.join(map(str, ctx.facts))[:900])
        return self.add(name, ok, d, time.time() - t0)

    def fact(self, name, ok, detail=''):
        return self.add(name, ok, detail)

    # --------------------------------------------------------------- running
    def run(self, setup, call, post, maxpaths=64, raises_ok=None, step=None):
        """explore every path of call(it); setup(it) states the precondition (returns facts)"""
        def make(dec):
            it = Interp(program(), [], ())
            facts = setup(it) or []
            it.ctx = it.ctx.add(*facts)
            it.pre = it.ctx
            if dec:
                it.ctx = it.ctx.add(*dec)
            it.base_ctx = it.ctx
            return it, call
        n = 0
        for dec, it, kind, v in explore(make, maxpaths):
            n += 1
            self.called |= set(it.called)
            self.assumed |= set(it.assumed)
            for w in it.wd:
                self.wd.add(str(w)[:120])
            for (name, ok, d) in it.obligs:
                self.add('generated: ' + name, ok, d)
            # vacuity guard: the path is reachable
            if it.ctx.inconsistent():
                continue
            self.reach += 1
            for (c, exc, msg) in it.raises:
                if raises_ok is not None and raises_ok(it, c, exc, msg):
                    continue
                self.add('no %s%s' % (exc, (' (%s)' % (msg,)) if msg else ''), unreachable(c),
                         'reachable under %s' % (' ; '.join(map(str, c.facts))[:900]))
            if kind == 'iter':
                # inductive step of a loop with an arbitrary state
                if step is not None:
                    step(it, v)
            else:
                post(it, kind, v)
        self.npaths += n
        if n == 0 or self.reach == 0:
            self.add('precondition is satisfiable', False, 'no reachable path')

    def no_raise(self, it, kind, v):
        if kind == 'raise':
            self.add('no exception', False, 'raises %s on path %s' % (v, ' ; '.join(map(str, it.ctx.facts))[:900]))
            return False
        return True


MEMORY = 3400 << 20          # address space of one worker


def run_unit(u, conn, budget):
    t0 = time.time()
    ob = Ob(u.name)
    st = 'done'
    err = ''
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, hard))
        S.set_deadline(time.time() + budget)
        u.fn(ob)
    except S.Timeout:
        st, err = 'timeout', 'prover deadline'
    except MemoryError:
        st, err = 'timeout', 'memory limit'
    except Unsupported as e:
        st, err = 'unsupported', str(e)
        if os.environ.get('QV_TRACE'):
            traceback.print_exc()
    except RecursionError as e:
        st, err = 'unsupported', 'recursion limit'
    except Exception as e:
        st, err = 'unsupported', 'engine: %s: %s' % (type(e).__name__, e)
        if os.environ.get('QV_TRACE'):
            traceback.print_exc()
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))
    if 'MemoryError' in err or 'out of memory' in err:
        st = 'timeout'
    if st == 'done' and not ob.items:
        st, err = 'unsupported', 'no obligation was generated'
    res = {'unit': u.name, 'status': st, 'error': err[:1500], 'items': ob.items, 'called': sorted(ob.called),
           'assumed': sorted(ob.assumed), 'wd': sorted(ob.wd), 'reach': ob.reach, 'paths': ob.npaths,
           'rss': resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024,
           'stats': dict(S.STATS), 'wall': round(time.time() - t0, 3)}
    conn.send(res)
    conn.close()


def run_all(prop, budget_scale=1.0, jobs=None, only=None, stop=None):
    """run every unit of a property, each in its own process"""
    jobs = jobs or int(os.environ.get('QV_JOBS', '7'))
    sys.setrecursionlimit(20000)
    todo = [u for u in UNITS.get(prop, []) if not only or only in u.name]
    todo.sort(key=lambda u: -u.budget)
    running = []
    out = []
    ctx = mp.get_context('fork')
    cut = None
    while todo or running:
        if cut is None and stop is not None and stop():
            # the verdict is settled by a failing input: a short time more to name the obligations that fail
            cut = time.time() + 20
        if cut is not None and time.time() > cut:
            for (u, p, a, lim) in running:
                if not a.poll(0):
                    p.kill()
            todo_, todo = todo, []
            out += [dead(u, 'not run: a failing input is known') for u in todo_]
        while todo and len(running) < jobs:
            u = todo.pop(0)
            a, b = ctx.Pipe(False)
            bud = u.budget * budget_scale
            p = ctx.Process(target=run_unit, args=(u, b, bud))
            p.start()
            b.close()
            running.append((u, p, a, time.time() + bud * 1.3 + 15))
        still = []
        for (u, p, a, lim) in running:
            if a.poll(0):
                try:
                    out.append(a.recv())
                except EOFError:
                    out.append(dead(u, 'worker died'))
                p.join()
            elif not p.is_alive():
                if a.poll(0.2):
                    try:
                        out.append(a.recv())
                    except EOFError:
                        out.append(dead(u, 'worker died'))
                else:
                    out.append(dead(u, 'worker died'))
                p.join()
            elif time.time() > lim:
                p.kill()
                p.join()
                out.append(dead(u, 'killed after %.0f s' % (time.time() - lim + u.budget)))
            else:
                still.append((u, p, a, lim))
        running = still
        time.sleep(0.02)
    out.sort(key=lambda r: r['unit'])
    return out


def dead(u, why):
    return {'unit': u.name, 'status': 'timeout', 'error': why, 'items': [], 'called': [], 'assumed': [], 'wd': [],
            'reach': 0, 'paths': 0, 'stats': {}, 'wall': u.budget}
