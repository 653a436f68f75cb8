"""Symbolic executor for the Python subset QMix is written in.

Executes the *current* source text of /repo (parsed on every run).  Branches on
symbolic conditions are executed in predicated form (both sides, merged with
if-then-else); loops over symbolic ranges are turned into closed forms whose
inductive step is checked (accumulators -> finite sums, array writes ->
universally quantified stores with an injectivity obligation); everything else
raises Unsupported.
"""
import ast
import os
from .values import *
from .solve import *
from . import solve as S

REPO = os.environ.get('QV_REPO', '/repo')


class LoopRestart(Exception):
    def __init__(self, loop, buf):
        self.loop, self.buf = loop, buf


class BreakEx(Exception):
    def __init__(self, loop):
        self.loop = loop


class ContinueEx(Exception):
    def __init__(self, loop):
        self.loop = loop


class PathEnd(Exception):
    """end of the inductive step of a loop treated by an (arbitrary state) invariant"""

    def __init__(self, info=None):
        self.info = info


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class Frame(object):
    def __init__(self, func, module, gdepth):
        self.func, self.module, self.gdepth = func, module, gdepth
        self.env = {}
        self.returns = []        # (guard formula, value)
        self.closure = None


class LoopCtx(object):
    def __init__(self, mark, frame):
        self.mark = mark
        self.frame = frame
        self.mutated = {}        # buf -> (placeholder name, old content)
        self.readset = set()
        self.brk = FALSE
        self.concrete = False
        self.havoc = False
        self.objs = set()
        self.appends = []


class Program(object):
    """parsed source of the package"""

    def __init__(self, root=None):
        self.root = root or REPO
        self.mods = {}
        self.asts = {}

    def path(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        return p + '.py'

    def get_ast(self, name):
        if name not in self.asts:
            with open(self.path(name)) as f:
                src = f.read()
            self.asts[name] = mark_tests(ast.parse(src))
        return self.asts[name]

    def exists(self, name):
        return os.path.exists(self.path(name))


def mark_tests(tree):
    """flag the and/or expressions of which only the truth value is used"""
    def flag(e):
        if isinstance(e, ast.BoolOp):
            e.is_test = True
            for x in e.values:
                flag(x)
        elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            flag(e.operand)
    for x in ast.walk(tree):
        if isinstance(x, (ast.If, ast.While, ast.IfExp, ast.Assert)):
            flag(x.test)
        elif isinstance(x, ast.comprehension):
            for e in x.ifs:
                flag(e)
        elif isinstance(x, ast.UnaryOp):
            flag(x)
    return tree


class ModV(object):
    def __init__(self, name):
        self.name = name
        self.env = {}
        self.loading = True


_names_cache = {}


def assigned_names(stmts):
    key = id(stmts[0]) if stmts else 0
    r = _names_cache.get((key, len(stmts)))
    if r is None:
        r = set()

        class V(ast.NodeVisitor):
            def visit_Name(self, n):
                if isinstance(n.ctx, ast.Store):
                    r.add(n.id)

            def visit_FunctionDef(self, n):
                r.add(n.name)

            def visit_ClassDef(self, n):
                r.add(n.name)

            def visit_Lambda(self, n):
                pass

            def visit_ListComp(self, n):
                pass

            def visit_GeneratorExp(self, n):
                pass
        for s in stmts:
            V().visit(s)
        _names_cache[(key, len(stmts))] = r
    return r


class Interp(object):
    MAXUNROLL = 64

    def __init__(self, program, facts=(), decisions=()):
        self.prog = program
        self.ctx = Ctx(list(facts) + list(decisions))
        self.base_ctx = self.ctx
        self.guards = []
        self.frames = []
        self.loops = []
        self.raises = []          # (ctx, exc, msg)
        self.contracts = {}       # qualname -> handler
        self.hints = []           # recurrence hints
        self.obligs = []          # (name, bool, detail)
        self.modules = {}
        self.heap = []            # all cells (for snapshots)
        self.try_depth = 0
        self.hres = {}
        self.called = set()       # functions entered (inlined or by contract)
        self.wd = []              # well-definedness notes (denominators)
        self.assumed = set()      # names of assumed external contracts used
        self.events = []
        self.steps = 0
        self.opaque_ok = False
        self.hcount = 0
        self.shared = {}           # deterministic names of arbitrary loop states
        self.havocs = []          # records of loops entered with an arbitrary state
        self.hkeep = {}
        from . import npmodel
        self.np = npmodel
        npmodel.install(self)

    # ------------------------------------------------------------ utilities
    def new(self, cell):
        cell.born = tuple(self.guards)
        self.heap.append(cell)
        return cell

    def gcell(self, cell):
        """the condition under which the current statement runs, relative to the one under which the cell was made"""
        b = getattr(cell, 'born', ())
        k = 0
        while k < len(b) and k < len(self.guards) and b[k] is self.guards[k]:
            k += 1
        return self.gform(k)

    def may_raise(self, c, exc, msg):
        """the current operation raises exc where c holds"""
        if self.try_depth:
            # a handler may see it: decide it on the path
            t = self.truth(c)
            if t is None:
                self.force(c)
            if t is True:
                raise PyRaise(exc, msg)
            return
        self.raises.append((self.ctx.add(c), exc, msg))

    def buffer(self, shape, dtype, base, kind='ndarray'):
        return self.new(Buffer(shape, dtype, base, kind))

    def arr(self, shape, dtype, base):
        return Arr(self.buffer(shape, dtype, base))

    def vlist(self, items):
        return self.new(VList(items))

    def vdict(self, items):
        return self.new(VDict(items))

    def gform(self, frm):
        return And(*self.guards[frm:])

    def push(self, f):
        st = self.ctx
        self.guards.append(f)
        self.ctx = self.ctx.add(f)
        return st

    def pop(self, st):
        self.guards.pop()
        self.ctx = st

    def simp(self, p):
        if not p.guards:
            return p
        for f in self.guards:
            if isinstance(f, Lit):
                p = assume(p, f)
            elif isinstance(f, Conn) and f.op == 'and':
                for a in f.args:
                    if isinstance(a, Lit):
                        p = assume(p, a)
        return p

    def oblig(self, name, ok, detail=''):
        self.obligs.append((name, ok, detail))

    def truth(self, f):
        """decide a formula under the current context; None if undecided"""
        if isinstance(f, Const):
            return f.v
        if self.ctx.entails(f):
            return True
        if self.ctx.entails(Not(f)):
            return False
        return None

    def split(self, f):
        """force a case split on f (re-execution)"""
        t = self.truth(f)
        if t is not None:
            return t
        self.force(f)

    def force(self, f):
        for L in self.loops:
            if not L.concrete and L.var is not None and L.var in f.fv:
                raise Unsupported('case split on loop-dependent condition %s' % (f,))
        raise NeedSplit(f)

    def decide(self, g):
        if self.base_ctx.entails(g) or self.base_ctx.entails(Not(g)):
            raise Unsupported('write to one of two arrays')
        self.force(g)

    def is_pos(self, f):
        return self.ctx.entails(f)

    # -------------------------------------------------------------- modules
    def module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if not self.prog.exists(name):
            raise Unsupported('module %s' % name)
        m = ModV(name)
        self.modules[name] = m
        tree = self.prog.get_ast(name)
        fr = Frame(None, m, 0)
        fr.env = m.env
        m.env['__name__'] = name
        m.env['__file__'] = StrV('__file__')
        sf, sg, sc, sl = self.frames, self.guards, self.ctx, self.loops
        self.frames, self.guards, self.loops = [fr], [], []
        self.ctx = self.base_ctx
        try:
            for s in tree.body:
                try:
                    self.exec(s, fr)
                except (Unsupported, PyRaise) as e:
                    for n in assigned_names([s]):
                        m.env[n] = Opaque('module global %s.%s: %s' % (name, n, e))
        finally:
            self.frames, self.guards, self.ctx, self.loops = sf, sg, sc, sl
        m.loading = False
        return m

    def import_name(self, name, attr=None):
        """value for `import name` / `from name import attr`"""
        if name == 'qmix' or name.startswith('qmix.'):
            if attr is None:
                return Module(name)
            if self.prog.exists(name + '.' + attr) or os.path.isdir(os.path.join(self.prog.root, *(name + '.' + attr).split('.'))):
                return Module(name + '.' + attr)
            return self.mod_attr(name, attr)
        if attr is None:
            return Module(name)
        return self.np.mod_attr(self, name, attr)

    def mod_attr(self, name, attr):
        if name == 'qmix' or name.startswith('qmix.'):
            sub = name + '.' + attr
            if self.prog.exists(sub) or os.path.isdir(os.path.join(self.prog.root, *sub.split('.'))):
                return Module(sub)
            m = self.module(name)
            if attr not in m.env:
                raise Unsupported('no attribute %s in %s' % (attr, name))
            v = m.env[attr]
            if isinstance(v, Opaque):
                return v
            return v
        return self.np.mod_attr(self, name, attr)

    def func(self, qual):
        """look up 'qmix.mod.func' or 'qmix.mod.Class.meth'"""
        parts = qual.split('.')
        for i in range(len(parts) - 1, 0, -1):
            mn = '.'.join(parts[:i])
            if self.prog.exists(mn):
                m = self.module(mn)
                v = m.env.get(parts[i])
                if v is None:
                    raise Unsupported('%s not found' % qual)
                for p in parts[i + 1:]:
                    if isinstance(v, ClassV):
                        v = v.lookup(p)
                    if v is None:
                        raise Unsupported('%s not found' % qual)
                return v
        raise Unsupported('%s not found' % qual)

    # ------------------------------------------------------------ statements
    # exec returns the formula under which control falls through
    def block(self, stmts, frame):
        depth = 0
        saved = self.ctx
        total = TRUE
        try:
            for s in stmts:
                live = self.exec(s, frame)
                if live is FALSE:
                    return FALSE
                if live is not TRUE:
                    kind, f = live
                    if kind == 'assume':
                        self.ctx = self.ctx.add(f)
                        if self.ctx.inconsistent():
                            return FALSE
                        total = ('assume', And(total[1], f)) if isinstance(total, tuple) and total[0] == 'assume' else (
                            ('assume', f) if total is TRUE else (total[0], And(total[1], f)))
                    else:
                        self.push(f)
                        depth += 1
                        total = ('guard', And(total[1], f)) if isinstance(total, tuple) else ('guard', f)
            return total
        finally:
            for _ in range(depth):
                self.guards.pop()
            self.ctx = saved

    def exec(self, s, frame):
        self.steps += 1
        S.check_deadline()
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at line %s' % (type(s).__name__, getattr(s, 'lineno', '?')))
        try:
            r = m(s, frame)
        except PyRaise:
            self.reached()
            raise
        return TRUE if r is None else r

    def reached(self):
        """an exception leaves the current statement: the statement must be one that runs"""
        g = self.gform(0)
        if g is not TRUE and not self.base_ctx.entails(g):
            self.force(g)
        for L in self.loops:
            if not L.concrete and not L.havoc and L.var is not None:
                ne = lt(L.dom[0], L.dom[1])
                if not self.base_ctx.entails(ne):
                    self.force(ne)

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Call) and self.is_io_call(s.value, fr):
            f = s.value.func
            if (f.id if isinstance(f, ast.Name) else f.attr) in ('print', 'cprint', 'warn'):
                txt = ' '.join(str(x.value) for a in s.value.args for x in ast.walk(a) if isinstance(x, ast.Constant))
                self.events.append(('print', txt, self.gform(0)))
            return
        self.ev(s.value, fr)

    def is_io_call(self, c, fr):
        f = c.func
        if isinstance(f, ast.Name) and f.id in ('print', 'cprint', '_print_header', 'print_intro', 'progress_bar', 'filterwarnings'):
            return f.id != 'print' or True
        n = f
        while isinstance(n, ast.Attribute):
            n = n.value
        if isinstance(n, ast.Name) and isinstance(f, ast.Attribute):
            if n.id in ('plt', 'warnings'):
                return True
            if n.id == 'np' and f.attr == 'seterr':
                return True
        return False

    def x_Pass(self, s, fr):
        pass

    def x_Import(self, s, fr):
        for a in s.names:
            if a.asname:
                self.assign_name(fr, a.asname, self.import_name(a.name))
            else:
                self.assign_name(fr, a.name.split('.')[0], Module(a.name.split('.')[0]))

    def x_ImportFrom(self, s, fr):
        for a in s.names:
            if a.name == '*':
                raise Unsupported('import *')
            try:
                v = self.import_name(s.module, a.name)
            except Unsupported as e:
                v = Opaque(str(e))
            self.assign_name(fr, a.asname or a.name, v)

    def x_Global(self, s, fr):
        raise Unsupported('global')

    def x_FunctionDef(self, s, fr, cls=None):
        f = Func(s, fr.module, s.name, cls, closure=fr if fr.func is not None else None)
        self.bind_defaults(f, fr)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, fr, cls)
        if cls is not None:
            cls.attrs[s.name] = v
        else:
            self.assign_name(fr, s.name, v)

    def decorate(self, d, v, fr, cls):
        if isinstance(d, ast.Name) and d.id == 'property':
            return PropertyV(v)
        if isinstance(d, ast.Name) and d.id == 'staticmethod':
            v.bound = 'static'
            return v
        if isinstance(d, ast.Attribute) and d.attr == 'setter':
            old = cls.attrs.get(d.value.id)
            return PropertyV(old.fget if old else None, v)
        txt = ast.unparse(d)
        if 'njit' in txt or '.jit' in txt:
            import re as _re
            for t in _re.findall(r'\b[cfiu]\d+\b', txt):
                if t not in ('c16', 'f8', 'i4', 'i8'):
                    raise Unsupported('numba signature narrows to %s' % t)
            return v
        raise Unsupported('decorator %s' % txt)

    def x_ClassDef(self, s, fr):
        bases = []
        for b in s.bases:
            if isinstance(b, ast.Name) and b.id == 'object':
                continue
            try:
                bases.append(self.ev(b, fr))
            except Unsupported:
                bases.append(Opaque())
        c = ClassV(s.name, bases, fr.module, s)
        for x in s.body:
            if isinstance(x, ast.FunctionDef):
                self.x_FunctionDef(x, fr, c)
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    c.attrs[t.id] = self.ev(x.value, fr)
        self.assign_name(fr, s.name, c)

    def x_Return(self, s, fr):
        v = None if s.value is None else self.ev(s.value, fr)
        g = self.gform(fr.gdepth)
        if g is not TRUE and any(L.frame is fr and L.havoc for L in self.loops):
            raise NeedSplit(g)
        if any(L.frame is fr and not L.concrete for L in self.loops):
            raise Unsupported('return inside a symbolic loop')
        fr.returns.append((g, v))
        fr.rctx = self.ctx
        return FALSE

    def x_Raise(self, s, fr):
        exc, msg = 'Exception', ''
        if s.exc is not None:
            v = self.ev(s.exc, fr)
            if isinstance(v, ExcClass):
                exc = v.name
            elif isinstance(v, ExcVal):
                exc = v.name
        return self.do_raise(exc, msg, fr)

    def do_raise(self, exc, msg, fr):
        """raise at the current program point"""
        g = self.gform(0)
        inloop = [L for L in self.loops if not L.concrete]
        if g is TRUE and not inloop:
            raise PyRaise(exc, msg)
        if self.try_depth:
            if inloop:
                raise Unsupported('raise inside loop inside try')
            if g is not TRUE:
                raise NeedSplit(g)
            raise PyRaise(exc, msg)
        self.raises.append((self.ctx, exc, msg))
        return FALSE

    def x_Assert(self, s, fr):
        c = self.formula(self.ev(s.test, fr))
        t = self.truth(c)
        if t is True:
            return
        if t is False:
            return self.do_raise('AssertionError', ast.unparse(s.test), fr)
        if self.try_depth:
            self.split(c)
        self.raises.append((self.ctx.add(Not(c)), 'AssertionError', ast.unparse(s.test)))
        return ('assume', c)

    def x_If(self, s, fr):
        c = self.formula(self.ev(s.test, fr))
        t = self.truth(c)
        if t is True:
            return self.block(s.body, fr)
        if t is False:
            return self.block(s.orelse, fr)
        nr = len(self.raises)
        nret = len(fr.returns)
        st = self.push(c)
        ncont = len(self.loops[-1].__dict__.get('conts', ())) if self.loops else 0
        try:
            la = self.block(s.body, fr)
        finally:
            self.pop(st)
        ra = len(self.raises) > nr
        nra = len(self.raises)
        st = self.push(Not(c))
        try:
            lb = self.block(s.orelse, fr)
        finally:
            self.pop(st)
        rb = len(self.raises) > nra
        rets = len(fr.returns) > nret
        la_f = la if isinstance(la, Const) else la[1]
        lb_f = lb if isinstance(lb, Const) else lb[1]
        live = Or(And(c, la_f), And(Not(c), lb_f))
        if live is TRUE:
            return TRUE
        if live is FALSE:
            return FALSE
        onlyraise = not rets
        for l_, r_ in ((la, ra), (lb, rb)):
            if l_ is TRUE:
                continue
            if l_ is FALSE and not r_:
                onlyraise = False
            if isinstance(l_, tuple) and l_[0] == 'guard':
                onlyraise = False
        return ('assume', live) if onlyraise else ('guard', live)

    def x_With(self, s, fr):
        for it in s.items:
            txt = ast.unparse(it.context_expr)
            if 'errstate' in txt or 'catch_warnings' in txt:
                continue
            v = self.ev(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        return self.block(s.body, fr)

    def x_Try(self, s, fr):
        try:
            r = self.try_body(s, fr)
        except (PyRaise, BreakEx, ContinueEx):
            if s.finalbody and self.block(s.finalbody, fr) is not TRUE:
                raise Unsupported('jump in a finally block')
            raise
        if s.finalbody:
            if r is not TRUE and not isinstance(r, Const):
                raise Unsupported('finally after a conditional return')
            nret = len(fr.returns)
            if self.block(s.finalbody, fr) is not TRUE or len(fr.returns) != nret:
                raise Unsupported('jump in a finally block')
        return r

    def try_body(self, s, fr):
        self.try_depth += 1
        try:
            try:
                r = self.block(s.body, fr)
            finally:
                self.try_depth -= 1
        except PyRaise as e:
            for h in s.handlers:
                names = [] if h.type is None else [ast.unparse(x).split('.')[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                if h.type is None or any(caught(e.exc, x) for x in names):
                    if h.name:
                        fr.env[h.name] = Opaque('exception object')
                    return self.block(h.body, fr)
            raise
        if s.orelse and r is TRUE:
            r = self.block(s.orelse, fr)
        return r

    def x_Delete(self, s, fr):
        raise Unsupported('del')

    # -------------------------------------------------------------- assigning
    def x_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                items = self.iter_concrete(v)
                if items is None:
                    raise Unsupported('unpack symbolic sequence')
                items, k, r = list(items), star[0], len(t.elts) - star[0] - 1
                if len(items) < k + r:
                    raise PyRaise('ValueError', 'unpack')
                items = items[:k] + [self.vlist(items[k:len(items) - r])] + items[len(items) - r:]
                for x, y in zip(t.elts, items):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
                return
            items = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, items):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.ev_index(t.slice, fr), v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Starred):
            raise Unsupported('starred assignment')
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        items = self.iter_concrete(v)
        if items is None:
            raise Unsupported('unpack symbolic sequence')
        if len(items) != n:
            raise PyRaise('ValueError', 'unpack')
        return items

    def assign_name(self, fr, name, v):
        if len(self.guards) == fr.gdepth:
            fr.env[name] = v
            return
        g = self.gform(fr.gdepth)
        old = fr.env.get(name, UNDEF)
        if old is v:
            return
        if old is UNDEF:
            fr.env[name] = Partial(g, v)
        elif isinstance(old, Partial):
            if old.g is g or Ctx([g]).entails(old.g):
                fr.env[name] = Partial(old.g, v if old.g is g else self.merge(g, v, old.v))
            elif Ctx([old.g, g]).inconsistent():
                gg = Or(g, old.g)
                m = self.try_merge(g, v, old.v)
                fr.env[name] = Partial(gg, m) if gg is not TRUE else m
            else:
                gg = Or(g, old.g)
                fr.env[name] = Partial(gg, self.merge(g, v, old.v)) if gg is not TRUE else self.merge(g, v, old.v)
        else:
            fr.env[name] = self.merge(g, v, old)

    def try_merge(self, g, a, b):
        return self.merge(g, a, b)

    def merge(self, g, a, b):
        """if g then a else b"""
        if a is b:
            return a
        if isinstance(a, Num) and isinstance(b, Num):
            ty = max(a.ty, b.ty, key=['bool', 'int', 'float', 'complex'].index)
            return Num(ite(g, a.p, b.p), ty)
        if isinstance(a, (bool, VBool)) and isinstance(b, (bool, VBool)):
            fa, fb = self.formula(a), self.formula(b)
            return vbool(Or(And(g, fa), And(Not(g), fb)))
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.shape) == len(b.shape) and all(x is y for x, y in zip(a.shape, b.shape)):
            sa, sb = self.snap(a), self.snap(b)
            if a.dtype != b.dtype:
                self.force(g)
            m = self.arr(a.shape, a.dtype, lambda idx: ite(g, sa(idx), sb(idx)))
            # one of two arrays: a write to it, or to one of them while it is in use, is decided by g on the path
            m.buf.born = ()
            m.buf.one_of = g
            for x in (a.buf, b.buf):
                x.merged = getattr(x, 'merged', ()) + (m.buf,)
            return m
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(g, x, y) for x, y in zip(a, b))
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
            return StrV('one of two strings')
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            r = Opaque('one of two values')
            r.known = (g, a)
            return r
        if type(a) is type(b) and isinstance(a, (Builtin, ExcClass)) and a.name == b.name:
            return a
        # values that cannot be merged: decide g on the path (not in the branch being executed, where it holds trivially)
        if self.base_ctx.entails(g):
            return a
        if self.base_ctx.entails(Not(g)):
            return b
        self.force(g)

    def x_AugAssign(self, s, fr):
        t = s.target
        op = type(s.op).__name__
        v = self.ev(s.value, fr)
        if isinstance(t, ast.Name):
            old = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
            if isinstance(old, Arr):
                self.aug_arr(old, op, v)
                return
            if isinstance(old, VList) and op == 'Add':
                raise Unsupported('list +=')
            self.assign_name(fr, t.id, self.binop(op, old, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            ix = self.ev_index(t.slice, fr)
            if isinstance(o, Arr) and self.is_basic(ix):
                self.aug_arr(self.view(o, ix), op, v)
                return
            cur = None if isinstance(o, Arr) else self.getitem(o, ix)
            if isinstance(cur, Arr):
                self.aug_arr(cur, op, v)
            elif cur is not None:
                if isinstance(cur, VList) and op == 'Add':
                    raise Unsupported('list +=')
                self.setitem(o, ix, self.binop(op, cur, v))
            else:
                self.setitem(o, ix, self.binop(op, self.getitem(o, ix), v))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            if isinstance(cur, Arr):
                self.aug_arr(cur, op, v)
            else:
                self.setattr(o, t.attr, self.binop(op, cur, v))
        else:
            raise Unsupported('augassign target')

    # ------------------------------------------------------------------ loops
    def x_Continue(self, s, fr):
        L = self.loops[-1]
        if L.havoc:
            g = self.gform(L.gdepth)
            if g is not TRUE:
                raise NeedSplit(g)
            raise ContinueEx(L)
        L.conts.append(self.gform(L.gdepth))
        return FALSE

    def x_Break(self, s, fr):
        L = self.loops[-1]
        if L.havoc:
            g = self.gform(L.gdepth)
            if g is not TRUE:
                raise NeedSplit(g)
            raise BreakEx(L)
        if not L.concrete:
            raise Unsupported('break inside a symbolic loop')
        L.brk = Or(L.brk, self.gform(L.gdepth))
        return FALSE

    def x_While(self, s, fr):
        # bounded unrolling when the condition is decided concretely
        n = 0
        L = LoopCtx(None, fr)
        L.concrete, L.var, L.gdepth, L.conts = True, None, len(self.guards), []
        L.mark = -1
        while True:
            c = self.formula(self.ev(s.test, fr))
            t = self.truth(c)
            if t is None:
                if n:
                    raise Unsupported('while on symbolic condition')
                return self.havoc_loop(s, fr, None)
            if not t:
                break
            n += 1
            if n > 200:
                raise Unsupported('while: too many iterations')
            self.loops.append(L)
            try:
                self.block(s.body, fr)
            finally:
                self.loops.pop()
            if L.brk is TRUE:
                return
            if L.brk is not FALSE:
                raise Unsupported('symbolic break in while')

    def x_For(self, s, fr):
        it = self.ev(s.iter, fr)
        if getattr(self, 'texts', False):
            from . import text
            start = None
            seq = it
            if isinstance(it, EnumV):
                seq, start = it.seq, it.start
            if isinstance(seq, text.FileObj):
                seq = text.lines_of(self, seq)
            if isinstance(seq, text.Lines):
                return text.for_lines(self, s, fr, seq, start)
        items = self.iter_concrete(it)
        if items is not None and getattr(self, 'cut_loops', False) and isinstance(it, RangeV) and not self.loops:
            return self.havoc_loop(s, fr, it)
        if items is not None and len(items) <= self.MAXUNROLL:
            return self.unrolled(s, fr, items)
        conditional = False
        if getattr(self, 'bag_inv', None) is not None:
            for nm, cond in grown_lists(s.body):
                v = fr.env.get(nm)
                if isinstance(v, VList):
                    v = self.to_bag(v)
                if isinstance(v, VBag):
                    conditional = conditional or cond
        if leaves_loop(s) or conditional or (isinstance(it, RangeV) and not isinstance(it.step, int)):
            return self.havoc_loop(s, fr, it)
        return self.sym_for(s, fr, it)

    def to_bag(self, o):
        """a list about to grow an unknown number of times: its items satisfy the invariant of the contract"""
        new = self.new(VBag(self.bag_inv))
        for c in self.heap:
            ct = c.content
            vals = ct.values() if isinstance(ct, dict) else (ct if isinstance(c, (VList, VBag)) else ([x for kv in ct for x in kv] if isinstance(c, VDict) else ()))
            if any(x is o for x in vals):
                raise Unsupported('grown list is stored elsewhere')
        for x in o.content:
            self.bag_append(new, x)
        for f in self.frames:
            for n, v in list(f.env.items()):
                if v is o:
                    f.env[n] = new
        return new

    def bag_append(self, o, v):
        if not isinstance(v, Num) or v.p.sort != INT:
            raise Unsupported('item of another type in a list of integers')
        self.obligs.append(('item of the list satisfies its invariant', self.ctx.entails(o.inv(v.p)), '%s under %s' % (v.p, ' ; '.join(map(str, self.ctx.facts))[:600])))
        m, last, _, _ = o.content
        if any(not L.concrete for L in self.loops):
            o.content = (m, None, False, False)          # an unknown number of times
        else:
            o.content = (m + (v.p,), v.p, False, False)

    def bag_last(self, o):
        m, last, d, od = o.content
        if last is None:
            if any(not L.concrete for L in self.loops):
                raise Unsupported('last item of a growing list')
            last = sym('bag%d_last' % self.hcount, INT)
            self.hcount += 1
            o.content = (m + (last,), last, d, od)
            self.ctx = self.ctx.add(o.inv(last))
        return last

    # ---- loops with an arbitrary number of iterations and early exits
    def havoc_loop(self, s, fr, it):
        """Verify the body once from an arbitrary state (invariant: the carried arrays keep their shape and type, everything else
        about them is unknown).  The paths that leave the loop go on with the state they leave it in; the path that reaches the end of
        the body is the inductive step and ends there (PathEnd)."""
        if s.orelse:
            raise Unsupported('loop-else')
        if any(not L.concrete for L in self.loops) or any(L.havoc for L in self.loops):
            raise Unsupported('loop with early exit inside a symbolic loop')
        g = self.gform(0)
        if g is not TRUE:
            raise NeedSplit(g)       # the statement that introduced the guard decides it on re-execution
        hv = 'hv%d' % self.hcount
        self.hcount += 1
        # arrays written by some path through the body (found on any path, havocked on every path: see explore)
        known = {}
        reg = self.shared.setdefault((hv, s.lineno), [])
        for nm in reg:
            v = fr.env.get(nm)
            if not isinstance(v, Arr):
                raise Unsupported('array %s written by a loop is not there on every path' % nm)
            known[v.buf] = '%s_b_%s' % (hv, nm)
        for attempt in range(12):
            # entry test
            if it is None:
                if not self.split(self.formula(self.ev(s.test, fr))):
                    return
            else:
                n = self.length(it)
                if not self.split(lt(ZERO, n)):
                    return
            snap = self.snapshot()
            hcount = self.hcount
            L = LoopCtx(len(self.heap) and self.heap[-1].serial, fr)
            L.concrete, L.havoc, L.var, L.gdepth, L.conts = True, True, None, len(self.guards), []
            rec = {'state': [], 'index': None, 'name': hv, 'line': s.lineno}
            # arbitrary state
            for b, nm in known.items():
                so = {'bool': INT, 'int': INT, 'float': REAL, 'complex': CPLX}[b.dtype]
                rec['state'].append((b, nm, b.content))
                b.content = ((lambda nm, so: lambda idx: app(nm, idx, so))(nm, so), ())
                L.mutated[b] = (nm, None)
            names = set(assigned_names(s.body))
            if it is not None:
                names |= {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
            carried = {}
            for n_ in sorted(names):
                v = fr.env.get(n_, UNDEF)
                if not rebinds(s, n_) and not isinstance(v, Num) and not isinstance(v, (bool, VBool)):
                    continue
                if isinstance(v, Num):
                    a = sym('%s_%s' % (hv, n_), v.p.sort)
                    rec['state'].append((n_, a, v))
                    fr.env[n_] = Num(a, v.ty)
                    carried[n_] = v.ty
                elif isinstance(v, (bool, VBool)):
                    a = sym('%s_%s' % (hv, n_), BOOL)
                    rec['state'].append((n_, a, v))
                    fr.env[n_] = VBool(mk_lit('b', a))
                    carried[n_] = 'bool'
                elif isinstance(v, Arr):
                    so = {'bool': INT, 'int': INT, 'float': REAL, 'complex': CPLX}[v.dtype]
                    nm = '%s_%s' % (hv, n_)
                    b = self.buffer(v.shape, v.dtype, (lambda nm, so: lambda idx: app(nm, idx, so))(nm, so), v.buf.kind)
                    b.origin = v.buf.origin
                    rec['state'].append((n_, nm, v))
                    fr.env[n_] = Arr(b)
                    carried[n_] = v
                elif v is UNDEF:
                    fr.env[n_] = Opaque('value of %s carried from an earlier iteration' % n_)
                else:
                    fr.env[n_] = Opaque('value of %s carried from an earlier iteration' % n_)
            facts = []
            for nm, cond in grown_lists(s.body):
                v = fr.env.get(nm)
                if isinstance(v, VBag):
                    m, last, d, od = v.content
                    last = sym('%s_last_%s' % (hv, nm), INT)
                    v.content = (m + (last,), last, False, False)
                    facts.append(v.inv(last))
            bagfacts = facts
            idx = None
            if it is not None:
                idx = sym(hv + '_i', INT)
                rec['index'] = idx
                facts = bagfacts + [le(0, idx), lt(idx, n)]
            self.ctx = self.ctx.add(*facts)
            live = [f for f in facts]
            nh = len(self.havocs)
            self.havocs.append(rec)
            self.loops.append(L)
            try:
                if it is None:
                    c = self.formula(self.ev(s.test, fr))
                    if not self.split(c):
                        self.loops.pop()
                        return ('assume', And(*live)) if live else None
                else:
                    self.assign(s.target, self.item_at(it, idx), fr)
                for h in getattr(self, 'loop_hooks', []):
                    h(self, 'start', rec, fr)
                try:
                    r = self.block(s.body, fr)
                    if r is FALSE:
                        self.loops.pop()
                        if fr.returns and fr.returns[-1][0] is TRUE:
                            return FALSE
                        raise Unsupported('loop body does not end')
                    if isinstance(r, tuple):
                        live.append(r[1])
                        self.ctx = self.ctx.add(r[1])
                        if r[0] == 'guard':
                            raise Unsupported('partial loop body')
                except ContinueEx as e:
                    if e.loop is not L:
                        raise
                # end of the body: the carried state keeps its type and shape
                for n_, v in carried.items():
                    w = fr.env.get(n_)
                    if isinstance(v, Arr):
                        ok = isinstance(w, Arr) and w.dtype == v.dtype and len(w.shape) == len(v.shape) and \
                            all(self.ctx.entails(eq(x, y)) for x, y in zip(w.shape, v.shape))
                    elif v == 'bool':
                        ok = isinstance(w, (bool, VBool))
                    else:
                        ok = isinstance(w, Num) and (w.ty == v or DT_ORDER.index(w.ty) <= DT_ORDER.index(v))
                    if not ok:
                        raise Unsupported('loop changes the type of %s' % n_)
                for h in getattr(self, 'loop_hooks', []):
                    h(self, 'end', rec, fr)
                if it is not None and self.split(eq(idx, n - 1)):
                    self.loops.pop()
                    return ('assume', And(*live)) if live else None
                self.loops.pop()
                raise PathEnd(rec)
            except BreakEx as e:
                if e.loop is not L:
                    raise
                while self.loops and self.loops[-1] is not L:
                    self.loops.pop()
                self.loops.pop()
                self.ctx = self.ctx.add(*live)
                return ('assume', And(*live)) if live else None
            except LoopRestart as e:
                if e.loop is not L:
                    raise
                self.restore(snap)
                del self.havocs[nh:]
                self.hcount = hcount
                nms = sorted(n_ for n_, v in fr.env.items() if isinstance(v, Arr) and v.buf is e.buf)
                if not nms:
                    raise Unsupported('loop writes an array not held by a local name')
                known[e.buf] = '%s_b_%s' % (hv, nms[0])
                reg.append(nms[0])
                continue
        raise Unsupported('loop does not stabilise')

    def unrolled(self, s, fr, items):
        L = LoopCtx(-1, fr)
        L.concrete, L.var, L.gdepth, L.conts = True, None, len(self.guards), []
        pushed = 0
        st0 = self.ctx
        brk_all = FALSE
        try:
            for x in items:
                self.loops.append(L)
                L.brk, L.conts = FALSE, []
                nret = len(fr.returns)
                try:
                    self.assign(s.target, x, fr)
                    self.block(s.body, fr)
                finally:
                    self.loops.pop()
                stop = L.brk
                brk_all = Or(brk_all, L.brk)
                for g, v in fr.returns[nret:]:
                    # guard relative to this loop
                    stop = Or(stop, And(*[f for f in [g]]))
                if stop is TRUE:
                    break
                if stop is not FALSE:
                    if len(fr.returns) > nret and L.gdepth > fr.gdepth:
                        pass
                    self.push(Not(stop))
                    pushed += 1
                    if self.ctx.inconsistent():
                        break
        finally:
            for _ in range(pushed):
                self.guards.pop()
            self.ctx = st0
        live = TRUE
        # returns inside the loop kill the fall-through
        rg = [g for g, v in fr.returns if g is TRUE]
        if s.orelse:
            raise Unsupported('for-else')
        dead = getattr(L, 'dead', None)
        retg = Or(*[g for g, v in fr.returns]) if fr.returns else FALSE
        if retg is TRUE:
            return FALSE
        if retg is not FALSE:
            return ('guard', Not(retg))
        return TRUE

    def length(self, v):
        """length of a sequence as Poly"""
        if getattr(self, 'texts', False):
            from . import text
            if isinstance(v, text.Lines):
                return text.lines_len(v)
        if isinstance(v, Arr):
            return v.shape[0]
        if isinstance(v, (VList,)):
            return con(len(v.content))
        if isinstance(v, RepList):
            return v.content[0]
        if isinstance(v, (tuple, str)):
            return con(len(v))
        if isinstance(v, Obj) and getattr(v.cls, 'nt', None):
            return con(len(v.cls.nt))
        if isinstance(v, RangeV):
            if not isinstance(v.step, int):
                return app('rangelen', [v.lo, v.hi, v.step], INT)
            if v.step == 1:
                n = v.hi - v.lo
            elif v.step == -1:
                n = v.lo - v.hi
            else:
                n = app('floor', [(v.hi - v.lo + (v.step - (1 if v.step > 0 else -1))) * Fr(1, v.step)])
            return n if self.ctx.entails(le(0, n)) else ite(le(0, n), n, 0)
        if isinstance(v, EnumV):
            return self.length(v.seq)
        if isinstance(v, ZipV):
            ls = [self.length(x) for x in v.seqs]
            if all(x is ls[0] for x in ls):
                return ls[0]
            raise Unsupported('zip of different lengths')
        raise Unsupported('len of %r' % (v,))

    def item_at(self, v, i):
        """i-th item (Poly i) of a sequence"""
        if isinstance(v, RangeV):
            if not isinstance(v.step, int):
                # some number of the range
                x = app('rangeitem', [v.lo, v.hi, v.step, i], INT)
                self.ctx = self.ctx.add(le(v.lo, x), lt(x, v.hi))
                return Num(x, 'int')
            return Num(v.lo + i * v.step, 'int')
        if isinstance(v, EnumV):
            return (Num(v.start + i, 'int'), self.item_at(v.seq, i))
        if isinstance(v, ZipV):
            return tuple(self.item_at(x, i) for x in v.seqs)
        if isinstance(v, Arr):
            return self.getitem(v, Num(i, 'int'))
        if isinstance(v, VList):
            c = i.const()
            if c is not None:
                return v.content[int(c)]
        raise Unsupported('item of %r' % (v,))

    def iter_concrete(self, it):
        """list of items if the length is a known constant, else None"""
        if isinstance(it, (tuple,)):
            return list(it)
        if isinstance(it, str):
            return list(it)
        if isinstance(it, VList):
            return list(it.content)
        if isinstance(it, Obj) and getattr(it.cls, 'nt', None):
            return [it.content[f] for f in it.cls.nt]
        if isinstance(it, VDict):
            return [k for k, v in it.content]
        if isinstance(it, Num) or it is None or isinstance(it, (bool, VBool)):
            raise PyRaise('TypeError', 'not iterable')
        if isinstance(it, Opaque):
            raise Unsupported('iterating %r' % it)
        if isinstance(it, Arr) and not it.shape:
            raise PyRaise('TypeError', 'iteration over a 0-d array')
        n = self.length(it)
        c = n.const()
        if c is None:
            return None
        return [self.item_at(it, con(i)) for i in range(int(c))] if c <= self.MAXUNROLL else None

    def snapshot(self):
        hs = []
        for c in self.heap:
            hs.append((c, c.content if not isinstance(c.content, dict) else dict(c.content)))
        return (hs, len(self.heap), [(f, dict(f.env), len(f.returns)) for f in self.frames], len(self.raises), self.ctx,
                list(self.guards), len(self.obligs), len(self.loops), len(self.events))

    def restore(self, s):
        hs, n, fs, nr, ctx, guards, no, nl, ne = s
        for c, x in hs:
            c.content = x if not isinstance(x, dict) else dict(x)
        del self.heap[n:]
        for f, e, k in fs:
            f.env.clear()
            f.env.update(e)
            del f.returns[k:]
        del self.frames[len(fs):]
        del self.raises[nr:]
        self.ctx = ctx
        self.guards = guards
        del self.obligs[no:]
        del self.loops[nl:]
        del self.events[ne:]

    def sym_for(self, s, fr, it):
        if s.orelse:
            raise Unsupported('for-else')
        # iterate over t in [0, n) or directly over the range variable
        if isinstance(it, RangeV) and it.step in (1, -1):
            if it.step == 1:
                lo, hi, rev = it.lo, it.hi, False
            else:
                lo, hi, rev = it.hi + 1, it.lo + 1, True
            item = lambda i: Num(i, 'int')
        else:
            lo, hi, rev = ZERO, self.length(it), False
            item = lambda i: self.item_at(it, i)

        def body(i):
            self.assign(s.target, item(i), fr)
            return self.block(s.body, fr)
        names = assigned_names(s.body) | assigned_names([ast.Assign([s.target], ast.Constant(0))]) if False else set(assigned_names(s.body))
        tn = set()
        for n in ast.walk(s.target):
            if isinstance(n, ast.Name):
                tn.add(n.id)
        return self.sym_loop(fr, names | tn, tn, lo, hi, rev, body, s)

    def sym_loop(self, fr, names, targets, lo, hi, rev, body, node):
        i = fresh('i')
        I = P(i)
        dom = And(le(lo, I), lt(I, hi))
        if self.ctx.add(dom).inconsistent():
            return TRUE       # never entered
        snap = self.snapshot()
        known = []
        widen = {}
        for attempt in range(40):
            L = LoopCtx(len(self.heap) and self.heap[-1].serial, fr)
            L.var, L.dom = i, (lo, hi, rev)
            L.gdepth = len(self.guards)
            L.conts = []
            self.loops.append(L)
            for b in known:
                self.loop_mutate(L, b)
            ph = {}
            try:
                for n in sorted(names - targets):
                    v = fr.env.get(n, UNDEF)
                    if isinstance(v, Partial):
                        v = v.v
                    if isinstance(v, Num):
                        so = widen.get(n) or v.p.sort
                        if v.ty != 'int' and so == INT:
                            so = REAL
                        a = fresh('h', so)
                        ph[n] = ('num', a, v)
                        fr.env[n] = Num(P(a), {INT: 'int', REAL: 'float', CPLX: 'complex'}[so])
                    elif isinstance(v, (bool, VBool)):
                        a = fresh('h', BOOL)
                        ph[n] = ('bool', a, v)
                        fr.env[n] = VBool(mk_lit('b', P(a)))
                    elif isinstance(v, Arr):
                        nm = '_h%d' % next(T._fresh)
                        so = {'bool': INT, 'int': INT, 'float': REAL, 'complex': CPLX}[v.dtype]
                        b = Buffer(v.shape, v.dtype, (lambda nm, so: lambda idx: raw_app(nm, idx, so))(nm, so))
                        b.writeable = v.buf.writeable
                        # only havoc if rebound in the body by a plain assignment
                        if rebinds(node, n):
                            ph[n] = ('arr', nm, v)
                            b.serial = v.buf.serial
                            fr.env[n] = Arr(b)
                outer = self.ctx
                self.ctx = self.ctx.add(dom)
                rn = len(self.raises)
                try:
                    body(I)
                finally:
                    self.ctx = outer
                break
            except LoopRestart as e:
                if e.loop is not L:
                    raise
                self.restore(snap)
                known.append(e.buf)
                continue
        else:
            raise Unsupported('loop does not stabilise')
        self.loops.pop()
        # widening of types
        re_run = False
        for n, (k, a, v) in ph.items():
            v1 = fr.env.get(n)
            if isinstance(v1, Partial):
                v1 = v1.v
            if k == 'num' and isinstance(v1, Num) and T._ORD[v1.p.sort] > T._ORD[a.sort]:
                widen[n] = v1.p.sort
                re_run = True
        if re_run:
            self.restore(snap)
            self._widen = widen
            return self.sym_loop_w(fr, names, targets, lo, hi, rev, body, node, widen)
        return self.summarise(L, fr, names, targets, lo, hi, rev, i, dom, ph, rn)

    def sym_loop_w(self, fr, names, targets, lo, hi, rev, body, node, widen):
        # re-enter with widened start values
        for n, so in widen.items():
            v = fr.env[n]
            fr.env[n] = Num(v.p, {INT: 'int', REAL: 'float', CPLX: 'complex'}[so])
            fr.env[n].p = v.p
        save = self.sym_loop
        i_w = dict(widen)
        return self._sym_loop_widened(fr, names, targets, lo, hi, rev, body, node, i_w)

    def _sym_loop_widened(self, fr, names, targets, lo, hi, rev, body, node, widen):
        i = fresh('i')
        I = P(i)
        dom = And(le(lo, I), lt(I, hi))
        snap = self.snapshot()
        known = []
        for attempt in range(40):
            L = LoopCtx(len(self.heap) and self.heap[-1].serial, fr)
            L.var, L.dom = i, (lo, hi, rev)
            L.gdepth = len(self.guards)
            L.conts = []
            self.loops.append(L)
            for b in known:
                self.loop_mutate(L, b)
            ph = {}
            try:
                for n in sorted(names - targets):
                    v = fr.env.get(n, UNDEF)
                    if isinstance(v, Partial):
                        v = v.v
                    if isinstance(v, Num):
                        so = widen.get(n) or v.p.sort
                        if v.ty != 'int' and so == INT:
                            so = REAL
                        a = fresh('h', so)
                        ph[n] = ('num', a, v)
                        fr.env[n] = Num(P(a), {INT: 'int', REAL: 'float', CPLX: 'complex'}[so])
                    elif isinstance(v, (bool, VBool)):
                        a = fresh('h', BOOL)
                        ph[n] = ('bool', a, v)
                        fr.env[n] = VBool(mk_lit('b', P(a)))
                    elif isinstance(v, Arr) and rebinds(node, n):
                        raise Unsupported('widened array')
                outer = self.ctx
                self.ctx = self.ctx.add(dom)
                rn = len(self.raises)
                try:
                    body(I)
                finally:
                    self.ctx = outer
                break
            except LoopRestart as e:
                if e.loop is not L:
                    raise
                self.restore(snap)
                known.append(e.buf)
        else:
            raise Unsupported('loop does not stabilise')
        self.loops.pop()
        return self.summarise(L, fr, names, targets, lo, hi, rev, i, dom, ph, rn)

    def loop_mutate(self, L, b):
        """b (older than loop L) is about to be written inside L"""
        if b in L.mutated:
            return
        if b in L.readset:
            raise LoopRestart(L, b)
        nm = '_h%d' % next(T._fresh)
        so = {'bool': INT, 'int': INT, 'float': REAL, 'complex': CPLX}[b.dtype]
        L.mutated[b] = (nm, b.content)
        b.content = ((lambda idx: raw_app(nm, idx, so)), ())

    def grow_list(self, o, piece):
        """list o (VList or list-like Arr) continues as the concatenation with piece"""
        items = [] if isinstance(o, VList) and not o.content else [o]
        new = self.np.concatenate(self, items + [piece])
        new.buf.kind = 'list'
        old = o if isinstance(o, VList) else o.buf

        def same(v):
            return v is old if isinstance(o, VList) else (isinstance(v, Arr) and v.buf is old)
        for c in self.heap:
            ct = c.content
            vals = ct.values() if isinstance(ct, dict) else (ct if isinstance(c, VList) else ([x for kv in ct for x in kv] if isinstance(c, VDict) else ()))
            if any(same(v) for v in vals):
                raise Unsupported('grown list is stored elsewhere')
        for f in self.frames:
            for n, v in list(f.env.items()):
                if same(v):
                    f.env[n] = new
        return new

    def replace_list(self, old, new):
        for c in self.heap:
            ct = c.content
            if isinstance(c, Obj):
                for k_, x in list(ct.items()):
                    if x is old:
                        ct[k_] = new
            else:
                vals = ct if isinstance(c, (VList, VBag)) else ([x for kv in ct for x in kv] if isinstance(c, VDict) else ())
                if any(x is old for x in vals):
                    raise Unsupported('grown list is stored elsewhere')
        for f in self.frames:
            for n, v in list(f.env.items()):
                if v is old:
                    f.env[n] = new

    def list_append(self, o, v):
        if isinstance(o, VBag):
            if self.guards and self.gform(0) is not TRUE:
                raise NeedSplit(self.gform(0))
            return self.bag_append(o, v)
        ser = o.serial if isinstance(o, VList) else o.buf.serial
        Ls = [L for L in self.loops if (L.havoc or not L.concrete) and ser <= L.mark]
        if any(L.havoc for L in Ls) or len(Ls) > 1:
            raise Unsupported('list grown in nested symbolic loops')
        if not Ls:
            if self.gcell(o if isinstance(o, VList) else o.buf) is not TRUE:
                raise Unsupported('list mutation under a symbolic condition')
            if isinstance(o, VList):
                o.content = o.content + (v,)
            else:
                self.grow_list(o, self.np.asarray(self, self.vlist([v])))
            return
        L = Ls[0]
        if isinstance(v, RepList) and isinstance(o, VList) and not o.content and not self.guards[L.gdepth:] and L.var not in v.content[0].fv \
                and not isinstance(v.content[1], (Num, VBool)):
            L.appends.append((o, v))
            return
        if not isinstance(v, Num) or self.guards[L.gdepth:]:
            raise Unsupported('list mutation in symbolic loop')
        L.appends.append((o, v))

    def touch_cell(self, c):
        """a list, dictionary or object is changed in place"""
        for L in self.loops:
            if (L.havoc or not L.concrete) and c.serial <= L.mark:
                raise Unsupported('object changed inside a loop')

    def touch_write(self, b):
        for L in self.loops:
            if L.havoc and b.serial <= L.mark and b not in L.mutated:
                raise LoopRestart(L, b)
            if not L.concrete and b.serial <= L.mark:
                self.loop_mutate(L, b)

    def touch_read(self, b):
        for L in self.loops:
            if not L.concrete and b.serial <= L.mark and b not in L.mutated:
                L.readset.add(b)

    def summarise(self, L, fr, names, targets, lo, hi, rev, i, dom, ph, rn):
        I = P(i)
        nonempty = lt(lo, hi)
        ne_known = self.ctx.entails(nonempty)
        last = lo if rev else hi - 1
        # conditional raises inside the body: keep (their ctx mentions i, existentially)
        after = {}
        for n in names:
            v = fr.env.get(n, UNDEF)
            after[n] = v
        # ---- closed forms for scalars, resolved in dependency order
        phsyms = {a: n for n, (k, a, v) in ph.items() if k in ('num', 'bool')}
        phapps = set(a for n, (k, a, v) in ph.items() if k == 'arr') | set(nm for nm, _ in L.mutated.values())
        res_at = {}      # placeholder sym -> Poly at iteration i
        final = {}
        pending = {}
        for n, (k, a, v0) in ph.items():
            pending[n] = (k, a, v0)

        def has_ph(p):
            return any(x in phsyms and x not in res_at for x in p.fv) or bool(p.apps & phapps)

        def resolve(p):
            return subst(p, {x: q for x, q in res_at.items() if x in p.fv}) if any(x in res_at for x in p.fv) else p

        def prefix(g, j):
            # range of iterations before i
            if rev:
                return And(lt(I, P(j)), lt(P(j), hi))
            return And(le(lo, P(j)), lt(P(j), I))

        changed = True
        while changed and pending:
            changed = False
            for n in sorted(pending):
                k, a, v0 = pending[n]
                v1 = after[n]
                if isinstance(v1, Partial):
                    v1 = v1.v
                if k == 'num':
                    if not isinstance(v1, Num):
                        continue
                    q = resolve(v1.p)
                    if q is P(a):
                        res_at[a] = v0.p
                        final[n] = v0
                    else:
                        g = q - P(a)
                        if not has_ph(g):
                            j = fresh('j')
                            gj = subst(g, {i: P(j)})
                            res_at[a] = v0.p + mk_sum([j], prefix(g, j), gj)
                            final[n] = Num(v0.p + mk_sum([j], And(le(lo, P(j)), lt(P(j), hi)), gj), v1.ty)
                            self.oblig('loop accumulator %s' % n, True, 'sum')
                        elif not has_ph(q):
                            # overwritten every iteration: value at start of iteration i is that of the previous one
                            prev = subst(q, {i: I + (1 if rev else -1)})
                            first = eq(I, last if False else ((hi - 1) if rev else lo))
                            res_at[a] = ite(first, v0.p, prev)
                            lv = subst(q, {i: last})
                            final[n] = Num(lv if ne_known else ite(nonempty, lv, v0.p), v1.ty)
                        elif a not in (g.fv - set()) or True:
                            m = self.closed_max(q, a, i, lo, hi, prefix, v0, has_ph)
                            if m is None:
                                continue
                            res_at[a], fv = m
                            final[n] = Num(fv, v1.ty)
                elif k == 'bool':
                    if not isinstance(v1, (bool, VBool)):
                        continue
                    f = self.formula(v1)
                    lit = mk_lit('b', P(a))
                    f0 = self.formula(v0)
                    if f is lit:
                        final[n] = v0
                        res_at[a] = iv(f0)
                    else:
                        t = subst_f(f, {a: ONE})
                        e = subst_f(f, {a: ZERO})
                        if any(x in phsyms and phsyms[x] != n and x not in res_at for x in f.fv) or f.apps & phapps:
                            continue
                        j = fresh('j')
                        if e is FALSE:      # ph and t
                            tj = subst_f(t, {i: P(j)})
                            res_at[a] = iv(And(f0, forall([j], Implies(prefix(None, j), tj))))
                            final[n] = vbool(And(f0, forall([j], Implies(And(le(lo, P(j)), lt(P(j), hi)), tj))))
                        elif t is TRUE:     # ph or e
                            ej = subst_f(Not(e), {i: P(j)})
                            res_at[a] = iv(Or(f0, Not(forall([j], Implies(prefix(None, j), ej)))))
                            final[n] = vbool(Or(f0, Not(forall([j], Implies(And(le(lo, P(j)), lt(P(j), hi)), ej)))))
                        elif a not in f.fv:
                            lv = subst_f(f, {i: last})
                            final[n] = vbool(lv if ne_known else Or(And(nonempty, lv), And(Not(nonempty), f0)))
                            res_at[a] = ONE  # unused
                        else:
                            continue
                else:
                    if after[n] is not None and isinstance(after[n], Arr):
                        cf = self.recurrence(n, a, v0, after[n], i, lo, hi, rev, dom)
                        if cf is None:
                            cf = self.pointwise(a, v0, after[n], i, lo, hi, rev, resolve, has_ph)
                        if cf is None:
                            if self.arr_ph_free(after[n], phapps, phsyms):
                                continue
                            continue
                        at_i, fin = cf
                        final[n] = fin
                        self.hres[a] = at_i
                        phapps.discard(a)
                    else:
                        continue
                del pending[n]
                changed = True
        # array names rebound every iteration without reading the placeholder
        for n in list(pending):
            k, a, v0 = pending[n]
            v1 = after[n]
            if isinstance(v1, Partial):
                v1 = v1.v
            if k == 'arr' and isinstance(v1, Arr):
                u = [P(fresh('u')) for _ in v1.shape]
                b = self.read_arr(v1, u)
                if not has_ph(resolve(self.hresolve(b))):
                    final[n] = self.late(v1, i, last, res_at)
                    del pending[n]
        # ---- buffers
        for b, (nm, old) in L.mutated.items():
            b.content = self.generalise(b, nm, old, b.content, i, lo, hi, rev, dom, resolve, has_ph, phapps)
        # ---- lists grown by one item per iteration
        grown = []
        for o, v in L.appends:
            if any(x is o for x, _ in grown):
                raise Unsupported('several appends per iteration')
            if L.conts:
                raise Unsupported('append in loop with continue')
            if isinstance(v, RepList):
                # the same (immutable) row in every iteration
                if not self.ctx.entails(le(lo, hi)):
                    raise Unsupported('list mutation in symbolic loop')
                self.replace_list(o, self.new(RepList(hi - lo, v)))
                continue
            q = resolve(self.hresolve(v.p))
            if has_ph(q):
                raise Unsupported('append of loop-carried value')
            if rev:
                raise Unsupported('append in reversed loop')
            cnt = hi - lo if ne_known or self.ctx.entails(le(lo, hi)) else ite(nonempty, hi - lo, 0)
            piece = self.arr([cnt], v.ty, (lambda q: lambda idx: subst(q, {i: lo + idx[0]}))(q))
            grown.append((o, piece))
        for o, piece in grown:
            self.grow_list(o, piece)
        # recorded raises keep their ctx; substitute accumulators where needed
        # ---- environment after the loop
        for n in names:
            v1 = after[n]
            part = None
            if isinstance(v1, Partial):
                part = v1
            if n in final:
                fr.env[n] = final[n]
                continue
            if n in pending:
                fr.env[n] = Opaque('loop-carried variable %s without closed form' % n)
                continue
            # fresh in the loop (or loop target)
            if v1 is UNDEF:
                continue
            if part is not None:
                fr.env[n] = Opaque('conditionally assigned in loop: %s' % n)
                continue
            fv = self.at_last(v1, i, last, res_at, has_ph, L.mark)
            if ne_known:
                fr.env[n] = fv
            else:
                fr.env[n] = Partial(nonempty, fv)
        return TRUE

    def closed_max(self, q, a, i, lo, hi, prefix, v0, has_ph):
        at = atom_of(q)
        if at is not None and at.kind == 'app' and at.a[0] in ('max', 'min'):
            x, y = at.a[1]
            other = y if x is P(a) else (x if y is P(a) else None)
            if other is not None and a not in other.fv and not has_ph(other):
                j = fresh('j')
                oj = subst(other, {i: P(j)})
                fn = at.a[0] + 'red'
                return (app(fn, [mk_lam([j], iv(prefix(None, j))), mk_lam([j], oj), v0.p]),
                        app(fn, [mk_lam([j], iv(And(le(lo, P(j)), lt(P(j), hi)))), mk_lam([j], oj), v0.p]))
        return None

    def hresolve(self, p):
        for nm, f in self.hres.items():
            if nm in p.apps:
                p = map_apps(p, nm, lambda *idx: f(list(idx)))
        return p

    def arr_ph_free(self, a, phapps, phsyms):
        u = [P(fresh('u')) for _ in a.shape]
        p = self.read_arr(a, u)
        return not (p.apps & phapps) and not any(x in phsyms for x in p.fv)

    def late(self, v, i, last, res_at):
        s = self.snap(v)
        mp_i = {i: last}

        def base(idx):
            u = [fresh('u') for _ in idx]
            p = self.hresolve(s([P(x) for x in u]))
            p = subst(p, {x: q for x, q in res_at.items()})
            p = subst(p, mp_i)
            return subst(p, {x: y for x, y in zip(u, idx)})
        shape = tuple(subst(d, mp_i) for d in v.shape)
        return self.arr(shape, v.dtype, base)

    def at_last(self, v, i, last, res_at, has_ph, mark=None):
        if isinstance(v, Num):
            p = subst(self.hresolve(v.p), res_at)
            if has_ph(p):
                return Opaque('loop value')
            return Num(subst(p, {i: last}), v.ty)
        if isinstance(v, Arr):
            if mark is not None and v.buf.serial <= mark:
                # a view on an array that already existed before the loop: keep the aliasing
                fv = frozenset().union(*[d.fv for d in v.shape] + [x.fv for d in v.dims for x in d[1:] if isinstance(x, Poly)] or [EMPTY])
                if not any(x in res_at for x in fv):
                    mp = {i: last}
                    dims = tuple(('fix', subst(d[1], mp)) if d[0] == 'fix' else ('var', d[1], subst(d[2], mp), d[3]) for d in v.dims)
                    return Arr(v.buf, dims, tuple(subst(d, mp) for d in v.shape))
            return self.late(v, i, last, res_at)
        if isinstance(v, VBool):
            return vbool(subst_f(v.f, {i: last}))
        if isinstance(v, tuple):
            return tuple(self.at_last(x, i, last, res_at, has_ph, mark) for x in v)
        if isinstance(v, (bool, str, Builtin, Func, Module)) or v is None:
            return v
        return Opaque('loop value %r' % (v,))

    def pointwise(self, nm, v0, v1, i, lo, hi, rev, resolve, has_ph):
        """array rebound in the loop to an elementwise function of its own previous value"""
        if len(v0.shape) != len(v1.shape) or not all(self.ctx.entails(eq(x, y)) for x, y in zip(v0.shape, v1.shape)):
            return None
        us = [fresh('u') for _ in v1.shape]
        U = [P(u) for u in us]
        r = self.pw_closed(nm, resolve(self.hresolve(self.read_arr(v1, U))), self.snap(v0)(U), U, v0.dtype, i, lo, hi, rev, has_ph)
        if r is None:
            return None
        at_i, fin = r
        ren = lambda p, idx: subst(p, {u: x for u, x in zip(us, idx)})
        return (lambda idx: ren(at_i, idx)), self.arr(v0.shape, v1.dtype, lambda idx: ren(fin, idx))

    def pw_closed(self, nm, q, v0, U, dtype, i, lo, hi, rev, has_ph):
        so = {'bool': INT, 'int': INT, 'float': REAL, 'complex': CPLX}[dtype]
        a = fresh('a', so)
        bad = []

        def rep(*idx):
            if len(idx) != len(U) or any(x is not y for x, y in zip(idx, U)):
                bad.append(idx)
            return P(a)
        if nm in q.apps:
            q = map_apps(q, nm, rep)
        else:
            return None
        if bad or has_ph(q):
            return None
        I = P(i)
        j = fresh('j')
        rng_i = And(lt(I, P(j)), lt(P(j), hi)) if rev else And(le(lo, P(j)), lt(P(j), I))
        rng = And(le(lo, P(j)), lt(P(j), hi))
        if q is P(a):
            return v0, v0
        if dtype == 'bool':
            f = bl(q)
            t, e = subst_f(f, {a: ONE}), subst_f(f, {a: ZERO})
            f0 = bl(v0)
            if e is FALSE:
                tj = subst_f(t, {i: P(j)})
                return iv(And(f0, forall([j], Implies(rng_i, tj)))), iv(And(f0, forall([j], Implies(rng, tj))))
            if t is TRUE:
                ej = subst_f(Not(e), {i: P(j)})
                return iv(Or(f0, Not(forall([j], Implies(rng_i, ej))))), iv(Or(f0, Not(forall([j], Implies(rng, ej)))))
            return None
        g = q - P(a)
        if a not in g.fv:
            gj = subst(g, {i: P(j)})
            return v0 + mk_sum([j], rng_i, gj), v0 + mk_sum([j], rng, gj)
        at = atom_of(q)
        if at is not None and at.kind == 'app' and at.a[0] in ('max', 'min'):
            x, y = at.a[1]
            other = y if x is P(a) else (x if y is P(a) else None)
            if other is not None and a not in other.fv:
                oj = subst(other, {i: P(j)})
                fn = at.a[0] + 'red'
                return (app(fn, [mk_lam([j], iv(rng_i)), mk_lam([j], oj), v0]), app(fn, [mk_lam([j], iv(rng)), mk_lam([j], oj), v0]))
        return None

    def recurrence(self, n, ph, v0, v1, i, lo, hi, rev, dom):
        for h in self.hints:
            r = h(self, n, ph, v0, v1, i, lo, hi, rev, dom)
            if r is not None:
                return r
        return None

    def generalise(self, b, nm, old, content, i, lo, hi, rev, dom, resolve, has_ph, phapps):
        base, stores = content
        obase, ostores = old
        I = P(i)
        new = []
        raw = []
        for s in stores:
            val = self.hresolve(resolve(s.value))
            s2 = Store(s.params, subst_f(s.dom, {}) if True else s.dom, s.idx, val, s.acc)
            raw.append(s2)
        out = []
        if len(raw) == 1 and not raw[0].acc and nm in raw[0].value.apps and i not in raw[0].dom.fv:
            s = raw[0]
            if len(set(s.params)) == len(s.idx) and all(x is P(q) for x, q in zip(s.idx, s.params)):
                U = [P(q) for q in s.params]
                r = self.pw_closed(nm, s.value, self.read_content(b, old, U), U, b.dtype, i, lo, hi, rev, has_ph)
                if r is not None:
                    return (obase, ostores + (Store(s.params, s.dom, s.idx, r[1], False).fresh(),))
        for s in raw:
            val = s.value
            if nm in val.apps:
                # reads of the buffer's own earlier contents
                if not s.acc:
                    d = val - raw_app(nm, s.idx, {'bool': INT, 'int': INT, 'float': REAL, 'complex': CPLX}[b.dtype])
                    if nm not in d.apps and len(raw) == 1:
                        s = Store(s.params, s.dom, s.idx, d, True)
                        val = d
                if nm in val.apps:
                    val = self.own_cell_reads(b, nm, old, s, raw, i, dom)
                    s = Store(s.params, s.dom, s.idx, val, s.acc)
            if has_ph(s.value):
                raise Unsupported('loop-carried dependency in array write: %s' % (str(s.value)[:200]))
            d2 = And(dom, s.dom)
            out.append(Store(tuple(s.params) + (i,), d2, s.idx, s.value, s.acc))
        # independence across iterations
        for x in range(len(out)):
            for y in range(x, len(out)):
                if out[x].acc and out[y].acc:
                    continue
                self.check_disjoint(out[x], out[y], i)
        fixed = []
        for s in out:
            if not s.acc:
                s = self.fix_last(s, i, lo, hi, rev)
                if s is None:
                    continue
            fixed.append(s)
        return (obase, ostores + tuple(x.fresh() for x in fixed))

    def fix_last(self, s, i, lo, hi, rev):
        """plain store whose cells do not depend on the loop variable: keep the last iteration"""
        if any(i in x.fv for x in s.idx):
            return s
        last = lo if rev else hi - 1
        if i in s.dom.fv:
            # the guard must not depend on i apart from the range
            rest = And(*[f for f in ([s.dom] if isinstance(s.dom, Lit) else s.dom.args) if i not in f.fv])
            dep = [f for f in ([s.dom] if isinstance(s.dom, Lit) else s.dom.args) if i in f.fv]
            if not all(f in (le(lo, P(i)), lt(P(i), hi)) for f in dep):
                raise Unsupported('conditional overwrite in loop')
            dom = And(rest, lt(lo, hi))
        else:
            dom = And(s.dom, lt(lo, hi))
        return Store([p for p in s.params if p is not i], dom, s.idx, subst(s.value, {i: last}), False)

    def check_disjoint(self, s, t, i):
        """cells written by s in one iteration are not written by t in a different one (unless the write is i-independent)"""
        if s is t and not any(i in x.fv for x in s.idx):
            if any(q in x.fv for x in s.idx for q in s.params) or True:
                # params other than i must be determined: checked when the store was made
                return
        if not any(i in x.fv for x in s.idx) and not any(i in x.fv for x in t.idx):
            # both overwrite the same cells every iteration: only the last iteration counts for both
            if not s.acc and not t.acc:
                return
            raise Unsupported('mixed overwrite/accumulate of the same cells in a loop')
        i2 = fresh('i')
        mp = {q: P(fresh('w')) for q in t.params}
        mp[i] = P(i2)
        t2 = t.rename(mp)
        conds = [s.dom, t2.dom, ne(P(i), P(i2))]
        for x, y in zip(s.idx, t2.idx):
            conds.append(eq(x, y))
        c = self.ctx.add(*conds) if FALSE not in conds else None
        if c is None or c.inconsistent():
            self.oblig('loop writes disjoint', True)
            return
        raise Unsupported('array writes of different iterations may overlap: %s / %s' % (s.idx, t.idx))

    def own_cell_reads(self, b, nm, old, s, raw, i, dom):
        def f(*idx):
            # no other iteration writes idx (before it is read)
            for t in raw:
                i2 = fresh('i')
                mp = {q: P(fresh('w')) for q in t.params}
                mp[i] = P(i2)
                t2 = t.rename(mp)
                t2dom = And(t2.dom, subst_f(dom, {i: P(i2)}))
                conds = [s.dom, dom, t2dom, ne(P(i), P(i2))] + [eq(x, y) for x, y in zip(idx, t2.idx)]
                if FALSE in conds:
                    continue
                c = self.ctx.add(*conds)
                if not c.inconsistent():
                    raise Unsupported('loop reads array cells written by other iterations')
            return self.read_content(b, old, list(idx))
        return map_apps(s.value, nm, f)

    # -------------------------------------------------------------- arrays
    def snap(self, a):
        """immutable reader for the current contents of a view"""
        self.touch_read(a.buf)
        content = a.buf.content
        memo = {}

        def rd(idx):
            key = (self.ctx,) + tuple(idx)      # reading simplifies under the current facts
            r = memo.get(key)
            if r is None:
                r = self.read_content(a.buf, content, a.base_index(idx))
                memo[key] = r
            return r
        if not content[1]:
            return rd
        return lambda idx: self.read_content(a.buf, content, a.base_index(idx))

    def read_arr(self, a, idx):
        self.touch_read(a.buf)
        return self.simp(self.read_content(a.buf, a.buf.content, a.base_index([pol(x) for x in idx])))

    def read_content(self, buf, content, idx):
        base, stores = content
        start = 0
        matches = []
        for n in range(len(stores) - 1, -1, -1):
            ms = self.match(stores[n], idx)
            if not ms:
                continue
            matches.append((stores[n], ms))
            if not stores[n].acc and len(ms) == 1 and ms[0][0] is TRUE:
                break
        else:
            n = -1
        r = None
        if n == -1:
            r = base(idx)
        for s, ms in reversed(matches):
            for cond, val in ms:
                if s.acc:
                    r = r + iv(cond) * val
                else:
                    r = val if cond is TRUE else ite(cond, val, r)
        if r is None:
            raise Unsupported('unread')
        return r

    def match(self, s, idx):
        """cases [(cond, value)] under which store s covers the cell idx"""
        cases = [({}, TRUE, list(zip(s.idx, idx)))]
        params = set(s.params)
        done = []
        while cases:
            sg, cond, eqs = cases.pop()
            progress = True
            dead = False
            while eqs and progress and not dead:
                progress = False
                for j, (spec, tgt) in enumerate(eqs):
                    sp = subst(spec, sg)
                    if sp is tgt:
                        eqs = eqs[:j] + eqs[j + 1:]
                        progress = True
                        break
                    free = [v for v in sp.fv if v in params and v not in sg]
                    if not free:
                        c = eq(sp, tgt)
                        if c is FALSE:
                            dead = True
                            break
                        cond = And(cond, c)
                        eqs = eqs[:j] + eqs[j + 1:]
                        progress = True
                        break
                    at = atom_of(sp)
                    if at is not None and at.kind == 'app' and at.a[0] == 'wrap':
                        e, N = at.a[1]
                        ta = atom_of(tgt)
                        if ta is not None and ta.kind == 'app' and ta.a[0] == 'wrap' and ta.a[1][1] is N:
                            e2 = ta.a[1][0]
                            dm = subst_f(s.dom, sg)
                            if self.ctx.add(dm, eq(sp, tgt)).entails(eq(e, e2)):
                                eqs = eqs[:j] + [(e, e2)] + eqs[j + 1:]
                                progress = True
                                break
                        # two cases
                        rest = eqs[:j] + eqs[j + 1:]
                        c2 = And(cond, lt(tgt - N, 0))
                        if c2 is not FALSE:
                            cases.append((dict(sg), c2, rest + [(e, tgt - N)]))
                        cond = And(cond, le(0, tgt))
                        if cond is FALSE:
                            dead = True
                            break
                        eqs = rest + [(e, tgt)]
                        progress = True
                        break
                    if len(free) >= 1:
                        d = sp - tgt
                        solved = False
                        for v in sorted(free, key=lambda v: v.id):
                            sol = solve_linear(d, v)
                            if sol is not None and sol.sort == INT and not any(w in params and w not in sg for w in sol.fv):
                                sg[v] = sol
                                eqs = eqs[:j] + eqs[j + 1:]
                                solved = True
                                break
                        if not solved and S.T.no_int_root(d):
                            dead = True
                            break
                        if not solved and len(free) == 1:
                            r = S.T.solve_scaled(d, free[0])
                            if r is not None:
                                sg[free[0]] = r[0]
                                cond = And(cond, r[1])
                                eqs = eqs[:j] + eqs[j + 1:]
                                solved = True
                        if solved:
                            progress = True
                            break
            if dead:
                continue
            dm = subst_f(s.dom, sg)
            left = [v for v in s.params if v not in sg]
            val = subst(s.value, sg)
            if eqs or left:
                dm = And(dm, *[eq(subst(a, sg), b) for a, b in eqs])
                left = [v for v in left if v in dm.fv or v in val.fv] if not s.acc else left
                if s.acc:
                    c = self.prune(cond)
                    if c is FALSE:
                        continue
                    done.append((c, mk_sum(left, dm, val)))
                    continue
                if left or eqs:
                    raise Unsupported('store with undetermined parameters %s' % (s,))
            c = self.prune(And(cond, dm))
            if c is FALSE:
                continue
            done.append((c, val))
        return done

    def prune(self, c):
        if isinstance(c, Const):
            return c
        if self.ctx.entails(c):
            return TRUE
        lits = [c] if isinstance(c, Lit) else (list(c.args) if c.op == 'and' else [c])
        if self.ctx.add(c).inconsistent():
            return FALSE
        keep = [l for l in sorted(lits, key=lambda x: x.id) if not self.ctx.entails(l)]
        return And(*keep)

    def store(self, a, value, acc=False):
        """write value (Num / Arr / scalar) through view a"""
        buf = a.buf
        if not buf.writeable:
            raise PyRaise('ValueError', 'assignment destination is read-only')
        if buf.origin is not None:
            self.events.append(('write', buf.origin))
        self.touch_write(buf)
        for b in ((buf.alias,) if getattr(buf, 'alias', None) is not None else ()) + tuple(getattr(buf, 'aliases', ())):
            b.content = (stale, ())
        if getattr(buf, 'one_of', None) is not None:
            self.decide(buf.one_of)
        for b in getattr(buf, 'merged', ()):
            b.content = ((lambda g: lambda idx: self.decide(g))(b.one_of), ())
        if isinstance(value, Arr) and len(a.shape) >= 1 and value.shape:
            # short axes of constant length: one store per element
            for k in range(len(a.shape) - min(len(a.shape), len(value.shape)), len(a.shape)):
                n = a.shape[k]
                if n.is_const() and 1 < n.const() <= 3 and value.shape[k - len(a.shape)] is n and self.in_sym_loop():
                    rd = self.snap(value)
                    m = len(a.shape) - len(value.shape)
                    for c in range(int(n.const())):
                        sub = self.view(a, tuple(SliceV(None, None, None) if j != k else Num(con(c)) for j in range(len(a.shape))))
                        sh = [d for j, d in enumerate(value.shape) if j + m != k]
                        item = Arr(self.buffer(sh, value.dtype, (lambda c: lambda idx: rd(list(idx[:k - m]) + [con(c)] + list(idx[k - m:])))(c))) \
                            if sh else self.elem(rd([con(c)]), value.dtype)
                        self.store(sub, item, acc)
                    return
        us = [fresh('u') for _ in a.shape]
        U = [P(u) for u in us]
        dom = []
        full = set()
        for d, bs in zip(a.dims, buf.shape):
            if d[0] == 'var' and d[2].is_zero() and d[3] == 1 and a.shape[d[1]] is bs:
                full.add(d[1])
        for k, (u, n) in enumerate(zip(U, a.shape)):
            if k not in full:
                dom += [le(0, u), lt(u, n)]
        st = self.ctx
        self.ctx = self.ctx.add(*[And(le(0, u), lt(u, n)) for u, n in zip(U, a.shape)])
        try:
            val = self.value_at(value, a.shape, U)
        finally:
            self.ctx = st
        val = self.cast(val, buf.dtype)
        g = self.gcell(buf)
        content = buf.content
        idx = a.base_index(U)
        if not acc and any(True for _ in ()):
            pass
        # plain store of  old + d  is an accumulation
        if not acc:
            own = [m for m in val.apps if m.startswith('_h')]
            if own:
                bname = None
                for L in self.loops:
                    if buf in L.mutated:
                        bname = L.mutated[buf][0]
                if bname in own:
                    cur = self.read_content(buf, content, idx)
                    d = val - cur
                    if bname not in d.apps:
                        acc, val = True, d
        s = Store(us, And(And(*dom), g), idx, val, acc)
        buf.content = (content[0], content[1] + (s,))

    def in_sym_loop(self):
        return any(not L.concrete for L in self.loops)

    def cast(self, p, dtype):
        if dtype in ('float',):
            if p.sort == CPLX:
                return re(p)
            return p
        if dtype == 'int':
            if p.sort == INT:
                return p
            return app('trunc', [re(p)]) if not p.guards else lift_guards(p, lambda q: app('trunc', [re(q)]))
        if dtype == 'bool':
            return p
        return p

    def value_at(self, v, shape, idx):
        """element idx of v broadcast to shape"""
        if isinstance(v, Arr):
            k = len(shape) - len(v.shape)
            if k < 0:
                # leading 1-dims may be dropped
                extra = v.shape[:-k]
                if all(d is ONE for d in extra):
                    return self.read_arr(v, [ZERO] * (-k) + list(idx))
                raise PyRaise('ValueError', 'could not broadcast')
            ii = []
            for d, n, u in zip(v.shape, shape[k:], idx[k:]):
                if d is ONE and n is not ONE:
                    ii.append(ZERO)
                else:
                    self.same_dim(d, n)
                    ii.append(u)
            return self.read_arr(v, ii)
        if isinstance(v, (VList, tuple)):
            return self.value_at(self.np.asarray(self, v), shape, idx)
        if isinstance(v, VBool):
            return iv(v.f)
        if isinstance(v, (Num, bool, int)):
            return self.num(v).p
        if v is None:
            raise PyRaise('TypeError', 'None to number')
        raise Unsupported('array value %r' % (v,))

    def same_dim(self, a, b):
        if a is b:
            return
        f = eq(a, b)
        t = self.truth(f)
        if t is True:
            return
        if t is False:
            raise PyRaise('ValueError', 'shape mismatch %s %s' % (a, b))
        self.split(f)

    def broadcast(self, shapes):
        n = max(len(s) for s in shapes)
        out = []
        for j in range(n):
            cur = ONE
            for s in shapes:
                k = j - (n - len(s))
                if k < 0:
                    continue
                d = s[k]
                if d is ONE or d is cur:
                    continue
                if cur is ONE:
                    cur = d
                else:
                    if eq(d, ONE) is not FALSE and self.ctx.entails(eq(d, ONE)):
                        continue
                    self.same_dim(cur, d)
            out.append(cur)
        return tuple(out)

    def elementwise(self, f, dtype, *vs):
        """array result of f applied pointwise with broadcasting (f: Polys -> Poly)"""
        vs = [self.np.asarray(self, v) if isinstance(v, (VList, tuple)) else v for v in vs]
        arrs = [v for v in vs if isinstance(v, Arr)]
        if not arrs:
            r = f(*[self.num(v).p for v in vs])
            return Num(r, dtype) if dtype != 'bool' else vbool(bl(r))
        shape = self.broadcast([a.shape for a in arrs])
        readers = []
        for v in vs:
            if isinstance(v, Arr):
                s = self.snap(v)
                k = len(shape) - len(v.shape)
                ones = [d is ONE and n is not ONE for d, n in zip(v.shape, shape[k:])]
                readers.append((lambda s, k, ones: lambda idx: s([ZERO if o else x for o, x in zip(ones, idx[k:])]))(s, k, ones))
            else:
                p = self.num(v).p
                readers.append((lambda p: lambda idx: p)(p))
        memo = {}

        def base(idx):
            key = (self.ctx,) + tuple(idx)
            r = memo.get(key)
            if r is None:
                r = memo[key] = f(*[rd(idx) for rd in readers])
            return r
        return self.arr(shape, dtype, base)

    # ---------------------------------------------------------------- index
    def ev_index(self, n, fr):
        if isinstance(n, ast.Tuple):
            return tuple(self.ev_index(x, fr) for x in n.elts)
        if isinstance(n, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, fr)
            return SliceV(f(n.lower), f(n.upper), f(n.step))
        return self.ev(n, fr)

    def is_basic(self, ix):
        if isinstance(ix, tuple):
            return all(self.is_basic(x) for x in ix)
        return isinstance(ix, (Num, SliceV)) or ix is None or ix is Ellipsis or (isinstance(ix, int) and not isinstance(ix, bool))

    def norm_index(self, k, n, what='index'):
        """python index -> base index Poly (wrap), with a bounds check"""
        if k.sort != INT:
            raise PyRaise('IndexError', 'non-integer index')
        ok = And(le(neg(n), k), lt(k, n))
        t = self.truth(ok)
        if t is False:
            raise PyRaise('IndexError', 'index %s out of bounds for %s' % (k, n))
        if t is None:
            # the access may raise: record it
            self.may_raise(Not(ok), 'IndexError', 'index %s may exceed dimension %s' % (k, n))
        if self.ctx.entails(le(0, k)):
            return k
        if self.ctx.entails(lt(k, 0)):
            return k + n
        return app('wrap', [k, n])

    def slice_bounds(self, s, n):
        """(start, length, step)"""
        step = 1 if s.step is None else self.num(s.step).p.const()
        if step is None:
            raise Unsupported('symbolic slice step')
        step = int(step)

        def clip(v):
            k = self.num(v).p
            c = k.const()
            if self.ctx.entails(And(le(0, k), le(k, n))):
                return k
            if self.ctx.entails(And(lt(k, 0), le(neg(n), k))):
                return k + n
            if self.ctx.entails(lt(n, k)):
                return n
            if self.ctx.entails(lt(k, neg(n))):
                return ZERO
            # general
            kk = ite(lt(k, 0), k + n, k)
            return ite(lt(kk, 0), ZERO, ite(lt(n, kk), n, kk))
        if step > 0:
            lo = ZERO if s.lo is None else clip(s.lo)
            hi = n if s.hi is None else clip(s.hi)
            if self.ctx.entails(le(lo, hi)):
                ln = hi - lo
            elif self.ctx.entails(le(hi, lo)):
                ln = ZERO
            else:
                ln = ite(le(lo, hi), hi - lo, 0)
            if step != 1:
                ln = app('floor', [(ln + (step - 1)) * Fr(1, step)])
            return lo, ln, step
        if step == -1 and s.lo is None and s.hi is None:
            return n - 1, n, -1

        def clipn(v):
            k = self.num(v).p
            if self.ctx.entails(And(le(0, k), lt(k, n))):
                return k
            if self.ctx.entails(And(lt(k, 0), le(neg(n) - 1, k))):
                return k + n
            kk = ite(lt(k, 0), k + n, k)
            return ite(lt(kk, -1), con(-1), ite(lt(n - 1, kk), n - 1, kk))
        lo = n - 1 if s.lo is None else clipn(s.lo)
        hi = con(-1) if s.hi is None else clipn(s.hi)
        if self.ctx.entails(le(hi, lo)):
            ln = lo - hi
        elif self.ctx.entails(le(lo, hi)):
            ln = ZERO
        else:
            ln = ite(le(hi, lo), lo - hi, 0)
        if step != -1:
            ln = app('floor', [(ln + (-step - 1)) * Fr(1, -step)])
        return lo, ln, step

    def view(self, a, ix):
        """basic indexing -> Arr view (shape may be ())"""
        if not isinstance(ix, tuple):
            ix = (ix,)
        if any(x is Ellipsis for x in ix):
            k = [j for j, x in enumerate(ix) if x is Ellipsis][0]
            nreal = len([x for x in ix if x is not None and x is not Ellipsis])
            ix = ix[:k] + (SliceV(None, None, None),) * (len(a.shape) - nreal) + ix[k + 1:]
        nreal = len([x for x in ix if x is not None])
        if nreal > len(a.shape):
            raise PyRaise('IndexError', 'too many indices')
        ix = ix + (SliceV(None, None, None),) * (len(a.shape) - nreal)
        newshape = []
        mapping = {}     # old view dim -> ('fix', p) or ('var', newdim, start, step)
        d = 0
        for x in ix:
            if x is None:
                newshape.append(ONE)
                continue
            n = a.shape[d]
            if isinstance(x, SliceV):
                lo, ln, st = self.slice_bounds(x, n)
                mapping[d] = ('var', len(newshape), lo, st)
                newshape.append(ln)
            else:
                mapping[d] = ('fix', self.norm_index(self.num(x).p, n))
            d += 1
        dims = []
        for b in a.dims:
            if b[0] == 'fix':
                dims.append(b)
            else:
                m = mapping[b[1]]
                if m[0] == 'fix':
                    dims.append(('fix', b[2] + (m[1] if b[3] == 1 else scale(m[1], Fr(b[3])))))
                else:
                    dims.append(('var', m[1], b[2] + (m[2] if b[3] == 1 else scale(m[2], Fr(b[3]))), b[3] * m[3]))
        return Arr(a.buf, dims, newshape)

    def getitem(self, o, ix):
        if getattr(self, 'texts', False):
            from . import text
            if isinstance(o, text.Text):
                return text.item(self, o, ix)
            if isinstance(o, text.Lines):
                return text.lines_item(self, o, ix)
        if isinstance(o, Arr):
            if self.is_basic(ix):
                v = self.view(o, ix)
                if not v.shape:
                    p = self.read_arr(v, [])
                    return self.elem(p, o.dtype)
                return v
            return self.np.fancy_get(self, o, ix)
        if isinstance(o, VBag):
            if isinstance(ix, Num) and ix.p.const() == -1:
                return Num(self.bag_last(o), 'int')
            raise Unsupported('item of a list of unknown length')
        if isinstance(o, RepList) and isinstance(ix, Num):
            n, v = o.content
            self.norm_index(ix.p, n)
            return v
        if isinstance(o, Obj) and getattr(o.cls, 'nt', None):
            o = tuple(o.content[f] for f in o.cls.nt)
        if isinstance(o, (tuple, VList, str)):
            items = o if isinstance(o, (tuple, str)) else o.content
            if isinstance(ix, SliceV):
                f = lambda x: None if x is None else self.concrete_int(x)
                r = items[slice(f(ix.lo), f(ix.hi), f(ix.step))]
                return self.vlist(r) if isinstance(o, VList) else r
            c = self.num(ix).p.const()
            if c is None:
                raise Unsupported('symbolic index into a list')
            c = int(c)
            if not -len(items) <= c < len(items):
                raise PyRaise('IndexError', 'list index')
            return items[c]
        if isinstance(o, VDict):
            k = ix
            if isinstance(k, Num) and k.p.const() is None and o.content and self.pin(k) is not None:
                k = self.pin(k)
            if o.has(k):
                return o.get(k)
            raise PyRaise('KeyError', str(k))
        if isinstance(o, Builtin) and hasattr(o, 'getitem'):
            return o.getitem(self, ix)
        if isinstance(o, (Num, VBool, bool)) or o is None:
            raise PyRaise('TypeError', 'not subscriptable')
        if isinstance(o, Obj):
            m = o.cls.lookup('__getitem__') if isinstance(o.cls, ClassV) else None
            if m is not None:
                return self.call(BoundMethod(m, o), [ix], {})
        raise Unsupported('subscript of %r' % (o,))

    def elem(self, p, dtype):
        if dtype == 'bool':
            return vbool(bl(p))
        return Num(p, dtype)

    def setitem(self, o, ix, v):
        if isinstance(o, Arr):
            if self.is_basic(ix):
                self.store(self.view(o, ix), v)
            else:
                self.np.fancy_set(self, o, ix, v)
            return
        if isinstance(o, VList):
            self.touch_cell(o)
            items = list(o.content)
            c = self.num(ix).p.const()
            if c is None:
                raise Unsupported('symbolic list index')
            c = int(c)
            if not -len(items) <= c < len(items):
                raise PyRaise('IndexError', 'list assignment')
            g = self.gcell(o)
            items[c] = v if g is TRUE else self.merge(g, v, items[c])
            o.content = tuple(items)
            return
        if isinstance(o, VDict):
            self.touch_cell(o)
            g = self.gcell(o)
            if g is not TRUE:
                if not o.has(ix):
                    self.force(g)
                v = self.merge(g, v, o.get(ix))
            o.set(ix, v)
            return
        raise Unsupported('item assignment on %r' % (o,))

    def pin(self, k):
        """the constant a number is known to be"""
        c = self.simp(k.p).const()
        return None if c is None else Num(con(c), k.ty)

    def concrete_int(self, v):
        c = self.num(v).p.const()
        if c is None or c.denominator != 1:
            raise Unsupported('need a concrete integer')
        return int(c)

    # ------------------------------------------------------------ expressions
    def num(self, v):
        if isinstance(v, Num):
            return v
        if isinstance(v, bool):
            return Num(con(int(v)), 'int')
        if isinstance(v, int):
            return Num(con(v), 'int')
        if isinstance(v, VBool):
            return Num(iv(v.f), 'int')
        if isinstance(v, Arr) and not v.shape:
            return Num(self.read_arr(v, []), v.dtype)
        if v is None:
            raise PyRaise('TypeError', 'None is not a number')
        if isinstance(v, (str, tuple, VList, VDict)):
            raise PyRaise('TypeError', '%r is not a number' % (v,))
        raise Unsupported('number expected, got %r' % (v,))

    def formula(self, v):
        """truth value of v as a formula"""
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, VBool):
            return v.f
        if isinstance(v, Num):
            return ne(v.p, 0)
        if v is None:
            return FALSE
        if isinstance(v, (str, tuple)):
            return TRUE if len(v) else FALSE
        if isinstance(v, (VList, VDict)):
            return TRUE if len(v.content) else FALSE
        if isinstance(v, Arr):
            if not v.shape:
                return ne(self.read_arr(v, []), 0)
            raise PyRaise('ValueError', 'truth value of an array')
        if isinstance(v, (Obj, Func, Builtin, Module, ClassV)):
            return TRUE
        raise Unsupported('truth value of %r' % (v,))

    def ev(self, n, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, fr)

    def e_Constant(self, n, fr):
        v = n.value
        if v is None or isinstance(v, (bool, str)) or v is Ellipsis:
            return v
        if isinstance(v, int):
            return Num(con(v), 'int')
        if isinstance(v, float):
            return Num(con(Fr(repr(v))), 'float')
        if isinstance(v, complex):
            return Num(pol(v), 'complex')
        raise Unsupported('constant %r' % (v,))

    def e_Name(self, n, fr):
        return self.lookup(n.id, fr)

    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.env:
                v = f.env[name]
                if isinstance(v, Partial):
                    if self.ctx.entails(v.g):
                        return self.read_val(v.v)
                    if self.ctx.entails(Not(v.g)):
                        raise PyRaise('UnboundLocalError', name)
                    self.split(v.g)
                    return self.read_val(v.v)
                while isinstance(v, Opaque):
                    known = getattr(v, 'known', None)
                    if known is None or not self.ctx.entails(known[0]):
                        raise Unsupported('value of %s: %s' % (name, v.why))
                    v = known[1]
                return self.read_val(v)
            f = f.closure
        g = fr.module.env
        if name in g:
            v = g[name]
            if isinstance(v, Opaque):
                raise Unsupported('value of %s: %s' % (name, v.why))
            return v
        b = self.np.builtin(self, name)
        if b is not None:
            return b
        raise PyRaise('NameError', name)

    def read_val(self, v):
        if isinstance(v, Num) and v.p.guards and self.guards:
            return Num(self.simp(v.p), v.ty)
        return v

    def e_Tuple(self, n, fr):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                out += self.need_items(self.ev(x.value, fr))
            else:
                out.append(self.ev(x, fr))
        return tuple(out)

    def need_items(self, v):
        r = self.iter_concrete(v)
        if r is None:
            raise Unsupported('unpacking a symbolic-length sequence')
        return r

    def e_List(self, n, fr):
        return self.vlist(self.e_Tuple(n, fr))

    def e_Dict(self, n, fr):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.ev(v, fr)
                items += list(d.content)
            else:
                items.append((self.ev(k, fr), self.ev(v, fr)))
        d = self.vdict([])
        for k, v in items:
            d.set(k, v)
        return d

    def e_BinOp(self, n, fr):
        return self.binop(type(n.op).__name__, self.ev(n.left, fr), self.ev(n.right, fr))

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        op = type(n.op).__name__
        if op == 'Not':
            return vbool(Not(self.formula(v)))
        if op == 'UAdd':
            return v
        if op == 'USub':
            if isinstance(v, Arr):
                return self.elementwise(neg, v.dtype, v)
            x = self.num(v)
            return Num(neg(x.p), x.ty if x.ty != 'bool' else 'int')
        if op == 'Invert':
            if isinstance(v, Arr) and v.dtype == 'bool':
                return self.elementwise(lambda p: iv(Not(bl(p))), 'bool', v)
            if isinstance(v, (VBool, bool)):
                return vbool(Not(self.formula(v)))
        raise Unsupported('unary %s' % op)

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        pushed = 0
        st0 = self.ctx
        try:
            res, vals = [], []
            for k, x in enumerate(n.values):
                try:
                    v = self.ev(x, fr)
                except PyRaise:
                    self.reached()
                    raise
                if k == len(n.values) - 1 and not res:
                    return v
                if not getattr(n, 'is_test', False) and not isinstance(v, (bool, VBool)) and (k < len(n.values) - 1 or res):
                    # the value (not only its truth) is used: decide the operands on the path
                    if k == len(n.values) - 1:
                        for f in res:
                            self.force(f)
                    f = self.formula(v)
                    if self.truth(f) is None:
                        self.force(f)
                f = self.formula(v)
                t = self.truth(f)
                if isand and t is False or (not isand and t is True):
                    if not res:
                        return v
                    res.append(f)
                    break
                if t is not None and k < len(n.values) - 1:
                    continue
                res.append(f)
                if k < len(n.values) - 1:
                    self.push(f if isand else Not(f))
                    pushed += 1
            return vbool(And(*res) if isand else Or(*res))
        finally:
            for _ in range(pushed):
                self.guards.pop()
            self.ctx = st0

    def e_IfExp(self, n, fr):
        c = self.formula(self.ev(n.test, fr))
        t = self.truth(c)
        if t is True:
            return self.ev(n.body, fr)
        if t is False:
            return self.ev(n.orelse, fr)
        st = self.push(c)
        try:
            a = self.ev(n.body, fr)
        except PyRaise:
            self.reached()
            raise
        finally:
            self.pop(st)
        st = self.push(Not(c))
        try:
            b = self.ev(n.orelse, fr)
        except PyRaise:
            self.reached()
            raise
        finally:
            self.pop(st)
        return self.merge(c, a, b)

    def e_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = TRUE
        out = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, fr)
            v = self.compare(type(op).__name__, left, right)
            if isinstance(v, Arr):
                if len(n.ops) > 1:
                    raise PyRaise('ValueError', 'chained array comparison')
                return v
            res = And(res, self.formula(v))
            left = right
        return vbool(res)

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            if a is None or b is None:
                r = a is None and b is None
            elif isinstance(a, bool) or isinstance(b, bool):
                if isinstance(a, VBool) or isinstance(b, VBool):
                    r = None
                    f = And(Or(Not(self.formula(a)), self.formula(b)), Or(self.formula(a), Not(self.formula(b))))
                    return vbool(f if op == 'Is' else Not(f))
                r = a is b
            else:
                r = a is b
            return r if op == 'Is' else not r
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            return r if op == 'In' else vbool(Not(self.formula(r)))
        if isinstance(a, Arr) or isinstance(b, Arr):
            if (isinstance(a, Arr) and a.shape) or (isinstance(b, Arr) and b.shape):
                if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                    raise Unsupported('array compared with %r' % (b,))
                f = {'Eq': eq, 'NotEq': ne, 'Lt': lt, 'LtE': le, 'Gt': gt, 'GtE': ge}[op]
                for z in (a, b):
                    self.np.nan_free(self, z, 'comparison')
                return self.elementwise(lambda x, y: iv(f(x, y)), 'bool', a, b)
        if isinstance(a, (str, StrV)) or isinstance(b, (str, StrV)):
            if isinstance(a, str) and isinstance(b, str):
                return {'Eq': a == b, 'NotEq': a != b, 'Lt': a < b, 'Gt': a > b, 'LtE': a <= b, 'GtE': a >= b}[op]
            if getattr(self, 'texts', False) and op in ('Eq', 'NotEq') and (isinstance(a, str) or isinstance(b, str) or type(a) is type(b)):
                from . import text
                r = text.equal(a, b)
                return r if op == 'Eq' else not r
            if isinstance(a, StrV) or isinstance(b, StrV):
                f = mk_lit('b', app('streq', [repr(a.name if isinstance(a, StrV) else a), repr(b.name if isinstance(b, StrV) else b)], BOOL))
                return vbool(f if op == 'Eq' else Not(f))
            if op == 'Eq':
                return False
            if op == 'NotEq':
                return True
            raise PyRaise('TypeError', 'str comparison')
        if a is None or b is None:
            if op == 'Eq':
                return a is b
            if op == 'NotEq':
                return a is not b
            raise PyRaise('TypeError', 'None comparison')
        if isinstance(a, (tuple, VList)) and isinstance(b, (tuple, VList)) and op in ('Eq', 'NotEq'):
            x = a if isinstance(a, tuple) else a.content
            y = b if isinstance(b, tuple) else b.content
            f = FALSE if len(x) != len(y) else And(*[self.formula(self.compare('Eq', p, q)) for p, q in zip(x, y)])
            return vbool(f if op == 'Eq' else Not(f))
        if isinstance(a, (tuple, VList)) or isinstance(b, (tuple, VList)):
            if op == 'Eq':
                return False
            if op == 'NotEq':
                return True
            raise PyRaise('TypeError', 'comparison')
        if isinstance(a, (Builtin, ExcClass, ClassV)) or isinstance(b, (Builtin, ClassV)):
            r = (a is b) or (getattr(a, 'name', 1) == getattr(b, 'name', 2))
            return r if op == 'Eq' else not r
        x, y = self.num(a), self.num(b)
        if 'complex' in (x.ty, y.ty) and op not in ('Eq', 'NotEq') and (x.p.sort == CPLX or y.p.sort == CPLX):
            if not (is_real(x.p) and is_real(y.p)):
                raise PyRaise('TypeError', 'complex ordering')
        f = {'Eq': eq, 'NotEq': ne, 'Lt': lt, 'LtE': le, 'Gt': gt, 'GtE': ge}[op](x.p, y.p)
        return vbool(f)

    def contains(self, c, x):
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if getattr(self, 'texts', False) and isinstance(x, str):
            from . import text
            if isinstance(c, text.Text):
                return text.contains(c, x)
        if isinstance(c, (tuple, VList)):
            items = c if isinstance(c, tuple) else c.content
            return vbool(Or(*[self.formula(self.compare('Eq', x, y)) for y in items]))
        if isinstance(c, VDict):
            return c.has(x)
        raise Unsupported('in %r' % (c,))

    def binop(self, op, a, b):
        if isinstance(a, str) or isinstance(b, str) or isinstance(a, StrV) or isinstance(b, StrV):
            if op == 'Add' and isinstance(a, str) and isinstance(b, str):
                return a + b
            if getattr(self, 'texts', False):
                from . import text
                if op == 'Add':
                    return text.mk(text.parts(a) + text.parts(b))
                if op == 'Mod' and isinstance(a, str):
                    return text.percent(self, a, b)
                raise Unsupported('text operation')
            if op in ('Mod', 'Add', 'Mult'):
                return StrV('fmt')
            raise PyRaise('TypeError', 'str operand')
        if isinstance(a, (VList, tuple)) and not isinstance(b, Arr):
            if op == 'Mult':
                k = self.num(b).p.const()
                if k is None:
                    items = a.content if isinstance(a, VList) else a
                    n = self.num(b).p
                    n = n if self.ctx.entails(le(0, n)) else ite(le(0, n), n, 0)
                    if isinstance(a, VList) and len(items) == 1 and n.sort == INT:
                        if isinstance(items[0], Num):
                            p = items[0].p
                            return Arr(self.buffer([n], items[0].ty, lambda idx: p, kind='list'))
                        if isinstance(items[0], (str, bool)) or items[0] is None:
                            return self.new(RepList(n, items[0]))
                    raise Unsupported('symbolic list repetition')
                items = list(a if isinstance(a, tuple) else a.content) * int(k)
                return tuple(items) if isinstance(a, tuple) else self.vlist(items)
            if op == 'Add' and isinstance(b, (VList, tuple)):
                items = list(a if isinstance(a, tuple) else a.content) + list(b if isinstance(b, tuple) else b.content)
                return tuple(items) if isinstance(a, tuple) else self.vlist(items)
        if isinstance(a, Arr) and (a.shape or isinstance(b, Arr)) or isinstance(b, Arr):
            return self.arr_binop(op, a, b)
        if isinstance(a, (bool, VBool)) and isinstance(b, (bool, VBool)) and op in ('BitAnd', 'BitOr', 'BitXor'):
            fa, fb = self.formula(a), self.formula(b)
            if op == 'BitAnd':
                return vbool(And(fa, fb))
            if op == 'BitOr':
                return vbool(Or(fa, fb))
            return vbool(Or(And(fa, Not(fb)), And(Not(fa), fb)))
        if isinstance(a, Obj) or isinstance(b, Obj):
            raise Unsupported('operator on object')
        x, y = self.num(a), self.num(b)
        p, ty = self.scalar_op(op, x.p, x.ty, y.p, y.ty)
        return Num(p, ty)

    TY = ['bool', 'int', 'float', 'complex']

    def join_ty(self, s, t):
        r = s if self.TY.index(s) >= self.TY.index(t) else t
        return r

    def op_dtype(self, op, s, t):
        r = self.join_ty(s, t)
        if op in ('Add', 'Sub', 'Mult', 'Pow', 'Mod', 'FloorDiv') and r == 'bool':
            r = 'int'
        if op == 'Div' and r in ('int', 'bool'):
            r = 'float'
        return r

    def nonzero(self, p):
        if p.is_zero():
            raise PyRaise('ZeroDivisionError', 'division by zero')
        if p.const() is None:
            self.wd.append((p, self.ctx))

    def poly_op(self, op, x, y):
        if op == 'Add':
            return x + y
        if op == 'Sub':
            return x - y
        if op == 'Mult':
            return x * y
        if op == 'Div':
            if y.is_zero():
                # numpy: inf/nan; keep it symbolic and opaque
                raise Unsupported('division by the constant zero')
            self.nonzero(y)
            return x * inv(y)
        if op == 'Pow':
            c = y.const()
            if c is not None and c.denominator == 1:
                return ipow(x, int(c)) if c >= 0 else inv(ipow(x, -int(c)))
            return app('pow', [x, y])
        if op == 'FloorDiv':
            c = y.const()
            if y.is_zero():
                raise PyRaise('ZeroDivisionError')
            return lift_guards(x * inv(y), lambda q: app('floor', [q]))
        if op == 'Mod':
            return x - y * lift_guards(x * inv(y), lambda q: app('floor', [q]))
        raise Unsupported('operator %s' % op)

    def scalar_op(self, op, x, tx, y, ty):
        t = self.op_dtype(op, tx, ty)
        if op == 'Div' and y.is_zero():
            raise PyRaise('ZeroDivisionError', 'division by zero')
        if op in ('BitAnd', 'BitOr', 'BitXor', 'LShift', 'RShift', 'MatMult'):
            raise Unsupported('operator %s' % op)
        if op == 'Pow' and t == 'int' and y.const() is not None and y.const() < 0:
            t = 'float'
        return self.poly_op(op, x, y), t

    def arr_binop(self, op, a, b):
        for v in (a, b):
            if v is None or isinstance(v, (str,)):
                raise PyRaise('TypeError', 'array operand')
            if isinstance(v, (Obj, Opaque, Func, Builtin)):
                raise Unsupported('array op with %r' % (v,))
        if isinstance(a, (VList, tuple)):
            a = self.np.asarray(self, a)
        if isinstance(b, (VList, tuple)):
            b = self.np.asarray(self, b)
        ta = a.dtype if isinstance(a, Arr) else ('bool' if isinstance(a, (bool, VBool)) else self.num(a).ty)
        tb = b.dtype if isinstance(b, Arr) else ('bool' if isinstance(b, (bool, VBool)) else self.num(b).ty)
        if op == 'MatMult':
            return self.np.matmul(self, a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if ta != 'bool' or tb != 'bool':
                raise Unsupported('integer bit operations')
            f = {'BitAnd': lambda x, y: iv(And(bl(x), bl(y))), 'BitOr': lambda x, y: iv(Or(bl(x), bl(y))),
                 'BitXor': lambda x, y: iv(Or(And(bl(x), Not(bl(y))), And(Not(bl(x)), bl(y))))}[op]
            return self.elementwise(f, 'bool', a, b)
        return self.elementwise(lambda x, y: self.poly_op(op, x, y), self.op_dtype(op, ta, tb), a, b)

    def aug_arr(self, view, op, v):
        if isinstance(v, (VList, tuple)):
            v = self.np.asarray(self, v)
        tb = v.dtype if isinstance(v, Arr) else self.num(v).ty
        if self.TY.index(self.op_dtype(op, view.dtype, tb)) > self.TY.index(view.dtype) and not (not isinstance(v, Arr) and False):
            # numpy refuses the cast (UFuncTypeError)
            if view.dtype in ('int', 'bool') or tb == 'complex':
                raise PyRaise('UFuncTypeError', 'cannot cast')
        if isinstance(v, Arr):
            # result of the operation must fit the target
            sh = self.broadcast([view.shape, v.shape])
            if len(sh) != len(view.shape):
                raise PyRaise('ValueError', 'non-broadcastable output')
        if op == 'Add':
            self.store(view, v, acc=True)
        elif op == 'Sub':
            w = self.elementwise(neg, v.dtype, v) if isinstance(v, Arr) else Num(neg(self.num(v).p), self.num(v).ty)
            self.store(view, w, acc=True)
        else:
            self.store(view, self.arr_binop(op, view, v))

    def e_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        return self.getitem(o, self.ev_index(n.slice, fr))

    def e_Attribute(self, n, fr):
        o = self.ev(n.value, fr)
        return self.getattr(o, n.attr)

    def getattr(self, o, name):
        if isinstance(o, Module):
            v = self.mod_attr(o.name, name)
            if isinstance(v, Opaque):
                raise Unsupported('%s.%s: %s' % (o.name, name, v.why))
            return v
        if isinstance(o, Obj):
            if name in o.content:
                v = o.content[name]
                if isinstance(v, Partial):
                    if self.ctx.entails(v.g):
                        return v.v
                    self.split(v.g)
                    return v.v
                if isinstance(v, Opaque):
                    raise Unsupported('attribute %s: %s' % (name, v.why))
                return v
            if name == '__dict__':
                return self.vdict([(k, v) for k, v in o.content.items()])
            if isinstance(o.cls, ClassV):
                v = o.cls.lookup(name)
                if isinstance(v, PropertyV):
                    return self.call(v.fget, [o], {})
                if isinstance(v, Func):
                    return v if v.bound == 'static' else BoundMethod(v, o)
                if v is not None:
                    return v
            h = getattr(o, 'getattr_model', None)
            if h is not None:
                r = h(self, name)
                if r is not None:
                    return r
            if getattr(o, 'partial', False):
                raise Unsupported('attribute %s of an object the contract describes in part' % name)
            raise PyRaise('AttributeError', name)
        if isinstance(o, ClassV):
            v = o.lookup(name)
            if v is None:
                raise PyRaise('AttributeError', name)
            return v
        if isinstance(o, Arr):
            return self.np.arr_attr(self, o, name)
        if isinstance(o, Num):
            return self.np.num_attr(self, o, name)
        if isinstance(o, (str, StrV)):
            return self.np.str_attr(self, o, name)
        if getattr(self, 'texts', False):
            from . import text
            if isinstance(o, text.FileObj):
                return text.file_attr(self, o, name)
        if isinstance(o, (VList, VBag)):
            return self.np.list_attr(self, o, name)
        if isinstance(o, VDict):
            return self.np.dict_attr(self, o, name)
        if isinstance(o, Builtin):
            h = getattr(o, 'attr', None)
            if h is not None:
                return h(self, name)
        if isinstance(o, tuple) and name == 'index':
            pass
        if o is None or isinstance(o, (bool, VBool, tuple)):
            raise PyRaise('AttributeError', '%r has no attribute %s' % (o, name))
        if isinstance(o, SuperV):
            for c in o.obj.cls.mro()[1:] if o.cls is None else o.cls.mro()[1:]:
                if name in c.attrs:
                    return BoundMethod(c.attrs[name], o.obj)
            if name == '__init__':
                return Builtin('object.__init__', lambda it, a, k: None)
            raise PyRaise('AttributeError', name)
        if isinstance(o, Func) and name in ('__name__', '__doc__'):
            return o.name
        raise Unsupported('attribute %s of %r' % (name, o))

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if getattr(o.cls, 'nt', None):
                raise PyRaise('AttributeError', "can't set attribute")
            self.touch_cell(o)
            if isinstance(o.cls, ClassV):
                d = o.cls.lookup(name)
                if isinstance(d, PropertyV):
                    if d.fset is None:
                        raise PyRaise('AttributeError', 'read-only property')
                    self.call(d.fset, [o, v], {})
                    return
            if o.frozen:
                self.events.append(('setattr', o, name))
            g = self.gcell(o)
            if g is TRUE:
                o.content[name] = v
            elif name in o.content:
                o.content[name] = self.merge(g, v, o.content[name])
            else:
                o.content[name] = Partial(g, v)
            return
        if isinstance(o, Arr):
            return self.np.arr_setattr(self, o, name, v)
        if isinstance(o, Builtin) and getattr(o, 'setattr', None):
            return o.setattr(self, name, v)
        raise Unsupported('attribute assignment on %r' % (o,))

    def e_Call(self, n, fr):
        if self.is_io_call(n, fr) and isinstance(n.func, ast.Name):
            return None
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            f = fr
            return SuperV(fr.env.get('self'), fr.func.cls)
        f = self.ev(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += self.need_items(self.ev(a.value, fr))
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if not isinstance(d, VDict):
                    raise Unsupported('** of %r' % (d,))
                for a, b in d.content:
                    kw[a] = b
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kw)

    def e_Lambda(self, n, fr):
        f = Func(n, fr.module, '<lambda>', None, closure=fr)
        self.bind_defaults(f, fr)
        return f

    def e_JoinedStr(self, n, fr):
        if getattr(self, 'texts', False):
            from . import text
            return text.joined(self, n, fr)
        return StrV('fstring')

    def e_ListComp(self, n, fr):
        if len(n.generators) != 1 or n.generators[0].ifs:
            raise Unsupported('comprehension')
        g = n.generators[0]
        it = self.ev(g.iter, fr)
        items = self.iter_concrete(it)
        f2 = Frame(fr.func, fr.module, len(self.guards))
        f2.closure = fr
        if items is None:
            # symbolic length: elementwise numeric list
            nlen = self.length(it)
            i = fresh('i')
            st = self.ctx
            self.ctx = self.ctx.add(le(0, P(i)), lt(P(i), nlen))
            try:
                self.assign(g.target, self.item_at(it, P(i)), f2)
                v = self.ev(n.elt, f2)
            finally:
                self.ctx = st
            if isinstance(v, (str, bool)) or v is None:
                return self.new(RepList(nlen, v))
            if not isinstance(v, Num):
                raise Unsupported('comprehension of non-numbers')
            p = v.p
            b = self.buffer([nlen], v.ty, lambda idx: subst(p, {i: idx[0]}), kind='list')
            return Arr(b)
        out = []
        for x in items:
            self.assign(g.target, x, f2)
            out.append(self.ev(n.elt, f2))
        return self.vlist(out)

    e_GeneratorExp = e_ListComp

    def e_Starred(self, n, fr):
        raise Unsupported('starred')

    # --------------------------------------------------------------- calling
    def call(self, f, args, kw):
        if isinstance(f, BoundMethod):
            if isinstance(f.func, Func):
                return self.call_func(f.func, [f.self_] + list(args), kw)
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Builtin):
            if f.fn is None:
                raise Unsupported('call of %s' % f.name)
            return f.fn(self, args, kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, ExcClass):
            return ExcVal(f.name, args)
        if isinstance(f, Obj):
            if isinstance(f.cls, ClassV):
                m = f.cls.lookup('__call__')
                if m is not None:
                    return self.call_func(m, [f] + list(args), kw)
            h = getattr(f, 'call_model', None)
            if h is not None:
                return h(self, args, kw)
            raise PyRaise('TypeError', 'object not callable')
        if isinstance(f, Opaque):
            raise Unsupported('call of opaque %s' % f.why)
        raise PyRaise('TypeError', '%r not callable' % (f,))

    def instantiate(self, c, args, kw):
        o = self.new(Obj(c))
        init = c.lookup('__init__')
        if init is not None:
            self.call_func(init, [o] + list(args), kw)
        return o

    def bind_defaults(self, f, fr):
        """default values are computed once, where the function is defined"""
        a = f.node.args
        pos_ = a.posonlyargs + a.args
        f.defaults = {}
        for x, d in list(zip(pos_[len(pos_) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            try:
                f.defaults[x.arg] = self.ev(d, fr)
            except Unsupported as e:
                f.defaults[x.arg] = Opaque('default value of %s: %s' % (x.arg, e))

    def bind_args(self, node, args, kw, fr, dfr):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        env = {}
        for k, v in zip(names, args):
            env[k] = v
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise('TypeError', 'too many arguments')
            env[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for k in list(kw):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in env:
                    raise PyRaise('TypeError', 'multiple values for %s' % k)
                env[k] = kw.pop(k)
        ds = a.defaults
        for n, d in zip(names[len(names) - len(ds):], ds):
            if n not in env:
                env[n] = dfr.func.defaults[n]
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = dfr.func.defaults[x.arg]
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.vdict(list(kw.items()))
            kw = {}
        if kw:
            raise PyRaise('TypeError', 'unexpected keyword %s' % list(kw))
        for n in names:
            if n not in env:
                raise PyRaise('TypeError', 'missing argument %s' % n)
        return env

    def call_func(self, f, args, kw):
        if isinstance(f, Builtin):
            return f.fn(self, args, kw)
        h = self.contracts.get(f.qual)
        if h is not None and getattr(self, 'verifying', None) != f.qual:
            self.called.add('%s [by contract]' % f.qual)
            r = h(self, f, args, kw)
            if r is not NotImplemented:
                return r
        self.called.add(f.qual)
        if len(self.frames) > 60:
            raise Unsupported('recursion')
        fr = Frame(f, f.module, len(self.guards))
        fr.closure = f.closure
        dfr = Frame(f, f.module, len(self.guards))
        dfr.closure = f.closure
        fr.env = self.bind_args(f.node, args, kw, fr, dfr)
        self.frames.append(fr)
        td, self.try_depth = self.try_depth, self.try_depth
        st = self.ctx
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            live = self.block(f.node.body, fr)
            if live is not FALSE:
                lf = TRUE if live is TRUE else live[1]
                if not fr.returns:
                    if isinstance(live, tuple) and live[0] == 'assume':
                        self.ctx = st.add(live[1])
                        st = self.ctx
                    return None
                if isinstance(live, tuple) and live[0] == 'assume':
                    pass
                fr.returns.append((lf, None))
        finally:
            self.frames.pop()
            self.ctx = st
            self.try_depth = td
        rs = [r for r in fr.returns if not self.ctx.add(r[0]).inconsistent()]
        if not rs:
            # every path raises
            if fr.returns:
                rs = fr.returns[:1]
            elif self.loops and not all(L.concrete for L in self.loops):
                raise Unsupported('call never returns inside loop')
            else:
                # conditional raises recorded; path is dead
                raise PyRaise('Exception', 'all paths raise')
        # facts established by asserts on the way (raise otherwise) hold for the caller as well
        if len(fr.returns) == 1 and fr.returns[0][0] is TRUE and getattr(fr, 'rctx', None) is not None:
            self.ctx = fr.rctx
        v = rs[-1][1]
        for g, x in reversed(rs[:-1]):
            v = self.merge(g, x, v) if x is not v else v
        return v


PARENTS = {'IndexError': ('LookupError',), 'KeyError': ('LookupError',), 'ZeroDivisionError': ('ArithmeticError',), 'OverflowError': ('ArithmeticError',),
           'FloatingPointError': ('ArithmeticError',), 'LinAlgError': ('ValueError',), 'UnicodeDecodeError': ('UnicodeError', 'ValueError'),
           'FileNotFoundError': ('OSError', 'IOError'), 'NotImplementedError': ('RuntimeError',), 'RecursionError': ('RuntimeError',),
           'UnboundLocalError': ('NameError',), 'ModuleNotFoundError': ('ImportError',), 'RankWarning': ('UserWarning', 'Warning')}


def caught(exc, name):
    return name in ('Exception', 'BaseException') or exc == name or name in PARENTS.get(exc, ())


def stale(idx):
    raise Unsupported('array read after its memory was changed through a reshaped view')


DT_ORDER = ['bool', 'int', 'float', 'complex']


def grown_lists(body):
    """(name, conditionally) of the lists some statement appends to"""
    out = {}

    def walk(x, cond):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'extend') and isinstance(x.func.value, ast.Name):
            out[x.func.value.id] = out.get(x.func.value.id, False) or cond
        cond = cond or isinstance(x, (ast.If, ast.While, ast.For, ast.IfExp))
        for c in ast.iter_child_nodes(x):
            walk(c, cond)
    for b in body:
        walk(b, False)
    return sorted(out.items())


def leaves_loop(node):
    """does the body contain a break or return that leaves this loop?"""
    def walk(x, inner):
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        if isinstance(x, ast.Return):
            return True
        if isinstance(x, ast.Break):
            return not inner
        inner = inner or isinstance(x, (ast.For, ast.While))
        return any(walk(c, inner) for c in ast.iter_child_nodes(x))
    return any(walk(c, False) for c in node.body)


class SuperV(object):
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


_rb = {}


def rebinds(node, name):
    """is name the target of a plain assignment (not augmented) in the loop body"""
    key = (id(node), name)
    if key not in _rb:
        r = False
        for s in ast.walk(node):
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                        if isinstance(x, ast.Name) and x.id == name:
                            r = True
            elif isinstance(s, ast.For) and s is not node:
                for x in ast.walk(s.target):
                    if isinstance(x, ast.Name) and x.id == name:
                        r = True
        _rb[key] = r
    return _rb[key]


def explore(make, maxpaths=64):
    """run make(decisions) -> (interp, result) for all case splits.

    make receives the list of decided formulas and must build a fresh Interp.
    Returns a list of (facts, interp, kind, value)."""
    shared = {}
    while True:
        before = {k: list(v) for k, v in shared.items()}
        out = _explore(make, maxpaths, shared)
        if {k: v for k, v in shared.items() if v} == {k: v for k, v in before.items() if v}:
            return out


def _explore(make, maxpaths, shared):
    todo = [()]
    out = []
    n = 0
    while todo:
        dec = todo.pop()
        n += 1
        if n > maxpaths:
            raise Unsupported('too many case splits')
        c = Ctx(dec)
        if dec and c.inconsistent():
            continue
        it = None
        try:
            it, fn = make(dec)
            it.shared = shared
            if it.ctx.inconsistent():
                continue
            v = fn(it)
            out.append((dec, it, 'return', v))
        except NeedSplit as e:
            todo.append(dec + (e.cond,))
            todo.append(dec + (Not(e.cond),))
        except PyRaise as e:
            out.append((dec, it, 'raise', e))
        except PathEnd as e:
            out.append((dec, it, 'iter', e.info))
    return out
