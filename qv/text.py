"""Texts with symbolic numbers in them: formatting, splitting, parsing, and text files written and read back.

A *Text* is a sequence of literal pieces and *Holes*; a hole stands for the characters `format(number, spec)` produces, which are
non-empty, hold no white space and parse back to the (rounded) number.  A file is a list of *segments*: lines written outside loops,
and blocks of lines written once per iteration of a nest of symbolic loops.  Reading it back iterates over the same domain.
Used only where a contract asks for it (it.texts)."""
import string
from .values import *
from .solve import *
from . import solve as S

WS = ' \t\n\r\x0b\x0c'


class Hole(object):
    __slots__ = ('num', 'digits')

    def __init__(self, num, digits=None):
        self.num, self.digits = num, digits     # digits: number of decimals, None: exact

    def value(self):
        p = self.num.p
        if self.digits is None:
            return p
        rnd = lambda x: app('rnd', [con(self.digits), x], REAL)
        if self.num.ty == 'complex':
            return rnd(re(p)) + rnd(im(p)) * IU
        return rnd(p)

    @property
    def kind(self):
        if self.num.ty == 'int':
            return 'int' if self.digits is None else 'float'
        return self.num.ty

    def __repr__(self):
        return '<%s:%s>' % (self.num.p, self.digits)


class Text(StrV):
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if p and out and isinstance(out[-1], str):
                    out[-1] += p
                elif p:
                    out.append(p)
            else:
                out.append(p)
        self.parts = tuple(out)
        StrV.__init__(self, repr(self.parts))

    def __repr__(self):
        return 'Text%r' % (self.parts,)


def mk(parts):
    t = Text(parts)
    if not t.parts:
        return ''
    if len(t.parts) == 1 and isinstance(t.parts[0], str):
        return t.parts[0]
    return t


def parts(v):
    if isinstance(v, str):
        return [v] if v else []
    if isinstance(v, Text):
        return list(v.parts)
    raise Unsupported('text %r' % (v,))


def fmt(it, v, spec):
    """format(v, spec) as parts"""
    if isinstance(v, (str, Text)):
        if spec:
            raise Unsupported('format %r of a text' % spec)
        return parts(v)
    if isinstance(v, (bool,)) or v is None:
        if spec:
            raise Unsupported('format %r' % spec)
        return [str(v)]
    if not isinstance(v, Num):
        raise Unsupported('format of %r' % (v,))
    sp = spec[1:] if spec[:1] in ('+', '-') else spec
    c = v.p.const()
    if sp in ('', 'd'):
        if sp == 'd' and v.ty != 'int':
            raise PyRaise('ValueError', 'format d of a float')
        if c is not None and v.ty == 'int':
            return [format(int(c), spec)]
        return [Hole(v)]
    if len(sp) > 2 and sp[0] == '.' and sp[-1] == 'f' and sp[1:-1].isdigit():
        return [Hole(v, int(sp[1:-1]))]
    raise Unsupported('format %r' % spec)


def split_spec(it, s):
    """(literal, field, spec, conversion) of a template whose text is literal"""
    return list(string.Formatter().parse(s))


def field_value(it, name, a, k, auto):
    import _string
    first, rest = _string.formatter_field_name_split(name)
    if first == '':
        v = a[auto[0]]
        auto[0] += 1
    elif isinstance(first, int):
        v = a[first]
    else:
        v = k[first]
    for is_attr, x in rest:
        v = it.getattr(v, x) if is_attr else it.getitem(v, Num(con(x), 'int') if isinstance(x, int) else x)
    return v


def conversion(v, c):
    if c in (None, 's', 'r') and not (c == 'r' and isinstance(v, (str, Text))):
        return v
    raise Unsupported('conversion !%s' % c)


def str_format(it, s, a, k):
    out = []
    auto = [0]
    for lit, name, spec, conv in split_spec(it, s):
        out.append(lit)
        if name is None:
            continue
        v = conversion(field_value(it, name, a, k, auto), conv)
        if spec and '{' in spec:
            sp = str_format(it, spec, a, k)
            if not isinstance(sp, str):
                raise Unsupported('symbolic format')
            spec = sp
        out += fmt(it, v, spec or '')
    return mk(out)


def percent(it, s, v):
    import re as _re
    args = list(v) if isinstance(v, tuple) else [v]
    out, pos = [], 0
    for m in _re.finditer(r'%(%|([-+ 0#]*)(\d*)((?:\.\d+)?)([a-zA-Z]))', s):
        out.append(s[pos:m.start()])
        pos = m.end()
        if m.group(1) == '%':
            out.append('%')
            continue
        if m.group(2) or m.group(3):
            raise Unsupported('format %s' % m.group(0))
        x = args.pop(0)
        c = m.group(5)
        if c in 'di':
            if not (isinstance(x, Num) and x.ty == 'int'):
                raise Unsupported('%d of a float')
            out += fmt(it, x, '')
        elif c == 'f':
            if isinstance(x, Num) and x.ty == 'complex':
                raise PyRaise('TypeError', 'float(complex)')
            out += fmt(it, x, (m.group(4) or '.6') + 'f')
        elif c == 's':
            out += fmt(it, x, '')
        else:
            raise Unsupported('format %s' % m.group(0))
    out.append(s[pos:])
    return mk(out)


def joined(it, n, fr):
    import ast
    out = []
    for x in n.values:
        if isinstance(x, ast.Constant):
            out.append(x.value)
        else:
            v = it.ev(x.value, fr)
            if x.conversion != -1:
                v = conversion(v, chr(x.conversion))
            spec = ''
            if x.format_spec is not None:
                spec = joined(it, x.format_spec, fr)
                if not isinstance(spec, str):
                    raise Unsupported('symbolic format')
            out += fmt(it, v, spec)
    return mk(out)


# ------------------------------------------------------------ text operations

def split(t, sep=None):
    """list of texts"""
    out, cur, any_ = [], [], False
    for p in parts(t):
        if isinstance(p, Hole):
            cur.append(p)
            continue
        if sep is None:
            for ch in p:
                if ch in WS:
                    if cur:
                        out.append(mk(cur))
                    cur = []
                else:
                    cur.append(ch)
        else:
            bits = p.split(sep)
            for i, b in enumerate(bits):
                if i:
                    out.append(mk(cur))
                    cur = []
                cur.append(b)
    if sep is not None:
        if not set(sep) - set('0123456789+-.ejnaif()') :
            raise Unsupported('split at %r' % sep)
        out.append(mk(cur))
    elif cur:
        out.append(mk(cur))
    return out


def strip(t, chars=None, left=True, right=True):
    if chars is not None and set(chars) & set('0123456789+-.ejnaif()'):
        raise Unsupported('strip %r' % chars)
    chars = WS if chars is None else chars
    ps = parts(t)
    while left and ps and isinstance(ps[0], str):
        q = ps[0].lstrip(chars)
        if q == ps[0]:
            break
        ps[0:1] = [q] if q else []
    while right and ps and isinstance(ps[-1], str):
        q = ps[-1].rstrip(chars)
        if q == ps[-1]:
            break
        ps[-1:] = [q] if q else []
    return mk(ps)


def startswith(t, s):
    ps = parts(t)
    if not s:
        return True
    if not ps or isinstance(ps[0], Hole):
        if set(s[0]) & set('0123456789+-.jnif('):
            raise Unsupported('startswith')
        return False
    if len(ps[0]) >= len(s):
        return ps[0].startswith(s)
    if not s.startswith(ps[0]):
        return False
    raise Unsupported('startswith')


def endswith(t, s):
    ps = parts(t)
    if not s:
        return True
    if not ps or isinstance(ps[-1], Hole):
        if set(s[-1]) & set('0123456789.jnf)'):
            raise Unsupported('endswith')
        return False
    if len(ps[-1]) >= len(s):
        return ps[-1].endswith(s)
    if not s.endswith(ps[-1]):
        return False
    raise Unsupported('endswith')


def contains(t, s):
    if not s:
        return True
    ps = parts(t)
    if any(s in p for p in ps if isinstance(p, str)):
        return True
    # a hole holds digits, signs, points, exponents, 'j', 'nan', 'inf' and brackets only
    if any(isinstance(p, Hole) for p in ps) and set(s) & set('0123456789+-.ejnaif()'):
        raise Unsupported('in a text with numbers')
    return False


def item(it, t, ix):
    if isinstance(ix, SliceV):
        f = lambda x: None if x is None else it.concrete_int(x)
        lo, hi, st = f(ix.lo), f(ix.hi), f(ix.step)
        if st not in (None, 1):
            raise Unsupported('text slice')
        ps = parts(t)
        lo = lo or 0
        if lo > 0:
            if not ps or isinstance(ps[0], Hole) or len(ps[0]) < lo:
                raise Unsupported('text slice')
            ps[0] = ps[0][lo:]
        elif lo < 0:
            if hi is None and ps and isinstance(ps[-1], str) and len(ps[-1]) >= -lo:
                return ps[-1][lo:]
            raise Unsupported('text slice')
        if hi is None:
            return mk(ps)
        if hi < 0:
            if not ps or isinstance(ps[-1], Hole) or len(ps[-1]) < -hi:
                raise Unsupported('text slice')
            ps[-1] = ps[-1][:hi]
            return mk(ps)
        if ps and isinstance(ps[0], str) and len(ps[0]) >= hi - lo:
            return ps[0][:max(hi - lo, 0)]
        raise Unsupported('text slice')
    c = it.concrete_int(ix)
    ps = parts(t)
    if c >= 0 and ps and isinstance(ps[0], str) and len(ps[0]) > c:
        return ps[0][c]
    if c < 0 and ps and isinstance(ps[-1], str) and len(ps[-1]) >= -c:
        return ps[-1][c]
    if not ps:
        raise PyRaise('IndexError', 'string index')
    raise Unsupported('character of a number')


def equal(a, b):
    """equality of two texts: True, False, or a formula"""
    x, y = parts(a), parts(b)
    if len(x) == len(y) and all((isinstance(p, str) and p == q) or (isinstance(p, Hole) and isinstance(q, Hole) and p.num.p is q.num.p and p.digits == q.digits)
                                for p, q in zip(x, y)):
        return True
    # texts that differ at a literal prefix or suffix
    f = lambda l, i: l[i] if l and isinstance(l[i], str) else ''
    num = set('0123456789+-.jnif(')
    for i, pre in ((0, True), (-1, False)):
        s, t = f(x, i), f(y, i)
        n = min(len(s), len(t))
        if n and (s[:n] != t[:n] if pre else s[-n:] != t[-n:]):
            return False
        if (s and not t and y and s[i] not in num) or (t and not s and x and t[i] not in num):
            return False
    if not x or not y:
        if any(isinstance(p, Hole) or p for p in x + y):
            return False
    raise Unsupported('equality of texts with numbers')


def parse(it, t, kind):
    t = strip(t)
    if isinstance(t, str):
        return None
    ps = list(t.parts)
    if kind == 'complex' and len(ps) == 3 and ps[0] == '(' and ps[2] == ')':
        ps = ps[1:2]
    if kind == 'complex' and len(ps) == 1 and isinstance(ps[0], Hole):
        return Num(ps[0].value(), 'complex')
    if len(ps) == 1 and isinstance(ps[0], Hole):
        h = ps[0]
        if kind == 'int':
            if h.kind != 'int':
                raise PyRaise('ValueError', 'int of a decimal number')
            return Num(h.num.p, 'int')
        if kind == 'float':
            if h.kind == 'complex':
                raise PyRaise('ValueError', 'float of a complex number')
            return Num(h.value(), 'float')
    if all(isinstance(p, Hole) or not set(p) & set('0123456789+-.ejnaif()_') for p in ps):
        raise PyRaise('ValueError', 'could not convert %r to %s' % (t, kind))
    raise Unsupported('%s(%r)' % (kind, t))


def digits_groups(it, t):
    """maximal runs of digits of a text: list of texts"""
    out, cur = [], []
    ps = parts(t)
    for i, p in enumerate(ps):
        if isinstance(p, Hole):
            if p.kind != 'int' or not it.ctx.entails(le(ZERO, p.num.p)):
                raise Unsupported('digits of a number with sign or point')
            if cur:
                raise Unsupported('adjacent digits')
            cur = [p]
            continue
        for ch in p:
            if ch.isdigit():
                if any(isinstance(x, Hole) for x in cur):
                    raise Unsupported('adjacent digits')
                cur.append(ch)
            elif cur:
                out.append(mk(cur))
                cur = []
    if cur:
        out.append(mk(cur))
    return out


DIG = (r'\d+', r'[0-9]+')


def match_obj(whole, groups):
    b = Builtin('match')

    def group(it, a, k):
        i = it.concrete_int(a[0]) if a else 0
        return whole if i == 0 else groups[i - 1]

    def attr(it, name):
        if name == 'group':
            return Builtin('group', group)
        if name == 'groups':
            return Builtin('groups', lambda it, a, k: tuple(groups))
        raise Unsupported('match.%s' % name)
    b.attr = attr
    return b


def re_func(full):
    def f(it, a, k):
        if not getattr(it, 'texts', False):
            raise Unsupported(full)
        pat, t = a[0], a[1]
        if not isinstance(pat, str):
            raise Unsupported(full)
        core = pat[1:-1] if pat.startswith('(') and pat.endswith(')') else pat
        if core not in DIG or len(a) > 2 or k:
            raise Unsupported('%s %r' % (full, pat))
        g = digits_groups(it, t)
        if full == 're.findall':
            return it.vlist(g)
        return match_obj(g[0], [g[0]]) if g else None
    return f


# --------------------------------------------------------------------- files

class FileCell(Cell):
    """content: tuple of (loops, Text) in the order of writing"""

    def __init__(self):
        Cell.__init__(self)
        self.content = ()


class FileObj(object):
    def __init__(self, cell, mode):
        self.cell, self.mode = cell, mode
        self.kept = None


class Lines(object):
    """segs: list of (loops, [line texts]); off: index of the first line of this slice"""

    def __init__(self, cell, segs, off=0, stop=None):
        self.cell, self.segs, self.off = cell, segs, off

    def head(self):
        n = 0
        out = []
        for loops, ls in self.segs:
            if loops:
                break
            out += ls
        return out


def fs(it):
    d = it.__dict__.setdefault('files', {})
    return d


def b_open(it, a, k):
    a = list(a)
    name = a.pop(0) if a else k['file']
    mode = a.pop(0) if a else k.get('mode', 'r')
    if not isinstance(name, str) or not isinstance(mode, str):
        raise Unsupported('open of an unknown file')
    if any(not L.concrete for L in it.loops) or (it.guards and it.gform(0) is not TRUE):
        raise Unsupported('file opened inside a loop or condition')
    if mode.strip('bt') == 'w':
        c = it.new(FileCell())
        fs(it)[name] = c
        return FileObj(c, 'w')
    if mode.strip('bt') == 'r':
        if name not in fs(it):
            raise Unsupported('file of unknown content')
        return FileObj(fs(it)[name], 'r')
    raise Unsupported('file mode %r' % mode)


def write(it, f, t):
    if f.mode != 'w':
        raise PyRaise('UnsupportedOperation', 'not writable')
    if it.guards and it.gform(0) is not TRUE:
        raise Unsupported('write under a symbolic condition')
    loops = []
    for L in it.loops:
        if L.havoc:
            raise Unsupported('write in a loop with early exit')
        if not L.concrete:
            if L.conts:
                raise Unsupported('write after continue')
            loops.append(L)
    t = parts(t)
    allowed = None
    for p in t:
        if isinstance(p, Hole) and any(str(x).startswith('_h') for x in p.num.p.apps):
            raise Unsupported('loop-carried value written to a file')
    f.cell.content = f.cell.content + ((tuple(loops), Text(t)),)


def segments(it, cell):
    segs = []
    for loops, t in cell.content:
        key = tuple(id(L) for L in loops)
        if segs and segs[-1][0] == key:
            segs[-1][2].extend(t.parts)
        else:
            segs.append((key, loops, list(t.parts)))
    out = []
    for key, loops, ps in segs:
        t = mk(ps)
        if not t:
            continue
        ps = parts(t)
        if not (isinstance(ps[-1], str) and ps[-1].endswith('\n')):
            raise Unsupported('line continued across loops')
        lines = split(t, '\n')[:-1]
        ls = [mk(parts(x) + ['\n']) for x in lines]
        dom = []
        for L in loops:
            if getattr(L, 'dom', None) is None or L.dom[2]:
                raise Unsupported('loop the file was written in')
            dom.append((L.var,) + tuple(L.dom[:2]))
        out.append((dom, ls))
    if any(x[0] for x in out[:-1] if x[0]):
        raise Unsupported('text after a block written in a loop')
    return out


def close_scope(it, cell):
    """every term in the file is over the loop variables and the inputs only"""
    for dom, ls in segments(it, cell):
        vs = set(v for v, lo, hi in dom)
        for t in ls:
            for p in parts(t):
                if isinstance(p, Hole):
                    for x in p.num.p.fv:
                        if x not in vs and str(x).startswith('_'):
                            raise Unsupported('value of a loop variable outside its loop')


def file_attr(it, f, name):
    if name == 'write':
        return Builtin('write', lambda it, a, k: write(it, f, a[0]))
    if name == 'writelines':
        return Builtin('writelines', lambda it, a, k: [write(it, f, x) for x in it.need_items(a[0])] and None)
    if name in ('close', 'flush'):
        return Builtin(name, lambda it, a, k: None)
    if name == 'readlines':
        return Builtin(name, lambda it, a, k: lines_of(it, f))
    if name == 'readline':
        def rl(it, a, k):
            ls = lines_of(it, f)
            h = ls.head()
            if ls.off >= len(h):
                raise Unsupported('readline')
            f.kept = Lines(ls.cell, ls.segs, ls.off + 1)
            return h[ls.off]
        return Builtin(name, rl)
    raise Unsupported('file.%s' % name)


def lines_of(it, f):
    if f.mode != 'r':
        raise PyRaise('UnsupportedOperation', 'not readable')
    if f.kept is None:
        close_scope(it, f.cell)
        f.kept = Lines(f.cell, segments(it, f.cell))
    return f.kept


def row_text(it, ls, idx):
    """text of line number idx (absolute, Poly)"""
    h = ls.head()
    c = idx.const()
    if c is not None:
        if 0 <= c < len(h):
            return h[int(c)]
        raise Unsupported('line %s of a file' % c)
    for cell, base, texts in reversed(it.__dict__.get('rows', [])):
        if cell is ls.cell:
            d = (idx - base).const()
            if d is not None and 0 <= d < len(texts):
                return texts[int(d)]
    raise Unsupported('line at a symbolic position')


def lines_item(it, ls, ix):
    if isinstance(ix, SliceV):
        lo = None if ix.lo is None else it.num(ix.lo).p
        hi = None if ix.hi is None else it.num(ix.hi).p
        if ix.step is not None:
            raise Unsupported('file slice')
        if hi is None:
            c = lo.const() if lo is not None else 0
            if c is None or c < 0 or ls.off + c > len(ls.head()):
                raise Unsupported('file slice')
            return Lines(ls.cell, ls.segs, ls.off + int(c))
        n = (hi - (lo if lo is not None else ZERO)).const()
        if n is None or n < 0 or n > 50 or (lo is not None and lo.const() is not None and lo.const() < 0):
            raise Unsupported('file slice')
        return it.vlist([row_text(it, ls, (lo if lo is not None else ZERO) + ls.off + i) for i in range(int(n))])
    i = it.num(ix).p
    c = i.const()
    if c is not None and c < 0:
        raise Unsupported('line counted from the end')
    return row_text(it, ls, i + ls.off)


def lines_len(ls):
    n = ZERO - ls.off
    for dom, t in ls.segs:
        k = con(len(t))
        for v, lo, hi in dom:
            k = k * (hi - lo)
        n = n + k
    return n


def for_lines(it, s, fr, seq, start):
    """for target in lines (start: Poly of the first enumerate index, or None)"""
    import ast
    if s.orelse:
        raise Unsupported('for-else')
    from .interp import assigned_names, leaves_loop
    if leaves_loop(s):
        raise Unsupported('loop over lines with early exit')
    names = set(assigned_names(s.body))
    tn = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
    rows = it.__dict__.setdefault('rows', [])

    def target(text, pos):
        return text if start is None else (Num(start + pos, 'int'), text)
    pos = 0
    skip = seq.off
    for dom, texts in seq.segs:
        if not dom:
            items = texts[skip:] if skip < len(texts) else []
            skip -= len(texts) - len(items)
            r = it.unrolled(s, fr, [target(t, con(pos + i)) for i, t in enumerate(items)]) if items else TRUE
            if r is not TRUE:
                raise Unsupported('loop over lines that ends early')
            pos += len(items)
            continue
        nb = len(texts)
        head = len(seq.head())

        def nest(k, sub, group):
            if k == len(dom):
                ts = [mk([Hole(Num(subst(p.num.p, sub), p.num.ty), p.digits) if isinstance(p, Hole) else p for p in parts(t)]) for t in texts]
                base = con(pos) + group * nb
                rows.append((seq.cell, base + seq.off, ts))
                try:
                    r = it.unrolled(s, fr, [target(t, base + i) for i, t in enumerate(ts)])
                finally:
                    rows.pop()
                return r
            v, lo, hi = dom[k]
            lo, hi = subst(lo, sub), subst(hi, sub)
            return it.sym_loop(fr, names | tn, tn, lo, hi, False, lambda I: nest(k + 1, dict(list(sub.items()) + [(v, I)]), group * (hi - lo) + (I - lo)), s)
        for v, lo, hi in dom:
            if any(x in lo.fv or x in hi.fv for x, _, _ in dom):
                raise Unsupported('block of varying length')
        nest(0, {}, ZERO)
    return TRUE
