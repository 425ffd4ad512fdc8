"""Print helpers: contracts over the ghost trace of formatted output.

The text a function writes to its stream is a ghost value: a sequence of literal characters and
conversions (flags, width, precision, type, value) built by the C library's formatted output
functions, whose own contract is the only thing assumed about them: fprintf(stream, fmt, ...)
appends to the stream what fmt denotes; snprintf returns the length of that text and writes at most
`size` bytes.  A contract gives the sequence the function must write, for every input."""
import os, re, json, subprocess, struct as _st, math
import numpy as np
from . import dag as D, build, numeric
from .dag import Node, TRUE, FALSE
from .exe import Exec, State, Ptr, PtrIte, UNDEF, Unsupported, LoopBound, Obj, BUILTIN, NULL
from .ir import IRError
from .contract import Type, CTX
from .prove import Prover
from .verify import FnResult, Ob

CONFIGS = {c.name: c for c in build.PRINTS}
FMT = {'print': (5, '1e5', '\x1b[36m', '\x1b[0m'), 'print_alt': (2, '10', '', ''), 'print_dbg': (5, '1e5', '\x1b[36m', '\x1b[0m')}
FMT['print_off'] = FMT['print']      # what the library forms, which always print, write there
def off(cfg, api): return cfg == 'print_off' and api != 'call'

# ---- texts -----------------------------------------------------------------
NIL = D.mk('tnil', (), 't')
def lit(t, s): return D.mk('tlit', (t, s), 't') if s else t
def conv(t, fl, width, prec, ty, v):
    if not isinstance(width, Node) and not width: width = 0
    return D.mk('tconv', (t, fl, width if isinstance(width, Node) else int(width), prec if isinstance(prec, Node) else -1 if prec is None else int(prec), ty, v), 't')

LENS = {}       # name of a length variable -> conversion
def length(items):
    """number of characters of a text, as an opaque function of each conversion"""
    n = 0
    for it in items:
        if it[0] == 'lit': n = D.iop('add', n, len(it[1]), 32)
        elif it[0] == 'conv':
            nm = 'strlen<%s>' % ','.join(str(x.id) if isinstance(x, Node) else str(x) for x in it[1:])
            LENS[nm] = it; n = D.iop('add', D.var(nm, 'i32'), n, 32)
        else: n = D.iop('add', n, D.iite(it[1], length(it[2]), length(it[3]), 32), 32)
    return n

DIR = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d*))?(hh|h|ll|l|j|z|t|L)?([diouxXcsfFeEgGaAp%])')
def fmt_text(t, fmt, args, ex, st):
    """append to text t what the format denotes"""
    pos = 0; args = list(args)
    def nxt():
        if not args: ex.oblige('format', 'a conversion has no argument', st, FALSE); raise Unsupported('format string without argument')
        a = args.pop(0)
        if a is UNDEF: ex.oblige('defined', 'an indeterminate value is printed', st, FALSE); raise Unsupported('printing an indeterminate value')
        return a
    while pos < len(fmt):
        k = fmt.find('%', pos)
        if k < 0: t = lit(t, fmt[pos:]); break
        t = lit(t, fmt[pos:k])
        m = DIR.match(fmt, k)
        if not m: raise Unsupported('format string %r' % fmt)
        pos = m.end(); fl, w, p, ln, ty = m.groups()
        if ty == '%': t = lit(t, '%'); continue
        fl = ''.join(sorted(set(fl)))
        if w == '*': w = nxt()
        elif w: w = int(w)
        if isinstance(w, int) and w & 0x80000000: fl = ''.join(sorted(set(fl + '-'))); w = D.isig(w, 32) * -1
        if p == '*': p = nxt()
        elif p is not None: p = int(p or 0)
        if isinstance(p, int) and p & 0x80000000: p = None
        v = nxt()
        if ty in 'fFeEgGaA':
            if isinstance(v, tuple): raise Unsupported('double value %r' % (v,))
            if not isinstance(v, Node) or v.sort != 'f': ex.oblige('format', '%%%s given something that is not a double' % ty, st, FALSE); raise Unsupported('format')
            t = conv(t, fl, w or 0, 6 if p is None and ty not in 'aA' else p, ty, v)
        elif ty in 'di' or ty in 'uxXoc':
            if isinstance(v, (Ptr, tuple)) or isinstance(v, Node) and v.sort == 'f': ex.oblige('format', '%%%s given something that is not an int' % ty, st, FALSE); raise Unsupported('format')
            ty = 'd' if ty == 'i' else ty
            if isinstance(v, int) and not isinstance(w, Node) and not isinstance(p, Node): t = lit(t, pyfmt(fl, w or 0, p, ty, D.isig(v, 32) if ty == 'd' else v & 0xffffffff))
            else: t = conv(t, fl, w or 0, p, ty, D._w(v, 32) if not isinstance(v, Node) else v)
        elif ty == 's':
            t = str_text(t, fl, w, p, v, ex, st)
        else: raise Unsupported('conversion %%%s' % ty)
    return t

def str_text(t, fl, w, p, v, ex, st):
    if isinstance(v, PtrIte): return D.ite(v.c, str_text(t, fl, w, p, v.a, ex, st), str_text(t, fl, w, p, v.b, ex, st))
    if isinstance(v, Ptr) and v.obj is None: ex.oblige('pointer-valid', '%s given a null pointer', st, FALSE); raise Unsupported('null string')
    if isinstance(v, Ptr) and v.obj.kind == 'text':
        if v.off != 0: raise Unsupported('inside of a string argument')
        return conv(t, fl, w or 0, p, 's', D.var(v.obj.name, 'i64'))
    c = buffered(st, v)
    if c is not None: return append(t, norm(chain(c, {})), fl, w, p)
    s = cstring(ex, st, v)
    if isinstance(w, Node) or isinstance(p, Node): raise Unsupported('string width')
    return lit(t, pyfmt(fl, w or 0, p, 's', s))

def buffered(st, v):
    """the text snprintf left in a buffer"""
    if not isinstance(v, Ptr) or v.obj is None or not isinstance(v.off, int): return None
    c = st.mem.get(v.obj.id, {}).get(v.off)
    return c[1] if c is not None and isinstance(c[1], Node) and c[1].sort == 't' else None

def append(t, items, fl='', w=0, p=None):
    if w or p is not None:      # %*s: padding of a single number is that of its own conversion
        if len(items) != 1 or fl or p is not None: raise Unsupported('padding of a composed text')
        it = items[0]
        if it[0] == 'ite': return D.ite(it[1], append(t, it[2], fl, w, p), append(t, it[3], fl, w, p))
        if it[0] != 'conv' or it[2] or set(it[1]) - set(' +'): raise Unsupported('padding of a composed text')
        return conv(t, it[1], w, it[3], it[4], it[5])
    for it in items:
        if it[0] == 'lit': t = lit(t, it[1])
        elif it[0] == 'conv': t = conv(t, *it[1:])
        else: t = D.ite(it[1], append(t, it[2]), append(t, it[3]))
    return t

def longest(items):
    """upper bound of the length of a text, None if there is none"""
    n = 0
    for it in items:
        if it[0] == 'lit': n += len(it[1]); continue
        if it[0] == 'ite':
            a, b = longest(it[2]), longest(it[3])
            if a is None or b is None: return None
            n += max(a, b); continue
        _, fl, w, p, ty, v = it
        if isinstance(w, Node) or isinstance(p, Node) or ty not in 'fFgGeEdux': return None
        q = max(p, 0)
        n += max(w, 12 + q if ty in 'dux' else 42 + q if ty in 'fF' else 16 + q)      # the doubles printed are floats
    return n

def cstring(ex, st, v):
    if not isinstance(v, Ptr) or v.obj is None or not isinstance(v.off, int): raise Unsupported('string %r' % (v,))
    out = bytearray(); o = v.off
    while True:
        b = ex.load(st, ('i', 8), Ptr(v.obj, o), 1)
        if not isinstance(b, int): raise Unsupported('string with unknown characters')
        if b == 0: break
        out.append(b & 255); o += 1
    return out.decode('latin1')

def pyfmt(fl, w, p, ty, v):
    f = '%' + fl + (str(w) if w else '') + ('.%d' % p if p is not None and p >= 0 else '') + ('d' if ty == 'u' else ty)
    return f % (chr(v) if ty == 'c' else v)

# ---- execution ---------------------------------------------------------------
def chain(t, memo):
    """items of a text: ('lit', s) ('conv', flags, width, prec, type, value) ('ite', c, items, items)"""
    r = memo.get(t.id)
    if r is not None: return r
    if t.op == 'tnil': r = ()
    elif t.op == 'tlit': r = chain(t.args[0], memo) + (('lit', t.args[1]),)
    elif t.op == 'tconv': r = chain(t.args[0], memo) + (('conv',) + t.args[1:],)
    else:
        c, a, b = t.args; A, B = chain(a, memo), chain(b, memo); k = 0
        while k < len(A) and k < len(B) and A[k] == B[k]: k += 1
        r = A[:k] + ((('ite', c, A[k:], B[k:]),) if len(A) > k or len(B) > k else ())
    memo[t.id] = r
    return r

def norm(items):
    """adjacent literals joined, common prefixes of the alternatives hoisted"""
    out = []
    def push(it):
        if it[0] == 'lit':
            if not it[1]: return
            if out and out[-1][0] == 'lit': out[-1] = ('lit', out[-1][1] + it[1]); return
        out.append(it)
    for it in items:
        if it[0] != 'ite': push(it); continue
        c, A, B = it[1], list(norm(it[2])), list(norm(it[3]))
        while A and B:
            if A[0] == B[0]: push(A.pop(0)); B.pop(0); continue
            if A[0][0] == B[0][0] == 'lit':
                k = len(os.path.commonprefix([A[0][1], B[0][1]]))
                if not k: break
                push(('lit', A[0][1][:k]))
                A[0] = ('lit', A[0][1][k:]); B[0] = ('lit', B[0][1][k:])
                A = [x for x in A if x != ('lit', '')]; B = [x for x in B if x != ('lit', '')]
                continue
            break
        if A or B: push(('ite', c, tuple(A), tuple(B)))
    return tuple(out)

TRACE = Obj('output', None, 1, True, 'trace')
class PExec(Exec):
    def start(self, st, stream):
        self.stream = stream; st.mem[TRACE.id] = {0: (4, NIL)}
    def emit(self, st, stream, f):
        if isinstance(stream, PtrIte): raise Unsupported('conditional stream')
        t = st.mem[TRACE.id][0][1]
        if stream != self.stream: t = lit(t, '<<another stream>>')
        st.mem[TRACE.id][0] = (4, f(t))
    def formatted(self, st, t, fmt, args):
        if isinstance(fmt, PtrIte): return D.ite(fmt.c, self.formatted(st, t, fmt.a, args), self.formatted(st, t, fmt.b, args))
        return fmt_text(t, cstring(self, st, fmt), args, self, st)
    def call(self, f, env, st, I):
        rt, cal, args, bundle = I.a
        name = cal.lstrip('@%').strip('"')
        h = None if cal[0] == '%' else IO.get(name)
        if h is None: return super().call(f, env, st, I)
        return h(self, st, [self.val(env, st, t, v) for t, v, a in args])

def _fprintf(ex, st, av):
    ex.emit(st, av[0], lambda t: ex.formatted(st, t, av[1], av[2:])); return count(ex, st, av[1], av[2:])
def _printf(ex, st, av):
    ex.emit(st, None, lambda t: ex.formatted(st, t, av[0], av[1:])); return count(ex, st, av[0], av[1:])
def count(ex, st, fmt, args): return length(norm(chain(ex.formatted(st, NIL, fmt, args), {})))
def _puts(ex, st, av):
    ex.emit(st, av[1], lambda t: str_text(t, '', 0, None, av[0], ex, st)); return 1
def _putc(ex, st, av):
    c = av[0]
    if not isinstance(c, int): raise Unsupported('fputc of an unknown character')
    ex.emit(st, av[1], lambda t: lit(t, chr(c & 255))); return c & 255
def _fwrite(ex, st, av):
    p, n, k, s = av
    if not isinstance(n, int) or not isinstance(k, int) or not isinstance(p, Ptr) or not isinstance(p.off, int): raise Unsupported('fwrite')
    bs = [ex.load(st, ('i', 8), Ptr(p.obj, p.off + i), 1) for i in range(n * k)]
    if not all(isinstance(b, int) for b in bs): raise Unsupported('fwrite of unknown bytes')
    ex.emit(st, s, lambda t: lit(t, bytes(b & 255 for b in bs).decode('latin1'))); return k
def _snprintf(ex, st, av):
    buf, size, fmt = av[:3]
    if not isinstance(size, int): raise Unsupported('snprintf of symbolic size')
    if size: ex.check(st, buf, size, 1, True)
    txt = ex.formatted(st, NIL, fmt, av[3:]); items = norm(chain(txt, {})); n = length(items)
    if size:
        s = st.mem[buf.obj.id]
        if not isinstance(buf.off, int): raise Unsupported('snprintf to a symbolic address')
        for o in list(s):
            if o < buf.off + size and o + s[o][0] > buf.off: del s[o]
        k = longest(items)
        if k is not None and k < size: s[buf.off] = (size, txt)      # a longer text would be cut: its content stays unknown
    return n
def _strlen(ex, st, av):
    c = buffered(st, av[0])
    return length(norm(chain(c, {}))) if c is not None else len(cstring(ex, st, av[0]))
def _sprintf(ex, st, av): raise Unsupported('sprintf has no bound')
IO = {'strlen': _strlen, 'fprintf': _fprintf, 'printf': _printf, 'snprintf': _snprintf, 'sprintf': _sprintf, 'fputs': _puts, 'fputc': _putc, 'putc': _putc, 'fwrite': _fwrite,
      'puts': lambda ex, st, av: _printf(ex, st, av), 'fflush': lambda ex, st, av: 0}

# ---- contracts ---------------------------------------------------------------
class W:
    """text builder of the contracts"""
    def __init__(s, cfg): s.t = NIL; s.prec, mx, s.col, s.reset = FMT[cfg]; s.max = D.const(int(float(mx)))
    def put(s, x): s.t = lit(s.t, x); return s
    def number(s, x, width=0):
        t = lit(s.t, ' ')
        s.t = D.ite(D.flt(x, s.max), conv(t, ' ', width, s.prec, 'f', x), conv(t, ' ', width, 6, 'g', x)); return s
    def size(s, x):
        return D.iite(D.flt(x, s.max), length([('conv', ' ', 0, s.prec, 'f', x)]), length([('conv', ' ', 0, 6, 'g', x)]), 32)

def vec(kind, n):
    def f(w, v):
        w.put('%s (%s%d): ' % ('Quaternion' if kind == 'q' else 'Vector', 'int' if kind == 'i' else 'float', n) + w.col + '\n  (')
        for x in v:
            if kind == 'i': w.t = conv(lit(w.t, ' '), ' ', 0, None, 'd', x)
            else: w.number(x)
        return w.put('  )' + w.reset + '\n\n')
    return f
def mat(n):
    def f(w, m):
        w.put('Matrix (float%dx%d): ' % (n, n) + w.col + '\n')
        cw = []
        for col in m:
            k = 0
            for x in col:
                z = w.size(x); k = D.iite(D.icmp('slt', z, k, 32), k, z, 32)
            cw.append(k)
        for r in range(n):
            w.put('  |')
            for c in range(n): w.number(m[c][r], cw[c])
            w.put('  |\n')
        return w.put(w.reset + '\n')
    return f
def aabb(w, b, tag):
    w.put('AABB (')
    if tag is None: w.put('float')
    else: w.t = conv(w.t, '', 0, None, 's', tag)
    w.put('): ' + w.col + '\n')
    for p in b:
        w.put('  (')
        for x in p: w.number(x)
        w.put('  )\n')
    return w.put(w.reset + '\n')

KINDS = {'mat4': (Type('mat4'), mat(4)), 'mat3': (Type('mat3'), mat(3)), 'mat2': (Type('mat2'), mat(2)), 'vec4': (Type('vec4'), vec('f', 4)), 'vec3': (Type('vec3'), vec('f', 3)),
         'vec2': (Type('vec2'), vec('f', 2)), 'ivec4': (Type('ivec4'), vec('i', 4)), 'ivec3': (Type('ivec3'), vec('i', 3)), 'ivec2': (Type('ivec2'), vec('i', 2)),
         'versor': (Type('versor'), vec('q', 4)), 'aabb': (Type('vec3', 2), aabb)}
SPECS = {}     # public name -> (api, kind)
for _k in KINDS: SPECS['glm_%s_print' % _k] = ('inline', _k)
for _k in ('mat4', 'mat3', 'vec4', 'vec3', 'versor'): SPECS['glmc_%s_print' % _k] = ('call', _k)
for _k in KINDS:
    if _k != 'mat2': SPECS['glms_%s_print' % _k] = ('struct', _k)

def cdecl(k): return 'vec3 v[2]' if k == 'aabb' else '%s v' % k
def shims(cfg, api):
    """struct interface and disabled helpers through plain pointers"""
    t = ''
    if api == 'call': return t
    for n, (a, k) in SPECS.items():
        if a != api: continue
        tag = ', const char *tag' if k == 'aabb' else ''; ta = ', tag' if tag else ''
        if api == 'struct':
            ty = 'vec3s a[2]' if k == 'aabb' else {'versor': 'versors'}.get(k, k + 's') + ' a'
            t += 'void shim_%s(%s%s, FILE *s) { %s; memcpy(%sa, v, sizeof(a)); %s(a%s, s); }\n' % (n, cdecl(k), tag, ty, '' if k == 'aabb' else '&', n, ta)
        elif off(cfg, api): t += 'void shim_%s(%s%s, FILE *s) { %s(v%s, s) }\n' % (n, cdecl(k), tag, n, ta)
    return t
def symbol(cfg, n, api): return n if api != 'struct' and not off(cfg, api) else 'shim_' + n
APIS = {'print': ('inline', 'call', 'struct'), 'print_alt': ('inline', 'call', 'struct'), 'print_off': ('inline', 'call'), 'print_dbg': ('inline', 'struct')}
def functions(cfg): return [n for n, (a, k) in SPECS.items() if a in APIS[cfg]]

class Compare:
    def __init__(s): s.pr = Prover(None); s.n = 0
    def known(s, pc, c):
        if c in pc: return True
        if D.bnot(c) in pc: return False
        if pc:
            if s.pr.implied(tuple(pc), c).status == 'proved': return True
            if s.pr.implied(tuple(pc), D.bnot(c)).status == 'proved': return False
        return None
    def same(s, a, b, pc):
        if not isinstance(a, Node) and not isinstance(b, Node): return a == b
        if a is b: return True
        if isinstance(a, Node) and isinstance(b, Node) and a.sort == 'f':
            return s.pr.equal_fp(a, b).status == 'proved'
        return s.pr.implied(tuple(pc), D.icmp('eq', a, b, 32)).status == 'proved'
    def eq(s, A, B, pc):
        """None, or what differs"""
        s.n += 1
        if s.n > 3000: return 'too many cases'
        A, B = list(A), list(B); k = 0
        while True:
            while A and A[0] == ('lit', ''): A.pop(0)
            while B and B[0] == ('lit', ''): B.pop(0)
            if not A and not B: return None
            for X in (A, B):
                if X and X[0][0] == 'ite' and s.known(pc, X[0][1]) is not None:
                    it = X.pop(0); X[:0] = it[2] if s.known(pc, it[1]) else it[3]; break
            else:
                if A and B and A[0][0] == B[0][0] == 'ite':
                    x, y = A[0], B[0]; inv = None
                    if s.known(pc + (y[1],), x[1]) is True and s.known(pc + (D.bnot(y[1]),), x[1]) is False: inv = False
                    elif s.known(pc + (y[1],), x[1]) is False and s.known(pc + (D.bnot(y[1]),), x[1]) is True: inv = True
                    if inv is not None:
                        r1 = s.eq(x[3] if inv else x[2], y[2], pc + (y[1],)); r2 = s.eq(x[2] if inv else x[3], y[3], pc + (D.bnot(y[1]),)) if r1 is None else None
                        if r1 is None and r2 is None: A.pop(0); B.pop(0); continue
                        if all(z[0] != 'ite' for z in x[2] + x[3] + y[2] + y[3]) and len(x[2]) == len(y[2]) == len(x[3]) == len(y[3]) == 1: return r1 or r2
                if A and A[0][0] == 'ite' or B and B[0][0] == 'ite':
                    c = (A if A and A[0][0] == 'ite' else B)[0][1]
                    return s.eq(A, B, pc + (c,)) or s.eq(A, B, pc + (D.bnot(c),))
                if not A or not B: return 'text ends early or late: code %s, contract %s' % (show(A[:2]), show(B[:2]))
                x, y = A[0], B[0]
                if x[0] != y[0]: return 'code writes %s, contract %s' % (show(A[:2]), show(B[:2]))
                if x[0] == 'lit':
                    n = min(len(x[1]), len(y[1]))
                    if x[1][:n] != y[1][:n]: return 'code writes %s, contract %s' % (show(A[:2]), show(B[:2]))
                    A[0] = ('lit', x[1][n:]); B[0] = ('lit', y[1][n:]); continue
                if x[1] != y[1] or x[4] != y[4] or not s.same(x[2], y[2], pc) or not s.same(x[3], y[3], pc) or not s.same(x[5], y[5], pc):
                    return 'code writes %s, contract %s' % (show(A[:1]), show(B[:1]))
                A.pop(0); B.pop(0)

def show(items):
    out = []
    for it in items:
        if it[0] == 'lit': out.append(repr(it[1]))
        elif it[0] == 'conv': out.append('%%%s[width %s].%s%s of %s' % (it[1], D.show(it[2], lim=3) if isinstance(it[2], Node) else it[2], it[3], it[4], D.show(it[5], lim=4) if isinstance(it[5], Node) else it[5]))
        else: out.append('(%s ? %s : %s)' % (D.show(it[1], lim=4), show(it[2]), show(it[3])))
    return ' '.join(out) or 'nothing'

class PrintVerifier:
    def __init__(self, mod, cfg, quick=True): self.m = mod; self.cfg = cfg; self.quick = quick

    def inputs(self, k):
        ty = KINDS[k][0]
        return [D.var('v.%d' % i, 'f' if ty.kind == 'f' else 'i32') for i in range(ty.count)]

    def verify(self, name):
        import time, traceback
        t0 = time.time(); api, k = SPECS[name]; r = FnResult(name, self.cfg); r.t0 = t0
        try:
            if not self.m.has(symbol(self.cfg, name, api)): raise IRError('no definition of %s in this configuration' % name)
            for tag in ((None, 'tag') if k == 'aabb' else (None,)): self.one(name, api, k, tag, r)
        except (Unsupported, LoopBound, IRError, KeyError, NotImplementedError, AttributeError, TypeError, ValueError, IndexError, RecursionError) as e:
            r.error = '%s: %s' % (type(e).__name__, e); r.trace = traceback.format_exc()
        r.time = time.time() - t0
        return r

    def spec(self, api, k, cells, tag):
        if off(self.cfg, api): return NIL
        ty, f = KINDS[k]; w = W(self.cfg); v = ty.view(cells)
        return (f(w, v, D.var('tag', 'i64') if tag else None) if k == 'aabb' else f(w, v)).t

    def one(self, name, api, k, tag, r):
        ty = KINDS[k][0]; cells = self.inputs(k)
        ex = PExec(self.m); st = State()
        o = ex.new_obj(st, 'v', ty.size, ty.align(self.m), ro=True, kind='param')
        for i, v in enumerate(cells): st.mem[o.id][4 * i] = (4, v)
        s = ex.new_obj(st, 'ostream', 0, 8, ro=True, kind='param')
        args = [Ptr(o, 0)]
        if k == 'aabb': args.append(Ptr(ex.new_obj(st, 'tag', 0, 1, ro=True, kind='text'), 0) if tag else NULL)
        args.append(Ptr(s, 0)); ex.start(st, args[-1])
        ex.call_function(st, symbol(self.cfg, name, api), args)
        for kk, n in ex.discharged.items(): r.counts[kk] = r.counts.get(kk, 0) + n
        for u in sorted(ex.inlined):
            if u not in r.inlined: r.inlined.append(u)
        lab = ' when tag is %s' % ('given' if tag else 'NULL') if k == 'aabb' else ''
        C = Compare()
        for ob in ex.obs:
            q = C.pr.implied(ob.pc, ob.cond)
            r.obs.append(Ob(name, ob.kind, ob.msg + lab, q.status, q.backend, note=q.note, pc=ob.pc, code=ob.cond))
        code = norm(chain(st.mem[TRACE.id][0][1], {})); spec = norm(chain(self.spec(api, k, cells, tag), {}))
        d = C.eq(code, spec, ())
        r.obs.append(Ob(name, 'postcondition', 'text written to the stream' + lab, 'proved' if d is None else 'failed', 'trace', note=d or ''))
        r.cases += C.n; r.t_smt += C.pr.t_smt; r.smt_calls += C.pr.smt_calls
        if d is None and not self.vacuous(C, code, cells): r.error = 'vacuous: a wrong text was accepted'

    def vacuous(self, C, code, cells):
        r = C.eq(code, norm(chain(lit(self.spec_nil(), 'x'), {})), ()) is not None
        self.vac = r
        return r
    def spec_nil(self): return NIL

# ---- replay -------------------------------------------------------------------
def render(items, env):
    out = ''
    def val(x):
        if not isinstance(x, Node): return x
        e = dict(env)
        for n in D.topo(x):
            if n.op == 'var' and n.args[0] in LENS: e[n.args[0]] = np.array([len(render([LENS[n.args[0]]], env))])
        return np.asarray(numeric.eval_np([x], e, 1)[0]).ravel()[0]
    for it in items:
        if it[0] == 'lit': out += it[1]
        elif it[0] == 'ite': out += render(it[2] if bool(val(it[1])) else it[3], env)
        else:
            _, fl, w, p, ty, v = it
            x = 'TAG %d' if ty == 's' else val(v)
            out += pyfmt(fl, int(val(w)), int(val(p)) if isinstance(p, Node) else p if p >= 0 else None, ty, x if ty == 's' else int(x) if ty in 'dxuXoc' else float(x))
    return out

def search(C, api, name, work, quick=True, n=400, seed=1):
    """the compiled code against the contract on sampled inputs"""
    k = SPECS[name][1]; cfg = C.name; ty = KINDS[k][0]
    pv = PrintVerifier(None, cfg); cells = pv.inputs(k)
    texts = {t: norm(chain(pv.spec(api, k, cells, t), {})) for t in ((None, 'tag') if k == 'aabb' else (None,))}
    rng = np.random.default_rng(seed)
    sp = np.array([0.0, -0.0, 1.0, -1.0, 99999.99, 100000.0, 99999.999, 9.9999, 10.0, 1e6, -1e7, 3e38, -3e38, 1e-9, 123456.789, 0.5, -42.25])
    rows = []
    for i in range(n):
        if ty.kind == 'f': x = np.where(rng.random(ty.count) < 0.4, sp[rng.integers(0, len(sp), ty.count)], rng.standard_normal(ty.count) * 10.0 ** rng.integers(-3, 8)).astype(np.float32)
        else: x = np.where(rng.random(ty.count) < 0.4, rng.integers(-2**31, 2**31, ty.count), rng.integers(-20, 20, ty.count)).astype(np.int32)
        rows.append((x, 'tag' if k == 'aabb' and i % 2 else None))
    base = os.path.join(work, 'print_%s_%s' % (cfg, name)); src = base + '.c'; exe = base + '.exe'
    call = symbol(cfg, name, api); tagarg = ', t ? "TAG %d" : 0' if k == 'aabb' else ''
    decl = 'static vec3 v[2];' if k == 'aabb' else 'static CGLM_ALIGN_MAT %s v;' % k if k.startswith('mat') else 'static %s v;' % k
    with open(src, 'w') as f:
        f.write('#define _GNU_SOURCE\n' + build.tu_text(C, api, shims(cfg, api)) + '''
int main(void) {
  int t; %s
  while (fread(&t, 4, 1, stdin) == 1 && fread(v, %d, 1, stdin) == 1) {
    char *buf = 0; size_t n = 0; FILE *s = open_memstream(&buf, &n); unsigned k;
    %s(v%s, s); fclose(s); k = (unsigned)n;
    fwrite(&k, 4, 1, stderr); fwrite(buf, 1, n, stderr); fflush(stderr); free(buf);
  }
  return 0;
}
''' % (decl, ty.size, call, tagarg))
    cmd = ['clang', '-std=gnu11', '-O1', '-g0', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'] + C.flags + ['-D' + d for d in C.defs] + (['-DNDEBUG'] if C.ndebug else []) + ['-DCGLM_STATIC', '-I' + build.REPO + '/include', src, '-o', exe, '-lm']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: return dict(kind='replay-error', note=r.stderr[:800])
    data = b''.join(_st.pack('<i', 1 if t else 0) + x.tobytes() for x, t in rows)
    try: r = subprocess.run([exe], preexec_fn=build.cpu(120), input=data, capture_output=True, timeout=120, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
    except subprocess.TimeoutExpired: return None
    out = r.stderr; pos = 0
    def finding(i, real, want, note=''):
        x, t = rows[i]
        return dict(kind='confirmed', function=name, config=cfg, api=api, cell='text written to the stream', input=dict(v=[float(y) for y in x], tag=t), observed=real, required=want, extracted=note,
                    method='compiled code', program=open(src).read(), compile=' '.join(cmd))
    for i, (x, t) in enumerate(rows):
        env = {'v.%d' % j: np.array([np.float64(y) if ty.kind == 'f' else np.int64(y)]) for j, y in enumerate(x)}
        want = render(texts[t], env)
        if r.returncode and pos >= len(out) or pos + 4 > len(out) or (r.returncode and out[pos:pos + 4].startswith(b'==')): return finding(i, 'program ends with status %d: %s' % (r.returncode, out[pos:pos + 600].decode('latin1')), want)
        n = _st.unpack('<I', out[pos:pos + 4])[0]
        real = out[pos + 4:pos + 4 + n].decode('latin1'); pos += 4 + n
        if r.stdout: return finding(i, 'writes to stdout: %r' % r.stdout[:100], want)
        if real != want: return finding(i, real, want)
    return None
