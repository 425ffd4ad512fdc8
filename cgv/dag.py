"""Hash-consed expression DAG shared by code (symbolic execution) and contracts.

Sorts: 'f' (a C float; interpreted as a real by the provers, as an IEEE
binary32/64 by the bit-precise back end), 'b' (boolean) and 'i<w>' (machine
integer of width w, modulo 2^w).  Concrete integers are plain Python ints in
the executor; they are wrapped as ('ic', value) nodes when mixed with symbols.
"""
from fractions import Fraction

class Node:
    __slots__ = ('op', 'args', 'sort', 'id', '_nf', '_hasite', '_lit')
    def __repr__(self):
        return show(self)
    # operator sugar for contracts -------------------------------------
    def __add__(self, o): return fadd(self, fl(o))
    def __radd__(self, o): return fadd(fl(o), self)
    def __sub__(self, o): return fsub(self, fl(o))
    def __rsub__(self, o): return fsub(fl(o), self)
    def __mul__(self, o):
        if isinstance(o, (list, tuple)): return NotImplemented
        return fmul(self, fl(o))
    def __rmul__(self, o): return fmul(fl(o), self)
    def __truediv__(self, o): return fdiv(self, fl(o))
    def __rtruediv__(self, o): return fdiv(fl(o), self)
    def __neg__(self): return fneg(self)
    def __pow__(self, n):
        r = None
        for _ in range(n):
            r = self if r is None else fmul(r, self)
        return r
    def __lt__(self, o): return flt(self, fl(o))
    def __gt__(self, o): return flt(fl(o), self)
    def __le__(self, o): return fle(self, fl(o))
    def __ge__(self, o): return fle(fl(o), self)

_table = {}
_count = [0]

def reset():
    _table.clear(); _ctmemo.clear()

def mk(op, args, sort):
    key = (op, sort) + tuple([a.id if isinstance(a, Node) else ('#', a) for a in args])
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op = op; n.args = args; n.sort = sort
        _count[0] += 1
        n.id = _count[0]
        n._nf = None; n._lit = None
        h = op == 'ite'
        if not h:
            for a in args:
                if isinstance(a, Node) and a._hasite:
                    h = True; break
        n._hasite = h
        _table[key] = n
    return n

TRUE = mk('true', (), 'b')
FALSE = mk('false', (), 'b')
_perm = dict(_table)

def var(name, sort='f'):
    return mk('var', (name,), sort)

_F0 = Fraction(0)
def const(v):
    """exact real constant; v: Fraction/int/float(finite)"""
    if not isinstance(v, Fraction):
        v = Fraction(v)
    return mk('c', (v,), 'f')

def fspecial(name):     # 'inf','-inf','nan','-0'
    return mk('fsp', (name,), 'f')

def fl(x):
    if isinstance(x, Node): return x
    if isinstance(x, (int, float, Fraction)): return const(x)
    raise TypeError('fl %r' % (x,))

def is_c(n): return n.op == 'c'

def cval(n):
    if n.op == 'c': return n.args[0]
    if n.op == 'fsp' and n.args[0] == '-0': return _F0
    return None

# ---- float operations ------------------------------------------------
# Only rewrites that are valid both for reals and (up to the sign of a zero)
# for IEEE numbers are applied here.
def fadd(a, b):
    return mk('add', (a, b), 'f')
def fsub(a, b):
    return mk('sub', (a, b), 'f')
def fmul(a, b):
    return mk('mul', (a, b), 'f')
def fdiv(a, b):
    return mk('div', (a, b), 'f')
def fneg(a):
    if a.op == 'neg': return a.args[0]
    if a.op == 'c':
        if a.args[0] == 0: return fspecial('-0')
        return const(-a.args[0])
    if a.op == 'fsp':
        m = {'inf': '-inf', '-inf': 'inf', 'nan': 'nan'}
        if a.args[0] == '-0': return const(0)
        return fspecial(m[a.args[0]])
    return mk('neg', (a,), 'f')
def fabs_(a):
    if a.op == 'c': return const(abs(a.args[0]))
    if a.op == 'neg': return fabs_(a.args[0])
    if a.op == 'abs': return a
    if a.op == 'fsp':
        return {'inf': fspecial('inf'), '-inf': fspecial('inf'), 'nan': a, '-0': const(0)}[a.args[0]]
    return mk('abs', (a,), 'f')
def ffn(name, *args):
    """library function application: sqrt, sin, ..."""
    if name == 'sqrt' and is_c(args[0]):
        v = args[0].args[0]
        if v in (0, 1): return args[0]
    return mk('fn', (name,) + tuple(args), 'f')
def sqrt(a): return ffn('sqrt', fl(a))
def sin(a): return ffn('sin', fl(a))
def cos(a): return ffn('cos', fl(a))
def tan(a): return ffn('tan', fl(a))
def floor(a): return ffn('floor', fl(a))

def fcmp(pred, a, b):
    """pred: o/u + eq,ne,lt,le,gt,ge or ord/uno"""
    if pred in ('true',): return TRUE
    if pred in ('false',): return FALSE
    if pred.endswith('gt') or pred.endswith('ge'):
        pred = pred[0] + ('lt' if pred.endswith('gt') else 'le')
        a, b = b, a
    va, vb = cval(a), cval(b)
    if va is not None and vb is not None:
        r = {'eq': va == vb, 'ne': va != vb, 'lt': va < vb, 'le': va <= vb,
             'rd': True, 'no': False}[pred[1:]]
        return TRUE if r else FALSE
    if pred == 'oeq':
        for x, y in ((a, b), (b, a)):
            if x.op == 'fsp' and x.args[0] == 'inf' and y.op == 'abs': return isinf(y)
    if pred == 'uno': return bor(isnan(a), isnan(b))
    if pred == 'ord': return bnot(bor(isnan(a), isnan(b)))
    if pred == 'oeq' and a.id > b.id: a, b = b, a
    if pred[1:] == 'ne':       # keep only eq/lt/le atoms with explicit ordering flag
        return bnot(fcmp(('u' if pred[0] == 'o' else 'o') + 'eq', a, b))
    if pred[0] == 'u' and pred[1:] in ('lt', 'le'):
        # ult(a,b) == not oge(a,b) == not ole(b,a)
        return bnot(fcmp('ole' if pred == 'ult' else 'olt', b, a))
    return mk('fcmp', (pred, a, b), 'b')
def flt(a, b): return fcmp('olt', fl(a), fl(b))
def fle(a, b): return fcmp('ole', fl(a), fl(b))
def feq(a, b): return fcmp('oeq', fl(a), fl(b))
def isnan(a):
    if a.op == 'c': return FALSE
    if a.op in ('neg', 'abs'): return isnan(a.args[0])
    return mk('isnan', (a,), 'b')
def isinf(a):
    if a.op == 'c': return FALSE
    if a.op in ('neg', 'abs'): return isinf(a.args[0])
    return mk('isinf', (a,), 'b')

# ---- booleans --------------------------------------------------------
def bnot(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    return mk('not', (a,), 'b')
def band(*xs):
    out = []
    for x in xs:
        if x is FALSE: return FALSE
        if x is TRUE: continue
        if x.op == 'and':
            for y in x.args:
                if y not in out: out.append(y)
        elif x not in out:
            out.append(x)
    for x in out:
        if bnot(x) in out: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    out.sort(key=lambda n: n.id)
    return mk('and', tuple(out), 'b')
def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))
def bxor(a, b):
    return bor(band(a, bnot(b)), band(bnot(a), b))
def bite(c, a, b):
    return bor(band(c, a), band(bnot(c), b))

def ite(c, a, b):
    if isinstance(c, bool): c = TRUE if c else FALSE
    if c is TRUE: return a
    if c is FALSE: return b
    if not isinstance(a, Node):
        if isinstance(b, Node) and b.sort[0] == 'i':
            a = ic(a, int(b.sort[1:]))
        else: a = fl(a)
    if not isinstance(b, Node):
        b = ic(b, int(a.sort[1:])) if a.sort[0] == 'i' else fl(b)
    if a is b: return a
    if a.sort == 'b': return bite(c, a, b)
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    # ite(c, ite(c,x,y), z)
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    return mk('ite', (c, a, b), a.sort)

def fmin_(a, b): return ite(flt(a, b), fl(a), fl(b))     # exactly  a < b ? a : b
def fmax_(a, b): return ite(flt(b, a), fl(a), fl(b))     # exactly  a > b ? a : b

# ---- machine integers ------------------------------------------------
def ic(v, w): return mk('ic', (v & ((1 << w) - 1),), 'i%d' % w)
def width(n): return int(n.sort[1:])
def isig(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v

def iop(op, a, b, w):
    """binary integer op; a,b Node or int -> Node or int"""
    m = (1 << w) - 1
    if isinstance(a, int) and isinstance(b, int):
        a &= m; b &= m
        if op == 'add': return (a + b) & m
        if op == 'sub': return (a - b) & m
        if op == 'mul': return (a * b) & m
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return (a << b) & m if b < w else 0
        if op == 'lshr': return a >> b if b < w else 0
        if op == 'ashr': return (isig(a, w) >> min(b, w - 1)) & m
        if op in ('sdiv', 'srem', 'udiv', 'urem') and b != 0:
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            x, y = isig(a, w), isig(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            return (q if op == 'sdiv' else x - q * y) & m
    if isinstance(b, int):
        if b & m == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
        if b & m == 0 and op in ('and', 'mul'): return 0
        if b == 1 and op == 'mul': return a
        if b & m == m and op == 'and': return a
    if isinstance(a, int):
        if a & m == 0 and op in ('add', 'or', 'xor'): return b
        if a & m == 0 and op in ('and', 'mul', 'shl', 'lshr', 'ashr'): return 0
        if a == 1 and op == 'mul': return b
        if a & m == m and op == 'and': return b
    # bit patterns of floats -------------------------------------------
    if w == 32 and op in ('xor', 'and', 'or'):
        r = _fbits(op, a, b)
        if r is not None: return r
    # mask (all-ones/zero from sext i1) algebra
    if op in ('and', 'or', 'xor'):
        r = _maskop(op, a, b, w)
        if r is not None: return r
    va = ctvals(a)
    if va is not None:
        vb = ctvals(b)
        if vb is not None and len(va) * len(vb) <= 40 and not (op in ('sdiv', 'srem', 'udiv', 'urem') and 0 in vb):
            acc = {}
            for x, cx in va.items():
                for y, cy in vb.items():
                    c = band(cx, cy)
                    if c is FALSE: continue
                    v = iop(op, x, y, w); acc[v] = bor(acc[v], c) if v in acc else c
            return ctree_of(acc, w)
    A = ic(a, w) if isinstance(a, int) else a
    B = ic(b, w) if isinstance(b, int) else b
    if op in ('add', 'mul', 'and', 'or', 'xor') and A.id > B.id: A, B = B, A
    return mk('i' + op, (A, B), 'i%d' % w)

_ctmemo = {}
def ctvals(x):
    """{constant: condition} for a conditional tree with few constant leaves, else None"""
    if isinstance(x, int): return {x: TRUE}
    if x.op == 'ic': return {x.args[0]: TRUE}
    if x.op != 'ite': return None
    r = _ctmemo.get(x.id, 0)
    if r != 0: return r
    a, b = ctvals(x.args[1]), ctvals(x.args[2])
    r = None
    if a is not None and b is not None:
        c = x.args[0]; n = bnot(c); r = {}
        for d, g in ((a, c), (b, n)):
            for v, k in d.items():
                k = band(g, k)
                if k is FALSE: continue
                r[v] = bor(r[v], k) if v in r else k
        if len(r) > 16 or not r: r = None
    _ctmemo[x.id] = r
    return r

def ctree_of(d, w):
    r = None
    for v, c in d.items(): r = v if r is None else iite(c, v, r, w)
    return r

def _isint(x): return isinstance(x, int) or x.op == 'ic'
def _ival(x): return x if isinstance(x, int) else x.args[0]

def _fbits(op, a, b):
    if isinstance(a, Node) and a.op == 'ic': a = a.args[0]
    if isinstance(b, Node) and b.op == 'ic': b = b.args[0]
    if isinstance(a, int): a, b = b, a
    if not isinstance(a, Node): return None
    if a.op == 'fbits' and isinstance(b, int):
        f = a.args[0]
        if op == 'xor' and b == 0x80000000: return fbits(fneg(f))
        if op == 'and' and b == 0x7fffffff: return fbits(fabs_(f))
        if op == 'or' and b == 0x80000000: return fbits(fneg(fabs_(f)))
    return None

def _cbits(f): return f.op in ('c', 'fsp') or f.op == 'bitsf' and f.args[0].op == 'ic'

def fbits(f):
    """32-bit pattern of float f"""
    if f.op == 'c':
        import struct
        try:
            d = float(f.args[0])
            b = struct.pack('<f', d)
            if struct.unpack('<f', b)[0] == d and Fraction(d) == f.args[0]:
                return struct.unpack('<I', b)[0]
        except OverflowError:
            pass
    if f.op == 'fsp' and f.args[0] == '-0': return 0x80000000
    if f.op == 'bitsf': return _unw(f.args[0])
    if f.op == 'ite' and (_cbits(f.args[1]) or _cbits(f.args[2])):
        return iite(f.args[0], fbits(f.args[1]), fbits(f.args[2]), 32)
    return mk('fbits', (f,), 'i32')

def bitsf(i):
    """float whose 32-bit pattern is i"""
    if isinstance(i, Node) and i.op == 'ic': i = i.args[0]
    if isinstance(i, int):
        import struct
        d = struct.unpack('<f', struct.pack('<I', i & 0xffffffff))[0]
        if d != d: return fspecial('nan') if i & 0xffffffff == 0x7fc00000 else mk('bitsf', (ic(i, 32),), 'f')
        if d in (float('inf'), float('-inf')): return fspecial('inf' if d > 0 else '-inf')
        if d == 0 and (i >> 31): return fspecial('-0')
        return const(Fraction(d))
    if i.op == 'fbits': return i.args[0]
    if i.op == 'ite': return ite(i.args[0], bitsf(i.args[1]), bitsf(i.args[2]))
    return mk('bitsf', (i,), 'f')

def _maskop(op, a, b, w):
    m = (1 << w) - 1
    def parts(x):
        if isinstance(x, Node) and x.op == 'ite':
            return x.args
        return None
    pa, pb = parts(a), parts(b)
    def dist(p, other, left):
        f = (lambda x: iop(op, _unw(x), other, w)) if left else (lambda x: iop(op, other, _unw(x), w))
        return iite(p[0], f(p[1]), f(p[2]), w)
    def cheap(p):   # an ite with a constant arm
        return p and (_isint(p[1]) or _isint(p[2]))
    if pa and pb:
        if pa[0] is pb[0]:
            return iite(pa[0], iop(op, _unw(pa[1]), _unw(pb[1]), w), iop(op, _unw(pa[2]), _unw(pb[2]), w), w)
        if pa[0] is bnot(pb[0]):
            return iite(pa[0], iop(op, _unw(pa[1]), _unw(pb[2]), w), iop(op, _unw(pa[2]), _unw(pb[1]), w), w)
    if cheap(pa): return dist(pa, b, True)
    if cheap(pb): return dist(pb, a, False)
    return None

def _unw(x): return x.args[0] if isinstance(x, Node) and x.op == 'ic' else x

def iite(c, a, b, w):
    if c is TRUE: return a
    if c is FALSE: return b
    A = ic(a, w) if isinstance(a, int) else a
    B = ic(b, w) if isinstance(b, int) else b
    r = ite(c, A, B)
    return _unw(r)

def icmp(pred, a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        m = (1 << w) - 1
        a &= m; b &= m
        if pred[0] == 's': a, b, pred = isig(a, w), isig(b, w), pred[1:]
        elif pred[0] == 'u': pred = pred[1:]
        r = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred]
        return TRUE if r else FALSE
    if pred in ('ne',): return bnot(icmp('eq', a, b, w))
    if pred in ('sgt', 'ugt'): return icmp(pred[0] + 'lt', b, a, w)
    if pred in ('sle', 'ule'): return bnot(icmp(pred[0] + 'lt', b, a, w))
    if pred in ('sge', 'uge'): return bnot(icmp(pred[0] + 'lt', a, b, w))
    if a is b: return TRUE if pred == 'eq' else FALSE
    # compare against an ite of constants (bool zext / mask)
    for x, y, fl_ in ((a, b, False), (b, a, True)):
        if isinstance(x, Node) and x.op == 'ite' and (_isint(x.args[1]) and _isint(x.args[2]) or x.args[1].op == 'ite' or x.args[2].op == 'ite') and isinstance(y, int):
            f = lambda z: icmp(pred, *((_unw(z), y) if not fl_ else (y, _unw(z))), w)
            return bite(x.args[0], f(x.args[1]), f(x.args[2]))
    A = ic(a, w) if isinstance(a, int) else a
    B = ic(b, w) if isinstance(b, int) else b
    if pred == 'eq' and A.id > B.id: A, B = B, A
    return mk('icmp', (pred, A, B), 'b')

def iext(a, w0, w1, signed):
    if isinstance(a, int):
        return isig(a, w0) & ((1 << w1) - 1) if signed else a
    if a.sort == 'b':
        return iite(a, ((1 << w1) - 1) if signed else 1, 0, w1)
    if a.op == 'ite':
        return iite(a.args[0], iext(_unw(a.args[1]), w0, w1, signed), iext(_unw(a.args[2]), w0, w1, signed), w1)
    return mk('sext' if signed else 'zext', (a,), 'i%d' % w1)

def _b1(x): return x if isinstance(x, Node) else (TRUE if x & 1 else FALSE)

def itrunc(a, w):
    if isinstance(a, int): return a & ((1 << w) - 1)
    if w == 1:
        if a.op == 'zext' and a.args[0].sort == 'b': return a.args[0]
        if a.op == 'ite':
            return bite(a.args[0], _b1(itrunc(_unw(a.args[1]), 1)), _b1(itrunc(_unw(a.args[2]), 1)))
        return icmp('eq', iop('and', a, 1, width(a)), 1, width(a))
    if a.op == 'ite':
        return iite(a.args[0], itrunc(_unw(a.args[1]), w), itrunc(_unw(a.args[2]), w), w)
    if a.op in ('sext', 'zext'):
        i = a.args[0]
        if width(i) == w: return i
        if width(i) > w: return itrunc(i, w)
    return mk('trunc', (a,), 'i%d' % w)

def i2f(a, w, signed=True):
    if isinstance(a, int): return const(isig(a, w) if signed else a)
    if isinstance(a, Node) and a.sort == 'b':
        return ite(a, const(1), const(0))
    if a.op == 'ite':
        return ite(a.args[0], i2f(_unw(a.args[1]), w, signed), i2f(_unw(a.args[2]), w, signed))
    return mk('i2f' if signed else 'u2f', (a,), 'f')

def f2i(a, w, signed=True):
    v = cval(a)
    if v is not None:
        n = int(v)    # toward zero
        return n & ((1 << w) - 1)
    return mk('f2i' if signed else 'f2u', (a,), 'i%d' % w)

# ---- utilities -------------------------------------------------------
def show(n, d=0, lim=6):
    if not isinstance(n, Node): return str(n)
    o = n.op
    if o == 'c':
        v = n.args[0]
        return str(v) if v.denominator < 10**6 else repr(float(v))
    if o == 'ic': return str(isig(n.args[0], width(n)))
    if o == 'var': return n.args[0]
    if o in ('true', 'false'): return o
    if d > lim: return '..'
    A = [show(a, d + 1, lim) for a in n.args]
    if o in ('add', 'sub', 'mul', 'div'):
        return '(%s %s %s)' % (A[0], {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}[o], A[1])
    if o == 'neg': return '-%s' % A[0]
    if o == 'fn': return '%s(%s)' % (A[0], ', '.join(A[1:]))
    if o == 'fcmp': return '(%s %s %s)' % (A[1], {'olt': '<', 'ole': '<=', 'oeq': '==', 'ueq': '==u'}.get(A[0], A[0]), A[2])
    if o == 'ite': return '(%s ? %s : %s)' % tuple(A)
    if o == 'not': return '!' + A[0]
    return '%s(%s)' % (o, ', '.join(A))

def topo(*roots):
    seen = set(); out = []
    st = [(r, False) for r in reversed(roots)]
    while st:
        n, done = st.pop()
        if done:
            out.append(n); continue
        if n.id in seen: continue
        seen.add(n.id)
        st.append((n, True))
        for a in n.args:
            if isinstance(a, Node) and a.id not in seen: st.append((a, False))
    return out

def free_vars(*roots):
    return [n for n in topo(*roots) if n.op == 'var']

def rebuild(n, args):
    """re-apply the smart constructor of n to new args"""
    o = n.op
    if o == 'add': return fadd(*args)
    if o == 'sub': return fsub(*args)
    if o == 'mul': return fmul(*args)
    if o == 'div': return fdiv(*args)
    if o == 'neg': return fneg(*args)
    if o == 'abs': return fabs_(*args)
    if o == 'fn': return ffn(*args)
    if o == 'fcmp': return fcmp(*args)
    if o == 'isnan': return isnan(*args)
    if o == 'isinf': return isinf(*args)
    if o == 'not': return bnot(*args)
    if o == 'and': return band(*args)
    if o == 'ite': return ite(*args)
    if o == 'icmp': return icmp(args[0], _unw(args[1]), _unw(args[2]), width(n.args[1]))
    if o in ('i2f', 'u2f'): return i2f(_unw(args[0]), width(n.args[0]), o == 'i2f')
    if o in ('f2i', 'f2u'): return _w(f2i(args[0], width(n), o == 'f2i'), width(n))
    if o in ('sext', 'zext'): return _w(iext(_unw(args[0]), width(n.args[0]), width(n), o == 'sext'), width(n))
    if o == 'trunc': return _w(itrunc(_unw(args[0]), width(n)), width(n))
    if o == 'fbits': return _w(fbits(args[0]), 32)
    if o == 'bitsf': return bitsf(_unw(args[0]))
    if o[0] == 'i' and o[1:] in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'srem', 'udiv', 'urem'):
        return _w(iop(o[1:], _unw(args[0]), _unw(args[1]), width(n)), width(n))
    return mk(o, tuple(args), n.sort)

def _w(x, w): return ic(x, w) if isinstance(x, int) else x

def subst(root, m, memo=None):
    """m: dict node.id -> Node"""
    memo = {} if memo is None else memo
    for n in topo(root):
        if n.id in memo: continue
        if n.id in m:
            memo[n.id] = m[n.id]; continue
        if not any(isinstance(a, Node) for a in n.args):
            memo[n.id] = n; continue
        na = tuple(memo[a.id] if isinstance(a, Node) else a for a in n.args)
        if all(x is y for x, y in zip(na, n.args)):
            memo[n.id] = n
        else:
            memo[n.id] = rebuild(n, na)
    return memo[root.id]
