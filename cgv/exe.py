"""Symbolic executor over LLVM IR: turns one function body into output
expressions (the verification condition's left-hand side) plus side
obligations (bounds, alignment, frame, callee preconditions).

Calls to functions under contract are replaced by the contract; calls to
anything else that has a body in the module are executed in place.
Branches on symbolic conditions are merged at the immediate post-dominator.
"""
from fractions import Fraction
from . import dag as D
from .dag import Node, TRUE, FALSE
from .ir import EXIT, ipdom, IRError

class Unsupported(Exception): pass
class LoopBound(Exception): pass

class _Undef:
    def __repr__(s): return 'UNDEF'
UNDEF = _Undef()

class Obj:
    __slots__ = ('id', 'name', 'size', 'align', 'ro', 'fresh', 'kind', 'loose')
    n = 0
    def __init__(s, name, size, align, ro=False, kind='alloca'):
        Obj.n += 1
        s.id = Obj.n; s.name = name; s.size = size; s.align = align; s.ro = ro; s.kind = kind; s.loose = False

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off): s.obj = obj; s.off = off
    def __repr__(s): return '&%s+%s' % (s.obj.name if s.obj else 'null', s.off)
    def __eq__(s, o): return isinstance(o, Ptr) and s.obj is o.obj and s.off == o.off
    def __hash__(s): return hash((id(s.obj), s.off))
NULL = Ptr(None, 0)

class PtrIte:
    __slots__ = ('c', 'a', 'b')
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b

class FnPtr:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n

class State:
    __slots__ = ('mem', 'pc', 'written')
    def __init__(s): s.mem = {}; s.pc = (); s.written = {}
    def fork(s, lit):
        t = State(); t.mem = {k: dict(v) for k, v in s.mem.items()}
        t.pc = s.pc + (lit,)
        t.written = {k: set(v) for k, v in s.written.items()}
        return t

class Ob:
    """one side obligation that was not discharged on the spot"""
    __slots__ = ('kind', 'msg', 'pc', 'cond')
    def __init__(s, kind, msg, pc, cond): s.kind = kind; s.msg = msg; s.pc = pc; s.cond = cond

def newton(q, p):
    """q an estimate of 1/b, p = 2 - b*q: one Newton step squares the relative error (2^-8, 2^-16, 2^-32)"""
    if q.op != 'fn' or q.args[0] not in ('rcp8', 'rcp16'): return None
    b = q.args[1]
    if p is not D.fsub(D.const(2), D.fmul(b, q)) and p is not D.fsub(D.const(2), D.fmul(q, b)): return None
    return D.ffn('rcp16', b) if q.args[0] == 'rcp8' else D.fdiv(D.const(1), b)

class Exec:
    def __init__(self, mod, contract_of=None, maxsteps=2000000, no_align=False):
        self.m = mod
        self.contract_of = contract_of or (lambda n: None)
        self.obs = []              # residual obligations (need a solver)
        self.discharged = {}       # kind -> count discharged concretely
        self.gobj = {}
        self.steps = 0; self.maxsteps = maxsteps
        self.used_contracts = {}
        self.inlined = set()
        self.approx = set()
        self.branchdepth = {}
        self.divs = []             # (pc, divisor, what)
        self.calls = []
        self.loop_handler = None
        self.loop_limit = 40
        self.depth = 0
        self.hooks = {}

    def ok(self, kind): self.discharged[kind] = self.discharged.get(kind, 0) + 1
    def oblige(self, kind, msg, st, cond):
        if cond is TRUE: self.ok(kind); return
        if cond in st.pc: self.ok(kind); return
        self.obs.append(Ob(kind, msg, st.pc, cond))

    # ---- memory ----------------------------------------------------------
    def new_obj(self, st, name, size, align, ro=False, kind='alloca'):
        o = Obj(name, size, align, ro, kind); st.mem[o.id] = {}
        return o

    def check(self, st, p, size, align, write):
        if isinstance(p, _Undef) or not isinstance(p, Ptr) or p.obj is None:
            self.oblige('pointer-valid', 'access through an invalid pointer %r' % (p,), st, FALSE)
            raise Unsupported('invalid pointer')
        o = p.obj
        if isinstance(p.off, int):
            off = p.off if p.off < (1 << 63) else p.off - (1 << 64)
            if o.size is not None and (off < 0 or off + size > o.size):
                self.oblige('memory-bounds', '%s of %d bytes at offset %d of %s (size %d)' % ('write' if write else 'read', size, off, o.name, o.size), st, FALSE)
                return False
            self.ok('memory-bounds')
            if o.loose and size <= 4: align = min(align, size)
            if align > 1:
                if o.align % align or off % align:
                    # the object itself is less aligned than the access claims
                    if (o.align % align == 0 and off % align) or o.align % align:
                        self.oblige('alignment', 'access to %s+%d assumes %d-byte alignment, only %d guaranteed' % (o.name, off, align, _galign(o.align, off)), st, FALSE)
                else: self.ok('alignment')
        if write and o.ro:
            self.oblige('frame', 'write to %s which is not in the frame' % o.name, st, FALSE)
        elif write: self.ok('frame')
        return True

    def under(self, st, c, f):
        """f() with c added to the path condition"""
        old = st.pc
        if c is not TRUE: st.pc = old + (c,)
        try: return f()
        finally: st.pc = old

    def load(self, st, ty, p, align):
        ty = self.m.resolve(ty)
        if isinstance(p, PtrIte):
            if p.c in st.pc: return self.load(st, ty, p.a, align)
            if D.bnot(p.c) in st.pc: return self.load(st, ty, p.b, align)
            a = self.under(st, p.c, lambda: self.load(st, ty, p.a, align)); b = self.under(st, D.bnot(p.c), lambda: self.load(st, ty, p.b, align))
            return self.vmerge(p.c, a, b, ty)
        k = ty[0]
        if isinstance(p, Ptr) and not isinstance(p.off, int):
            return self.sym_access(st, p, ty, align, None)
        if not self.check(st, p, self.m.size(ty), align, False): return self.undef_of(ty)
        if k in ('vec', 'arr'):
            es = self.m.size(ty[2])
            return tuple(self.load0(st, ty[2], p.obj, p.off + i * es) for i in range(ty[1]))
        if k == 'st':
            out = []
            for i in range(len(ty[1])):
                o, t = self.m.field(ty, i)
                out.append(self.load0(st, t, p.obj, p.off + o))
            return tuple(out)
        return self.load0(st, ty, p.obj, p.off)

    def undef_of(self, ty):
        ty = self.m.resolve(ty)
        if ty[0] in ('vec', 'arr'): return tuple(self.undef_of(ty[2]) for _ in range(ty[1]))
        if ty[0] == 'st': return tuple(self.undef_of(t) for t in ty[1])
        return UNDEF

    def load0(self, st, ty, obj, off):
        ty = self.m.resolve(ty); k = ty[0]
        if k in ('vec', 'arr', 'st'):
            return self.load(st, ty, Ptr(obj, off), 1)
        cells = st.mem[obj.id]
        sz = self.m.size(ty)
        c = cells.get(off)
        if c is None:
            if obj.kind == 'array':
                v = obj.fresh(st, off, sz)
                if v is not None:
                    c = cells[off] = v
            if c is None:
                # part of a bigger cell?
                for o2 in range(max(0, off - 7), off):
                    if o2 in cells and o2 + cells[o2][0] > off:
                        self.split(cells, o2, off, sz)
                        c = cells.get(off)
                        break
                if c is None: return UNDEF
        if c[0] == sz: return self.retype(c[1], ty)
        if sz == 8 and c[0] == 4:
            hi = cells.get(off + 4)
            lo = c[1]
            if hi is None: hi = (4, UNDEF)
            return self.mkpair(lo, hi[1], ty)
        if sz == 4 and c[0] == 8:
            self.split(cells, off, off, 4)
            return self.retype(cells[off][1], ty)
        if sz < c[0] and isinstance(c[1], int):
            return (c[1] & ((1 << (8 * sz)) - 1)) if k == 'i' else self.retype(c[1] & 0xffffffff, ty)
        if sz > c[0]:      # assemble from byte-ish concrete cells
            v = 0; o = off
            while o < off + sz:
                cc = cells.get(o)
                if cc is None or not isinstance(cc[1], int): raise Unsupported('wide load over mixed cells')
                v |= (cc[1] & ((1 << 8 * cc[0]) - 1)) << (8 * (o - off)); o += cc[0]
            return self.retype(v & ((1 << 8 * sz) - 1), ty)
        raise Unsupported('load %r from cell size %d' % (ty, c[0]))

    def split(self, cells, o2, off, sz):
        s, v = cells[o2]
        if s == 8:
            lo, hi = self.unpair(v)
            cells[o2] = (4, lo); cells[o2 + 4] = (4, hi)
        elif isinstance(v, int):
            for b in range(s): cells[o2 + b] = (1, (v >> (8 * b)) & 255)
        elif v is UNDEF:
            for b in range(s): cells[o2 + b] = (1, UNDEF)
        else: raise Unsupported('split of a %d-byte cell' % s)

    def mkpair(self, lo, hi, ty):
        if lo is UNDEF and hi is UNDEF: return UNDEF
        if ty[0] == 'd':
            return ('dpair', lo, hi)
        def b(x):
            if isinstance(x, Node) and x.sort == 'f': return D.fbits(x)
            return x
        lo, hi = b(lo), b(hi)
        if isinstance(lo, int) and isinstance(hi, int): return lo | hi << 32
        return ('ipair', lo, hi)

    def unpair(self, v):
        if isinstance(v, tuple) and v and v[0] in ('dpair', 'ipair'): return v[1], v[2]
        if isinstance(v, int): return v & 0xffffffff, v >> 32
        if v is UNDEF: return UNDEF, UNDEF
        if isinstance(v, Node) and v.sort == 'i64':
            return D.itrunc(v, 32), D.itrunc(D.iop('lshr', v, 32, 64), 32)
        raise Unsupported('split of 8-byte value %r' % (v,))

    def retype(self, v, ty):
        if v is UNDEF: return v
        k = ty[0]
        if k == 'f':
            if isinstance(v, Node) and v.sort == 'f': return v
            if isinstance(v, int): return D.bitsf(v)
            if isinstance(v, Node) and v.sort == 'i32': return D.bitsf(v)
            if isinstance(v, Node) and v.sort == 'b': raise Unsupported('bool as float')
        elif k == 'i':
            if isinstance(v, int): return (TRUE if v & 1 else FALSE) if ty[1] == 1 else v
            if isinstance(v, Node):
                if v.sort == 'f' and ty[1] == 32: return D.fbits(v)
                if ty[1] == 1:
                    return v if v.sort == 'b' else D.itrunc(v, 1)
                if v.sort == 'b': return D.iext(v, 1, ty[1], False)
                return v
            if isinstance(v, tuple):
                return ('ipair',) + v[1:] if ty[1] == 64 else v
            if isinstance(v, (Ptr, FnPtr, PtrIte)): return v
        elif k == 'p':
            if isinstance(v, (Ptr, PtrIte, FnPtr)): return v
            if v == 0: return NULL
        elif k == 'd':
            if isinstance(v, tuple): return v
            if isinstance(v, Node) and v.sort == 'f': return v
            if isinstance(v, int):
                import struct
                return D.const(Fraction(struct.unpack('<d', struct.pack('<Q', v))[0]))
        raise Unsupported('retype %r to %r' % (v, ty))

    def store(self, st, ty, v, p, align):
        ty = self.m.resolve(ty)
        if isinstance(p, PtrIte):
            for c, q in ((p.c, p.a), (D.bnot(p.c), p.b)):
                if D.bnot(c) in st.pc: continue
                self.under(st, c, lambda: self.store(st, ty, self.vmerge(c, v, self.load(st, ty, q, align), ty), q, align))
            return
        if isinstance(p, Ptr) and not isinstance(p.off, int):
            return self.sym_access(st, p, ty, align, (v,))
        if not self.check(st, p, self.m.size(ty), align, True): return
        self.store0(st, ty, v, p.obj, p.off)

    def store0(self, st, ty, v, obj, off):
        ty = self.m.resolve(ty); k = ty[0]
        if k in ('vec', 'arr'):
            es = self.m.size(ty[2])
            vs = v if isinstance(v, tuple) else (UNDEF,) * ty[1]
            for i in range(ty[1]): self.store0(st, ty[2], vs[i], obj, off + i * es)
            return
        if k == 'st':
            vs = v if isinstance(v, tuple) else (UNDEF,) * len(ty[1])
            for i in range(len(ty[1])):
                o, t = self.m.field(ty, i); self.store0(st, t, vs[i], obj, off + o)
            return
        sz = self.m.size(ty)
        if k == 'i' and ty[1] == 1: v = D.iext(v, 1, 8, False) if isinstance(v, Node) else v
        if isinstance(v, tuple):     # pair
            lo, hi = self.unpair(v)
            self.put(st, obj, off, 4, lo); self.put(st, obj, off + 4, 4, hi); return
        self.put(st, obj, off, sz, v)

    def put(self, st, obj, off, sz, v):
        cells = st.mem[obj.id]
        c = cells.get(off)
        if c is None or c[0] != sz:
            for o2 in range(max(0, off - 7), off + sz):
                cc = cells.get(o2)
                if cc is None: continue
                if o2 + cc[0] <= off: continue
                if o2 >= off and o2 + cc[0] <= off + sz: del cells[o2]
                else:
                    self.split(cells, o2, off, sz)
            for o2 in range(off, off + sz):
                cells.pop(o2, None)
        cells[off] = (sz, v)

    def linear(self, n):
        """i64 node -> (const, [(coeff, symbol)]) peeling adds, constant multiples and extensions"""
        if isinstance(n, int): return D.isig(n, 64), []
        if n.op == 'ic': return D.isig(n.args[0], 64), []
        if n.op == 'iadd':
            a, b = self.linear(n.args[0]), self.linear(n.args[1])
            return a[0] + b[0], a[1] + b[1]
        if n.op == 'isub':
            a, b = self.linear(n.args[0]), self.linear(n.args[1])
            return a[0] - b[0], a[1] + [(-c, x) for c, x in b[1]]
        if n.op == 'imul':
            for x, y in ((0, 1), (1, 0)):
                if n.args[x].op == 'ic':
                    k = D.isig(n.args[x].args[0], 64); a = self.linear(n.args[y])
                    return k * a[0], [(k * c, z) for c, z in a[1]]
        if n.op == 'ishl' and n.args[1].op == 'ic':
            k = 1 << n.args[1].args[0]; a = self.linear(n.args[0])
            return k * a[0], [(k * c, z) for c, z in a[1]]
        return 0, [(1, n)]

    def sym_access(self, st, p, ty, align, store):
        vals = D.ctvals(p.off) if isinstance(p.off, Node) else None
        if vals is not None:       # an index chosen among few constants: one access per choice
            items = [(Ptr(p.obj, D.isig(v, 64)), c) for v, c in vals.items() if D.bnot(c) not in st.pc]
            if not items: raise Unsupported('unreachable access')
            if store is None:
                r = None
                for q, c in items:
                    v = self.under(st, c, lambda: self.load(st, ty, q, align))
                    r = v if r is None else self.vmerge(c, v, r, ty)
                return r
            for q, c in items: self.under(st, c, lambda: self.store(st, ty, self.vmerge(c, store[0], self.load(st, ty, q, align), ty), q, align))
            return
        c0, terms = self.linear(p.off)
        # combine equal symbols
        d = {}
        for c, x in terms: d[x.id] = (d.get(x.id, (0, x))[0] + c, x)
        terms = [(c, x) for c, x in d.values() if c]
        o = p.obj; sz = self.m.size(ty)
        if not terms:
            q = Ptr(o, c0)
            return self.load(st, ty, q, align) if store is None else self.store(st, ty, store[0], q, align)
        if o.size is None or o.size > 4096:
            h = self.hooks.get('symarray')
            if h: return h(self, st, p, c0, terms, ty, align, store)
            raise Unsupported('symbolic index into unbounded object')
        # an ite index: case split it away
        cands = []
        if len(terms) == 1:
            k, x = terms[0]
            w = D.width(x)
            for j in range(-4096, 4097):
                off = c0 + k * j
                if 0 <= off and off + sz <= o.size: cands.append((D.icmp('eq', x, j & ((1 << w) - 1), w), off))
        elif len(terms) == 2:
            (k1, x1), (k2, x2) = terms
            w1, w2 = D.width(x1), D.width(x2)
            for j in range(0, 65):
                for l in range(0, 65):
                    off = c0 + k1 * j + k2 * l
                    if 0 <= off and off + sz <= o.size:
                        cands.append((D.band(D.icmp('eq', x1, j, w1), D.icmp('eq', x2, l, w2)), off))
        else: raise Unsupported('symbolic index with %d terms' % len(terms))
        cands = [(c, off) for c, off in cands if c is not FALSE]
        self.oblige('memory-bounds', 'symbolic index into %s stays in bounds' % o.name, st, D.bor(*[c for c, _ in cands]))
        if store is None:
            r = None
            for c, off in reversed(cands):
                v = self.load(st, ty, Ptr(o, off), align)
                r = v if r is None else self.vmerge(c, v, r, ty)
            return r
        for c, off in cands:
            old = self.load(st, ty, Ptr(o, off), align)
            self.store(st, ty, self.vmerge(c, store[0], old, ty), Ptr(o, off), align)

    def vmerge(self, c, a, b, ty=None):
        """value-level ite"""
        if c is TRUE: return a
        if c is FALSE: return b
        if a is b: return a
        if isinstance(a, int) and isinstance(b, int) and a == b: return a
        if a is UNDEF or b is UNDEF:
            if a is UNDEF and b is UNDEF: return UNDEF
            # an indeterminate value on one side: keep it visible as a fresh symbol
            x = b if a is UNDEF else a
            if isinstance(x, Node):
                u = D.var('undef!%d' % D._count[0], x.sort)
                return self.vmerge(c, u if a is UNDEF else a, u if b is UNDEF else b, ty)
            if isinstance(x, tuple):
                return tuple(self.vmerge(c, UNDEF if a is UNDEF else a[i], UNDEF if b is UNDEF else b[i]) for i in range(len(x)))
            return x if not isinstance(x, int) else x
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a and a[0] in ('dpair', 'ipair'):
                return (a[0], self.vmerge(c, a[1], b[1]), self.vmerge(c, a[2], b[2]))
            et = self.m.resolve(ty[2]) if ty and ty[0] in ('vec', 'arr') else None
            return tuple(self.vmerge(c, x, y, et) for x, y in zip(a, b))
        if isinstance(a, (Ptr, PtrIte)) or isinstance(b, (Ptr, PtrIte)):
            if a == b: return a
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.obj is not None:
                return Ptr(a.obj, D._unw(D.iite(c, a.off, b.off, 64)))
            return PtrIte(c, a, b)
        if isinstance(a, Node) and isinstance(b, Node):
            if a.sort == b.sort: return D.ite(c, a, b)
            if a.sort == 'f' and b.sort == 'i32': return D.ite(c, a, D.bitsf(b))
            if b.sort == 'f' and a.sort == 'i32': return D.ite(c, D.bitsf(a), b)
        w = 32
        if isinstance(a, Node) and a.sort == 'f': return D.ite(c, a, D.bitsf(b))
        if isinstance(b, Node) and b.sort == 'f': return D.ite(c, D.bitsf(a), b)
        if isinstance(a, Node): w = D.width(a)
        elif isinstance(b, Node): w = D.width(b)
        else: w = ty[1] if ty and ty[0] == 'i' else 32 if ty and ty[0] == 'f' else 64
        return D.iite(c, a, b, w)

    def merge_states(self, c, s1, s2, base):
        base.mem = {}
        for k in set(s1.mem) | set(s2.mem):
            m1, m2 = s1.mem.get(k), s2.mem.get(k)
            if m1 is None or m2 is None:
                base.mem[k] = m1 if m2 is None else m2; continue
            out = {}
            for off in sorted(set(m1) | set(m2)):
                a, b = m1.get(off), m2.get(off)
                if a is None and b is None: continue
                if a is None or b is None:
                    # layout mismatch: try to split the other side
                    big, small = (m2, m1) if a is None else (m1, m2)
                    x = b if a is None else a
                    cover = any(o2 in small and o2 + small[o2][0] > off for o2 in range(max(0, off - 7), off))
                    if cover:
                        raise Unsupported('cell layout mismatch at merge')
                    inner = [o2 for o2 in range(off + 1, off + x[0]) if o2 in small]
                    if inner:
                        raise Unsupported('cell layout mismatch at merge')
                    a2 = a or (x[0], UNDEF); b2 = b or (x[0], UNDEF)
                    out[off] = (x[0], self.vmerge(c, a2[1], b2[1], ('i', 8 * x[0]))); continue
                if a[0] != b[0]:
                    s_big, m_big = (a, m1) if a[0] > b[0] else (b, m2)
                    if s_big[0] == 8 and min(a[0], b[0]) == 4:
                        self.split(m_big, off, off, 4)
                        return self.merge_states(c, s1, s2, base)
                    raise Unsupported('cell size mismatch at merge')
                if a is b: out[off] = a
                else: out[off] = (a[0], self.vmerge(c, a[1], b[1], ('i', 8 * a[0])))
            base.mem[k] = out

    # ---- operands ----------------------------------------------------------
    def val(self, env, st, ty, v):
        k = v[0]
        if k == 'l':
            return env[v[1]]
        if k == 'i':
            ty = self.m.resolve(ty)
            if ty[1] == 1: return TRUE if v[1] else FALSE
            return v[1]
        if k == 'f':
            d = v[1]
            if d != d: return D.fspecial('nan')
            if d in (float('inf'), float('-inf')): return D.fspecial('inf' if d > 0 else '-inf')
            if d == 0 and str(d)[0] == '-': return D.fspecial('-0')
            return D.const(Fraction(d))
        if k == 'undef': return self.undef_of(ty)
        if k == 'zero': return self.zero(ty)
        if k == 'null': return NULL
        if k == 'agg': return tuple(self.val(env, st, t, x) for t, x in v[1])
        if k == 'splat':
            ty = self.m.resolve(ty); return (self.val(env, st, v[1], v[2]),) * ty[1]
        if k == 'g': return self.gptr(st, v[1])
        if k == 'str': 
            return self.strval(v[1])
        if k == 'cgep':
            bt, ops = v[1], v[2]
            base = self.val(env, st, ops[0][0], ops[0][1])
            return self.gep(base, bt, [(t, self.val(env, st, t, x)) for t, x in ops[1:]])
        if k == 'ccast':
            return self.val(env, st, v[2], v[3])
        raise Unsupported('operand %r' % (v,))

    def strval(self, w):
        s = w[2:-1]; out = []; i = 0
        while i < len(s):
            if s[i] == '\\': out.append(int(s[i + 1:i + 3], 16)); i += 3
            else: out.append(ord(s[i])); i += 1
        return tuple(out)

    def zero(self, ty):
        ty = self.m.resolve(ty); k = ty[0]
        if k == 'i': return FALSE if ty[1] == 1 else 0
        if k in 'fd' and len(ty) == 1: return D.const(0)
        if k == 'p': return NULL
        if k in ('vec', 'arr'): return (self.zero(ty[2]),) * ty[1]
        if k == 'st': return tuple(self.zero(t) for t in ty[1])
        raise Unsupported('zero %r' % (ty,))

    def gptr(self, st, name):
        if name[1:] in self.m.ftext or name[1:] in self.m.declared: return FnPtr(name[1:])
        o = self.gobj.get(name)
        if o is None:
            t, v, isconst, al = self.m.glob(name)
            o = Obj(name, self.m.size(t), max(al, self.m.align(t)), True, 'global')      # static state is in no frame
            self.gobj[name] = o
        if o.id not in st.mem:
            t, v, isconst, al = self.m.glob(name)
            st.mem[o.id] = {}
            if v is not None and (isconst or self.m.internal(name)):
                # static storage holds its initial value: an invariant, since no function may write it (frame)
                self.store0(st, t, self.val(None, st, t, v), o, 0)
            elif v is not None:
                # mutable global: contents unknown
                for off, ty in self.m.flat(t):
                    nm = '%s+%d' % (name, off)
                    if ty[0] == 'f': st.mem[o.id][off] = (4, D.var(nm))
        return Ptr(o, 0)

    def gep(self, base, bt, idx):
        if isinstance(base, PtrIte):
            return PtrIte(base.c, self.gep(base.a, bt, idx), self.gep(base.b, bt, idx))
        if not isinstance(base, Ptr): raise Unsupported('gep on %r' % (base,))
        off = base.off; t = bt; first = True
        for it, iv in idx:
            w = self.m.resolve(it)[1]
            if first:
                es = self.m.size(t); first = False; st_ = None
            else:
                rt = self.m.resolve(t)
                if rt[0] == 'st':
                    o, t = self.m.field(rt, iv); off = D.iop('add', off, o, 64); continue
                t = rt[2]; es = self.m.size(t)
            if isinstance(iv, int): off = D.iop('add', off, (D.isig(iv, w) * es) & (2**64 - 1), 64)
            else:
                if iv is UNDEF: raise Unsupported('undef index')
                x = D.iext(iv, w, 64, True) if w < 64 else iv
                off = D.iop('add', off, D.iop('mul', x, es, 64), 64)
        if isinstance(off, int): off = D.isig(off, 64)
        return Ptr(base.obj, off)

    # ---- control ----------------------------------------------------------
    def call_function(self, st, name, args):
        f = self.m.func(name)
        if len(args) < len(f.params): raise Unsupported('arity of ' + name)
        env = {}
        self.depth += 1
        if self.depth > 60: raise Unsupported('recursion in ' + name)
        for (nm, t, a), v in zip(f.params, args):
            if 'byval' in a and isinstance(v, Ptr):
                bt = a['byval']; sz = self.m.size(bt)
                o = self.new_obj(st, nm, sz, max(a.get('align', 1), self.m.align(bt)))
                self.memcpy(st, Ptr(o, 0), v, sz)
                v = Ptr(o, 0)
            env[nm] = v
        r = self.run(f, env, st, f.entry, None, EXIT)
        self.depth -= 1
        if r is None:
            self.oblige('reachable-return', '%s never returns here' % name, st, FALSE)
            return UNDEF
        return r.get('ret')

    def lit_known(self, st, c):
        if c is TRUE or c is FALSE: return c
        if c in st.pc: return TRUE
        if D.bnot(c) in st.pc: return FALSE
        return c

    def run(self, f, env, st, blk, prev, stop, phis=None):
        while True:
            if blk == stop:
                if phis is not None: return phis
                return self.eval_phis(f, env, st, blk, prev)
            if self.loop_handler is not None and self.loop_handler(self, f, env, st, blk, prev) is STOP: return None
            ins = f.blocks[blk]
            if phis is None: phis = self.eval_phis(f, env, st, blk, prev)
            env.update(phis); phis = None
            for I in ins:
                self.steps += 1
                op = I.op
                if op == 'phi': continue
                if op == 'jmp':
                    prev, blk = blk, I.a; break
                if op == 'br' or op == 'switch':
                    if op == 'br':
                        c = self.val(env, st, ('i', 1), I.a[0])
                        if c is UNDEF: raise Unsupported('branch on undef')
                        c = self.lit_known(st, c)
                        if c is TRUE: prev, blk = blk, I.a[1]; break
                        if c is FALSE: prev, blk = blk, I.a[2]; break
                        alts = [(c, I.a[1]), (D.bnot(c), I.a[2])]
                    else:
                        (ty, v), dflt, cases = I.a
                        v = self.val(env, st, ty, v); w = ty[1]
                        if isinstance(v, int):
                            tgt = dflt
                            for cv, lab in cases:
                                if cv == v: tgt = lab
                            prev, blk = blk, tgt; break
                        alts = []; others = []
                        for cv, lab in cases:
                            c = D.icmp('eq', v, cv, w); alts.append((c, lab)); others.append(D.bnot(c))
                        alts.append((D.band(*others), dflt))
                        alts = [(self.lit_known(st, c), l) for c, l in alts]
                        alts = [(c, l) for c, l in alts if c is not FALSE]
                        if len(alts) == 1: prev, blk = blk, alts[0][1]; break
                    J = ipdom(f)[blk]
                    key = (f.name, blk, self.depth)
                    self.branchdepth[key] = self.branchdepth.get(key, 0) + 1
                    if self.branchdepth[key] > self.loop_limit:
                        raise LoopBound('%s %s' % (f.name, blk))
                    res = []
                    depth0 = self.depth
                    for c, lab in alts:
                        s2 = st.fork(c); e2 = dict(env)
                        ph = self.run(f, e2, s2, lab, blk, J)
                        self.depth = depth0
                        if ph is not None: res.append((c, s2, ph))
                    self.branchdepth[key] -= 1
                    if not res: return None
                    c, s2, ph = res[-1]
                    mem2, ph2 = s2, ph
                    for c, s1, ph1 in reversed(res[:-1]):
                        t = State()
                        self.merge_states(c, s1, mem2, t)
                        pt = {I.res: self.m.resolve(I.a[0]) for I in f.blocks[J] if I.op == 'phi'} if ph1 else {}
                        ph2 = {k: self.vmerge(c, ph1[k], ph2[k], pt.get(k)) for k in ph1}
                        mem2 = t
                    st.mem = mem2.mem
                    if self.loop_handler is not None:       # what is known after the branch
                        n0 = len(st.pc)
                        st.pc = st.pc + ((D.bor(*[D.band(*s1.pc[n0:]) for _, s1, _ in res]),) if len(res) > 1 else res[0][1].pc[n0:])
                    if J == EXIT: return ph2
                    prev, blk, phis = blk, J, ph2
                    break
                if op == 'ret':
                    return {'ret': None if I.a is None else self.val(env, st, I.a[0], I.a[1])}
                if op == 'unreachable':
                    self.oblige('unreachable', 'unreachable code in %s' % f.name, st, FALSE)
                    return None
                r = self.instr(f, env, st, I)
                if r is STOP: return None
                if I.res is not None: env[I.res] = r
            else:
                raise Unsupported('block without terminator')
            if self.steps > self.maxsteps: raise LoopBound('step limit')

    def eval_phis(self, f, env, st, blk, prev):
        out = {}
        if blk == EXIT: return out
        for I in f.blocks[blk]:
            if I.op != 'phi': break
            ty, inc = I.a
            for v, lab in inc:
                if lab == prev:
                    out[I.res] = self.val(env, st, ty, v); break
            else: raise Unsupported('phi without incoming from ' + str(prev))
        return out

    # ---- instructions ---------------------------------------------------------
    def lift(self, ty, fn, *xs):
        if isinstance(xs[0], tuple) and ty[0] == 'vec':
            return tuple(fn(ty[2], *ys) for ys in zip(*xs))
        return fn(ty, *xs)

    def arith(self, st):
        def go(op):
            def g(ty, a, b):
                if a is UNDEF or b is UNDEF: return UNDEF
                k = ty[0]
                if k in ('f', 'd', 'h'):
                    if op == 'fadd': return D.fadd(a, b)
                    if op == 'fsub': return D.fsub(a, b)
                    if op == 'fmul': return newton(a, b) or newton(b, a) or D.fmul(a, b)
                    if op == 'fdiv':
                        self.divs.append((st.pc, b)); return D.fdiv(a, b)
                    if op == 'frem': return D.ffn('fmod', a, b)
                w = ty[1]
                if w == 1:
                    if op == 'and': return D.band(a, b)
                    if op == 'or': return D.bor(a, b)
                    if op in ('xor', 'add', 'sub'): return D.bxor(a, b)
                    raise Unsupported('i1 ' + op)
                if isinstance(a, tuple) or isinstance(b, tuple):      # pair of 32-bit lanes
                    if op in ('and', 'or', 'xor'):
                        al, ah = self.unpair(a); bl, bh = self.unpair(b)
                        return self.mkpair(self.ibits(al, bl, op), self.ibits(ah, bh, op), ty)
                    raise Unsupported('arithmetic on a float pair')
                if isinstance(a, (Ptr, PtrIte)) or isinstance(b, (Ptr, PtrIte)):
                    raise Unsupported('pointer arithmetic on integers')
                if op in ('sdiv', 'srem', 'udiv', 'urem'):
                    if not isinstance(b, int): self.divs.append((st.pc, b))
                    elif b == 0: self.oblige('int-div', 'integer division by zero', st, FALSE); return UNDEF
                return D.iop(op, a, b, w)
            return g
        return go

    def ibits(self, a, b, op):
        if isinstance(a, Node) and a.sort == 'f': a = D.fbits(a)
        if isinstance(b, Node) and b.sort == 'f': b = D.fbits(b)
        if a is UNDEF or b is UNDEF: return UNDEF
        return D.iop(op, a, b, 32)

    def instr(self, f, env, st, I):
        op = I.op; a = I.a; m = self.m
        V = lambda t, v: self.val(env, st, t, v)
        if op == 'load':
            return self.load(st, a[0], V(('p',), a[1]), a[2])
        if op == 'store':
            self.store(st, a[0], V(a[0], a[1]), V(('p',), a[2]), a[3]); return None
        if op == 'getelementptr':
            return self.gep(V(('p',), a[1]), a[0], [(t, V(t, x)) for t, x in a[2]])
        if op == 'bin':
            t = m.resolve(a[1])
            return self.lift(t, self.arith(st)(a[0]), V(t, a[2]), V(t, a[3]))
        if op == 'call': return self.call(f, env, st, I)
        if op == 'alloca':
            n = 1
            if a[1] is not None: n = V(a[1][0], a[1][1])
            o = self.new_obj(st, '%s.%s' % (f.name, I.res), m.size(a[0]) * n, max(a[2], 1))
            return Ptr(o, 0)
        if op == 'fneg':
            t = m.resolve(a[0])
            return self.lift(t, lambda _, x: UNDEF if x is UNDEF else D.fneg(x), V(t, a[1]))
        if op == 'freeze': return V(a[0], a[1])
        if op == 'fcmp':
            t = m.resolve(a[1])
            return self.lift(t, lambda _, x, y: UNDEF if x is UNDEF or y is UNDEF else D.fcmp(a[0], x, y), V(t, a[2]), V(t, a[3]))
        if op == 'icmp':
            t = m.resolve(a[1])
            def ic(tt, x, y):
                if isinstance(x, (Ptr, PtrIte, FnPtr)) or isinstance(y, (Ptr, PtrIte, FnPtr)):
                    if isinstance(x, FnPtr) and isinstance(y, FnPtr): r = x.name == y.name
                    elif isinstance(x, Ptr) and isinstance(y, Ptr):
                        if x.obj is y.obj:
                            return D.icmp(a[0], x.off if not isinstance(x.off, int) else x.off & (2**64 - 1), y.off if not isinstance(y.off, int) else y.off & (2**64 - 1), 64)
                        if a[0] not in ('eq', 'ne'): raise Unsupported('ordering unrelated pointers')
                        r = False
                    elif isinstance(x, FnPtr) or isinstance(y, FnPtr): r = False
                    else: raise Unsupported('pointer comparison')
                    return TRUE if r == (a[0] == 'eq') else FALSE
                if x is UNDEF or y is UNDEF: return UNDEF
                w = tt[1] if tt[0] == 'i' else 64
                if w == 1:
                    e = D.bnot(D.bxor(x, y))
                    if a[0] == 'eq': return e
                    if a[0] == 'ne': return D.bnot(e)
                    raise Unsupported('i1 icmp')
                if isinstance(x, tuple) or isinstance(y, tuple):
                    xl, xh = self.unpair(x); yl, yh = self.unpair(y)
                    if a[0] in ('eq', 'ne'):
                        def eq(p, q):
                            p = D.fbits(p) if isinstance(p, Node) and p.sort == 'f' else p
                            q = D.fbits(q) if isinstance(q, Node) and q.sort == 'f' else q
                            return D.icmp('eq', p, q, 32)
                        e = D.band(eq(xl, yl), eq(xh, yh))
                        return e if a[0] == 'eq' else D.bnot(e)
                    raise Unsupported('pair icmp')
                return D.icmp(a[0], x, y, w)
            return self.lift(t, ic, V(t, a[2]), V(t, a[3]))
        if op == 'cast': return self.cast(a[0], m.resolve(a[1]), V(a[1], a[2]), m.resolve(a[3]))
        if op == 'select':
            c = V(a[0][0], a[0][1]); x = V(*a[1]); y = V(*a[2])
            if isinstance(c, tuple):
                et = m.resolve(m.resolve(a[1][0])[2])
                return tuple(UNDEF if cc is UNDEF else self.vmerge(cc, p, q, et) for cc, p, q in zip(c, x, y))
            if c is UNDEF: raise Unsupported('select on undef')
            return self.vmerge(self.lit_known(st, c), x, y, m.resolve(a[1][0]))
        if op == 'extractelement':
            v = V(*a[0]); i = V(*a[1])
            if isinstance(i, int): return v[i] if isinstance(v, tuple) else UNDEF
            r = v[-1]; w = m.resolve(a[1][0])[1]
            for j in range(len(v) - 2, -1, -1): r = self.vmerge(D.icmp('eq', i, j, w), v[j], r, m.resolve(m.resolve(a[0][0])[2]))
            return r
        if op == 'insertelement':
            v = V(*a[0]); e = V(*a[1]); i = V(*a[2])
            if not isinstance(i, int): raise Unsupported('symbolic insertelement')
            return v[:i] + (e,) + v[i + 1:]
        if op == 'shufflevector':
            x = V(*a[0]); y = V(*a[1]); mk = V(*a[2])
            z = x + y
            return tuple(UNDEF if i is UNDEF else z[i] for i in mk)
        if op == 'extractvalue':
            v = V(*a[0])
            for i in a[1]: v = v[i] if isinstance(v, tuple) else UNDEF
            return v
        if op == 'insertvalue':
            def ins(v, idx, e):
                if not idx: return e
                return v[:idx[0]] + (ins(v[idx[0]], idx[1:], e),) + v[idx[0] + 1:]
            return ins(V(*a[0]), a[2], V(*a[1]))
        raise Unsupported('instruction %s' % op)

    def lanes(self, ty, v):
        """flatten to 4-byte (or smaller) lanes for a bitcast"""
        if ty[0] in ('vec', 'arr'):
            out = []
            vs = v if isinstance(v, tuple) else (UNDEF,) * ty[1]
            for x in vs: out += self.lanes(self.m.resolve(ty[2]), x)
            return out
        sz = self.m.size(ty)
        if sz == 8:
            lo, hi = self.unpair(v) if not (ty[0] == 'd' and isinstance(v, Node)) else (None, None)
            if lo is None: raise Unsupported('bits of a double')
            return [(4, lo), (4, hi)]
        if sz == 16 and ty[0] == 'i':
            if isinstance(v, int): return [(4, (v >> (32 * j)) & 0xffffffff) for j in range(4)]
            raise Unsupported('i128')
        return [(sz, v)]

    def unlanes(self, ty, ls):
        if ty[0] == 'vec':
            et = self.m.resolve(ty[2])
            return tuple(self.unlanes(et, ls) for _ in range(ty[1]))
        sz = self.m.size(ty)
        if ls[0][0] == sz:
            return self.retype(ls.pop(0)[1], ty)
        if sz == 8 and ls[0][0] == 4:
            lo = ls.pop(0)[1]; hi = ls.pop(0)[1]
            return self.mkpair(lo, hi, ty)
        if sz < ls[0][0]:
            s, v = ls.pop(0)
            if isinstance(v, int):
                n = s // sz
                for j in reversed(range(n)): ls.insert(0, (sz, (v >> (8 * sz * j)) & ((1 << 8 * sz) - 1)))
                return self.retype(ls.pop(0)[1], ty)
            if v is UNDEF:
                for j in range(s // sz): ls.insert(0, (sz, UNDEF))
                ls.pop(0); return UNDEF
            # lanes narrower than 4 bytes of a symbolic 4-byte value
            for j in reversed(range(s // sz)): ls.insert(0, (sz, ('part', v, j, sz)))
            return ls.pop(0)[1]
        # reassemble
        acc = []; tot = 0
        while tot < sz:
            s, v = ls.pop(0); acc.append((s, v)); tot += s
        if all(isinstance(v, int) for s, v in acc):
            r = 0; sh = 0
            for s, v in acc: r |= v << sh; sh += 8 * s
            return self.retype(r, ty)
        if all(v is UNDEF for s, v in acc): return UNDEF
        if all(isinstance(v, tuple) and v[0] == 'part' for s, v in acc):
            v0 = acc[0][1]
            if all(v[1] is v0[1] and v[2] == j and v[3] == v0[3] for j, (s, v) in enumerate(acc)) and sz == 4:
                return self.retype(v0[1], ty)
        raise Unsupported('bitcast reassembly')

    def cast(self, op, t, v, t2):
        if op == 'bitcast':
            if t[0] == 'p': return v
            if t == t2: return v
            e = self.m.resolve(t[2]) if t[0] == 'vec' else t; e2 = self.m.resolve(t2[2]) if t2[0] == 'vec' else t2
            if e[0] == 'i' and e[1] % 8 or e2[0] == 'i' and e2[1] % 8:
                if not (e == ('i', 1) and t[0] == 'vec' and t2[0] == 'i' and t2[1] == t[1]): raise Unsupported('bitcast of sub-byte integers')
                w = t2[1]; r = 0
                for j, x in enumerate(v if isinstance(v, tuple) else (UNDEF,) * w):
                    if x is UNDEF: return UNDEF
                    r = D.iop('or', r, D.iop('shl', D.iext(x, 1, w, False) if w > 1 else x, j, w), w)
                return r
            return self.unlanes(t2, self.lanes(t, v))
        if t[0] == 'vec' and isinstance(v, tuple):
            return tuple(self.cast(op, self.m.resolve(t[2]), x, self.m.resolve(t2[2])) for x in v)
        if v is UNDEF: return UNDEF
        if op == 'sext': return D.iext(self.noptr(v), t[1], t2[1], True)
        if op == 'zext': return D.iext(self.noptr(v), t[1], t2[1], False)
        if op == 'trunc':
            if isinstance(v, tuple) and v[0] == 'ipair' and t2[1] == 32: return self.retype(v[1], t2)
            r = D.itrunc(self.noptr(v), t2[1])
            if t2[1] == 1 and isinstance(r, int): return TRUE if r else FALSE
            return r
        if op == 'sitofp': return D.i2f(v, t[1], True)
        if op == 'uitofp': return D.i2f(v, t[1], False)
        if op in ('fptosi', 'fptoui'): return D.f2i(v, t2[1], op == 'fptosi')
        if op in ('fpext', 'fptrunc'): return v
        if op in ('ptrtoint', 'inttoptr', 'addrspacecast'): return v
        raise Unsupported('cast ' + op)

    def noptr(self, v):
        if isinstance(v, (Ptr, PtrIte, tuple)): raise Unsupported('integer cast of %r' % (v,))
        return v

    # ---- calls ------------------------------------------------------------
    def memset(self, st, d, v, n):
        if not isinstance(n, int) or not isinstance(v, int) or not isinstance(d, Ptr) or not isinstance(d.off, int): raise Unsupported('memset of symbolic extent')
        self.check(st, d, n, 1, True)
        i = 0
        while i < n:
            s = 4 if (d.off + i) % 4 == 0 and n - i >= 4 else 1
            self.put(st, d.obj, d.off + i, s, int.from_bytes(bytes([v & 255]) * s, 'little')); i += s
    def memcpy(self, st, dst, src, n):
        if not isinstance(n, int): raise Unsupported('memcpy of symbolic length')
        self.check(st, dst, n, 1, True); self.check(st, src, n, 1, False)
        if not isinstance(dst, Ptr) or not isinstance(src, Ptr) or not isinstance(dst.off, int) or not isinstance(src.off, int):
            raise Unsupported('memcpy with symbolic pointers')
        s = st.mem[src.obj.id]
        # split partial cells
        for o2 in list(s):
            c = s[o2]
            if o2 < src.off < o2 + c[0] or o2 < src.off + n < o2 + c[0]: self.split(s, o2, src.off, 4)
        if src.obj.kind == 'array':
            for o2 in range(src.off, src.off + n, 4):
                if o2 not in s:
                    v = src.obj.fresh(st, o2, 4)
                    if v: s[o2] = v
        items = [(o2 - src.off, c) for o2, c in s.items() if src.off <= o2 and o2 + c[0] <= src.off + n]
        d = st.mem[dst.obj.id]
        for o2 in list(d):
            c = d.get(o2)
            if c is None: continue
            if o2 + c[0] <= dst.off or o2 >= dst.off + n: continue
            if o2 < dst.off or o2 + c[0] > dst.off + n: self.split(d, o2, dst.off, 4)
        for o2 in list(d):
            if dst.off <= o2 < dst.off + n: del d[o2]
        for o2, c in items: d[dst.off + o2] = c

    def call(self, f, env, st, I):
        rt, cal, args, bundle = I.a
        V = lambda t, v: self.val(env, st, t, v)
        if cal[0] == '%':
            fp = env[cal]
            if not isinstance(fp, FnPtr): raise Unsupported('indirect call')
            name = fp.name
        else: name = cal[1:]
        if name.startswith('"'): name = name.strip('"')
        if name.startswith('llvm.'):
            if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.donothing', 'llvm.prefetch')): return None
            if name.startswith('llvm.assume'):
                if bundle and bundle[0] == '"align"':
                    p = V(*bundle[1][0]); al = V(*bundle[1][1])
                    if isinstance(p, Ptr) and isinstance(p.off, int) and isinstance(al, int):
                        if p.obj is not None and (_galign(p.obj.align, p.off) % al):
                            self.oblige('assume-aligned', '%s assumes %s+%d is %d-byte aligned, only %d guaranteed' % (f.name, p.obj.name, p.off, al, _galign(p.obj.align, p.off)), st, FALSE)
                        else: self.ok('assume-aligned')
                else:
                    c = V(*args[0][:2])
                    if c is not TRUE: self.oblige('assume', 'compiler assumption', st, c)
                return None
        av = [V(t, v) for t, v, a in args]
        c = self.contract_of(name)
        if c is not None:
            r = c.apply(self, st, av)
            if r is not None:
                self.used_contracts[name] = self.used_contracts.get(name, 0) + 1
                return r[0]
        h = BUILTIN.get(name)
        if h is not None: return h(self, st, av)
        if name.startswith('llvm.'):
            return self.intrinsic(name, rt, st, av, [t for t, v, a in args])
        if self.m.has(name):
            # byval / sret handled in call_function through parameter attributes
            self.inlined.add(name)
            return self.call_function(st, name, av)
        raise Unsupported('call to %s' % name)

    def intrinsic(self, name, rt, st, av, ats):
        base = name[5:]
        rt = self.m.resolve(rt)
        def mapf(fn, *xs):
            if isinstance(xs[0], tuple) and rt[0] == 'vec':
                return tuple(UNDEF if any(y is UNDEF for y in ys) else fn(*ys) for ys in zip(*xs))
            if any(x is UNDEF for x in xs): return UNDEF
            return fn(*xs)
        p = base.split('.')
        if p[0] == 'memcpy' or p[0] == 'memmove':
            self.memcpy(st, av[0], av[1], av[2]); return None
        if p[0] == 'memset':
            self.memset(st, *av[:3]); return None
        one = {'sqrt': lambda x: D.ffn('sqrt', x), 'fabs': D.fabs_, 'floor': lambda x: D.ffn('floor', x), 'ceil': lambda x: D.ffn('ceil', x),
               'trunc': lambda x: D.ffn('trunc', x), 'rint': lambda x: D.ffn('rint', x), 'nearbyint': lambda x: D.ffn('rint', x),
               'roundeven': lambda x: D.ffn('rint', x), 'round': lambda x: D.ffn('round', x),
               'sin': D.sin, 'cos': D.cos, 'exp': lambda x: D.ffn('exp', x), 'exp2': lambda x: D.ffn('exp2', x), 'log': lambda x: D.ffn('log', x)}
        if p[0] in one and len(av) == 1: return mapf(one[p[0]], av[0])
        if p[0] in ('fma', 'fmuladd'): return mapf(lambda x, y, z: D.fadd(D.fmul(x, y), z), *av)
        if p[0] == 'pow': return mapf(lambda x, y: D.ffn('pow', x, y), *av)
        if p[0] == 'minnum': return mapf(_minnum, *av)
        if p[0] == 'maxnum': return mapf(_maxnum, *av)
        if p[0] in ('minimum',): return mapf(D.fmin_, *av)
        if p[0] in ('maximum',): return mapf(D.fmax_, *av)
        if p[0] == 'copysign': return mapf(_copysign, *av)
        if p[0] == 'abs':
            w = (rt[2] if rt[0] == 'vec' else rt)[1]
            return mapf(lambda x: D.iite(D.icmp('slt', x, 0, w), D.iop('sub', 0, x, w), x, w), av[0])
        if p[0] in ('smin', 'smax', 'umin', 'umax'):
            w = (rt[2] if rt[0] == 'vec' else rt)[1]
            s = p[0][0] + 'lt'
            return mapf((lambda x, y: D.iite(D.icmp(s, x, y, w), x, y, w)) if p[0][1:] == 'min' else (lambda x, y: D.iite(D.icmp(s, y, x, w), x, y, w)), *av)
        if p[0] == 'is' and p[1] == 'fpclass':
            x, mask = av
            nan, inf = mask & 3, mask & 0x204
            rest = mask & ~0x207
            if rest == 0 and nan in (0, 3) and inf in (0, 0x204):
                return D.bor(D.isnan(x) if nan else FALSE, D.isinf(x) if inf else FALSE)
            if mask == 0x1f8: return D.bnot(D.bor(D.isnan(x), D.isinf(x)))
            raise Unsupported('is.fpclass %#x' % mask)
        if p[0] == 'expect': return av[0]
        if p[0] == 'vector' and p[1] == 'reduce':
            vs = list(av[-1])
            if p[2] == 'fadd':
                r = av[0]
                for x in vs: r = D.fadd(r, x)
                return r
            if p[2] == 'add':
                r = 0
                for x in vs: r = D.iop('add', r, x, rt[1])
                return r
            fn = {'fmax': _maxnum, 'fmin': _minnum}.get(p[2])
            if fn:
                r = vs[0]
                for x in vs[1:]: r = fn(r, x)
                return r
        if p[0] == 'x86': return self.x86('.'.join(p[1:]), av, rt)
        if p[0] == 'aarch64' and p[1] == 'neon':
            if p[2] in ('ld2', 'ld3', 'ld4'):
                k = int(p[2][2]); n = rt[1][0][1]
                vs = self.load(st, ('vec', n * k, ('f',)), av[0], 4)
                return tuple(tuple(vs[j * k + i] for j in range(n)) for i in range(k))
            if p[2] in ('st2', 'st3', 'st4'):
                k = int(p[2][2]); n = len(av[0])
                self.store(st, ('vec', n * k, ('f',)), tuple(av[i][j] for j in range(n) for i in range(k)), av[k], 4)
                return None
            return self.neon(p[2], av, rt)
        if p[0] == 'arm' and p[1] == 'neon':
            n = p[2]
            if n == 'vld1': return self.load(st, rt, av[0], av[1])
            if n == 'vst1': return self.store(st, ('vec', len(av[1]), ('f',)), av[1], av[0], av[2])
            if n in ('vld2', 'vld3', 'vld4'):
                k = int(n[3]); w = rt[1][0][1]
                vs = self.load(st, ('vec', w * k, ('f',)), av[0], av[1])
                return tuple(tuple(vs[j * k + i] for j in range(w)) for i in range(k))
            if n in ('vst2', 'vst3', 'vst4'):
                k = int(n[3]); w = len(av[1])
                return self.store(st, ('vec', w * k, ('f',)), tuple(av[1 + i][j] for j in range(w) for i in range(k)), av[0], av[1 + k])
            a64 = {'vmaxs': 'fmax', 'vmins': 'fmin', 'vpadd': 'faddp', 'vpmaxs': 'fmaxp', 'vpmins': 'fminp', 'vrecpe': 'frecpe', 'vrecps': 'frecps',
                   'vrsqrte': 'frsqrte', 'vrsqrts': 'frsqrts', 'vabds': 'fabd'}.get(n)
            if not a64: raise Unsupported(name)
            return self.neon(a64, av, rt)
        if p[0] == 'wasm': return self.wasm(p[1:], av, rt)
        if p[0] in ('sadd', 'ssub', 'smul', 'uadd', 'usub', 'umul') and p[1] == 'with': raise Unsupported(name)
        raise Unsupported('intrinsic ' + name)

    def movmsk(self, v):
        r = 0
        for j, x in enumerate(v):
            r = D.iop('or', r, D.iop('shl', D.iop('lshr', D.fbits(x), 31, 32), j, 32), 32)
        return r
    def x86(self, n, av, rt):
        def z(fn, *vs): return tuple(UNDEF if any(y is UNDEF for y in ys) else fn(*ys) for ys in zip(*vs))
        if n in ('sse.min.ps', 'avx.min.ps.256'): return z(D.fmin_, *av)
        if n in ('sse.max.ps', 'avx.max.ps.256'): return z(D.fmax_, *av)
        if n == 'sse.min.ss': return (D.fmin_(av[0][0], av[1][0]),) + av[0][1:]
        if n == 'sse.max.ss': return (D.fmax_(av[0][0], av[1][0]),) + av[0][1:]
        if n in ('sse.rcp.ps', 'avx.rcp.ps.256'):
            self.approx.add('rcpps (relative error <= 1.5*2^-12) treated as exact 1/x'); return z(lambda x: D.ffn('rcp', x), av[0])
        if n == 'sse.rcp.ss':
            self.approx.add('rcpss (relative error <= 1.5*2^-12) treated as exact 1/x'); return (D.ffn('rcp', av[0][0]),) + av[0][1:]
        if n in ('sse.rsqrt.ps',):
            self.approx.add('rsqrtps (relative error <= 1.5*2^-12) treated as exact 1/sqrt(x)'); return z(lambda x: D.ffn('rsqrt', x), av[0])
        if n == 'sse.rsqrt.ss':
            self.approx.add('rsqrtss treated as exact 1/sqrt(x)'); return (D.ffn('rsqrt', av[0][0]),) + av[0][1:]
        if n == 'sse3.hadd.ps':
            a, b = av; return (D.fadd(a[0], a[1]), D.fadd(a[2], a[3]), D.fadd(b[0], b[1]), D.fadd(b[2], b[3]))
        if n == 'sse41.dpps':
            a, b, imm = av; s = None
            for i in range(4):
                if imm >> (4 + i) & 1:
                    t = D.fmul(a[i], b[i]); s = t if s is None else D.fadd(s, t)
            s = s or D.const(0)
            return tuple(s if imm >> i & 1 else D.const(0) for i in range(4))
        if n in ('avx.vpermilvar.ps.256', 'avx.vpermilvar.ps'):
            v, ix = av
            return tuple(v[(j & ~3) + (ix[j] & 3)] for j in range(len(v)))
        if n == 'sse.movmsk.ps':
            return self.movmsk(av[0])
        if n in ('sse.cmp.ps', 'avx.cmp.ps.256'):
            return z(lambda x, y: D.bitsf(D.iext(xcmp(av[2], x, y), 1, 32, True)), av[0], av[1])
        if n == 'sse.cmp.ss': return (D.bitsf(D.iext(xcmp(av[2], av[0][0], av[1][0]), 1, 32, True)),) + av[0][1:]
        if n in ('sse2.cvttps2dq',): return z(lambda x: D.f2i(x, 32), av[0])
        if n in ('sse2.cvtps2dq',): return z(lambda x: D.f2i(D.ffn('rint', x), 32), av[0])
        if n in ('sse.cvttss2si',): return D.f2i(av[0][0], 32)
        if n in ('sse.cvtss2si',): return D.f2i(D.ffn('rint', av[0][0]), 32)
        if n in ('sse41.blendvps', 'avx.blendv.ps.256'):
            return z(lambda x, y, c: D.ite(D.icmp('eq', D.iop('lshr', D.fbits(c), 31, 32), 1, 32), y, x), *av)
        if n in ('sse41.insertps',):
            a, b, imm = av; r = list(a); r[imm >> 4 & 3] = b[imm >> 6 & 3]
            return tuple(D.const(0) if imm >> i & 1 else x for i, x in enumerate(r))
        if n in ('sse41.round.ps', 'avx.round.ps.256') and av[-1] & 4 == 0:
            return z(lambda x: D.ffn(('rint', 'floor', 'ceil', 'trunc')[av[-1] & 3], x), av[0])
        if n == 'sse41.round.ss' and av[-1] & 4 == 0:
            return (D.ffn(('rint', 'floor', 'ceil', 'trunc')[av[-1] & 3], av[1][0]),) + av[0][1:]
        if n == 'sse3.hsub.ps':
            a, b = av; return (D.fsub(a[0], a[1]), D.fsub(a[2], a[3]), D.fsub(b[0], b[1]), D.fsub(b[2], b[3]))
        if n in ('sse3.addsub.ps', 'avx.addsub.ps.256'):
            return tuple((D.fadd if i & 1 else D.fsub)(x, y) for i, (x, y) in enumerate(zip(*av)))
        if n in ('avx.hadd.ps.256', 'avx.hsub.ps.256'):
            fn = D.fadd if 'hadd' in n else D.fsub; a, b = av
            return tuple(fn(v[h + k], v[h + k + 1]) for h in (0, 4) for v in (a, b) for k in (0, 2))
        if n == 'avx.dp.ps.256':
            a, b, imm = av
            return sum((self.x86('sse41.dpps', (a[h:h + 4], b[h:h + 4], imm), rt) for h in (0, 4)), ())
        if n == 'avx.rsqrt.ps.256': return sum((self.x86('sse.rsqrt.ps', (av[0][h:h + 4],), rt) for h in (0, 4)), ())
        if n in ('avx.movmsk.ps.256',):
            return self.movmsk(av[0])
        if n.startswith(('sse.ucomi', 'sse.comi')):
            pr = {'eq': 'oeq', 'lt': 'olt', 'le': 'ole', 'gt': 'ogt', 'ge': 'oge', 'neq': 'une', 'ne': 'une'}[n.split('.')[1].replace('ucomi', '').replace('comi', '')]
            return D.iext(D.fcmp(pr, av[0][0], av[1][0]), 1, 32, False)
        raise Unsupported('x86 intrinsic ' + n)

    def neon(self, n, av, rt):
        def z(fn, *vs):
            if not isinstance(vs[0], tuple): return fn(*vs)
            return tuple(UNDEF if any(y is UNDEF for y in ys) else fn(*ys) for ys in zip(*vs))
        if n in ('fmin', 'fminnm'): return z(D.fmin_ if n == 'fmin' else _minnum, *av)
        if n in ('fmax', 'fmaxnm'): return z(D.fmax_ if n == 'fmax' else _maxnum, *av)
        if n == 'faddp':
            c = av[0] + av[1]; return tuple(D.fadd(c[2 * i], c[2 * i + 1]) for i in range(len(av[0])))
        if n in ('faddv',):
            r = av[0][0]
            for x in av[0][1:]: r = D.fadd(r, x)
            return r
        if n in ('fmaxv', 'fmaxnmv', 'fminv', 'fminnmv'):
            fn = D.fmax_ if 'max' in n else D.fmin_
            r = av[0][0]
            for x in av[0][1:]: r = fn(r, x)
            return r
        if n in ('fmaxp', 'fminp'):
            fn = D.fmax_ if 'max' in n else D.fmin_
            c = av[0] + av[1]; return tuple(fn(c[2 * i], c[2 * i + 1]) for i in range(len(av[0])))
        if n == 'fmulx': return z(D.fmul, *av)
        if n == 'fabd': return z(lambda x, y: D.fabs_(D.fsub(x, y)), *av)
        if n == 'frecpe':
            self.approx.add('NEON vrecpe (relative error <= 2^-8); exact after two Newton steps (2^-32)'); return z(lambda x: D.ffn('rcp8', x), av[0])
        if n == 'frecps': return z(lambda x, y: D.fsub(D.const(2), D.fmul(x, y)), *av)
        if n == 'frsqrte':
            self.approx.add('NEON vrsqrte treated as exact 1/sqrt(x)'); return z(lambda x: D.ffn('rsqrt', x), av[0])
        if n == 'frsqrts': return z(lambda x, y: D.fdiv(D.fsub(D.const(3), D.fmul(x, y)), D.const(2)), *av)
        raise Unsupported('neon ' + n)

    def wasm(self, p, av, rt):
        def z(fn, *vs):
            if not isinstance(vs[0], tuple): return fn(*vs)
            return tuple(UNDEF if any(y is UNDEF for y in ys) else fn(*ys) for ys in zip(*vs))
        if p[0] == 'pmin': return z(lambda a, b: D.fmin_(b, a), *av)
        if p[0] == 'pmax': return z(lambda a, b: D.fmax_(b, a), *av)
        if p[0] == 'shuffle':
            la = self.lanes(('vec', 16, ('i', 8)), av[0]); lb = self.lanes(('vec', 16, ('i', 8)), av[1])
            ls = [x[1] for x in la + lb]
            return tuple(ls[i] for i in av[2:])
        if p[0] == 'bitselect':
            # (v1 & c) | (v2 & ~c)
            return z(lambda a, b, c: D.iop('or', D.iop('and', a, c, 32), D.iop('and', b, D.iop('xor', c, 0xffffffff, 32), 32), 32), *av)
        raise Unsupported('wasm ' + '.'.join(p))

STOP = object()

def _galign(al, off):
    off = abs(off)
    while al > 1 and off % al: al //= 2
    return al

def xcmp(imm, x, y):
    p = ('oeq', 'olt', 'ole', 'uno', 'une', 'uge', 'ugt', 'ord', 'ueq', 'ult', 'ule', 'false', 'one', 'oge', 'ogt', 'true')[imm & 15]
    return D.fcmp(p, x, y)

def _minnum(a, b): return D.ite(D.isnan(a), b, D.ite(D.isnan(b), a, D.fmin_(a, b)))
def _maxnum(a, b): return D.ite(D.isnan(a), b, D.ite(D.isnan(b), a, D.fmax_(a, b)))
def _copysign(a, b):
    if D.cval(b) is not None or b.op == 'fsp':
        neg = (b.op == 'fsp' and b.args[0][0] == '-') or (b.op == 'c' and b.args[0] < 0)
        return D.fneg(D.fabs_(a)) if neg else D.fabs_(a)
    return D.ite(D.flt(b, D.const(0)), D.fneg(D.fabs_(a)), D.fabs_(a))

BUILTIN = {}
def _b1(cname, fn):
    BUILTIN[cname] = lambda ex, st, av: UNDEF if av[0] is UNDEF else fn(av[0])
for _n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'exp2', 'log', 'log2', 'log10', 'cbrt', 'sqrt', 'floor', 'ceil', 'trunc', 'round', 'rint', 'sinh', 'cosh', 'tanh'):
    for _s in ('f', ''):
        _b1(_n + _s, (lambda nm: lambda x: D.ffn(nm, x))(_n))
_b1('fabsf', D.fabs_); _b1('fabs', D.fabs_)
for _n in ('pow', 'atan2', 'fmod'):
    for _s in ('f', ''):
        BUILTIN[_n + _s] = (lambda nm: lambda ex, st, av: UNDEF if UNDEF in av else D.ffn(nm, av[0], av[1]))(_n)
for _s in ('f', ''):
    BUILTIN['hypot' + _s] = lambda ex, st, av: UNDEF if UNDEF in av else D.ffn('sqrt', D.fadd(D.fmul(av[0], av[0]), D.fmul(av[1], av[1])))
    BUILTIN['fma' + _s] = lambda ex, st, av: UNDEF if UNDEF in av else D.fadd(D.fmul(av[0], av[1]), av[2])
    BUILTIN['fdim' + _s] = lambda ex, st, av: UNDEF if UNDEF in av else D.ite(D.fle(av[0], av[1]), D.const(0), D.fsub(av[0], av[1]))
    _b1('nearbyint' + _s, lambda x: D.ffn('rint', x))
    BUILTIN['fmin' + _s] = lambda ex, st, av: _minnum(*av)
    BUILTIN['fmax' + _s] = lambda ex, st, av: _maxnum(*av)
    BUILTIN['copysign' + _s] = lambda ex, st, av: _copysign(*av)
BUILTIN['__isnanf'] = BUILTIN['__isnan'] = lambda ex, st, av: D.iext(D.isnan(av[0]), 1, 32, False)
BUILTIN['__signbitf'] = lambda ex, st, av: D.iop('lshr', D.fbits(av[0]), 31, 32)
BUILTIN['__finitef'] = lambda ex, st, av: D.iext(D.bnot(D.bor(D.isnan(av[0]), D.isinf(av[0]))), 1, 32, False)
BUILTIN['__isinff'] = lambda ex, st, av: D.iite(D.isinf(av[0]), 1, 0, 32)
BUILTIN['abs'] = lambda ex, st, av: D.iite(D.icmp('slt', av[0], 0, 32), D.iop('sub', 0, av[0], 32), av[0], 32)
def _modf(ex, st, av):
    t = D.ffn('trunc', av[0])
    ex.store(st, ('f',), t, av[1], 4)
    return D.fsub(av[0], t)
BUILTIN['modff'] = _modf
def _memcpy(ex, st, av):
    ex.memcpy(st, av[0], av[1], av[2]); return av[0]
BUILTIN['memcpy'] = BUILTIN['memmove'] = _memcpy
def _memset(ex, st, av): ex.memset(st, av[0], av[1], av[2]); return av[0]
BUILTIN['memset'] = _memset
for _a, _b in (('__memcpy_chk', 'memcpy'), ('__memmove_chk', 'memmove'), ('__memset_chk', 'memset')): BUILTIN[_a] = BUILTIN[_b]
