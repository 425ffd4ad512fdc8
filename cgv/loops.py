"""Functions that loop over a caller-supplied number of elements: contracts with
a quantified postcondition (every element of the array) decided by inductive
loop invariants.

At each loop whose number of iterations depends on the element count the state
is generalised to an arbitrary iteration t.  The shape of the invariant (which
cells count up or down and by how much, which bound holds for t, which cells
hold the running product) is guessed from concrete executions; the guess is
then proved: it holds on entry, one execution of the body from an arbitrary
iteration preserves it (a wrong guess fails here), every access of that
iteration is inside the array, and each element written gets the value the
contract names.  On return, the iterations together cover every element
exactly as the contract requires.  A bound on t makes the loop terminate.
"""
import time
import z3
from . import dag as D
from .dag import Node, TRUE, FALSE
from .exe import Exec, State, Obj, Ptr, PtrIte, UNDEF, Unsupported, LoopBound, STOP
from .ir import IRError, EXIT, succs
from .verify import FnResult, Ob, Verifier
from .prove import Prover
from .contract import REG, SHAPES, type_align

class Fail(Exception):
    """an obligation that does not hold (or is not proved): (kind, label, note)"""

class CellWise(Unsupported): pass

W = 64
I64 = lambda x: D._w(x, 64)

# ---- bit-vector back end -------------------------------------------------
class BV:
    def __init__(self): self.memo = {}
    def b(self, n):
        if n is TRUE: return z3.BoolVal(True)
        if n is FALSE: return z3.BoolVal(False)
        r = self.memo.get(n.id)
        if r is not None: return r
        o = n.op; A = n.args
        if o == 'not': r = z3.Not(self.b(A[0]))
        elif o == 'and': r = z3.And(*[self.b(a) for a in A])
        elif o == 'ite': r = z3.If(self.b(A[0]), self.b(A[1]), self.b(A[2]))
        elif o == 'icmp':
            x, y = self.i(A[1]), self.i(A[2])
            r = {'eq': lambda: x == y, 'slt': lambda: x < y, 'ult': lambda: z3.ULT(x, y)}[A[0]]()
        else: r = z3.Bool('o%d' % n.id)
        self.memo[n.id] = r
        return r
    def i(self, n):
        if isinstance(n, int): return z3.BitVecVal(n, W)
        r = self.memo.get(n.id)
        if r is not None: return r
        w = D.width(n); o = n.op; A = n.args
        if o == 'ic': r = z3.BitVecVal(A[0], w)
        elif o == 'var': r = z3.BitVec(A[0], w)
        elif o == 'ite': r = z3.If(self.b(A[0]), self.i(A[1]), self.i(A[2]))
        elif o in BOPS: r = BOPS[o](self.i(A[0]), self.i(A[1]))
        elif o == 'sext': x = self.i(A[0]); r = z3.SignExt(w - x.size(), x)
        elif o == 'zext': x = self.i(A[0]); r = z3.ZeroExt(w - x.size(), x)
        elif o == 'trunc': x = self.i(A[0]); r = z3.Extract(w - 1, 0, x)
        else: r = z3.BitVec('o%d' % n.id, w)
        self.memo[n.id] = r
        return r
BOPS = {'iadd': lambda x, y: x + y, 'isub': lambda x, y: x - y, 'imul': lambda x, y: x * y, 'iand': lambda x, y: x & y, 'ior': lambda x, y: x | y,
        'ixor': lambda x, y: x ^ y, 'ishl': lambda x, y: x << y, 'ilshr': z3.LShR, 'iashr': lambda x, y: x >> y,
        'isdiv': lambda x, y: x / y, 'isrem': z3.SRem, 'iudiv': z3.UDiv, 'iurem': z3.URem}

def ieval(n, env):
    """integer/boolean term at concrete values of its variables"""
    if isinstance(n, int): return n
    val = {}
    for x in D.topo(n):
        o = x.op; A = x.args
        if o == 'ic': v = A[0]
        elif o == 'var': v = env[A[0]] & ((1 << D.width(x)) - 1)
        elif o == 'true': v = True
        elif o == 'false': v = False
        elif o == 'not': v = not val[A[0].id]
        elif o == 'and': v = all(val[a.id] for a in A)
        elif o == 'ite': v = val[A[1].id] if val[A[0].id] else val[A[2].id]
        elif o == 'icmp': v = D.icmp(A[0] if A[0] == 'eq' else A[0], val[A[1].id], val[A[2].id], D.width(A[1])) is TRUE
        elif o in ('zext', 'sext'):
            w0 = D.width(A[0]); v = val[A[0].id]
            if o == 'sext': v = D.isig(v, w0) & ((1 << D.width(x)) - 1)
        elif o == 'trunc': v = val[A[0].id] & ((1 << D.width(x)) - 1)
        elif o[0] == 'i' and o in BOPS: v = D.iop(o[1:], val[A[0].id], val[A[1].id], D.width(x))
        else: raise Unsupported('index through ' + o)
        val[x.id] = v
    return val[n.id]

def evalnum(n, env):
    from .numeric import eval_mp
    return eval_mp([n], env)[0]

# ---- contracts -----------------------------------------------------------
class Spec:
    """kind ident: (mat, n); copy: (dst, src, n); fold: (matrices, n, dest)"""
    def __init__(s, name, kind, base, api, nmin=0, nbits=64):
        s.name = name; s.kind = kind; s.base = base; s.api = api; s.nmin = nmin; s.nbits = nbits
        sh = SHAPES[base][1]; k = 1
        for d in sh: k *= d
        s.cells = k; s.esize = 4 * k; s.shape = sh
        s.symbol = 'cgvl_' + name if (kind == 'fold' and api == 'struct') else name
        s.isint = base[0] == 'i'
    def ident(s, lane):
        if s.base == 'versor': return 1 if lane == 3 else 0
        r, c = divmod(lane, s.shape[1]); return 1 if r == c else 0

SPECS = {}
def add(*a, **k):
    x = Spec(*a, **k); SPECS[x.name] = x
for _p, _api in (('glm', 'inline'), ('glmc', 'call'), ('glms', 'struct')):
    for _b in ('mat2', 'mat3', 'mat4'): add('%s_%s_identity_array' % (_p, _b), 'ident', _b, _api)
    add('%s_quat_identity_array' % _p, 'ident', 'versor', _api)
    add('%s_mat4_mulN' % _p, 'fold', 'mat4', _api, nmin=2, nbits=32)
for _b in ('vec2', 'vec3', 'vec4', 'ivec2', 'ivec3', 'ivec4'):
    for _o in ('pack', 'unpack'): add('glms_%s_%s' % (_b, _o), 'copy', _b, 'struct')

def shims(sigs):
    """entry point with the inline calling convention for the by-value fold"""
    out = ''
    if 'glms_mat4_mulN' in sigs: out += '\n__attribute__((used)) void cgvl_glms_mat4_mulN(mat4s **m, uint32_t n, void *d) { *(mat4s *)d = glms_mat4_mulN(m, n); }\n'
    return out

# ---- loops of a control-flow graph --------------------------------------------
def loops_of(f):
    r = getattr(f, '_loops', None)
    if r is not None: return r
    nodes = list(f.order); su = {b: succs(f.blocks[b][-1]) for b in nodes}
    pr = {b: [] for b in nodes}
    for b in nodes:
        for t in su[b]: pr[t].append(b)
    dom = {b: set(nodes) for b in nodes}; dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for b in nodes:
            if b == f.entry: continue
            ps = [dom[p] for p in pr[b]]
            x = (set.intersection(*ps) if ps else set()) | {b}
            if x != dom[b]: dom[b] = x; ch = True
    out = {}
    for b in nodes:
        for t in su[b]:
            if t in dom[b]:
                body = out.setdefault(t, {t}); work = [b]
                while work:
                    x = work.pop()
                    if x not in body: body.add(x); work += pr[x]
    f._loops = out
    return out

class Loop:
    def __init__(s): s.back = []; s.ghost = []

class Arr:
    """an array of n elements"""
    def __init__(s, name, count, esize, writable, kind): s.name = name; s.count = count; s.esize = esize; s.writable = writable; s.kind = kind

class LoopExec(Exec):
    def __init__(self, mod, contract_of, spec, probe=None, bits=64):
        super().__init__(mod, contract_of)
        self.spec = spec; self.probe = probe; self.loop_handler = LoopExec.on_block
        self.visits = {}; self.inst = {}; self.records = []; self.seq = 0; self.active = {}; self.curblk = {}; self.allloops = []
        self.dry = False; self.dryback = None; self.arr = {}; self.elems = {}
        self.fits = {}; self.obl = []; self.t_smt = 0.0; self.smt = 0
        self.psize = mod.ptrsize
        self.deadline = None

    # -- proofs
    def entails(self, facts, goal, what=None, timeout=15000):
        if goal is TRUE: return True
        E = BV(); s = z3.SolverFor('QF_BV'); s.set('timeout', timeout)
        for x in facts: s.add(E.b(x) if isinstance(x, Node) else x)
        s.add(z3.Not(E.b(goal) if isinstance(goal, Node) else goal))
        t0 = time.time(); r = s.check(); self.t_smt += time.time() - t0; self.smt += 1
        if r == z3.sat and what is not None: self.model = {str(d): s.model()[d].as_long() for d in s.model().decls() if z3.is_bv(s.model()[d])}
        return r == z3.unsat
    def need(self, kind, label, facts, goal, note=''):
        """a named obligation"""
        self.model = None
        ok = goal if isinstance(goal, bool) else self.entails(facts, goal, what=label)
        self.obl.append((kind, label, ok, note if ok else (note or 'solver: not valid, %s' % (self.model,)), 'smt:z3(bit-vectors)' if not isinstance(goal, bool) else 'executor'))
        return ok

    def canon(self, st, off):
        """byte offset -> (constant, ((variable, coefficient)...)) over 64-bit variables"""
        if isinstance(off, int): return off, ()
        c0, terms = self.linear(off); acc = {}
        for k, x in terms:
            if x.op == 'var' and x.sort == 'i64': f = (0, ((x, 1),))
            else: f = self.fit(st, x)
            c0 += k * f[0]
            for v, c in f[1]: acc[v] = acc.get(v, 0) + k * c
        return c0, tuple(sorted(((v, c) for v, c in acc.items() if c), key=lambda y: y[0].args[0]))
    def fit(self, st, x):
        key = (x.id, st.pc)
        r = self.fits.get(key)
        if r is not None: return r
        vs = [v for v in D.free_vars(x)]
        if any(v.sort != 'i64' for v in vs): raise Unsupported('index over %r' % vs)
        env = {v.args[0]: (1000003 if v.args[0] == 'n' else 7) for v in vs}
        b = D.isig(ieval(x, env), 64); co = []
        for v in vs:
            e = dict(env); e[v.args[0]] += 1
            co.append((v, D.isig(ieval(x, e), 64) - b))
        c0 = b - sum(c * env[v.args[0]] for v, c in co)
        if not self.entails(st.pc, D.icmp('eq', I64(self.lin(c0, co)), x, 64)): raise Unsupported('index is not linear in the iteration: %s' % D.show(x))
        r = self.fits[key] = (c0, tuple((v, c) for v, c in co if c))
        return r
    @staticmethod
    def lin(c0, terms):
        r = c0 & (2**64 - 1)
        for v, c in terms: r = D.iop('add', r, D.iop('mul', v, c & (2**64 - 1), 64), 64)
        return r
    def element(self, st, a, off, size, what):
        """(element as linear form, byte within element), with the bounds obligation"""
        c0, terms = self.canon(st, off)
        if any(c % a.esize for v, c in terms): raise CellWise()
        e0, lane = divmod(c0, a.esize)
        el = (e0, tuple((v, c // a.esize) for v, c in terms))
        if lane + size > a.esize:
            if a.esize > 4: raise CellWise()
            raise Unsupported('access across elements')
        if not self.dry and self.probe is not None:
            n = a.count
            g = D.icmp('ult', self.lin(*el), n, 64)
            if g is FALSE or (g is not TRUE and not self.entails(st.pc, g, what='b')):
                self.obl.append(('memory-bounds', '%s of %s[%s] is inside the array' % (what, a.name, showlin(el)), False, 'not provable: %s' % getattr(self, 'model', None), 'smt:z3(bit-vectors)'))
                raise Fail
            self.obl.append(('memory-bounds', '%s of %s[%s] is inside the array' % (what, a.name, showlin(el)), True, '', 'executor' if g is TRUE else 'smt:z3(bit-vectors)'))
        return el, lane
    def al(self, st, a, el, lane, align, obj):
        if align > 1 and (obj.align % align or lane % align or a.esize % align) and not (obj.loose and align <= 4):
            self.obl.append(('alignment', 'access to %s assumes %d-byte alignment' % (a.name, align), False, 'guaranteed: %d' % obj.align, 'executor')); raise Fail
        self.ok('alignment')

    # -- array memory
    def isarr(self, p): return isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'array'
    def load(self, st, ty, p, align):
        if self.isarr(p): return self.aload(st, self.m.resolve(ty), p, align)
        return super().load(st, ty, p, align)
    def store(self, st, ty, v, p, align):
        if self.isarr(p): return self.astore(st, self.m.resolve(ty), v, p, align)
        return super().store(st, ty, v, p, align)
    def parts(self, ty, off):
        k = ty[0]
        if k in ('vec', 'arr'):
            es = self.m.size(ty[2]); out = []
            for i in range(ty[1]): out += self.parts(self.m.resolve(ty[2]), off + i * es)
            return out
        if k == 'st':
            out = []
            for i in range(len(ty[1])):
                o, t = self.m.field(ty, i); out += self.parts(self.m.resolve(t), off + o)
            return out
        return [(off, ty)]
    def at(self, p, d): return D._unw(D.iop('add', p.off if not isinstance(p.off, int) else p.off & (2**64 - 1), d, 64)) if not isinstance(p.off, int) else p.off + d
    def aload(self, st, ty, p, align):
        a = self.arr[p.obj.id]
        if self.dry: return Ptr(self.elemobj(st, (0, ())), 0) if ty[0] == 'p' else self.undef_of(ty)
        if ty[0] in ('vec', 'arr', 'st'):
            if ty[0] == 'st': return tuple(self.aload(st, self.m.resolve(self.m.field(ty, i)[1]), Ptr(p.obj, self.at(p, self.m.field(ty, i)[0])), align if not i else 1) for i in range(len(ty[1])))
            es = self.m.size(ty[2])
            return tuple(self.aload(st, self.m.resolve(ty[2]), Ptr(p.obj, self.at(p, i * es)), align if not i else 1) for i in range(ty[1]))
        sz = self.m.size(ty)
        el, lane = self.element(st, a, p.off, sz, 'read')
        self.al(st, a, el, lane, align, p.obj)
        if a.kind == 'ptrs':
            if ty[0] != 'p' or lane: raise Unsupported('read of part of a pointer')
            return Ptr(self.elemobj(st, el), 0)
        if a.writable: return self.reread(st, p.obj, el, lane, ty)
        if sz == 4: return self.retype(self.src(a, el, lane), ty)
        if sz == 8: return self.mkpair(self.src(a, el, lane), self.src(a, el, lane + 4), ty)
        raise Unsupported('%d-byte read of an array' % sz)
    def src(self, a, el, lane):
        return D.var('%s[%s].%d' % (a.name, showlin(el), lane // 4), 'i32' if self.spec.isint else 'f')
    def reread(self, st, obj, el, lane, ty):
        for r in reversed(self.records):
            if r['obj'] is obj and r['el'] == el and r['lane'] == lane and set(r['pc']) <= set(st.pc) and self.m.size(ty) == 4:
                if r['loop'] is self.loop_at(st): return self.retype(r['val'], ty)
        raise Unsupported('read of the output array')
    def elemobj(self, st, el):
        k = showlin(el); o = self.elems.get(k)
        if o is None:
            b = self.spec.base
            o = Obj('matrix[%s]' % k, 64, type_align(self.m, b), True, 'param'); self.elems[k] = o
            if getattr(self.m, 'loose', False): o.loose = True; o.align = 4
        if o.id not in st.mem:
            st.mem[o.id] = {4 * i: (4, D.var('M@%s.%d' % (k, i))) for i in range(16)}
        return o
    def astore(self, st, ty, v, p, align):
        a = self.arr[p.obj.id]
        if ty[0] in ('vec', 'arr'):
            es = self.m.size(ty[2]); vs = v if isinstance(v, tuple) else (UNDEF,) * ty[1]
            for i in range(ty[1]): self.astore(st, self.m.resolve(ty[2]), vs[i], Ptr(p.obj, self.at(p, i * es)), align if not i else 1)
            return
        if ty[0] == 'st':
            vs = v if isinstance(v, tuple) else (UNDEF,) * len(ty[1])
            for i in range(len(ty[1])):
                o, t = self.m.field(ty, i); self.astore(st, self.m.resolve(t), vs[i], Ptr(p.obj, self.at(p, o)), align if not i else 1)
            return
        if self.dry: return
        sz = self.m.size(ty)
        if isinstance(v, tuple) and v and v[0] in ('dpair', 'ipair') or sz == 8:
            lo, hi = self.unpair(v)
            self.put4(st, p, lo, align); self.put4(st, Ptr(p.obj, self.at(p, 4)), hi, 1); return
        if sz != 4: raise Unsupported('%d-byte write to an array' % sz)
        self.put4(st, p, v, align)
    def put4(self, st, p, v, align):
        a = self.arr[p.obj.id]
        el, lane = self.element(st, a, p.off, 4, 'write')
        self.al(st, a, el, lane, align, p.obj)
        if not a.writable:
            self.obl.append(('frame', 'write to %s, which the contract leaves unchanged' % a.name, False, '', 'executor')); raise Fail
        self.ok('frame'); self.seq += 1
        self.records.append(dict(seq=self.seq, obj=p.obj, el=el, lane=lane, pc=st.pc, val=v, loop=self.loop_at(st), len=None))
    def loop_at(self, st):
        """the loop being generalised around the current block"""
        best = None
        for L in self.active.values():
            c = self.curblk.get(L.depth)
            if L.depth <= self.depth and c is not None and c[0] == L.fn and c[1] in L.body and (best is None or L.depth > best.depth): best = L
        return best
    def words(self, st, d, s, n):
        if not isinstance(n, int) or n % 4: raise Unsupported('copy of symbolic or odd length')
        for i in range(0, n, 4):
            t = ('i', 32) if self.spec.isint else ('f',)
            v = self.load(st, t, Ptr(s.obj, self.at(s, i)), 4 if not isinstance(s.off, int) else 1) if self.isarr(s) else self.load0(st, t, s.obj, s.off + i)
            if self.isarr(d): self.put4(st, Ptr(d.obj, self.at(d, i)), v, 1) if not self.dry else None
            else:
                if d.obj.ro: raise Unsupported('write to input')
                self.store0(st, t, v, d.obj, d.off + i)
    def memcpy(self, st, dst, src, n):
        if not (self.isarr(dst) or self.isarr(src)): return super().memcpy(st, dst, src, n)
        if isinstance(n, int):
            if n <= 4096: return self.words(st, dst, src, n)
        if self.isarr(dst) and self.isarr(src): return self.bulk(st, dst, src, n)
        raise Unsupported('bulk copy')
    def bulk(self, st, dst, src, n):
        """memcpy of a symbolic number of whole elements between two arrays"""
        if self.dry: return
        a, b = self.arr[dst.obj.id], self.arr[src.obj.id]
        c0, ts = self.canon(st, n)
        if c0 % a.esize or any(c % a.esize for v, c in ts): raise Unsupported('bulk copy of part of an element')
        cnt = (c0 // a.esize, tuple((v, c // a.esize) for v, c in ts))
        do, so = self.canon(st, dst.off), self.canon(st, src.off)
        if do != so or do[0] % a.esize or any(c % a.esize for v, c in do[1]): raise Unsupported('bulk copy to another index')
        el = (do[0] // a.esize, tuple((v, c // a.esize) for v, c in do[1]))
        for x in (a, b):
            end = D.iop('sub', x.count, self.lin(*el), 64)
            g = D.band(D.bnot(D.icmp('ult', x.count, self.lin(*el), 64)), D.bnot(D.icmp('ult', end, self.lin(*cnt), 64)))
            if not self.need('memory-bounds', 'bulk copy stays inside %s' % x.name, st.pc, g): raise Fail
        if not a.writable: raise Fail
        self.seq += 1
        for l in range(0, a.esize, 4):
            self.records.append(dict(seq=self.seq, obj=dst.obj, el=el, lane=l, pc=st.pc, val='copy', loop=self.loop_at(st), len=cnt))
    def memset(self, st, d, v, n):
        if not self.isarr(d): return super().memset(st, d, v, n)
        if not isinstance(n, int):
            if self.dry: return
            a = self.arr[d.obj.id]
            c0, ts = self.canon(st, n); el = self.canon(st, d.off)
            if c0 % a.esize or any(c % a.esize for _, c in ts) or el != (0, ()) or v != 0: raise Unsupported('bulk fill')
            cnt = (c0 // a.esize, tuple((x, c // a.esize) for x, c in ts))
            if not self.need('memory-bounds', 'bulk fill stays inside %s' % a.name, st.pc, D.bnot(D.icmp('ult', a.count, self.lin(*cnt), 64))): raise Fail
            self.seq += 1
            for l in range(0, a.esize, 4):
                self.records.append(dict(seq=self.seq, obj=d.obj, el=(0, ()), lane=l, pc=st.pc, val=D.const(0) if not self.spec.isint else D.ic(0, 32), loop=self.loop_at(st), len=cnt))
            return
        if not isinstance(v, int) or n % 4: raise Unsupported('fill')
        for i in range(0, n, 4):
            if not self.dry: self.put4(st, Ptr(d.obj, self.at(d, i)), int.from_bytes(bytes([v & 255]) * 4, 'little'), 1)

    # -- loops
    def on_block(self, f, env, st, blk, prev):
        ls = loops_of(f)
        if self.deadline and time.time() > self.deadline: raise LoopBound('time limit')
        if self.dry and self.drytop == (f.name, self.depth) and blk not in self.drybody: return STOP
        self.curblk[self.depth] = (f.name, blk)
        if blk not in ls: return None
        body = ls[blk]; key = (f.name, blk)
        if prev in body:
            if self.probe is None:
                self.snapshot(key, st); return None
            if self.dry:
                if self.drytop == (f.name, self.depth) and blk == self.dryhead:
                    self.dryback.append(st.pc); return STOP
                return None
            L = self.active.get((f.name, blk, self.depth))
            if L is None: return None
            self.backedge(L, env, st)
            return STOP
        k = self.inst[key] = self.inst.get(key, -1) + 1 if not self.dry else self.inst.get(key, 0)
        if self.probe is None:
            self.visits.setdefault(key, {})[k] = []
            self.snapshot(key, st)
            return None
        self.active.pop((f.name, blk, self.depth), None)
        info = self.probe.get(key)
        if info is None: raise Unsupported('loop %s/%s not reached by the concrete executions' % key)
        info = info.get(k) or info[max(info)]
        if not info['symbolic']: return None
        if self.dry:
            if self.drytop == (f.name, self.depth): return STOP
            raise Unsupported('loop of symbolic length inside another')
        if any(I.op == 'phi' for I in f.blocks[blk]): raise Unsupported('phi at a loop head')
        self.enter(f, env, st, blk, prev, body, info)
        return None
    def names(self, st):
        """live objects by name (the newest of each name)"""
        out = {}
        for oid in st.mem:
            o = self.byid.get(oid)
            if o is not None: out[o.name] = o
        return out
    def new_obj(self, st, name, size, align, ro=False, kind='alloca'):
        o = super().new_obj(st, name, size, align, ro, kind)
        self.byid[o.id] = o
        return o
    @property
    def byid(self):
        b = self.__dict__.get('_byid')
        if b is None: b = self.__dict__['_byid'] = {}
        return b
    def snapshot(self, key, st):
        s = {}
        for nm, o in self.names(st).items():
            if o.kind == 'array': continue
            for off, c in st.mem[o.id].items(): s[nm, off] = c
        self.visits[key][self.inst[key]].append(s)

    def enter(self, f, env, st, blk, prev, body, info):
        L = Loop(); L.fn = f.name; L.blk = blk; L.depth = self.depth; L.body = body; L.entry_pc = st.pc
        L.t = D.var('t%d' % len(self.allloops), 'i64'); self.allloops.append(L); L.info = info
        t = L.t; L.cells = {}; strides = []
        for nm, o in self.names(st).items():
            if o.kind == 'array' or o.ro: continue
            for off, (sz, v) in list(st.mem[o.id].items()):
                cl = info['cells'].get((nm, off), 'vary')
                if cl == 'const': continue
                if cl[0] == 'int' and isinstance(v, (int, Node)) and (isinstance(v, int) or v.sort[0] == 'i'):
                    w = 8 * sz
                    strides.append((v, cl[1], w))
                    L.cells[o.id, off] = ('int', v, cl[1], w)
                elif cl[0] == 'ptr' and isinstance(v, Ptr): L.cells[o.id, off] = ('ptr', v, cl[1], 64)
                else: L.cells[o.id, off] = ('vary', v, 0, 0)
        L.ghost = self.ghosts(st, info, L)
        # candidate bounds on the iteration number
        n = [a.count for a in self.arr.values()][0]
        cands = [('t<=n', lambda t: D.bnot(D.icmp('ult', n, t, 64))), ('t<n', lambda t: D.icmp('ult', t, n, 64))]
        for v, s, w in strides:
            v = v if isinstance(v, int) else D.iext(v, w, 64, False) if w < 64 else v
            if s > 0: q = lambda v=v, s=s: D.iop('udiv', D.iop('sub', n, v, 64), s, 64)
            else: q = lambda v=v, s=s: D.iop('udiv', v, -s, 64)
            for strict in (False, True):
                cands.append(('t%s(n-%s)/%d' % ('<' if strict else '<=', D.show(v), s), lambda t, q=q, strict=strict: D.icmp('ult', t, q(), 64) if strict else D.bnot(D.icmp('ult', q(), t, 64))))
        cands = [(nm, c) for nm, c in cands if self.entails(st.pc, c(0), timeout=4000)]
        # one iteration, ignoring the arrays, to see when the loop continues
        s2 = st.fork(TRUE); s2.pc = st.pc; self.havoc(s2, L, t); e2 = dict(env)
        save = (self.obs, self.discharged, self.depth, dict(self.branchdepth), dict(self.inst), dict(self.active), dict(self.curblk))
        self.obs = []; self.discharged = {}; self.dry = True; self.dryback = []; self.drytop = (f.name, self.depth); self.drybody = body; self.dryhead = blk
        hd = self.loop_handler
        try:
            first = [True]
            def h(ex, f2, env2, st2, b2, p2):
                if first[0]: first[0] = False; return None
                return hd(ex, f2, env2, st2, b2, p2)
            self.loop_handler = h
            self.run(f, e2, s2, blk, prev, EXIT)
        finally:
            self.loop_handler = hd; self.dry = False
            self.obs, self.discharged, self.depth, self.branchdepth, self.inst, self.active, self.curblk = save
        backs = self.dryback
        while True:
            facts = [c(t) for _, c in cands]
            keep = [(nm, c) for nm, c in cands if all(self.entails(list(b) + facts, c(D.iop('add', t, 1, 64)), timeout=6000) for b in backs)]
            if len(keep) == len(cands): break
            cands = keep
        L.inv = cands
        if not any(nm for nm, c in cands) and backs: L.bounded = False
        else: L.bounded = True
        label = '%s %s' % (f.name, blk.lstrip('%'))
        self.need('termination', 'loop %s: number of iterations is bounded' % label, (), L.bounded)
        if not L.bounded: raise Fail
        for nm, c in cands: self.obl.append(('invariant-entry', 'loop %s: %s' % (label, nm), True, '', 'smt:z3(bit-vectors)'))
        L.pc_inv = tuple(c(t) for _, c in cands)
        st.pc = st.pc + tuple(x for x in L.pc_inv if x is not TRUE)
        L.pc0 = st.pc; L.label = label
        self.havoc(st, L, t)
        L.mem0 = {oid: dict(c) for oid, c in st.mem.items()}
        self.active[f.name, blk, self.depth] = L
        L.seq0 = self.seq
    def cellat(self, c, t):
        kind, v, s, w = c
        if kind == 'int':
            tt = t if w == 64 else (D.itrunc(t, w) if isinstance(t, Node) else t & ((1 << w) - 1))
            return D._unw(D.iop('add', v, D.iop('mul', tt, s & ((1 << w) - 1), w), w)) if not isinstance(v, int) or not isinstance(tt, int) else (v + s * tt) & ((1 << w) - 1)
        off = v.off if not isinstance(v.off, int) else v.off & (2**64 - 1)
        return Ptr(v.obj, D._unw(D.iop('add', off, D.iop('mul', t, s & (2**64 - 1), 64), 64)))
    def havoc(self, st, L, t):
        for (oid, off), c in L.cells.items():
            sz = st.mem[oid][off][0]
            st.mem[oid][off] = (sz, UNDEF if c[0] == 'vary' else self.cellat(c, t))
        for g in L.ghost:
            for i in range(16): st.mem[g['obj'].id][4 * i] = (4, D.var('%s.%d' % (g['name'], i)))
    def backedge(self, L, env, st):
        t1 = D.iop('add', L.t, 1, 64)
        for i, (nm, c) in enumerate(L.inv):
            self.need('invariant-preserved', 'loop %s: %s' % (L.label, nm), st.pc, c(t1))
        E = BV(); bad = None
        for (oid, off), c in L.cells.items():
            if c[0] == 'vary': continue
            want = self.cellat(c, t1); got = st.mem[oid].get(off, (0, UNDEF))[1]
            nm = '%s+%d' % (self.byid[oid].name, off)
            if c[0] == 'ptr':
                ok = isinstance(got, Ptr) and got.obj is want.obj
                g = D.icmp('eq', got.off if not isinstance(got.off, int) else got.off & (2**64 - 1), want.off if not isinstance(want.off, int) else want.off & (2**64 - 1), 64) if ok else FALSE
            else:
                if not isinstance(got, (int, Node)): g = FALSE
                else: g = D.icmp('eq', got, want, c[3])
            if not self.need('invariant-preserved', 'loop %s: %s counts by %d' % (L.label, nm, c[2]), st.pc, g): bad = 1
        # cells said to be constant
        for oid in L.mem0:
            o = self.byid.get(oid)
            if o is None or o.kind == 'array' or o.ro: continue
            nm = o.name
            for off, (sz, v) in L.mem0[oid].items():
                if (o.id, off) in L.cells or any(g['obj'] is o for g in L.ghost): continue
                x = st.mem[o.id].get(off)
                same = x is not None and x[0] == sz and (x[1] is v or not isinstance(v, Node) and x[1] == v or isinstance(v, Ptr) and x[1] == v)
                if not same and x is not None and isinstance(v, (int, Node)) and isinstance(x[1], (int, Node)):
                    try: same = self.same(v, x[1])
                    except Exception: same = False
                if not same: self.need('invariant-preserved', 'loop %s: %s+%d is unchanged' % (L.label, nm, off), (), False); bad = 1
        for g in L.ghost: self.foldstep(L, g, st)
        for r in self.records:
            if r['loop'] is L and r['seq'] > L.seq0:
                ex = [x for x in r['pc'][len(L.pc0):]]
                if not all(x in st.pc or self.entails(st.pc, x, timeout=4000) for x in ex): r['partial'] = True
                r['extra'] = ex
        L.back.append(st.pc)
        if bad: raise Fail
    def same(self, a, b):
        return Prover(None).equal(a if isinstance(a, Node) else D.bitsf(a), b if isinstance(b, Node) else D.bitsf(b)).status == 'proved' if (isinstance(a, Node) and a.sort == 'f') or (isinstance(b, Node) and b.sort == 'f') else a == b

    # -- running products
    def ghosts(self, st, info, L):
        out = []
        if self.spec.kind != 'fold': return out
        for (nm, base), (dirn, k0) in info['fold'].items():
            o = self.names(st).get(nm)
            if o is None or base: continue
            name = 'P%d_%s' % (len(self.allloops), nm.replace('.', '_').replace('%', ''))
            cells = [st.mem[o.id].get(4 * i, (4, UNDEF))[1] for i in range(16)]
            want = fold([self.melem(j if dirn == 'left' else None, st, j, dirn, k0) for j in range(k0)])
            if any(not isinstance(x, Node) for x in cells) and not all(isinstance(x, (int, Node)) for x in cells): continue
            ok = all(Prover(None).equal(x if isinstance(x, Node) else D.bitsf(x), y).status == 'proved' for x, y in zip(cells, want))
            if not ok: continue
            self.obl.append(('invariant-entry', 'loop: %s is the product of %s %d matrices' % (nm, 'the first' if dirn == 'left' else 'the last', k0), True, '', 'normal-form'))
            out.append(dict(obj=o, name=name, dir=dirn, k0=k0))
            for i in range(16): L.cells.pop((o.id, 4 * i), None)
        return out
    def melem(self, _, st, j, dirn, k0):
        el = (j, ()) if dirn == 'left' else (j - k0, ((self.n, 1),))
        k = showlin(el)
        return [D.var('M@%s.%d' % (k, i)) for i in range(16)]
    def foldstep(self, L, g, st):
        P = [D.var('%s.%d' % (g['name'], i)) for i in range(16)]
        k0 = g['k0']
        el = (k0, ((L.t, 1),)) if g['dir'] == 'left' else (-1 - k0, tuple(sorted(((L.t, -1), (self.n, 1)), key=lambda y: y[0].args[0])))
        M = [D.var('M@%s.%d' % (showlin(el), i)) for i in range(16)]
        want = mul4(P, M) if g['dir'] == 'left' else mul4(M, P)
        pr = Prover(None); nm = g['obj'].name
        for i in range(16):
            x = st.mem[g['obj'].id].get(4 * i, (4, UNDEF))[1]
            x = x if isinstance(x, Node) else D.bitsf(x) if isinstance(x, int) else None
            ok = x is not None and pr.equal(x, want[i]).status == 'proved'
            self.obl.append(('invariant-preserved', 'loop %s: %s[%d] is the product extended by the next matrix' % (L.label, nm, i), ok, '' if ok else 'value is %s' % (D.show(x) if x is not None else 'indeterminate'), 'normal-form'))

def showlin(el):
    s = ['%d' % el[0]] if el[0] or not el[1] else []
    for v, c in el[1]: s.append(('%d*' % c if c != 1 else '') + v.args[0])
    return '+'.join(s)

def mul4(a, b):
    """column-major a*b"""
    out = []
    for c in range(4):
        for r in range(4):
            s = None
            for k in range(4):
                t = D.fmul(a[4 * k + r], b[4 * c + k]); s = t if s is None else D.fadd(s, t)
            out.append(s)
    return out
IDENT = [D.const(1 if i % 5 == 0 else 0) for i in range(16)]
def fold(ms):
    r = None
    for m in ms: r = m if r is None else mul4(r, m)
    return r if r is not None else IDENT

# ---- one function ----------------------------------------------------------
class LoopVerifier:
    def __init__(self, mod, cfg, quick=True):
        self.m = mod; self.cfg = cfg; self.memo = {}
        self.v = Verifier(mod, cfg, REG.c, quick=quick)

    def setup(self, spec, n, probe, flat=False):
        ex = LoopExec(self.m, self.v.hook if spec.kind == 'fold' else None, spec, probe)
        st = State()
        ex.n = n
        al = type_align(self.m, spec.base); loose = getattr(self.m, 'loose', False)
        def arr(name, esize, w, kind, al):
            o = ex.new_obj(st, name, None, al, not w, 'array')
            if loose: o.loose = True; o.align = min(4, al) if kind != 'ptrs' else al
            cnt = n
            if flat and kind == 'elems': cnt = D.iop('mul', n, spec.cells, 64); esize = 4      # cell by cell
            ex.arr[o.id] = Arr(name, cnt, esize, w, kind); return Ptr(o, 0)
        nn = n if spec.nbits == 64 and not self.wasm() else (D.itrunc(n, 32) if isinstance(n, Node) else n)
        if spec.kind == 'ident': args = [arr('dst', spec.esize, True, 'elems', al), nn]; out = None
        elif spec.kind == 'copy': args = [arr('dst', spec.esize, True, 'elems', al), arr('src', spec.esize, False, 'elems', al), nn]; out = None
        else:
            ps = 4 if self.wasm() else 8
            out = ex.new_obj(st, 'dest', 64, 4 if loose else al, False, 'param')
            if loose: out.loose = True
            for i in range(16): st.mem[out.id][4 * i] = (4, D.var("dest'old.%d" % i))
            args = [arr('matrices', ps, False, 'ptrs', ps), nn, Ptr(out, 0)]
        if isinstance(n, Node):
            lim = ((1 << 32) - 1) if spec.nbits == 32 else ((1 << 31) - 1) // spec.esize if self.wasm() else ((1 << 63) - 1) // spec.esize
            if spec.nbits == 32 and self.wasm(): lim = ((1 << 31) - 1) // 4
            st.pc = (D.icmp('ult', n, lim + 1, 64),)
            if spec.nmin: st.pc += (D.bnot(D.icmp('ult', n, spec.nmin, 64)),)
        return ex, st, args, out
    def wasm(self): return self.m.ptrsize == 4      # 32-bit size_t and pointers

    def concrete(self, spec, ns, flat=False):
        """strides and candidate invariants from concrete executions"""
        info = {}; runs = []
        for n in ns:
            ex, st, args, out = self.setup(spec, n, None, flat)
            ex.loop_limit = 10000; ex.deadline = time.time() + 60
            ex.call_function(st, spec.symbol, args)
            runs.append((n, ex.visits))
        for n, vis in runs:
            for key, insts in vis.items():
                for k, vs in insts.items():
                    d = info.setdefault(key, {}).setdefault(k, dict(symbolic=False, cells={}, fold={}, counts={}))
                    d['counts'][n] = len(vs)
                    if len(vs) >= 3: d['cells'] = self.classify(vs); d['fold'] = self.folds(vs, n) if spec.kind == 'fold' else {}
        for key in info:        # a loop whose number of iterations depends on the element count
            sym = len({c for d in info[key].values() for c in d['counts'].values()}) > 1
            for d in info[key].values(): d['symbolic'] = sym
        return info
    def classify(self, vs):
        out = {}
        for key in set().union(*vs):
            xs = [v.get(key) for v in vs]
            if any(x is None for x in xs): continue
            xs = [x[1] for x in xs]; sz = vs[0][key][0]
            if all(x is xs[0] or not isinstance(x, Node) and x == xs[0] for x in xs): out[key] = 'const'
            elif all(isinstance(x, int) and not isinstance(x, bool) for x in xs):
                w = 8 * sz; ds = {D.isig(b - a, w) for a, b in zip(xs, xs[1:])}
                if len(ds) == 1: out[key] = ('int', ds.pop())
            elif all(isinstance(x, Ptr) and isinstance(x.off, int) for x in xs) and len({id(x.obj) for x in xs}) == 1:
                ds = {b.off - a.off for a, b in zip(xs, xs[1:])}
                if len(ds) == 1: out[key] = ('ptr', ds.pop())
        return out
    def folds(self, vs, n):
        """objects of 16 cells that hold a product of consecutive matrices at every visit"""
        import random
        rnd = random.Random(5); env = {}
        M = [[rnd.randint(-3, 3) for i in range(16)] for j in range(n)]
        for j in range(n):
            for i in range(16): env['M@%d.%d' % (j, i)] = M[j][i]
        for i in range(16): env["dest'old.%d" % i] = rnd.randint(5, 9)
        def mm(a, b): return [sum(a[4 * k + r] * b[4 * c + k] for k in range(4)) for c in range(4) for r in range(4)]
        I = [1 if i % 5 == 0 else 0 for i in range(16)]
        def prod(ms):
            r = I
            for m in ms: r = mm(r, m)
            return r
        names = {}
        for (nm, off) in vs[0]: names.setdefault(nm, set()).add(off)
        out = {}
        for nm, offs in names.items():
            if offs != set(4 * i for i in range(16)): continue
            try:
                vals = []
                for v in vs:
                    cs = [v[nm, 4 * i][1] for i in range(16)]
                    cs = [c if isinstance(c, Node) else D.bitsf(c) for c in cs]
                    vals.append([float(evalnum(c, env)) for c in cs])
            except Exception: continue
            for k0 in range(0, 4):
                if all(k0 + j <= n for j in range(len(vs))):
                    if all(vals[j] == prod(M[:k0 + j]) for j in range(len(vs))): out[nm, 0] = ('left', k0); break
                    if all(vals[j] == prod(M[n - k0 - j:]) for j in range(len(vs))): out[nm, 0] = ('right', k0); break
        return out

    def verify(self, name):
        r = self.memo.get(name)
        if r is not None: return r
        spec = SPECS[name]; t0 = time.time()
        r = self.attempt(spec, False)
        if spec.kind == 'copy' and not r.ok():        # a copy made component by component
            q = self.attempt(spec, True)
            if q.ok(): r = q
        r.time = time.time() - t0; self.memo[name] = r
        return r

    def attempt(self, spec, flat):
        name = spec.name; t0 = time.time(); res = FnResult(name, self.cfg); ex = None
        try:
            if not self.m.has(spec.symbol): raise IRError('no definition of %s in this configuration' % name)
            n = D.var('n', 'i64')
            info = self.concrete(spec, (47, 30) if spec.kind != 'fold' else (8, 6), flat)
            ex, st, args, out = self.setup(spec, n, info, flat)
            ex.deadline = t0 + 100
            ex.call_function(st, spec.symbol, args)
            self.post(spec, ex, st, out)
        except Fail: pass
        except (Unsupported, LoopBound, IRError, KeyError, NotImplementedError, AttributeError, TypeError, ValueError, IndexError, RecursionError, z3.Z3Exception) as e:
            import traceback
            res.error = '%s: %s' % (type(e).__name__, e); res.trace = traceback.format_exc()
        if ex is not None:
            for kind, label, ok, note, be in ex.obl: res.obs.append(Ob(name, kind, label, 'proved' if ok else 'failed', be, note=note))
            for o in ex.obs: res.obs.append(Ob(name, o.kind, o.msg, 'proved' if ex.entails(list(o.pc), o.cond) else 'failed', 'smt:z3(bit-vectors)'))
            for k, c in ex.discharged.items(): res.counts[k] = res.counts.get(k, 0) + c
            res.contracts_used = list(ex.used_contracts); res.inlined = sorted(ex.inlined)
            res.t_smt = ex.t_smt; res.smt_calls = ex.smt
        if not res.error and not any(o.kind == 'postcondition' for o in res.obs) and all(o.status == 'proved' for o in res.obs): res.error = 'Unsupported: no postcondition was reached'
        return res

    def post(self, spec, ex, st, out):
        n = ex.n
        if spec.kind == 'fold':
            cells = [st.mem[out.id].get(4 * i, (4, UNDEF))[1] for i in range(16)]
            return self.product(ex, st.pc, [x if isinstance(x, Node) else D.bitsf(x) if isinstance(x, int) else None for x in cells])
        obj = [o for o in ex.byid.values() if o.kind == 'array' and ex.arr[o.id].writable][0]
        e = D.var('e', 'i64'); memo = {}; a = ex.arr[obj.id]
        recs = [r for r in ex.records if r['obj'] is obj]
        # an earlier write of the same iteration to the same cell does not count
        for r in recs:
            for q in recs:
                if q['seq'] > r['seq'] and q['loop'] is r['loop'] and q['el'] == r['el'] and q['lane'] == r['lane'] and q['len'] is None and r['len'] is None and set(q['pc']) <= set(r['pc']): r['dead'] = True
        for lane in range(0, a.esize, 4):
            rs = [r for r in recs if r['lane'] == lane and not r.get('dead')]
            good = []; bad = []
            for r in rs: (good if self.right(spec, ex, r, lane) else bad).append(r)
            last = max([r['seq'] for r in bad] or [-1])
            use = [r for r in good if r['seq'] > last and not (any(b['loop'] is r['loop'] and r['loop'] is not None for b in bad))]
            lab = 'every element gets component %d' % (lane // 4)
            conds = [self.cover(ex, r, e) for r in use]
            if not use:
                ex.need('postcondition', lab, (), False, 'no write with the required value' + (': %s' % showval(bad[0]['val']) if bad else '')); continue
            key = tuple(tuple(c.id for c in cs) for cs in conds)
            if key in memo: ok, note = memo[key]; ex.obl.append(('postcondition', lab, ok, note, 'smt:z3(bit-vectors)')); continue
            ex.need('postcondition', lab, list(st.pc) + [D.icmp('ult', e, a.count, 64)], D.bor(*[D.band(*cs) for cs in conds]) if conds else FALSE)
            memo[key] = ex.obl[-1][2:4]
    def product(self, ex, pc, cells):
        n = ex.n
        ites = [x for x in cells if x is not None and x.op == 'ite']
        if ites:          # one path at a time
            c = ites[0].args[0]
            for lit, k in ((c, 1), (D.bnot(c), 2)):
                if ex.entails(pc, D.bnot(lit)): continue
                self.product(ex, pc + (lit,), [x.args[k] if x is not None and x.op == 'ite' and x.args[0] is c else x for x in cells])
            return
        for L in ex.allloops:
            for g in L.ghost:
                P = [D.var('%s.%d' % (g['name'], i)) for i in range(16)]
                if all(x is not None and (x is p or Prover(None).equal(x, p).status == 'proved') for x, p in zip(cells, P)):
                    for i in range(16): ex.need('postcondition', 'dest[%d] is the entry of the product' % i, (), True)
                    ex.need('postcondition', 'the product runs over all the matrices', pc, D.icmp('eq', D.iop('add', L.t, g['k0'], 64), n, 64))
                    return
        for k in range(1, 7):      # a path for one particular count
            if not ex.entails(pc, D.icmp('eq', n, k, 64)): continue
            want = fold([[D.var('M@%d.%d' % (j, i)) for i in range(16)] for j in range(k)]); pr = Prover(None)
            for i in range(16): ex.need('postcondition', 'dest[%d] is the entry of the product of %d matrices' % (i, k), (), cells[i] is not None and pr.equal(cells[i], want[i]).status == 'proved')
            return
        for i in range(16): ex.need('postcondition', 'dest[%d] is the entry of the product' % i, (), False, 'no running product reaches the result')

    def right(self, spec, ex, r, lane):
        if spec.kind == 'ident':
            v = r['val']; w = spec.ident(lane // 4)
            if isinstance(v, int): v = D.bitsf(v)
            return isinstance(v, Node) and D.cval(v) == w
        if r['val'] == 'copy': return True
        a = [x for x in ex.arr.values() if x.name == 'src'][0]
        want = ex.src(a, r['el'], lane)
        v = r['val']
        if v is want: return True
        if isinstance(v, Node) and v.sort != want.sort: return (D.fbits(v) if v.sort == 'f' else D.bitsf(v)) is want
        return False
    def cover(self, ex, r, e):
        """conditions under which element e is written by this record"""
        L = r['loop']; c0, terms = r['el']
        if L is None:
            x = ex.lin(c0, terms); pc = list(r['pc'])
            if r['len'] is not None: return pc + [D.bnot(D.icmp('ult', e, x, 64)), D.icmp('ult', D.iop('sub', e, x, 64), ex.lin(*r['len']), 64)]
            return pc + [D.icmp('eq', e, x, 64)]
        pc = list(L.entry_pc)
        b = dict((v, c) for v, c in terms).get(L.t, 0); base = ex.lin(c0, [(v, c) for v, c in terms if v is not L.t])
        if r['len'] is not None or b == 0: return [FALSE]
        d = D.iop('sub', e, base, 64) if b > 0 else D.iop('sub', base, e, 64)
        t = D.iop('udiv', d, abs(b), 64) if abs(b) > 1 else d
        exact = D.icmp('eq', D.iop('add', D.iop('mul', t, b & (2**64 - 1), 64), base, 64), e, 64)
        inrange = D.icmp('ult', t, L.t, 64)
        extra = r.get('extra')
        if extra is None: extra = list(r['pc'][len(L.pc0):]); done = FALSE if not L.back else inrange
        elif r.get('partial'):        # written only in some iterations
            done = D.band(inrange, *[D.subst(x, {L.t.id: I64(t)}) for x in extra])
        else: done = inrange
        lastit = D.band(D.icmp('eq', t, L.t, 64), *extra)
        return pc + [exact, D.bor(done, lastit)]

def showval(v): return D.show(v) if isinstance(v, Node) else str(v)

# ---- an input that shows a failed obligation on the compiled code -----------------------------
COUNTS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 5000,
          32767, 32768, 32769, 65535, 65536, 65537, 65540, 100003, 131073]
FOLD = [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1025, 4097, 32769, 65535, 65536, 65537, 65540, 100003]

def driver(spec):
    k = spec.cells; al = '_Alignof(%s)' % spec.base
    head = '''
static char *cgv_alloc(size_t size, size_t al) {      /* exactly sized, aligned to the type's own alignment and no more */
  char *p = 0; if (al < sizeof(void *)) al = sizeof(void *);
  if (posix_memalign((void **)&p, al * 2, size + al)) abort();
  return p + al;
}
static uint32_t cgv_r = 12345; static uint32_t cgv_rnd(void) { cgv_r = cgv_r * 1664525u + 1013904223u; return cgv_r >> 8; }
static void cgv_say(unsigned long n, int pass, unsigned long e, int c, double got, double want) {
  printf("DEVIATES n=%lu call=%d element=%lu component=%d observed=%.9g required=%.9g\\n", n, pass, e, c, got, want); fflush(stdout); exit(3); }
'''
    T = 'int' if spec.isint else 'float'
    ns = 'static const unsigned long cgv_ns[] = {%s};\n' % ', '.join(map(str, FOLD if spec.kind == 'fold' else COUNTS + ([16777219] if k <= 4 else [])))
    if spec.kind == 'ident':
        body = '''
    %(T)s *d = (%(T)s *)cgv_alloc(n * %(k)d * 4, %(al)s);
    for (i = 0; i < n * %(k)d; i++) d[i] = (%(T)s)(7 + (int)(i %% 13));
    printf("RUN n=%%lu call=%%d\\n", n, pass); fflush(stdout);
    %(fn)s((void *)d, n);
    for (i = 0; i < n; i++) for (c = 0; c < %(k)d; c++) if (!(d[i * %(k)d + c] == want[c])) cgv_say(n, pass, i, c, d[i * %(k)d + c], want[c]);
    free((char *)d - AL);'''
        pre = 'static const float want[] = {%s};\n' % ', '.join(str(spec.ident(i)) for i in range(k))
    elif spec.kind == 'copy':
        body = '''
    %(T)s *d = (%(T)s *)cgv_alloc(n * %(k)d * 4, %(al)s), *s = (%(T)s *)cgv_alloc(n * %(k)d * 4, %(al)s);
    for (i = 0; i < n * %(k)d; i++) { d[i] = -7; s[i] = (%(T)s)cgv_rnd(); }
    printf("RUN n=%%lu call=%%d\\n", n, pass); fflush(stdout);
    { uint32_t keep = cgv_r; %(fn)s((void *)d, (void *)s, n); cgv_r = keep; }
    for (i = 0; i < n; i++) for (c = 0; c < %(k)d; c++) if (!(d[i * %(k)d + c] == s[i * %(k)d + c])) cgv_say(n, pass, i, c, d[i * %(k)d + c], s[i * %(k)d + c]);
    free((char *)d - AL); free((char *)s - AL);'''
        pre = ''
    else:
        body = '''
    float *m = (float *)cgv_alloc(n * 64, _Alignof(mat4)), *d = (float *)cgv_alloc(64, _Alignof(mat4)); void **p = malloc(n * sizeof(void *)); double r[16], q[16];
    for (i = 0; i < n; i++) {
      if (n <= 9) for (c = 0; c < 16; c++) m[i * 16 + c] = (float)((int)(cgv_rnd() %% 7) - 3);
      else { int f[4] = {0, 1, 2, 3}, j, t; for (j = 3; j > 0; j--) { int o = cgv_rnd() %% (j + 1); t = f[j]; f[j] = f[o]; f[o] = t; }
        for (c = 0; c < 16; c++) m[i * 16 + c] = c %% 4 == f[c / 4] ? (cgv_rnd() & 1 ? 1.0f : -1.0f) : 0.0f; }
      p[i] = m + i * 16;
    }
    for (c = 0; c < 16; c++) { r[c] = m[c]; d[c] = 77.0f; }
    for (i = 1; i < n; i++) { int a, b, k; for (a = 0; a < 4; a++) for (b = 0; b < 4; b++) { q[a * 4 + b] = 0; for (k = 0; k < 4; k++) q[a * 4 + b] += r[k * 4 + b] * m[i * 16 + a * 4 + k]; } memcpy(r, q, sizeof(r)); }
    printf("RUN n=%%lu call=%%d\\n", n, pass); fflush(stdout);
    %(fn)s((void *)p, (uint32_t)n, (void *)d);
    for (c = 0; c < 16; c++) if (!(fabs(d[c] - r[c]) <= 1e-4 * (1.0 + fabs(r[c])))) cgv_say(n, pass, 0, c, d[c], r[c]);
    free((char *)d - (_Alignof(mat4) < 8 ? 8 : _Alignof(mat4))); free((char *)m - (_Alignof(mat4) < 8 ? 8 : _Alignof(mat4))); free(p);'''
        pre = ''
    body = body % dict(T=T, k=k, al=al, fn=spec.symbol)
    return head + ns + pre + '''
#define AL ((size_t)(%s < 8 ? 8 : %s))
int main(void) {
  unsigned long i, n; unsigned k; int c, pass;
  for (pass = 1; pass <= 2; pass++) for (k = 0; k < sizeof(cgv_ns) / sizeof(cgv_ns[0]); k++) { n = cgv_ns[k];%s
  }
  return 0;
}
''' % (al, al, body)

def search(C, api, name, workdir, sigs):
    """run the compiled function on many counts, under the sanitizers -> finding or None"""
    import os, subprocess, hashlib, re
    from . import build
    if not C.run: return None
    spec = SPECS[name]; sh = shims(sigs) if api == 'struct' else ''
    src = '#define _GNU_SOURCE 1\n' + build.tu_text(C, api) + sh + driver(spec)
    cf = os.path.join(workdir, 'loop_%s_%s.c' % (name, C.name)); ex = cf[:-2]
    with open(cf, 'w') as f: f.write(src)
    flags = [x for x in build.BASE if x not in ('-S', '-emit-llvm', '-fno-discard-value-names') and 'passes' not in x and 'optnone' not in x and x != '-Xclang']
    cmd = ['clang'] + flags + ['-fsanitize=address,undefined', '-fno-sanitize=float-divide-by-zero,float-cast-overflow,pointer-overflow', '-g'] + C.flags + ['-D' + d for d in C.defs] + \
        ['-DNDEBUG', '-DCGLM_STATIC', '-I' + build.REPO + '/include', cf, '-o', ex, '-lm']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: return dict(kind='replay-error', note='driver does not compile: ' + r.stderr[:1500])
    try: p = subprocess.run([ex], preexec_fn=build.cpu(120), capture_output=True, text=True, errors='replace', timeout=90, cwd=workdir, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0', UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1'))
    except subprocess.TimeoutExpired as e:
        o = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
        last = (re.findall(r'RUN (.*)', o) or ['?'])[-1]
        return dict(kind='confirmed', function=name, config=C.name, api=api, cell='termination', input=last, observed='no return within 90 s', required='the loop ends after one pass over the array', method='compiled code under ASan/UBSan', program=src, compile=' '.join(cmd))
    last = (re.findall(r'RUN (.*)', p.stdout) or ['?'])[-1]
    m = re.search(r'DEVIATES (.*) observed=(\S+) required=(\S+)', p.stdout)
    if m: return dict(kind='confirmed', function=name, config=C.name, api=api, cell='element', input=m.group(1), observed=m.group(2), required=m.group(3), method='compiled code under ASan/UBSan', program=src, compile=' '.join(cmd))
    if p.returncode: return dict(kind='confirmed', function=name, config=C.name, api=api, cell='memory safety', input=last, observed='program ends with status %s: %s' % (p.returncode, p.stderr[:1500]), required='every access inside the arrays', method='compiled code under ASan/UBSan', program=src, compile=' '.join(cmd))
    return None
