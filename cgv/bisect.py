"""glm_decasteljau: contract of an iterative solver, decided by a loop invariant.

Ghost state: an interval [U, V] of the curve parameter.  With b the blossom of
the cubic (b(s,s,s) = B(s)), the invariant is
    0 <= U <= V <= 1,   B(U) <= prm <= B(V),
    every live cell of the loop is the affine combination, fixed for the whole
    loop, of b(U,U,U), b(U,U,V), b(U,V,V), b(V,V,V), U, V and the arguments.
The affine combinations are found from executions along sampled inputs and then
proved: on entry (U, V) = (0, 1); each way round the loop halves [U, V] on the
side that keeps the bracket.  Every value returned is 0 or 1 for an argument at
or outside the end points, or (U+V)/2 of an interval with the invariant, where
|B((U+V)/2) - prm| < 1e-9 or the interval has been halved at least 64 times.
"""
import time
from fractions import Fraction
import z3
from . import dag as D
from .dag import Node, TRUE, FALSE
from .exe import Exec, State, UNDEF, Ptr, Unsupported, LoopBound, STOP
from .ir import IRError
from .verify import FnResult, Ob, Verifier
from .prove import Prover
from .contract import REG
from .loops import loops_of, BV, Fail

EPS = Fraction(1, 10**9); SMALL = Fraction(1, 10**20); MINHALVINGS = 64
SPECS = {'glm_decasteljau': 'inline', 'glmc_decasteljau': 'call'}
ARGS = ('prm', 'p0', 'c0', 'c1', 'p1')

def add(*xs):
    r = xs[0]
    for x in xs[1:]: r = D.fadd(r, x)
    return r
def mul(*xs):
    r = xs[0]
    for x in xs[1:]: r = D.fmul(r, x)
    return r
def blossom(P, a, b, c):
    """symmetric multi-affine form of the cubic with control values P"""
    one = D.const(1); A, B, C = (D.fsub(one, x) for x in (a, b, c))
    return add(mul(P[0], A, B, C), mul(P[1], add(mul(a, B, C), mul(A, b, C), mul(A, B, c))), mul(P[2], add(mul(a, b, C), mul(a, B, c), mul(A, b, c))), mul(P[3], a, b, c))
def fbez(P, t): s = 1 - t; return P[0] * s**3 + 3 * P[1] * s * s * t + 3 * P[2] * s * t * t + P[3] * t**3
def fblossom(P, a, b, c):
    A, B, C = 1 - a, 1 - b, 1 - c
    return P[0] * A * B * C + P[1] * (a * B * C + A * b * C + A * B * c) + P[2] * (a * b * C + a * B * c + A * b * c) + P[3] * a * b * c

class Exact:
    """values of terms at rational arguments"""
    def __init__(s, env): s.env = env; s.memo = {}
    def __call__(s, n):
        if isinstance(n, (int, Fraction)): return n
        for x in D.topo(n):
            if x.id in s.memo: continue
            o = x.op; A = x.args; v = lambda i: s.memo[A[i].id]
            if o == 'c': r = A[0]
            elif o == 'ic': r = A[0]
            elif o == 'fsp' and A[0] == '-0': r = Fraction(0)
            elif o == 'var': r = s.env[A[0]]
            elif o == 'add': r = v(0) + v(1)
            elif o == 'sub': r = v(0) - v(1)
            elif o == 'mul': r = v(0) * v(1)
            elif o == 'div': r = v(0) / v(1)
            elif o == 'neg': r = -v(0)
            elif o == 'abs': r = abs(v(0))
            elif o == 'ite': r = v(1) if v(0) else v(2)
            elif o == 'not': r = not v(0)
            elif o == 'and': r = all(s.memo[a.id] for a in A)
            elif o == 'true': r = True
            elif o == 'false': r = False
            elif o == 'fcmp':
                a, b = s.memo[A[1].id], s.memo[A[2].id]; p = A[0][1:]
                r = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'rd': True, 'no': False}[p]
            elif o in ('isnan', 'isinf'): r = False
            else: raise Unsupported('exact value of ' + o)
            s.memo[x.id] = r
        return s.memo[n.id]

def real(v):
    """the number, where it was stored through an integer type (vector code)"""
    if not isinstance(v, Node): return v
    if v.op == 'fbits': return v.args[0]
    if v.op == 'ite' and v.sort == 'i32':
        a, b = real(v.args[1]), real(v.args[2])
        if isinstance(a, Node) and isinstance(b, Node) and a.sort == b.sort == 'f': return D.ite(v.args[0], a, b)
    return v

class BExec(Exec):
    def __init__(self, mod, env=None, fits=None, bound=None):
        super().__init__(mod, None)
        self.exact = Exact(env) if env else None; self.env = env; self.fits = fits; self.bound = bound
        self.loop_handler = BExec.on_block; self.visits = {}; self.heads = {}; self.obl = []; self._names = {}
        self.deadline = time.time() + 100; self.t_smt = 0.0; self.smt = 0; self.cut = None
    def lit_known(self, st, c):
        c = super().lit_known(st, c)
        if self.exact is None or c is TRUE or c is FALSE: return c
        return TRUE if self.exact(c) else FALSE
    def new_obj(self, st, name, size, align, ro=False, kind='alloca'):
        o = super().new_obj(st, name, size, align, ro, kind); self._names[o.id] = o; return o
    def cells(self, st):
        for oid, cs in st.mem.items():
            o = self._names.get(oid)
            if o is None or o.ro: continue
            for off, (sz, v) in cs.items(): yield (o.name, off), oid, off, sz, real(v)
    def on_block(self, f, env, st, blk, prev):
        if time.time() > self.deadline: raise LoopBound('time limit')
        ls = loops_of(f)
        if blk not in ls: return None
        if any(I.op == 'phi' for I in f.blocks[blk]): raise Unsupported('phi at a loop head')
        key = (f.name, blk); back = prev in ls[blk]
        if self.env is not None:
            k = self.visits.setdefault(key, [])
            k.append({c: v for c, _, _, _, v in self.cells(st)})
            if len(k) > 9: raise LoopBound('enough')
            return None
        if back:
            if self.cut != key: raise Unsupported('second loop')
            self.backedge(st); return STOP
        if self.cut is not None: raise Unsupported('second loop')
        self.cut = key; self.enter(f, st, blk)
        return None

    # -- proofs
    def note(self, kind, label, ok, be, why=''):
        self.obl.append((kind, label, bool(ok), '' if ok else why, be))
        if not ok: raise Fail
    def split(self, pc):
        fl = []; it = []
        for x in pc:
            for y in (x.args if x.op == 'and' else (x,)):
                s = {v.sort[0] for v in D.free_vars(y)}
                if 'f' not in s: it.append(y)
                elif 'i' not in s: fl.append(y)
        return fl, it
    def implied(self, pc, goal, extra=()):
        pr = Prover(None); r = pr.implied(list(pc) + list(extra), goal); self.t_smt += pr.t_smt; self.smt += pr.smt_calls
        return r.status == 'proved'
    def intimplied(self, facts, goal):
        if goal is TRUE: return True
        E = BV(); s = z3.SolverFor('QF_BV'); s.set('timeout', 15000)
        for x in facts: s.add(E.b(x))
        s.add(z3.Not(E.b(goal))); t0 = time.time(); r = s.check(); self.t_smt += time.time() - t0; self.smt += 1
        return r == z3.unsat
    def equal(self, a, b, req=()):
        if not isinstance(a, Node): return False
        pr = Prover(None, requires=list(req)); r = pr.equal(a, b); self.t_smt += pr.t_smt; self.smt += pr.smt_calls
        return r.status == 'proved'

    def ghost(self, P, prm, U, V):
        return [blossom(P, U, U, U), blossom(P, U, U, V), blossom(P, U, V, V), blossom(P, V, V, V), U, V, prm, P[0], P[1], P[2], P[3], D.const(1)]
    def affine(self, co, g):
        r = None
        for c, x in zip(co, g):
            if c == 0: continue
            t = D.fmul(D.const(c), x); r = t if r is None else D.fadd(r, t)
        return r if r is not None else D.const(0)
    def enter(self, f, st, blk):
        A = self.args; P = A[1:]; prm = A[0]; t = D.var('t', 'i64')
        U, V = D.var('U'), D.var('V'); Z, O = D.const(0), D.const(1)
        self.U, self.V, self.t = U, V, t
        self.label = 'loop %s %s' % (f.name, blk.lstrip('%'))
        self.g0 = self.ghost(P, prm, U, V)
        fit = self.fits[self.cut]; self.cell = {}
        fl, it = self.split(st.pc)
        self.note('invariant-entry', self.label + ': B(0) <= prm <= B(1)', self.implied(fl, D.fcmp('ole', P[0], prm)) and self.implied(fl, D.fcmp('ole', prm, P[3])), 'smt:z3', 'the argument may lie outside the end points')
        ge = self.ghost(P, prm, Z, O)
        for key, oid, off, sz, v in list(self.cells(st)):
            k = fit.get(key)
            if k is None or k[0] == 'vary': self.cell[oid, off] = ('vary', key); st.mem[oid][off] = (sz, UNDEF); continue
            if k[0] == 'const': self.cell[oid, off] = ('const', key, v); continue
            if k[0] == 'int':
                w = 8 * sz; self.cell[oid, off] = ('int', key, v, k[1], w)
                st.mem[oid][off] = (sz, self.intcell(v, k[1], w, t)); continue
            self.note('invariant-entry', '%s: %s+%d is its combination of the control values of [0,1]' % ((self.label,) + key), self.equal(v, self.affine(k[1], ge)), 'normal-form', 'value is %s' % (D.show(v) if isinstance(v, Node) else v))
            self.cell[oid, off] = ('affine', key, k[1])
            st.mem[oid][off] = (sz, self.affine(k[1], self.g0))
        for key, k in fit.items():       # a cell the loop needs but which does not exist on entry is indeterminate there
            pass
        self.inv_f = [D.fcmp('ole', Z, U), D.fcmp('ole', U, V), D.fcmp('ole', V, O), D.fcmp('ole', self.g0[0], prm), D.fcmp('ole', prm, self.g0[3])]
        self.inv_i = [D.bnot(D.icmp('ult', self.bound, t, 64))] if self.bound is not None else []
        st.pc = st.pc + tuple(self.inv_f[:3]) + tuple(self.inv_i)
        self.mem0 = {oid: dict(c) for oid, c in st.mem.items()}
    def intcell(self, v, s, w, t):
        tt = D.itrunc(t, w) if w < 64 else t
        return D._unw(D.iop('add', v, D.iop('mul', tt, s & ((1 << w) - 1), w), w))
    def backedge(self, st):
        U, V, prm, P = self.U, self.V, self.args[0], self.args[1:]
        fl, it = self.split(st.pc)
        M = D.fmul(D.fadd(U, V), D.const(Fraction(1, 2))); F = blossom(P, M, M, M); self.M = M; self.F = F
        gr, gl = self.ghost(P, prm, M, V), self.ghost(P, prm, U, M)
        t1 = D.iop('add', self.t, 1, 64)
        for x in self.inv_i: self.note('invariant-preserved', self.label + ': the number of rounds is bounded', self.intimplied(it, D.bnot(D.icmp('ult', self.bound, t1, 64))), 'smt:z3(bit-vectors)')
        todo = []
        for (oid, off), c in self.cell.items():
            got = real(st.mem[oid].get(off, (0, UNDEF))[1]); nm = '%s+%d' % c[1]
            if c[0] == 'vary': continue
            if c[0] == 'const':
                v = c[2]; same = got is v or (not isinstance(v, Node) and got == v) or (isinstance(v, Node) and isinstance(got, Node) and v.sort == 'f' and self.equal(got, v, fl))
                self.note('invariant-preserved', '%s: %s is unchanged' % (self.label, nm), same, 'normal-form')
            elif c[0] == 'int':
                self.note('invariant-preserved', '%s: %s counts by %d' % (self.label, nm, c[3]), isinstance(got, (int, Node)) and self.intimplied(it, D.icmp('eq', got, self.intcell(c[2], c[3], c[4], t1), c[4])), 'smt:z3(bit-vectors)')
            else: todo.append((nm, c, got))
        best = None
        for cond in (D.fcmp('olt', F, prm), D.fcmp('ole', F, prm)):
            res = [(nm, self.equal(got, D.ite(cond, self.affine(c[2], gr), self.affine(c[2], gl)), fl), got) for nm, c, got in todo]
            if best is None or sum(r for _, r, _ in res) > sum(r for _, r, _ in best): best = res
            if all(r for _, r, _ in res): break
        for nm, ok, got in best: self.note('invariant-preserved', '%s: %s follows the half of [U,V] that keeps the bracket' % (self.label, nm), ok, 'normal-form+cases', 'value is %s' % (D.show(got)[:400] if isinstance(got, Node) else 'indeterminate'))
        self.note('invariant-preserved', self.label + ': 0 <= U <= (U+V)/2 <= V <= 1', self.implied(self.inv_f[:3], D.band(D.fcmp('ole', U, M), D.fcmp('ole', M, V))), 'smt:z3')

    def leaves(self, r, conds, out, seen=0):
        if isinstance(r, Node) and r.op == 'ite':
            c = r.args[0]
            if c in conds: return self.leaves(r.args[1], conds, out)
            if D.bnot(c) in conds: return self.leaves(r.args[2], conds, out)
            self.leaves(r.args[1], conds + (c,), out); self.leaves(r.args[2], conds + (D.bnot(c),), out)
        else: out.append((r, conds))
    def dnf(self, facts):
        """the alternatives of a conjunction of path facts"""
        out = [()]
        for x in facts:
            if x.op == 'and': alts = self.dnf(x.args)
            elif x.op == 'not' and x.args[0].op == 'and':
                alts = []
                for y in x.args[0].args: alts += self.dnf((D.bnot(y),))
            else: alts = [(x,)]
            out = [a + tuple(z for z in b if z not in a) for a in out for b in alts if not any(D.bnot(z) in a for z in b)]
            if len(out) > 200: raise Unsupported('too many paths')
        return out
    def post(self, r, st):
        A = self.args; prm, P = A[0], A[1:]
        lo = D.fcmp('olt', D.fsub(prm, P[0]), D.const(SMALL)); hi = D.fcmp('olt', D.fsub(P[3], prm), D.const(SMALL))
        out = []
        for facts in self.dnf(st.pc): self.leaves(r, facts, out)
        U = getattr(self, 'U', None); i = 0
        for v, conds in out:
            fl, it = self.split(conds)
            inv = list(self.inv_f[:3]) if U is not None else []; inv_i = self.inv_i if U is not None else []
            base = list(conds) + ([] if U is None else [])
            if self.implied(fl, FALSE, inv) or (it and self.intimplied(it + inv_i, FALSE)): continue       # not a path
            i += 1
            if self.implied(fl, lo): self.note('postcondition', 'path %d: argument at or below the first end point gives 0' % i, self.equal(v, D.const(0), fl), 'normal-form', 'result is %s' % D.show(v)); continue
            notlo = self.implied(fl, D.bnot(lo))
            if notlo and self.implied(fl, hi): self.note('postcondition', 'path %d: argument at or above the last end point gives 1' % i, self.equal(v, D.const(1), fl), 'normal-form', 'result is %s' % D.show(v)); continue
            if U is None: self.note('postcondition', 'path %d' % i, False, 'executor', 'result without search: %s' % D.show(v))
            self.note('postcondition', 'path %d: only arguments strictly between the end points are searched for' % i, notlo and self.implied(fl, D.bnot(hi)), 'smt:z3', 'cases differ from the contract')
            M = D.fmul(D.fadd(U, self.V), D.const(Fraction(1, 2))); F = blossom(P, M, M, M)
            self.note('postcondition', 'path %d: result is the middle of [U,V]' % i, self.equal(v, M, fl + inv), 'normal-form+cases', 'result is %s' % D.show(v))
            near = D.fcmp('olt', D.fabs_(D.fsub(F, prm)), D.const(EPS))
            ok = self.implied(fl, near, inv); be = 'smt:z3'
            if not ok: ok = self.intimplied(it + inv_i, D.bnot(D.icmp('ult', self.t, MINHALVINGS, 64))); be = 'smt:z3(bit-vectors)'
            self.note('postcondition', 'path %d: the curve meets the value within 1e-9 there, or the bracket has been halved at least %d times' % (i, MINHALVINGS), ok, be, 'neither holds')
        self.note('postcondition', 'every argument is covered', i >= 3, 'executor', '%d paths' % i)

def solve(rows, ys):
    """exact solution c of rows*c = ys, or None"""
    n = len(rows[0]); M = [list(r) + [y] for r, y in zip(rows, ys)]; piv = []; r = 0
    for c in range(n):
        p = next((i for i in range(r, len(M)) if M[i][c] != 0), None)
        if p is None: continue
        M[r], M[p] = M[p], M[r]; q = M[r][c]; M[r] = [x / q for x in M[r]]
        for i in range(len(M)):
            if i != r and M[i][c] != 0: k = M[i][c]; M[i] = [x - k * y for x, y in zip(M[i], M[r])]
        piv.append(c); r += 1
    if any(all(x == 0 for x in m[:-1]) and m[-1] != 0 for m in M): return None
    out = [Fraction(0)] * n
    for i, c in enumerate(piv): out[c] = M[i][-1]
    return out

SAMPLES = [(Fraction(3, 10), 0, Fraction(2, 10), Fraction(9, 10), 1), (Fraction(-7, 3), -5, -4, 2, 8), (Fraction(13, 7), Fraction(1, 2), Fraction(11, 3), Fraction(-1, 3), 4), (Fraction(71, 10), -1, 5, 3, Fraction(29, 4)), (Fraction(-19, 20), -1, Fraction(-3, 2), 7, 3)]

class BisectVerifier:
    def __init__(self, mod, cfg, quick=True): self.m = mod; self.cfg = cfg; self.memo = {}
    def sample(self, name):
        vis = {}
        for s in SAMPLES:
            env = dict(zip(ARGS, map(Fraction, s))); ex = BExec(self.m, env); st = State()
            ex.args = [D.var(a) for a in ARGS]
            try: ex.call_function(st, name, list(ex.args))
            except LoopBound: pass
            P = [env[a] for a in ARGS[1:]]; prm = env['prm']
            for key, vs in ex.visits.items():
                U, V = Fraction(0), Fraction(1)
                for v in vs:
                    row = [fblossom(P, U, U, U), fblossom(P, U, U, V), fblossom(P, U, V, V), fblossom(P, V, V, V), U, V, prm] + P + [Fraction(1)]
                    vis.setdefault(key, []).append((env['prm'], row, {c: (x if not isinstance(x, Node) else ex.exact(x) if x.sort == 'f' else x) for c, x in v.items()}, v))
                    M = (U + V) / 2
                    if fbez(P, M) < prm: U = M
                    else: V = M
        fits = {}
        for key, vs in vis.items():
            fits[key] = fit = {}
            for c in set().union(*[v[2] for v in vs]):
                pts = [(p, row, v[c], raw[c]) for p, row, v, raw in vs if c in v]
                first = [v for p, row, v, raw in vs[:1]]
                xs = [x for _, _, x, _ in pts]
                if all(isinstance(x, Ptr) for x in xs) or any(not isinstance(x, (int, Fraction)) or isinstance(x, bool) for x in xs): fit[c] = ('const',) if len({str(x) for x in xs}) == 1 else ('vary',); continue
                if isinstance(pts[0][3], Node) and len({id(r) for _, _, _, r in pts}) == 1: fit[c] = ('const',); continue
                if all(isinstance(x, int) and not isinstance(x, Fraction) for x in xs):
                    if len(set(xs)) == 1: fit[c] = ('const',); continue
                    ds = {b[2] - a[2] for a, b in zip(pts, pts[1:]) if a[0] == b[0]}
                    fit[c] = ('int', ds.pop()) if len(ds) == 1 else ('vary',); continue
                if len(pts) != len(vs): fit[c] = ('vary',); continue
                co = solve([row for _, row, _, _ in pts], [Fraction(x) for x in xs])
                fit[c] = ('affine', co) if co is not None else ('vary',)
        return fits
    def consts(self, name):
        import re
        out = {1000}
        for fn in ('glm_decasteljau', name):
            if self.m.has(fn):
                for l in self.m.ftext.get(fn, ()):
                    mm = re.search(r'icmp \w+ i\d+ .*, (-?\d+)\b', l)
                    if mm: out |= {abs(int(mm.group(1))) + d for d in (0, 1)}
                    mm = re.search(r'store i\d+ (-?\d+),', l)
                    if mm: out |= {abs(int(mm.group(1))) + d for d in (0, 1)}
        return sorted(x for x in out if x > 1)
    def verify(self, name):
        r = self.memo.get(name)
        if r is not None: return r
        t0 = time.time(); res = FnResult(name, self.cfg); ex = None
        try:
            if not self.m.has(name): raise IRError('no definition of %s in this configuration' % name)
            fits = self.sample(name)
            if not fits: raise Unsupported('no loop was reached')
            for bound in self.consts(name):
                ex = BExec(self.m, None, fits, bound); st = State(); ex.args = [D.var(a) for a in ARGS]
                try:
                    r = ex.call_function(st, name, list(ex.args))
                    if not isinstance(r, Node): raise Unsupported('result is %r' % (r,))
                    ex.post(r, st); break
                except Fail:
                    if not ('bounded' in ex.obl[-1][1]): break
        except Fail: pass
        except (Unsupported, LoopBound, IRError, KeyError, NotImplementedError, AttributeError, TypeError, ValueError, IndexError, RecursionError, z3.Z3Exception, ZeroDivisionError) as e:
            import traceback
            res.error = '%s: %s' % (type(e).__name__, e); res.trace = traceback.format_exc()
        if ex is not None:
            for kind, label, ok, why, be in ex.obl: res.obs.append(Ob(name, kind, label, 'proved' if ok else 'failed', be, note=why))
            for o in ex.obs: res.obs.append(Ob(name, o.kind, o.msg, 'proved' if ex.implied(ex.split(o.pc)[0], o.cond) or ex.intimplied(ex.split(o.pc)[1], o.cond) else 'failed', 'smt:z3'))
            for k, c in ex.discharged.items(): res.counts[k] = res.counts.get(k, 0) + c
            res.inlined = sorted(ex.inlined); res.t_smt = ex.t_smt; res.smt_calls = ex.smt
        if not res.error and not any(o.kind == 'postcondition' for o in res.obs) and all(o.status == 'proved' for o in res.obs): res.error = 'Unsupported: no postcondition was reached'
        res.time = time.time() - t0; self.memo[name] = res
        return res

DRIVER = '''
static double cgv_b(double t, double a, double b, double c, double d) { double s = 1 - t; return a*s*s*s + 3*b*s*s*t + 3*c*s*t*t + d*t*t*t; }
static uint32_t cgv_r = 4711; static double cgv_u(void) { cgv_r = cgv_r * 1664525u + 1013904223u; return (cgv_r >> 8) / 16777216.0; }
static void cgv_try(float x, float a, float b, float c, float d) {
  volatile float r; float want; int bad;
  printf("RUN prm=%.9g p0=%.9g c0=%.9g c1=%.9g p1=%.9g\\n", x, a, b, c, d); fflush(stdout);
  r = FN(x, a, b, c, d);
  if (x - a < 1e-20f) { want = 0; bad = !(r == 0.0f); }
  else if (d - x < 1e-20f) { want = 1; bad = !(r == 1.0f); }
  else { double sc = fabs(a) + fabs(b) + fabs(c) + fabs(d); want = x; bad = !(r >= 0.0f && r <= 1.0f && fabs(cgv_b(r, a, b, c, d) - x) <= 3e-6 * sc); }
  if (bad) { printf("DEVIATES prm=%.9g p0=%.9g c0=%.9g c1=%.9g p1=%.9g observed=result:%.9g,curve:%.9g required=%s%.9g\\n", x, a, b, c, d, r, cgv_b(r, a, b, c, d), (x - a < 1e-20f || d - x < 1e-20f) ? "result:" : "curve:", want); fflush(stdout); exit(3); }
}
int main(void) {
  int k; float a, b, c, d;
  for (k = 0; k < 20000; k++) {
    double s = k % 5 == 0 ? 1.0 : k % 5 == 1 ? 1000.0 : k % 5 == 2 ? 1e-3 : k % 5 == 3 ? 20.0 : 1e4;
    if (k % 7 == 0) { a = 0; b = (float)cgv_u(); c = (float)cgv_u(); d = 1; }
    else { a = (float)((cgv_u() - 0.5) * s); d = a + (float)(cgv_u() * s); b = (float)((cgv_u() - 0.5) * s); c = (float)((cgv_u() - 0.5) * s);
      if (k % 3 == 0) { b = a + (d - a) * (float)(cgv_u() * 0.5); c = a + (d - a) * (float)(0.5 + cgv_u() * 0.5); } }
    cgv_try(a + (d - a) * (float)cgv_u(), a, b, c, d);
    cgv_try(a, a, b, c, d); cgv_try(d, a, b, c, d); cgv_try(a - 1, a, b, c, d); cgv_try(d + 1, a, b, c, d);
    cgv_try((float)cgv_b(0.5, a, b, c, d), a, b, c, d); cgv_try(a + (d - a) * 1e-4f, a, b, c, d); cgv_try(a + (d - a) * 0.9999f, a, b, c, d); cgv_try(a + (d - a) * 0.5f, a, a, d, d);
  }
  return 0;
}
'''
def search(C, api, name, workdir, sigs):
    import os, subprocess, re
    from . import build
    if not C.run: return None
    src = '#define _GNU_SOURCE 1\n' + build.tu_text(C, api) + DRIVER.replace('FN(', name + '(')
    cf = os.path.join(workdir, 'bis_%s_%s.c' % (name, C.name)); ex = cf[:-2]
    with open(cf, 'w') as f: f.write(src)
    flags = [x for x in build.BASE if x not in ('-S', '-emit-llvm', '-fno-discard-value-names') and 'passes' not in x and 'optnone' not in x and x != '-Xclang']
    cmd = ['clang'] + flags + ['-O1'] + C.flags + ['-D' + d for d in C.defs] + ['-DNDEBUG', '-DCGLM_STATIC', '-I' + build.REPO + '/include', cf, '-o', ex, '-lm']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: return dict(kind='replay-error', note='driver does not compile: ' + r.stderr[:1500])
    try: p = subprocess.run([ex], preexec_fn=build.cpu(120), capture_output=True, text=True, timeout=60, cwd=workdir)
    except subprocess.TimeoutExpired as e:
        o = e.stdout.decode() if isinstance(e.stdout, bytes) else e.stdout or ''
        return dict(kind='confirmed', function=name, config=C.name, api=api, cell='termination', input=(re.findall(r'RUN (.*)', o) or ['?'])[-1], observed='no return within 60 s', required='a result', method='compiled code', program=src, compile=' '.join(cmd))
    m = re.search(r'DEVIATES (.*) observed=(\S+) required=(\S+)', p.stdout)
    if m: return dict(kind='confirmed', function=name, config=C.name, api=api, cell='result', input=m.group(1), observed=m.group(2), required=m.group(3), method='compiled code', program=src, compile=' '.join(cmd))
    if p.returncode: return dict(kind='confirmed', function=name, config=C.name, api=api, cell='result', input=(re.findall(r'RUN (.*)', p.stdout) or ['?'])[-1], observed='program ends with status %s' % p.returncode, required='a result', method='compiled code', program=src, compile=' '.join(cmd))
    return None
