"""Discharging obligations: normal forms, case splitting, SMT (z3, cvc5)."""
import time, os
from fractions import Fraction
from . import dag as D
from .dag import Node, TRUE, FALSE
from . import norm
from .norm import NF, Rat, TooBig, Rebase, mono_items, SH

class Result:
    __slots__ = ('status', 'backend', 'leaf', 'cases', 'note', 'model')
    def __init__(s, status, backend='', leaf=None, cases=1, note='', model=None):
        s.status = status; s.backend = backend; s.leaf = leaf; s.cases = cases; s.note = note; s.model = model
    def __repr__(s): return 'Result(%s,%s,%s)' % (s.status, s.backend, s.note)

class Prover:
    def __init__(self, rules=None, approx_exact=True, requires=(), max_leaves=600, smt_timeout=4000, budget=60, rationalize=False):
        self.rationalize = rationalize; self.sweepfirst = False; self.inner = False; self.limit = None; self.bits = False
        self.rules = rules; self.approx_exact = approx_exact
        self.requires = list(requires)       # boolean nodes assumed true
        self.N = NF(rules, approx_exact); self.N.rationalize = rationalize
        self.max_leaves = max_leaves
        self.smt_timeout = smt_timeout
        self.budget = budget
        self.t_smt = 0.0
        self.smt_calls = 0
        self.root_assume()

    def root_assume(self):
        for _ in range(20):
            try:
                for r in self.requires: self.assume_node(self.N, r)
                return
            except Rebase: self.reset()

    def assume_node(self, N, r):
        k = N.bkey(r)
        ks = k[1] if isinstance(k, tuple) and k[0] == 'and' else [k]
        for q in ks:
            if isinstance(q, tuple) and q[0] == 'lit':
                N2 = N.clone(q[1], q[2])
                N.assume.update(N2.assume)
                N.memo = {}; N.bmemo = {}

    def reset(self):
        b = self.N.bases
        self.N = NF(self.rules, self.approx_exact); self.N.rationalize = self.rationalize
        if self.limit: self.N.limit = self.limit
        self.N.bases = b

    # ---- equality of two nodes ----------------------------------------------
    def equal(self, a, b):
        if a is b: return Result('proved', 'identical')
        if a.sort != b.sort:
            return Result('unknown', note='sort mismatch %s/%s' % (a.sort, b.sort))
        if self.bits == 'nan':       # equal as real functions, and the same result whenever some input is NaN
            from .contract import CTX
            r = self.equal_fp(a, b) if CTX.cfg != 'fastmath' else None
            if r and r.status == 'failed': return r
            self.bits = False
            try: q = self.equal(a, b)
            finally: self.bits = 'nan'
            return r if q.status == 'proved' and r and r.status != 'proved' else q
        if self.bits:
            r = self.equal_fp(a, b)
            if r.status != 'unknown' or self.bits != 'move': return r
        if a.sort[0] == 'i': return self.equal_int(a, b)
        if self.sweepfirst: r = self.sweep(a, b)
        else: r = None
        if r is None: r = self.equal1(a, b)
        if r.status != 'proved' and not self.sweepfirst and not self.inner and a.sort == 'f' and r.status == 'unknown':
            r = self.sweep(a, b) or r
        return r

    def sweep(self, a, b):
        from .sweep import sweep
        rules, ax = self.rules, self.approx_exact
        def prove(x, y, reqs):
            p = Prover(rules, ax, reqs, max_leaves=64, smt_timeout=300, budget=3)
            p.inner = True; p.N.limit = 20000; p.limit = 20000
            r = p.equal(x, y)
            self.t_smt += p.t_smt; self.smt_calls += p.smt_calls
            return r.status == 'proved'
        ok, n = sweep(prove, a, b, self.requires, time.time() + self.budget)
        return Result('proved', 'normal-form+cuts(%d)' % n) if ok else None

    def equal1(self, a, b):
        if a.sort == 'b':
            r = self.conjuncts(a, b)
            if r is not None: return r
        for attempt in range(30):
            try:
                self.leaves = 0; self.deadline = time.time() + self.budget
                return self.split(self.N, a, b, [])
            except Rebase:
                self.reset(); self.root_assume()
            except TooBig as e:
                return Result('unknown', note='normal form too big: %s' % e)
            except RecursionError:
                return Result('unknown', note='recursion')
        return Result('unknown', note='angle rebasing did not settle')

    def conjuncts(self, a, b):
        """(c1 and .. and cn) == (d1 and .. and dn) from ci == di"""
        neg = lambda n: n.args[0] if n.op == 'not' else D.bnot(n)
        for f in (lambda n: n, neg):
            x, y = f(a), f(b)
            if x.op != 'and' or y.op != 'and': continue
            xs, ys = list(x.args), list(y.args)
            xs, ys = [q for q in xs if q not in y.args], [q for q in ys if q not in x.args]
            if len(xs) != len(ys) or len(x.args) == 1 or len(xs) > 12: continue
            if len(xs) == len(x.args) and len(xs) < 4: continue
            cases = 0; be = 'normal-form'
            save = self.budget; self.budget = min(self.budget, 8)
            try:
                for q in xs:
                    hit = None
                    for k, w in enumerate(ys):
                        r = self.equal(q, w)
                        if r.status == 'proved': hit = k; cases += r.cases; be = r.backend; break
                        if r.note == 'case-split limit': break
                    if hit is None: break
                    ys.pop(hit)
                else: return Result('proved', be, cases=cases)
            finally: self.budget = save
        return None

    def same(self, N, a, b):
        if a.sort == 'b':
            ka, kb = N.bkey(a), N.bkey(b)
            return ka == kb, ka, kb
        ra, rb = N.nf(a), N.nf(b)
        return N.eq(ra, rb), ra, rb

    def split(self, N, a, b, path):
        ok, ra, rb = self.same(N, a, b)
        if ok: return Result('proved', 'normal-form')
        # undefined spec value (x/0) in this case: nothing is claimed
        if a.sort == 'f' and self.undef(N, rb): return Result('proved', 'spec-undefined-case')
        acc = {}
        if a.sort == 'b':
            N.lits_of_b(ra, acc); N.lits_of_b(rb, acc)
        else:
            N.lits_of(ra, acc); N.lits_of(rb, acc)
        acc = [l for l in acc if l not in N.assume]
        if a.sort == 'b' and acc and (not path or len(acc) < 3):
            r = self.linear(N, ra, rb)
            if r is not None: return r
        if len(acc) > 5 and not path:
            r = self.leaf(N, a, b, ra, rb, path, whole=True)
            if r.status == 'proved': return r
        if acc:
            acc.sort(key=lambda l: (self.ldepth(N, l), l))
            lid = acc[0]
            res = []; total = 0
            backend = 'normal-form+cases'
            for v in (True, False):
                M = N.clone(lid, v)
                # prune infeasible assumption sets cheaply
                self.leaves += 1
                if self.leaves > self.max_leaves or time.time() > self.deadline:
                    return Result('unknown', note='case-split limit')
                r = self.split(M, a, b, path + [(lid, v)])
                total += r.cases
                if r.status != 'proved': r.cases = total; return r
                if r.backend.startswith('smt') or r.backend.startswith('z3'): backend = r.backend
            return Result('proved', backend, cases=total)
        return self.leaf(N, a, b, ra, rb, path)

    def undef(self, N, r):
        for p in (r.n,) + tuple(N.fpoly(f) for f, e in r.d):
            for m in p:
                for i, e in mono_items(m):
                    if N.atoms[i].kind == 'undef': return True
        return False

    def ldepth(self, N, l):
        kind, r = N.lits[l]
        if not isinstance(r, Rat): return 0
        acc = {}
        N.lits_of(r, acc)
        return len([x for x in acc if x not in N.assume])

    def linear(self, N, ra, rb):
        """equivalence of two conditions in linear arithmetic over the monomials (sound: every
        product is an independent unknown)"""
        import z3
        t0 = time.time(); self.smt_calls += 1
        try:
            enc = Enc(N, lin=True)
            s = z3.SolverFor('QF_LRA'); s.set('timeout', 3000)
            cons = [enc.lit(lid, v) for lid, v in N.assume.items() if N.lits[lid][0] != 'op']
            cons.append(enc.bk(ra) != enc.bk(rb)); cons += enc.defs()
            s.add(*cons)
            if s.check() == z3.unsat: return Result('proved', 'smt:z3(linear)')
        except (TooBig, NotImplementedError, z3.Z3Exception): pass
        finally: self.t_smt += time.time() - t0
        return None

    # ---- SMT leaf -----------------------------------------------------------
    def leaf(self, N, a, b, ra, rb, path, whole=False):
        import z3
        t0 = time.time(); self.smt_calls += 1
        try:
            enc = Enc(N)
            s = z3.Solver(); s.set('timeout', 1500 if whole else self.smt_timeout)
            cons = []
            for lid, v in N.assume.items(): cons.append(enc.lit(lid, v))
            for q in self.requires: cons.append(enc.boolnode(q))
            if a.sort == 'b':
                goal = enc.bk(ra) != enc.bk(rb)
            else:
                if not path and not self.requires and not enc.relational(ra, rb):
                    return Result('failed', 'normal-form', leaf=(path, ra, rb), note='normal forms differ')
                goal = enc.poly(norm.pmul(ra.n, N.dpoly(rb.d), 100000)) != enc.poly(norm.pmul(rb.n, N.dpoly(ra.d), 100000))
                for f, e in set(ra.d) | set(rb.d): cons.append(enc.poly(N.fpoly(f)) != 0)
            cons.append(goal)
            cons += enc.defs()
            s.add(*[c for c in cons if c is not True])
            r = s.check()
            if r == z3.unsat: return Result('proved', 'smt:z3')
            if r == z3.sat:
                return Result('failed', 'smt:z3', leaf=(path, ra, rb), note='SMT counterexample', model=enc.model(s.model()))
            if whole: return Result('unknown')
            r2 = cvc5_check(s.to_smt2(), self.smt_timeout)
            if r2 == 'unsat': return Result('proved', 'smt:cvc5')
            return Result('failed' if r2 == 'sat' else 'unknown', 'smt', leaf=(path, ra, rb), note='z3: unknown, cvc5: %s' % r2)
        except TooBig as e:
            return Result('unknown', note=str(e))
        except NotImplementedError as e:
            return Result('unknown', note='no SMT encoding: %s' % e)
        finally:
            self.t_smt += time.time() - t0

    # ---- booleans: is cond implied by hypotheses? ------------------------------
    def implied(self, hyps, cond):
        """requires /\\ hyps => cond"""
        if cond is TRUE: return Result('proved', 'trivial')
        import z3
        for attempt in range(20):
            try:
                N = self.N
                k = N.bkey(cond)
                if k is True: return Result('proved', 'normal-form')
                for h in hyps:
                    if N.bkey(h) is False: return Result('proved', 'normal-form')
                self.smt_calls += 1
                t0 = time.time()
                try:
                    enc = Enc(N)
                    s = z3.Solver(); s.set('timeout', self.smt_timeout)
                    cons = [enc.boolnode(h) for h in list(hyps) + self.requires] + [z3.Not(enc.boolnode(cond))] + [enc.lit(l, v) for l, v in N.assume.items()]
                    cons += enc.defs()
                    s.add(*[c for c in cons if c is not True])
                    r = s.check()
                    if r == z3.unsat: return Result('proved', 'smt:z3')
                    if r == z3.sat: return Result('failed', 'smt:z3', model=enc.model(s.model()))
                    r2 = cvc5_check(s.to_smt2(), self.smt_timeout)
                    if r2 == 'unsat': return Result('proved', 'smt:cvc5')
                    return Result('unknown', 'smt')
                except NotImplementedError as e:
                    return Result('unknown', note=str(e))
                finally: self.t_smt += time.time() - t0
            except Rebase: self.reset(); self.root_assume()
            except TooBig as e: return Result('unknown', note=str(e))
        return Result('unknown')

    # ---- IEEE binary32, bit-precise -------------------------------------------
    def equal_fp(self, a, b):
        import z3
        t0 = time.time(); self.smt_calls += 1
        try:
            F = z3.Float32(); vs = {}; memo = {}
            def enc(n):
                r = memo.get(n.id)
                if r is None: r = memo[n.id] = enc1(n)
                return r
            def enc1(n):
                o, A = n.op, n.args
                if o == 'true': return z3.BoolVal(True)
                if o == 'false': return z3.BoolVal(False)
                if o == 'not': return z3.Not(enc(A[0]))
                if o == 'and': return z3.And(*[enc(x) for x in A])
                if o == 'ite': return z3.If(enc(A[0]), enc(A[1]), enc(A[2]))
                if o == 'isnan': return z3.fpIsNaN(enc(A[0]))
                if o == 'isinf': return z3.fpIsInf(enc(A[0]))
                if o == 'neg': return z3.fpNeg(enc(A[0]))
                if o == 'abs': return z3.fpAbs(enc(A[0]))
                if o == 'c': return z3.FPVal(float(A[0]), F)
                if o == 'fsp': return {'inf': z3.fpPlusInfinity(F), '-inf': z3.fpMinusInfinity(F), 'nan': z3.fpNaN(F), '-0': z3.fpMinusZero(F)}[A[0]]
                if o == 'var':
                    r = z3.FP(A[0], F) if n.sort == 'f' else z3.Bool(A[0]) if n.sort == 'b' else z3.BitVec(A[0], D.width(n))
                    vs[A[0]] = (r, n.sort); return r
                if o == 'fcmp':
                    x, y = enc(A[1]), enc(A[2])
                    r = {'eq': z3.fpEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}[A[0][1:]](x, y)
                    return z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y), r) if A[0][0] == 'u' else r
                if o in ('add', 'sub', 'mul', 'div'):
                    return {'add': z3.fpAdd, 'sub': z3.fpSub, 'mul': z3.fpMul, 'div': z3.fpDiv}[o](z3.RNE(), enc(A[0]), enc(A[1]))
                if o == 'fbits': return z3.fpToIEEEBV(enc(A[0]))
                if o == 'bitsf': return z3.fpBVToFP(enc(A[0]), F)
                if o == 'ic': return z3.BitVecVal(A[0], D.width(n))
                if o == 'icmp':
                    x, y = enc(A[1]), enc(A[2])
                    return {'eq': lambda: x == y, 'slt': lambda: x < y, 'ult': lambda: z3.ULT(x, y)}[A[0]]()
                if o in ('iand', 'ior', 'ixor', 'iadd', 'isub', 'ishl', 'ilshr'):
                    x, y = enc(A[0]), enc(A[1])
                    return {'iand': lambda: x & y, 'ior': lambda: x | y, 'ixor': lambda: x ^ y, 'iadd': lambda: x + y, 'isub': lambda: x - y, 'ishl': lambda: x << y, 'ilshr': lambda: z3.LShR(x, y)}[o]()
                if o in ('sext', 'zext'):
                    x = enc(A[0])
                    if z3.is_bool(x): x = z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
                    k = D.width(n) - x.size()
                    return z3.SignExt(k, x) if o == 'sext' else z3.ZeroExt(k, x)
                if o == 'trunc': return z3.Extract(D.width(n) - 1, 0, enc(A[0]))
                raise NotImplementedError('fp ' + o)
            s = z3.Solver(); s.set('timeout', max(self.smt_timeout, 20000))
            x, y = enc(a), enc(b)
            s.add(x != y if a.sort != 'f' else z3.And(z3.Not(z3.fpEQ(x, y)), z3.Not(z3.And(z3.fpIsNaN(x), z3.fpIsNaN(y)))))
            if self.bits == 'nan': s.add(z3.Or(*[z3.fpIsNaN(v) for v, sort in vs.values() if sort == 'f']))
            r = s.check()
            if r == z3.unsat: return Result('proved', 'smt:z3(IEEE-754)')
            if r == z3.sat:
                m = s.model(); md = {}
                for nm, (v, sort) in vs.items():
                    w = m.eval(v, model_completion=True)
                    if sort == 'f':
                        bv = z3.simplify(z3.fpToIEEEBV(w))
                        import struct
                        md[nm] = float('nan') if z3.is_true(z3.simplify(z3.fpIsNaN(w))) else struct.unpack('<f', struct.pack('<I', bv.as_long()))[0]
                    elif sort == 'b': md[nm] = z3.is_true(w)
                    else: md[nm] = w.as_long()
                return Result('failed', 'smt:z3(IEEE-754)', model=md, note='SMT counterexample')
            return Result('unknown', 'smt:z3', note='floating-point query undecided')
        except NotImplementedError as e: return Result('unknown', note='no IEEE encoding: %s' % e)
        finally: self.t_smt += time.time() - t0

    # ---- machine integers ---------------------------------------------------
    def equal_int(self, a, b):
        w = D.width(a)
        try:
            if ipoly(a, w, {}) == ipoly(b, w, {}): return Result('proved', 'ring-normal-form(mod 2^%d)' % w)
        except TooBig: pass
        import z3
        t0 = time.time(); self.smt_calls += 1
        try:
            enc = Enc(self.N)
            s = z3.Solver(); s.set('timeout', max(self.smt_timeout, 20000))
            cons = [enc.boolnode(q) for q in self.requires] + [enc.bv(a) != enc.bv(b)]
            cons += enc.defs()
            s.add(*[c for c in cons if c is not True])
            r = s.check()
            if r == z3.unsat: return Result('proved', 'smt:z3(bit-vectors)')
            if r == z3.sat: return Result('failed', 'smt:z3(bit-vectors)', model=enc.model(s.model()), note='SMT counterexample')
            return Result('unknown', 'smt:z3', note='bit-vector query undecided')
        except NotImplementedError as e:
            return Result('unknown', note='no SMT encoding: %s' % e)
        finally: self.t_smt += time.time() - t0

def ipoly(n, w, memo):
    """polynomial over Z/2^w, atoms = other nodes; dict monomial(tuple of ids) -> coeff"""
    r = memo.get(n.id)
    if r is not None: return r
    m = (1 << w) - 1
    o = n.op
    if o == 'ic': r = {(): n.args[0] & m} if n.args[0] & m else {}
    elif o in ('iadd', 'isub'):
        x, y = ipoly(n.args[0], w, memo), ipoly(n.args[1], w, memo)
        r = dict(x)
        for k, c in y.items():
            v = (r.get(k, 0) + (c if o == 'iadd' else -c)) & m
            if v: r[k] = v
            else: r.pop(k, None)
    elif o == 'imul':
        x, y = ipoly(n.args[0], w, memo), ipoly(n.args[1], w, memo)
        if len(x) * len(y) > 20000: raise TooBig('int')
        r = {}
        for k1, c1 in x.items():
            for k2, c2 in y.items():
                k = tuple(sorted(k1 + k2)); r[k] = (r.get(k, 0) + c1 * c2) & m
        r = {k: c for k, c in r.items() if c}
    elif o == 'ishl' and n.args[1].op == 'ic':
        r = {k: (c << n.args[1].args[0]) & m for k, c in ipoly(n.args[0], w, memo).items()}
        r = {k: c for k, c in r.items() if c}
    elif o == 'ite':
        x, y = ipoly(n.args[1], w, memo), ipoly(n.args[2], w, memo)
        if x == y: r = x
        else: r = {(('ite', n.args[0].id, tuple(sorted(x.items(), key=str)), tuple(sorted(y.items(), key=str))).__repr__(),): 1}
    else: r = {(str(n.id),): 1}
    memo[n.id] = r
    return r

class Enc:
    """SMT encoding of normal-form atoms, literals and raw nodes"""
    def __init__(self, N, lin=False):
        import z3
        self.z = z3; self.N = N; self.lin = lin; self.mono = {}; self.rats = {}
        self.av = {}; self.pending = []; self.done = []
        self.vars = {}
        self.dn = {}
        self.extra = []
    def avar(self, i):
        v = self.av.get(i)
        if v is None:
            a = self.N.atoms[i]
            nm = a.name if a.kind == 'var' else 'a%d_%s' % (i, a.name if isinstance(a.name, str) else a.kind)
            v = self.av[i] = self.z.Real(str(nm))
            if a.kind == 'var': self.vars[a.name] = v
            self.pending.append(i)
        return v
    def rc(self, c):
        f = Fraction(c)
        return self.z.RealVal(str(f.numerator) + '/' + str(f.denominator)) if f.denominator != 1 else self.z.RealVal(f.numerator)
    def poly(self, p):
        ts = []
        for m, c in p.items():
            t = None
            if self.lin:
                it = mono_items(m)
                if len(it) == 1 and it[0][1] == 1: t = self.avar(it[0][0])
                elif m:
                    t = self.mono.get(m)
                    if t is None: t = self.mono[m] = self.z.Real('m%d' % len(self.mono))
                if t is None: t = self.rc(c)
                elif c == -1: t = -t
                elif c != 1: t = self.rc(c) * t
                ts.append(t); continue
            for i, e in mono_items(m):
                v = self.avar(i)
                for _ in range(e): t = v if t is None else t * v
            if t is None: t = self.rc(c)
            elif c == -1: t = -t
            elif c != 1: t = self.rc(c) * t
            ts.append(t)
        if not ts: return self.z.RealVal(0)
        r = ts[0]
        for t in ts[1:]: r = r + t
        return r
    def rat(self, r):
        if not r.d: return self.poly(r.n)
        if self.lin:
            k = self.N.key(r); v = self.rats.get(k)
            if v is None: v = self.rats[k] = self.z.Real('q%d' % len(self.rats))
            return v
        d = None
        for f, e in r.d:
            p = self.poly(self.N.fpoly(f))
            self.extra.append(p != 0)
            for _ in range(e): d = p if d is None else d * p
        return self.poly(r.n) / d
    def lit(self, lid, v):
        kind, r = self.N.lits[lid]
        if kind == 'op':
            t = self.boolnode(r)
        else:
            t = self.poly(r.n)
            t = (t < 0) if kind == 'lt' else (t == 0)
        return t if v else self.z.Not(t)
    def bk(self, k):
        z = self.z
        if k is True or k is False: return z.BoolVal(k)
        if k[0] == 'lit': return self.lit(k[1], k[2])
        if k[0] == 'not': return z.Not(self.bk(k[1]))
        return z.And(*[self.bk(x) for x in k[1]])
    def relational(self, *rs):
        """do any atoms carry relations an SMT solver could exploit?"""
        for r in rs:
            for p in (r.n,) + tuple(self.N.fpoly(f) for f, e in r.d):
                for m in p:
                    for i, e in mono_items(m):
                        if self.N.atoms[i].kind != 'var': return True
        return False
    def defs(self):
        out = []; z = self.z
        while self.pending:
            i = self.pending.pop(); a = self.N.atoms[i]; v = self.av[i]
            if self.lin:
                if a.kind == 'ite': out.append(v == z.If(self.bk(a.name), self.rat(a.args[0]), self.rat(a.args[1])))
                elif a.name == 'sqrt':
                    out.append(v >= 0)
                    m2 = 2 << (SH * i)
                    if m2 in self.mono: out.append(self.mono[m2] == self.rat(a.args[0]))
                elif a.pos: out.append(v >= 0)
                elif a.name in ('sin', 'cos'): out += [v <= 1, v >= -1]
                continue
            if a.kind == 'var':
                if a.sq is not None: out.append(v * v == self.rat(a.sq))
                continue
            if a.name == 'sqrt':
                r = self.rat(a.args[0]); out += [v >= 0, v * v == r]
            elif a.name == 'sin':
                c = self.N.atom('fn', 'cos', a.args)
                cv = self.avar(c.i); out += [v * v + cv * cv == 1]
            elif a.name == 'cos': out += [v <= 1, v >= -1]
            elif a.kind == 'ite':
                out.append(v == z.If(self.bk(a.name), self.rat(a.args[0]), self.rat(a.args[1])))
            elif a.name == 'floor':
                r = self.rat(a.args[0]); k = z.Int('fl%d' % i)
                out += [v == z.ToReal(k), v <= r, r < v + 1]
            elif a.name in ('ceil', 'trunc', 'round', 'rint'):
                r = self.rat(a.args[0]); k = z.Int('fl%d' % i)
                out.append(v == z.ToReal(k))
                if a.name == 'ceil': out += [v >= r, v < r + 1]
                elif a.name == 'trunc': out.append(z.If(r >= 0, z.And(v <= r, r < v + 1), z.And(v >= r, v < r + 1)))
                else: out.append(z.And(2 * (v - r) <= 1, 2 * (r - v) <= 1))
            elif a.name == 'exp': out.append(v > 0)
            elif a.name == 'acos': out += [v >= 0]
        out += self.extra
        return out
    def model(self, m):
        out = {}
        for nm, v in self.vars.items():
            x = m.eval(v, model_completion=True)
            try:
                if self.z.is_bv_value(x): out[nm] = x.as_long(); continue
                if self.z.is_algebraic_value(x): x = x.approx(20)
                out[nm] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
            except Exception: out[nm] = 0.0
        return out
    # raw nodes -----------------------------------------------------------
    def boolnode(self, n):
        z = self.z
        if n is TRUE: return z.BoolVal(True)
        if n is FALSE: return z.BoolVal(False)
        k = ('b', n.id)
        if k in self.dn: return self.dn[k]
        o = n.op
        if o == 'not': r = z.Not(self.boolnode(n.args[0]))
        elif o == 'and': r = z.And(*[self.boolnode(a) for a in n.args])
        elif o == 'fcmp':
            b = self.N.bkey(n)
            if isinstance(b, tuple) and b[0] == 'lit' and self.N.lits[b[1]][0] == 'op': raise NotImplementedError('comparison with inf/nan')
            r = self.bk(b)
        elif o in ('isnan', 'isinf'): r = z.BoolVal(False)
        elif o == 'icmp':
            p, a, b = n.args
            x, y = self.bv(a), self.bv(b)
            r = {'eq': lambda: x == y, 'slt': lambda: x < y, 'ult': lambda: z.ULT(x, y)}[p]()
        elif o == 'var':
            r = z.Bool(n.args[0]); self.vars[n.args[0]] = r
        else: raise NotImplementedError('bool ' + o)
        self.dn[k] = r
        return r
    def bv(self, n):
        z = self.z
        k = ('i', n.id)
        if k in self.dn: return self.dn[k]
        w = D.width(n); o = n.op; A = n.args
        if o == 'ic': r = z.BitVecVal(A[0], w)
        elif o == 'var':
            r = z.BitVec(A[0], w); self.vars[A[0]] = r
        elif o == 'ite': r = z.If(self.boolnode(A[0]), self.bv(A[1]), self.bv(A[2]))
        elif o in ('iadd', 'isub', 'imul', 'iand', 'ior', 'ixor', 'ishl', 'ilshr', 'iashr', 'isdiv', 'isrem', 'iudiv', 'iurem'):
            x, y = self.bv(A[0]), self.bv(A[1])
            r = {'iadd': lambda: x + y, 'isub': lambda: x - y, 'imul': lambda: x * y, 'iand': lambda: x & y, 'ior': lambda: x | y,
                 'ixor': lambda: x ^ y, 'ishl': lambda: x << y, 'ilshr': lambda: z.LShR(x, y), 'iashr': lambda: x >> y,
                 'isdiv': lambda: x / y, 'isrem': lambda: z.SRem(x, y), 'iudiv': lambda: z.UDiv(x, y), 'iurem': lambda: z.URem(x, y)}[o]()
        elif o == 'sext': x = self.bv(A[0]); r = z.SignExt(w - x.size(), x)
        elif o == 'zext':
            x = self.bv(A[0]); r = z.ZeroExt(w - x.size(), x)
        elif o == 'trunc': x = self.bv(A[0]); r = z.Extract(w - 1, 0, x)
        else:
            # conversions from floats and raw bits: uninterpreted (equal nodes, equal values)
            r = z.BitVec('u%d' % n.id, w)
        self.dn[k] = r
        return r

def cvc5_check(smt2, timeout):
    import subprocess, shutil
    exe = shutil.which('cvc5')
    if not exe: return 'unavailable'
    try:
        p = subprocess.run([exe, '--lang=smt2', '--tlimit=%d' % timeout, '--nl-cov', '-'], input='(set-logic ALL)\n' + smt2, capture_output=True, text=True, timeout=timeout / 1000 + 5)
        o = p.stdout.strip().splitlines()
        return o[0] if o and o[0] in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'
