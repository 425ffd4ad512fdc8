"""Rational normal forms over the reals.

A float expression is normalised to num / den, num a multivariate polynomial
and den a multiset of irreducible-looking polynomial factors.  Variables of
the polynomials are *atoms*: symbolic inputs, sqrt/sin/cos/... applications
and conditional expressions, each interned up to equality of arguments.
Algebraic relations (sqrt(e)^2 = e, sin^2 = 1 - cos^2, user supplied ones)
are applied as rewrite rules.  Equality is decided by cross multiplication
with a relative tolerance on coefficients (float-rounded constants).
"""
from fractions import Fraction
import math
from . import dag as D
from .dag import Node, TRUE, FALSE

SH = 8
MASK = (1 << SH) - 1
TOL = 4e-7
ATOL = 1e-10

class TooBig(Exception): pass
class Rebase(Exception): pass

ONE = {0: 1}

def simp(c):
    if type(c) is Fraction and c.denominator == 1: return c.numerator
    return c

def padd(a, b):
    if len(a) < len(b): a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m)
        if s is None: r[m] = c
        else:
            s = s + c
            if s == 0: del r[m]
            else: r[m] = s
    return r

def pscale(a, k):
    if k == 1: return a
    if k == 0: return {}
    return {m: simp(c * k) for m, c in a.items()}

def pmul(a, b, limit=400000):
    if len(a) > len(b): a, b = b, a
    if len(a) * len(b) > limit: raise TooBig('%d x %d terms' % (len(a), len(b)))
    r = {}
    bi = list(b.items())
    for m1, c1 in a.items():
        for m2, c2 in bi:
            m = m1 + m2
            s = r.get(m)
            r[m] = c1 * c2 if s is None else s + c1 * c2
    return {m: simp(c) for m, c in r.items() if c != 0}

def ppow(a, n):
    r = ONE
    for _ in range(n): r = pmul(r, a)
    return r

def pconst(a):
    """constant value or None"""
    if not a: return 0
    if len(a) == 1 and 0 in a: return a[0]
    return None

def tiny(c, scale):
    return abs(c) <= ATOL * scale

def peq(a, b):
    if a == b: return True
    sc = max([abs(c) for c in a.values()] + [abs(c) for c in b.values()] + [0])
    sc = min(float(sc), 1e3)         # a huge constant (FLT_MAX) must not hide the other terms
    for m in set(a) | set(b):
        x, y = a.get(m, 0), b.get(m, 0)
        if x == y: continue
        d = abs(float(x) - float(y))
        if d > TOL * max(abs(float(x)), abs(float(y))) and d > ATOL * sc: return False
        if (x == 0 or y == 0) and d > ATOL * sc: return False
    return True

def pdiv_exact(a, b):
    """exact polynomial quotient a/b or None (lex order on packed monomials)"""
    lb = max(b); cb = b[lb]
    if len(b) == 1:
        out = {}
        for m, c in a.items():
            q = mono_sub(m, lb)
            if q is None: return None
            out[q] = simp(Fraction(c) / cb) if cb != 1 else c
        return out
    r = dict(a); q = {}
    steps = 0
    bi = [(m, c) for m, c in b.items() if m != lb]
    limit = 4 * len(a) + 50
    while r:
        steps += 1
        if steps > limit: return None
        lr = max(r); c = r.pop(lr)
        d = mono_sub(lr, lb)
        if d is None: return None
        k = simp(Fraction(c) / cb) if cb != 1 else c
        q[d] = k
        for m, x in bi:
            mm = m + d
            s = r.get(mm)
            v = -k * x if s is None else s - k * x
            if v == 0: r.pop(mm, None)
            else: r[mm] = v
    return q

def mono_sub(m, d):
    """m - d per exponent, None when negative somewhere"""
    if d == 0: return m
    if m < d: return None
    a = m
    while d:
        if (a & MASK) < (d & MASK): return None
        a >>= SH; d >>= SH
    # recompute with original values
    return None if a < 0 else -1

# (mono_sub needs the original d; small wrapper keeps the loop simple)
def mono_sub(m, d):
    if d == 0: return m
    x, y = m, d
    while y:
        if (x & MASK) < (y & MASK): return None
        x >>= SH; y >>= SH
    return m - d

def mono_gcd(ms):
    g = None
    for m in ms:
        if g is None: g = m
        else:
            r = 0; s = 0; x, y = g, m
            while x and y:
                e = min(x & MASK, y & MASK)
                r |= e << s
                x >>= SH; y >>= SH; s += SH
            g = r
        if g == 0: return 0
    return g or 0

def mono_items(m):
    out = []; i = 0
    while m:
        e = m & MASK
        if e: out.append((i, e))
        m >>= SH; i += 1
    return out

def ckey(c):
    if type(c) is int: return c
    if c.denominator < 5000 or (c.denominator & (c.denominator - 1) == 0 and c.denominator <= 1 << 14): return c
    return '%.5e' % float(c)

class Rat:
    __slots__ = ('n', 'd', '_k')
    def __init__(s, n, d=()):
        s.n = n; s.d = d; s._k = None

RZERO = Rat({}); RONE = Rat(ONE)

class Atom:
    __slots__ = ('i', 'kind', 'name', 'args', 'sq', 'node', 'pos')
    # kind: var/fn/ite ; sq: Rat the square rewrites to, or None ; pos: known >= 0

class NF:
    trigsum = False            # expand sin/cos of sums (lemmas about adding angles)
    """one normalisation context (shared by the expressions being compared)"""
    def __init__(self, rules=None, approx_exact=True, limit=400000):
        self.atoms = []
        self.akey = {}
        self.byfn = {}
        self.factors = []; self.fkey = {}
        self.sqmask = 0
        self.bases = {}            # trig argument direction -> base coefficient
        self.lits = []; self.lkey = {}
        self.assume = {}           # literal id -> bool
        self.memo = {}
        self.bmemo = {}
        self.rules = rules or {}   # var name -> function(NF) -> Rat for var^2
        self.approx_exact = approx_exact
        self.seen_lits = []
        self.limit = limit
        self.rationalize = False   # 1/(u+v*sqrt(w)) -> (u-v*sqrt(w))/(u^2-v^2*w)
        self.subst = {}            # atom index -> Rat (equality substitutions)

    # ---- atoms ---------------------------------------------------------
    def atom(self, kind, name, args, node=None, pos=False):
        key = (kind, name) + tuple(self.key(a) if isinstance(a, Rat) else a for a in args)
        a = self.akey.get(key)
        if a is not None: return a
        if any(isinstance(x, Rat) for x in args):
            for b in self.byfn.get((kind, name), ()):
                if len(b.args) == len(args) and all(self.eq(x, y) if isinstance(x, Rat) and isinstance(y, Rat) else x == y for x, y in zip(args, b.args)):
                    self.akey[key] = b
                    return b
        a = Atom(); a.i = len(self.atoms); a.kind = kind; a.name = name; a.args = args; a.sq = None; a.node = node; a.pos = pos
        self.atoms.append(a); self.akey[key] = a
        self.byfn.setdefault((kind, name), []).append(a)
        return a

    def arat(self, a):
        if a.i in self.subst: return self.subst[a.i]
        return Rat({1 << (SH * a.i): 1})

    def set_square(self, a, r):
        a.sq = r
        self.sqmask |= (MASK & ~1) << (SH * a.i)

    # ---- rational arithmetic ---------------------------------------------
    def factor(self, p):
        """poly -> (constant, mono, factor id or None): p = c * mono * factor"""
        g = mono_gcd(p)
        if g: p = {m - g: c for m, c in p.items()}
        c = pconst(p)
        if c is not None: return c, g, None
        lc = p[max(p)]
        if lc != 1: p = {m: simp(Fraction(x) / lc) for m, x in p.items()}
        key = tuple(sorted((m, ckey(c)) for m, c in p.items()))
        f = self.fkey.get(key)
        if f is None:
            f = len(self.factors); self.factors.append(p); self.fkey[key] = f
        return lc, g, f

    def key(self, r):
        if r._k is None:
            r._k = (tuple(sorted((m, ckey(c)) for m, c in r.n.items())), r.d)
        return r._k

    def fpoly(self, fid):
        if fid < 0: return {1 << (SH * (-fid - 1)): 1}
        return self.factors[fid]

    def dpoly(self, d):
        r = ONE
        for f, e in d: r = pmul(r, ppow(self.fpoly(f), e), self.limit)
        return r

    def make(self, n, d):
        """reduce: apply square rules, cancel factors"""
        if not n: return RZERO
        if self.sqmask:
            for m in n:
                if m & self.sqmask: return self.reduce(n, d)
            for f, e in d:
                if f < 0 and e >= 2 and self.atoms[-f - 1].sq is not None:
                    a = self.atoms[-f - 1]
                    dd = tuple((g, x) for g, x in d if g != f)
                    if e & 1: dd = tuple(sorted(dd + ((f, 1),)))
                    r = self.make(n, dd)
                    for _ in range(e >> 1): r = self.div(r, a.sq)
                    return r
        if not d: return Rat(n)
        out = []
        for f, e in d:
            if f < 0:
                sh = SH * (-f - 1)
                k = min((m >> sh) & MASK for m in n)
                if k:
                    k = min(k, e); dec = k << sh
                    n = {m - dec: c for m, c in n.items()}; e -= k
            else:
                p = self.factors[f]
                while e and len(n) >= len(p) - 0 and len(n) * len(p) < 60000:
                    q = pdiv_exact(n, p)
                    if q is None: break
                    n = q; e -= 1
            if e: out.append((f, e))
        return Rat(n, tuple(out))

    def reduce(self, n, d):
        # pick one squared atom and rewrite all its even powers
        for m in n:
            x = m & self.sqmask
            if x: break
        i = ((x & -x).bit_length() - 1) // SH
        sh = SH * i
        a = self.atoms[i]
        groups = {}
        for m, c in n.items():
            e = (m >> sh) & MASK
            k = e >> 1
            groups.setdefault(k, {})[m - ((2 * k) << sh)] = c
        if not a.sq.d:
            acc = {}
            pw = ONE; k0 = 0
            for k in sorted(groups):
                while k0 < k: pw = pmul(pw, a.sq.n, self.limit); k0 += 1
                acc = padd(acc, pmul(groups[k], pw, self.limit))
            return self.make(acc, d)
        r = RZERO
        for k in sorted(groups):
            t = self.make(groups[k], ())
            for _ in range(k): t = self.mul(t, a.sq)
            r = self.add(r, t)
        return self.mul(r, self.make(ONE, d)) if d else r

    def add(self, a, b):
        if not a.n: return b
        if not b.n: return a
        if a.d == b.d:
            return self.make(padd(a.n, b.n), a.d)
        da, db = dict(a.d), dict(b.d)
        na, nb = a.n, b.n
        L = dict(da)
        for f, e in db.items():
            if e > L.get(f, 0): L[f] = e
        for f, e in L.items():
            k = e - da.get(f, 0)
            if k: na = pmul(na, ppow(self.fpoly(f), k), self.limit)
            k = e - db.get(f, 0)
            if k: nb = pmul(nb, ppow(self.fpoly(f), k), self.limit)
        return self.make(padd(na, nb), tuple(sorted(L.items())))

    def neg(self, a): return Rat({m: -c for m, c in a.n.items()}, a.d)
    def sub(self, a, b): return self.add(a, self.neg(b))
    def mul(self, a, b):
        if not a.n or not b.n: return RZERO
        n = pmul(a.n, b.n, self.limit)
        if not a.d: d = b.d
        elif not b.d: d = a.d
        else:
            L = dict(a.d)
            for f, e in b.d: L[f] = L.get(f, 0) + e
            d = tuple(sorted(L.items()))
        return self.make(n, d)
    def inv(self, a):
        if not a.n: raise ZeroDivisionError
        if self.rationalize and self.sqmask and len(a.n) > 1:
            r = self.conj(a)
            if r is not None: return r
        c, g, f = self.factor(a.n)
        d = {}
        for i, e in mono_items(g): d[-i - 1] = d.get(-i - 1, 0) + e
        if f is not None: d[f] = d.get(f, 0) + 1
        n = {0: simp(Fraction(1) / c)}
        if a.d: n = pmul(n, self.dpoly(a.d), self.limit)
        return self.make(n, tuple(sorted(d.items())))
    def conj(self, a):
        for x in self.atoms:
            if x.sq is None or x.name != 'sqrt': continue
            sh = SH * x.i; u, v = {}, {}
            for m, c in a.n.items():
                if (m >> sh) & MASK: v[m] = c
                else: u[m] = c
            if not u or not v: continue
            cj = Rat(padd(u, {m: -c for m, c in v.items()}))
            den = self.mul(Rat(a.n), cj)
            if not den.n: return None
            r = self.mul(cj, self.inv(den))
            return self.mul(r, self.make(self.dpoly(a.d), ())) if a.d else r
        return None
    def div(self, a, b): return self.mul(a, self.inv(b))

    def eq(self, a, b):
        if a is b: return True
        if a.d == b.d:
            if peq(a.n, b.n): return True
        ka, kb = self.key(a), self.key(b)
        if ka == kb: return True
        da, db = dict(a.d), dict(b.d)
        na, nb = a.n, b.n
        for f in set(da) | set(db):
            x, y = da.get(f, 0), db.get(f, 0)
            if x < y: na = pmul(na, ppow(self.fpoly(f), y - x), self.limit)
            elif y < x: nb = pmul(nb, ppow(self.fpoly(f), x - y), self.limit)
        ra, rb = self.make(na, ()), self.make(nb, ())
        if not ra.d and not rb.d: return peq(ra.n, rb.n)
        s = self.sub(ra, rb)
        return not s.n or max(abs(float(c)) for c in s.n.values()) < 1e-9

    def const(self, r):
        if r.d: return None
        return pconst(r.n)

    # ---- expressions --------------------------------------------------------
    def nf(self, root):
        r = self.memo.get(root.id)
        if r is not None: return r
        for n in self.order(root):
            if n.id not in self.memo: self.memo[n.id] = self.nf1(n)
        return self.memo[root.id]

    def order(self, root):
        """post-order over float nodes; conditionals decided by the assumptions are skipped"""
        out = []; seen = set()
        st = [(root, 0)]
        while st:
            n, d = st.pop()
            if d: out.append(n); continue
            if n.id in seen or n.id in self.memo: continue
            seen.add(n.id)
            if n.op == 'ite':
                v = self.truth(n.args[0])
                st.append((n, 1))
                if v is not False: st.append((n.args[1], 0))
                if v is not True: st.append((n.args[2], 0))
                continue
            st.append((n, 1))
            for a in n.args:
                if isinstance(a, Node) and a.sort == 'f' and a.id not in seen: st.append((a, 0))
        return out

    def nf1(self, n):
        o = n.op; M = self.memo
        if o == 'c': return Rat({0: simp(n.args[0])}) if n.args[0] else RZERO
        if o == 'var': return self.varrat(n)
        if o == 'add': return self.add(M[n.args[0].id], M[n.args[1].id])
        if o == 'sub': return self.sub(M[n.args[0].id], M[n.args[1].id])
        if o == 'mul': return self.mul(M[n.args[0].id], M[n.args[1].id])
        if o == 'neg': return self.neg(M[n.args[0].id])
        if o == 'div':
            a, b = M[n.args[0].id], M[n.args[1].id]
            if not b.n:
                return self.arat(self.atom('undef', 'div0', (a,), n))
            return self.div(a, b)
        if o == 'abs': return self.absr(M[n.args[0].id])
        if o == 'ite': return self.iter_(n)
        if o == 'fn':
            return self.fn(n.args[0], [M[a.id] for a in n.args[1:]], n)
        if o == 'fsp':
            if n.args[0] == '-0': return RZERO
            return self.arat(self.atom('special', n.args[0], (), n))
        # integer conversions and raw bits: opaque, keyed structurally
        return self.arat(self.atom('opaque', self.opaque(n), (), n))

    def opaque(self, n):
        if n.op in ('i2f', 'u2f', 'bitsf'): return (n.op, n.args[0].id)
        return n.id

    def varrat(self, n):
        nm = n.args[0]
        a = self.atom('var', nm, (), n)
        if a.sq is None and nm in self.rules:
            self.set_square(a, self.rules[nm](self))
        return self.arat(a)

    def absr(self, r):
        c = self.const(r)
        if c is not None: return Rat({0: abs(c)}) if c else RZERO
        lc = r.n[max(r.n)]
        if lc < 0: r = self.neg(r)
        return self.mkite(self.lit_lt(r), self.neg(r), r)

    def iter_(self, n):
        v = self.truth(n.args[0])
        if v is True: return self.memo[n.args[1].id]
        if v is False: return self.memo[n.args[2].id]
        a, b = self.memo[n.args[1].id], self.memo[n.args[2].id]
        return self.mkite_b(self.bkey(n.args[0]), a, b)

    def mkite(self, lit, a, b):
        """lit: bool-key"""
        return self.mkite_b(lit, a, b)

    def mkite_b(self, bk, a, b):
        if bk is True: return a
        if bk is False: return b
        if self.eq(a, b): return a
        if bk[0] == 'lit':
            lid, pol = bk[1], bk[2]
            v = self.assume.get(lid)
            if v is not None: return a if v == pol else b
            if not pol: a, b = b, a
            kind, p = self.lits[lid][:2]
            if kind == 'lt':
                # continuous conditionals (min, max, abs): orientation is irrelevant
                diff = self.sub(a, b)
                k = self.ratio(diff, p)
                if k is not None and p.n[max(p.n)] < 0:
                    l2 = self.lit_lt(self.neg(p))
                    if l2 in (True, False): return a
                    return self.mkite_b(('lit', l2[1], l2[2]), b, a) if l2[1] != lid else self.arat(self.atom('ite', ('lit', lid, True), (a, b)))
            self.note(lid)
            bk = ('lit', lid, True)
        return self.arat(self.atom('ite', bk, (a, b)))

    def note(self, lid):
        if lid not in self.seen_lits: self.seen_lits.append(lid)

    def ratio(self, a, b):
        """a == k*b with k a nonzero constant?"""
        if a.d != b.d or len(a.n) != len(b.n) or not b.n: return None
        m = max(b.n)
        if m not in a.n: return None
        k = Fraction(a.n[m]) / b.n[m]
        return k if peq(a.n, pscale(b.n, k)) else None

    def fn(self, name, args, node):
        a0 = args[0]
        if name == 'sqrt':
            return self.sqrt(a0, node)
        if name in ('sin', 'cos'):
            return self.trig(name, a0)
        if name == 'tan':
            return self.div(self.trig('sin', a0), self.trig('cos', a0))
        if name in ('rcp', 'rcp8', 'rcp16') and self.approx_exact:
            return self.inv(a0) if a0.n else self.arat(self.atom('undef', 'div0', (a0,), node))
        if name == 'rsqrt' and self.approx_exact:
            s = self.sqrt(a0, node)
            return self.inv(s) if s.n else self.arat(self.atom('undef', 'div0', (a0,), node))
        if name == 'pow':
            c = self.const(args[1])
            if c is not None and c == int(c) and 0 <= c <= 8:
                r = RONE
                for _ in range(int(c)): r = self.mul(r, a0)
                return r
            if c is not None and abs(float(c) - 0.5) < 1e-9: return self.sqrt(a0, node)
        if name == 'exp2': return self.fn('pow', [Rat({0: 2}), a0], node)
        if name in ('asin', 'atan', 'sinh', 'trunc', 'round', 'cbrt', 'tanh'):
            c = self.const(a0)
            if c == 0: return RZERO
            if a0.n[max(a0.n)] < 0:
                return self.neg(self.fn(name, [self.neg(a0)], node))
        if name in ('floor', 'ceil', 'trunc', 'round'):
            c = self.const(a0)
            if c is not None:
                v = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'round': lambda x: math.floor(abs(x) + Fraction(1, 2)) * (1 if x >= 0 else -1)}[name](Fraction(c))
                return Rat({0: v}) if v else RZERO
        return self.arat(self.atom('fn', name, tuple(args), node, pos=name in ('exp', 'acos')))

    def sqrt(self, r, node):
        c = self.const(r)
        if c is not None:
            if c == 0: return RZERO
            if c > 0:
                f = Fraction(c)
                p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
                if p * p == f.numerator and q * q == f.denominator: return Rat({0: simp(Fraction(p, q))})
                return Rat({0: Fraction(math.sqrt(f))})
        # perfect square monomial over perfect square denominators
        k = 1
        n = r.n
        lc = n[max(n)]
        g = mono_gcd(n)
        # scale so that the leading coefficient is +-1
        al = abs(lc)
        if al != 1:
            f = Fraction(al)
            p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
            k = Fraction(p, q) if p * p == f.numerator and q * q == f.denominator else Fraction(math.sqrt(f))
            n = {m: simp(Fraction(c) / f) for m, c in n.items()}
        if len(n) == 1 and all(e % 2 == 0 for f, e in r.d) and lc > 0:
            m = max(n)
            if all(e % 2 == 0 for i, e in mono_items(m)):
                root = self.make({m_half(m): 1}, tuple((f, e // 2) for f, e in r.d))
                return self.mul(Rat({0: simp(k)}), self.absr(root))
        # quotient of squares, e.g. sqrt(a/b^2) with b known positive (a sqrt atom)
        d = r.d
        rr = Rat(n, d)
        a = self.atom('fn', 'sqrt', (rr,), node, pos=True)
        if a.sq is None: self.set_square(a, rr)
        return self.mul(Rat({0: simp(k)}), self.arat(a))

    def trig(self, name, r):
        c = self.const(r)
        if c is not None:
            if c == 0: return RZERO if name == 'sin' else RONE
            v = math.sin(c) if name == 'sin' else math.cos(c)
            if abs(v) < 1e-7: return RZERO
            if abs(abs(v) - 1) < 1e-12: return Rat({0: 1 if v > 0 else -1})
            return Rat({0: Fraction(v)})
        # inverse compositions
        if not r.d and len(r.n) == 1:
            (m, cc), = r.n.items()
            it = mono_items(m)
            if len(it) == 1 and it[0][1] == 1 and abs(cc) == 1:
                a = self.atoms[it[0][0]]
                if a.kind == 'fn' and a.name in ('asin', 'acos'):
                    x = a.args[0]
                    other = lambda: self.sqrt(self.sub(RONE, self.mul(x, x)), None)
                    if name == 'cos': return x if a.name == 'acos' else other()
                    v = x if a.name == 'asin' else other()
                    return v if cc > 0 else self.neg(v)
                if a.kind == 'fn' and a.name in ('atan2', 'atan'):
                    y, x = a.args if a.name == 'atan2' else (a.args[0], RONE)
                    h = self.sqrt(self.add(self.mul(x, x), self.mul(y, y)), None)
                    if h.n:
                        v = self.div(x if name == 'cos' else y, h)
                        return v if cc > 0 or name == 'cos' else self.neg(v)
        if self.trigsum and not r.d and len(r.n) > 1:      # sin/cos(a + b) term by term
            m = max(r.n); u = Rat({m: r.n[m]}); w = Rat({k: v for k, v in r.n.items() if k != m})
            su, cu, sw, cw = (self.trig(f, x) for x in (u, w) for f in ('sin', 'cos'))
            if name == 'cos': return self.sub(self.mul(cu, cw), self.mul(su, sw))
            return self.add(self.mul(su, cw), self.mul(cu, sw))
        lc = r.n[max(r.n)]
        sgn = 1
        if lc < 0:
            r = self.neg(r); lc = -lc; sgn = -1
        # direction and multiple
        dirn = Rat({m: simp(Fraction(c) / lc) for m, c in r.n.items()}, r.d)
        dk = self.key(dirn)
        base = self.bases.get(dk)
        if base is None:
            self.bases[dk] = base = Fraction(lc)
        q = Fraction(lc) / base
        qi = round(q)
        if qi == 0 or abs(float(q) - qi) > 1e-6 * max(1, abs(float(q))) or qi > 16:
            # need a finer base: gcd of the two coefficients
            inv = Fraction(base) / Fraction(lc)
            ii = round(inv)
            if ii and abs(float(inv) - ii) < 1e-6 and ii <= 16:
                self.bases[dk] = Fraction(lc); raise Rebase()
            fr = Fraction(float(q)).limit_denominator(16)
            if abs(float(fr) - float(q)) < 1e-6 and fr.numerator <= 16:
                self.bases[dk] = base / fr.denominator; raise Rebase()
            arg = r; qi = 1
        else:
            arg = self.mul(Rat({0: simp(base)}), dirn)
        C = self.atom('fn', 'cos', (arg,))
        S = self.atom('fn', 'sin', (arg,))
        if S.sq is None:
            cr = self.arat(C)
            self.set_square(S, self.sub(RONE, self.mul(cr, cr)))
        s, c = self.arat(S), self.arat(C)
        # multiple angle
        sn, cn = s, c
        for _ in range(qi - 1):
            sn, cn = self.add(self.mul(sn, c), self.mul(cn, s)), self.sub(self.mul(cn, c), self.mul(sn, s))
        if name == 'cos': return cn
        return sn if sgn > 0 else self.neg(sn)

    # ---- conditions -----------------------------------------------------
    def lit_lt(self, r):
        """canonical literal for r < 0 -> True/False/('lit', id, polarity)"""
        c = self.const(r)
        if c is not None: return c < 0
        n, d = r.n, r.d
        # clear denominators: even powers and atoms known positive are harmless
        keep = []
        for f, e in d:
            if f < 0 and self.atoms[-f - 1].pos: continue
            if e % 2: keep.append((f, 1))
        for f, e in keep: n = pmul(n, self.fpoly(f), self.limit)
        if keep:
            rr = self.make(n, ())
            n = rr.n if not rr.d else n
        # divide out strictly positive atoms common to all terms
        g = mono_gcd(n)
        if g:
            cut = sum(e << (SH * i) for i, e in mono_items(g) if self.atoms[i].pos and self.atoms[i].name == 'exp')
            if cut: n = {m - cut: c for m, c in n.items()}
            c = pconst(n)
            if c is not None: return c < 0
        lc = abs(n[max(n)])
        if lc != 1: n = {m: simp(Fraction(c) / lc) for m, c in n.items()}
        return self.lit('lt', Rat(n))

    def lit_eq(self, r):
        c = self.const(r)
        if c is not None: return c == 0
        n = r.n
        lc = n[max(n)]
        if lc != 1: n = {m: simp(Fraction(c) / lc) for m, c in n.items()}
        # |e| == 0 and sqrt(e) == 0 <=> e == 0
        if len(n) == 1:
            it = mono_items(max(n))
            if len(it) == 1 and self.atoms[it[0][0]].name == 'sqrt':
                return self.lit_eq(self.atoms[it[0][0]].args[0])
            if len(it) == 1 and it[0][1] > 1:
                return self.lit('eq', Rat({1 << (SH * it[0][0]): 1}))
        return self.lit('eq', Rat(n))

    def lit(self, kind, r):
        k = (kind, self.key(r))
        i = self.lkey.get(k)
        if i is None:
            for j, (kk, rr) in enumerate(self.lits):
                if kk == kind and isinstance(rr, Rat) and len(rr.n) == len(r.n) and peq(rr.n, r.n): i = j; break
            else:
                i = len(self.lits); self.lits.append((kind, r))
            self.lkey[k] = i
        v = self.assume.get(i)
        if v is not None: return v
        return ('lit', i, True)

    def lit_opaque(self, n):
        k = ('op', n.id)
        i = self.lkey.get(k)
        if i is None:
            i = len(self.lits); self.lits.append(('op', n)); self.lkey[k] = i
        v = self.assume.get(i)
        if v is not None: return v
        return ('lit', i, True)

    def bnot(self, b):
        if b is True: return False
        if b is False: return True
        if b[0] == 'lit': return ('lit', b[1], not b[2])
        if b[0] == 'not': return b[1]
        return ('not', b)

    def bkey(self, n):
        r = self.bmemo.get(n.id)
        if r is None:
            r = self.bmemo[n.id] = self.bkey1(n)
        return r

    def bkey1(self, n):
        o = n.op
        if n is TRUE: return True
        if n is FALSE: return False
        if o == 'not': return self.bnot(self.bkey(n.args[0]))
        if o == 'and':
            s = set()
            for a in n.args:
                k = self.bkey(a)
                if k is False: return False
                if k is True: continue
                if k[0] == 'and': s |= set(k[1])
                else: s.add(k)
            for k in s:
                if self.bnot(k) in s: return False
            if not s: return True
            if len(s) == 1: return next(iter(s))
            return ('and', frozenset(s))
        if o == 'fcmp':
            pr, a, b = n.args
            p = pr[1:]
            if a.op == 'fsp' or b.op == 'fsp':
                if (a.op == 'fsp' and a.args[0] != '-0') or (b.op == 'fsp' and b.args[0] != '-0'): return self.lit_opaque(n)
            ra, rb = self.nf(a), self.nf(b)
            if p == 'lt': return self.lit_lt(self.sub(ra, rb))
            if p == 'le': return self.bnot(self.lit_lt(self.sub(rb, ra)))
            if p == 'eq': return self.lit_eq(self.sub(ra, rb))
        if o in ('isnan', 'isinf'): return False      # reals
        return self.lit_opaque(n)

    def truth(self, n):
        k = self.bkey(n)
        if k is True or k is False: return k
        return None

    # ---- splitting ----------------------------------------------------------
    def clone(self, lid, val):
        """context with one more assumption (fresh memo; atoms shared)"""
        c = NF.__new__(NF)
        c.__dict__.update(self.__dict__)
        c.assume = dict(self.assume); c.assume[lid] = val
        kind, r = self.lits[lid]
        c.memo = {}; c.bmemo = {}; c.seen_lits = []
        c.subst = dict(self.subst)
        if kind == 'lt' and val:
            # strict sign of a single-signed pair: p<0 excludes p==0 and -p<0
            if isinstance(r, Rat):
                l2 = self.lit('lt', self.neg(r))
                if isinstance(l2, tuple): c.assume[l2[1]] = False
                n = r.n; lc = n[max(n)]
                l3 = self.lit('eq', Rat({m: simp(Fraction(x) / lc) for m, x in n.items()}))
                if isinstance(l3, tuple): c.assume[l3[1]] = False
        if kind == 'eq' and val:
            for s in (r, self.neg(r)):
                n = s.n; lc = abs(n[max(n)])
                l2 = self.lit('lt', Rat({m: simp(Fraction(x) / lc) for m, x in n.items()}))
                if isinstance(l2, tuple): c.assume[l2[1]] = False
        return c

    def candidates(self):
        """literals seen while normalising that contain no conditional atoms, simplest first"""
        out = []
        for lid in self.seen_lits:
            if lid in self.assume: continue
            kind, r = self.lits[lid]
            if kind == 'op': out.append((0, lid)); continue
            out.append((self.itedepth(r), lid))
        out.sort(key=lambda t: t[0])
        return [l for _, l in out]

    def itedepth(self, r):
        d = 0
        for m in r.n:
            for i, e in mono_items(m):
                d = max(d, self.adepth(self.atoms[i]))
        return d

    def adepth(self, a):
        d = 0
        for x in a.args:
            if isinstance(x, Rat): d = max(d, self.itedepth(x))
        if a.kind == 'ite':
            d += 1
            self.collect(a.name)
        return d

    def collect(self, bk):
        if isinstance(bk, tuple):
            if bk[0] == 'lit': self.note(bk[1])
            elif bk[0] == 'not': self.collect(bk[1])
            elif bk[0] == 'and':
                for k in bk[1]: self.collect(k)

    def lits_of(self, r, acc):
        for p in (r.n,) + tuple(self.fpoly(f) for f, e in r.d):
            for m in p:
                for i, e in mono_items(m):
                    self.lits_of_atom(self.atoms[i], acc)
    def lits_of_atom(self, a, acc):
        if a.kind == 'ite': self.lits_of_b(a.name, acc)
        for x in a.args:
            if isinstance(x, Rat): self.lits_of(x, acc)
    def lits_of_b(self, bk, acc):
        if not isinstance(bk, tuple): return
        if bk[0] == 'lit':
            if bk[1] not in acc:
                acc[bk[1]] = None
                kind, r = self.lits[bk[1]]
                if isinstance(r, Rat): self.lits_of(r, acc)
        elif bk[0] == 'not': self.lits_of_b(bk[1], acc)
        elif bk[0] == 'and':
            for k in bk[1]: self.lits_of_b(k, acc)

def m_half(m):
    out = 0; i = 0
    while m:
        out |= ((m & MASK) >> 1) << (SH * i)
        m >>= SH; i += 1
    return out
