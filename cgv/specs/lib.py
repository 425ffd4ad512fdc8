"""Mathematical vocabulary the contracts are written in."""
import math
from fractions import Fraction
from .. import dag as D
from ..dag import sqrt, sin, cos, tan, floor, ite, fl, flt, fle, feq, band, bor, bnot, TRUE, FALSE, fmin_, fmax_, fabs_, const, ffn, isnan, isinf
from ..contract import S, P, L, V, IV, REG, UNSPEC, CTX, Type, iop

PI = math.pi
FEPS = Fraction(1, 2 ** 23)            # FLT_EPSILON
GEPS = Fraction(float.fromhex('0x1.4f8b58p-17'))   # 1e-5f
ZERO = const(0); ONE = const(1)

def nonfinite(b):
    """CGLM_FAST_MATH declares that NaN and infinity do not occur"""
    return FALSE if CTX.cfg == 'fastmath' else b

def total(xs):
    r = None
    for x in xs: r = x if r is None else r + x
    return r
def dot(a, b): return total(x * y for x, y in zip(a, b))
def norm2(a): return dot(a, a)
def norm(a): return sqrt(norm2(a))
def cross(a, b):
    return V([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
def vmap(f, *vs): return V(f(*xs) for xs in zip(*vs))
def vite(c, a, b): return V(ite(c, x, y) for x, y in zip(a, b))
def mite(c, a, b): return [vite(c, x, y) for x, y in zip(a, b)]
def zeros(n): return V([ZERO] * n)
def fill(n, x): return V([fl(x)] * n)
def normalize(v):
    """v/|v|, or the zero vector when |v| < FLT_EPSILON"""
    n = norm(v)
    return vite(flt(n, FEPS), zeros(len(v)), V(x / n for x in v))
def unit(v):
    n = norm(v); return V(x / n for x in v)
def clamp(x, lo, hi): return fmin_(fmax_(x, fl(lo)), fl(hi))
def clamp01(x): return clamp(x, 0, 1)
def lerp(a, b, t): return a + t * (b - a)
def smooth(t): return t * t * (3 - 2 * t)
def step(edge, x): return ite(flt(x, edge), ZERO, ONE)
def smoothstep(e0, e1, x): return smooth(clamp01((x - e0) / (e1 - e0)))
def sign(x): return ite(flt(0, x), ONE, ite(flt(x, 0), const(-1), ZERO))
def fract(x): return fmin_(x - floor(x), const(Fraction(0.999999940395355224609375)))
def mod1(x): return x - floor(x)
def geps(): return FEPS if CTX.cfg == 'altdef' else GEPS     # GLM_FLT_EPSILON of the configuration
def eqeps(a, b): return fle(fabs_(a - b), geps())
def all_(xs): return band(*list(xs))
def any_(xs): return bor(*list(xs))
def vmax(v):
    r = v[0]
    for x in v[1:]: r = fmax_(x, r)
    return r
def vmin(v):
    r = v[0]
    for x in v[1:]: r = fmin_(x, r)
    return r

# matrices: list of columns --------------------------------------------------
def ident(n, k=1): return [V(fl(k) if r == c else ZERO for r in range(n)) for c in range(n)]
def mzero(c, r): return [zeros(r) for _ in range(c)]
def rows(m): return len(m[0])
def cols(m): return len(m)
def transpose(m): return [V(m[c][r] for c in range(cols(m))) for r in range(rows(m))]
def mulv(m, v): return V(total(m[c][r] * v[c] for c in range(cols(m))) for r in range(rows(m)))
def vmul(v, m): return V(total(m[c][r] * v[r] for r in range(rows(m))) for c in range(cols(m)))
def mmul(a, *bs):
    for b in bs: a = [mulv(a, col) for col in b]
    return a
def mscale(m, s): return [V(x * s for x in c) for c in m]
def madd(a, b): return [x + y for x, y in zip(a, b)]
def sub(m, c, r=None):
    """upper-left c x r block"""
    r = c if r is None else r
    return [V(col[:r]) for col in m[:c]]
def ext4(m3):
    return [V(list(c) + [ZERO]) for c in m3] + [V([ZERO, ZERO, ZERO, ONE])]
def minor(m, c, r): return [V(x for j, x in enumerate(col) if j != r) for i, col in enumerate(m) if i != c]
def det(m):
    if len(m) == 1: return m[0][0]
    s = None
    for c in range(len(m)):
        t = m[c][0] * det(minor(m, c, 0))
        s = t if s is None else (s + t if c % 2 == 0 else s - t)
    return s
def inv(m):
    d = det(m); n = len(m)
    return [V((det(minor(m, r, c)) if (r + c) % 2 == 0 else -det(minor(m, r, c))) / d for r in range(n)) for c in range(n)]
def translation(v):
    m = ident(4); m[3] = V([v[0], v[1], v[2], ONE]); return m
def scaling(v):
    m = ident(4)
    for i in range(3): m[i][i] = v[i]
    return m
def rot3(axis, ang, s=None, c=None):
    """rotation by ang about the unit vector axis (Rodrigues), 3x3"""
    c = cos(ang) if c is None else c; s = sin(ang) if s is None else s
    x, y, z = axis; k = 1 - c
    return [V([c + x * x * k, y * x * k + z * s, z * x * k - y * s]),
            V([x * y * k - z * s, c + y * y * k, z * y * k + x * s]),
            V([x * z * k + y * s, y * z * k - x * s, c + z * z * k])]
def rotx(a): s, c = sin(a), cos(a); return [V([ONE, ZERO, ZERO]), V([ZERO, c, s]), V([ZERO, -s, c])]
def roty(a): s, c = sin(a), cos(a); return [V([c, ZERO, -s]), V([ZERO, ONE, ZERO]), V([s, ZERO, c])]
def rotz(a): s, c = sin(a), cos(a); return [V([c, s, ZERO]), V([-s, c, ZERO]), V([ZERO, ZERO, ONE])]

def i32(x): return D.ic(x, 32) if isinstance(x, int) else x
def islt(a, b): return D.icmp('slt', D._unw(i32(a)), D._unw(i32(b)), 32)
def ieq(a, b): return D.icmp('eq', D._unw(i32(a)), D._unw(i32(b)), 32)
def imin(a, b): return ite(islt(a, b), i32(a), i32(b))
def imax(a, b): return ite(islt(b, a), i32(a), i32(b))
def ineg(a): return D._w(iop('sub', 0, a), 32)
def iabs(a): return ite(islt(a, 0), ineg(a), a)
def iwrap(x): return D._w(x, 32)
def iadd(a, b): return iwrap(iop('add', a, b))
def isub(a, b): return iwrap(iop('sub', a, b))
def imul(a, b): return iwrap(iop('mul', a, b))
def lane(mask, i): return iop('and', D._unw(D._w(D.iop('lshr', D._unw(mask), 2 * i, 32), 32)), 3)
def select(v, idx):
    r = v[-1]
    for k in range(len(v) - 2, -1, -1): r = ite(D.icmp('eq', idx, k, 32), v[k], r)
    return r
class UnitRules(dict): units = ()
def unit_rule(*vs):
    """precondition |v| = 1 for each v, as rewrite rules on the last component"""
    from ..norm import Rat
    r = UnitRules(); r.units = [[x.args[0] for x in v] for v in vs]
    for v in vs:
        def f(N, v=v):
            s = Rat({0: 1})
            for x in v[:-1]:
                q = N.nf(x); s = N.sub(s, N.mul(q, q))
            return s
        r[v[-1].args[0]] = f
    return r
