"""ivec2 / ivec3 / ivec4: integer vectors, arithmetic modulo 2^32."""
from .lib import *
P('C04')
def imap(f, *vs): return IV(i32(f(*xs)) for xs in zip(*vs))
def itotal(xs):
    r = None
    for x in xs: r = x if r is None else iadd(r, x)
    return i32(r)
def idot(a, b): return itotal(imul(x, y) for x, y in zip(a, b))
def okdiv(x, y): return [bnot(ieq(y, 0)), bnot(band(ieq(x, -2 ** 31), ieq(y, -1)))]
def sdiv(a, b): return iwrap(iop('sdiv', a, b))
def srem(a, b): return iwrap(iop('srem', a, b))
def i2f(x): return D.i2f(x, 32)
def ivec(n):
    v = 'ivec%d' % n
    def s(sig, fn, **o): return S('glm_' + sig.replace('VEC', v).replace('vec ', v + ' '), fn, **o)
    vv = lambda g: (lambda a, b: imap(g, a, b))
    vs = lambda g: (lambda a, k: imap(lambda x: g(x, k), a))
    s('VEC_copy(vec a, >vec d)', lambda a: a)
    s('VEC_zero(>vec d)', lambda: IV([i32(0)] * n))
    s('VEC_one(>vec d)', lambda: IV([i32(1)] * n))
    s('VEC_add(vec a, vec b, >vec d)', vv(iadd))
    s('VEC_sub(vec a, vec b, >vec d)', vv(isub))
    s('VEC_mul(vec a, vec b, >vec d)', vv(imul))
    s('VEC_adds(vec a, int k, >vec d)', vs(iadd))
    s('VEC_subs(vec a, int k, >vec d)', vs(isub))
    s('VEC_scale(vec a, int k, >vec d)', vs(imul))
    if n < 4:
        s('VEC_dot(vec a, vec b) -> int', idot)
        s('VEC_div(vec a, vec b, >vec d)', vv(sdiv), requires=lambda a, b: [q for x, y in zip(a, b) for q in okdiv(x, y)])
        s('VEC_divs(vec a, int k, >vec d)', vs(sdiv), requires=lambda a, k: [q for x in a for q in okdiv(x, k)])
        s('VEC_mod(vec a, vec b, >vec d)', vv(srem), requires=lambda a, b: [q for x, y in zip(a, b) for q in okdiv(x, y)])
        s('VEC_fill(>vec d, int k)', lambda k: IV([k] * n))
        s('VEC_eq(vec a, int k) -> bool', lambda a, k: all_(ieq(x, k) for x in a))
        s('VEC_eqv(vec a, vec b) -> bool', lambda a, b: all_(ieq(x, y) for x, y in zip(a, b)))
    for op, f in (('add', iadd), ('sub', isub)):
        def acc(g, f=f): return lambda a, b, d: imap(f, d, imap(g, a, b))
        def accs(g, f=f): return lambda a, k, d: imap(f, d, imap(lambda x: g(x, k), a))
        for nm, g in (('add', iadd), ('sub', isub), ('mul', imul), ('max', imax), ('min', imin)):
            s('VEC_%s%s(vec a, vec b, &vec d)' % (nm, op), acc(g))
            if nm in ('add', 'sub', 'mul'): s('VEC_%s%ss(vec a, int k, &vec d)' % (nm, op), accs(g))
    s('VEC_maxv(vec a, vec b, >vec d)', vv(imax))
    s('VEC_minv(vec a, vec b, >vec d)', vv(imin))
    s('VEC_clamp(&vec v, int lo, int hi)', lambda v, lo, hi: imap(lambda x: imin(imax(x, lo), hi), v), requires=lambda v, lo, hi: [bnot(islt(hi, lo))])
    s('VEC_abs(vec a, >vec d)', lambda a: imap(iabs, a))
    d2 = lambda a, b: idot(imap(isub, a, b), imap(isub, a, b))
    s('VEC_distance2(vec a, vec b) -> int', d2)
    s('VEC_distance(vec a, vec b) -> float', lambda a, b: sqrt(i2f(d2(a, b))))
for n in (2, 3, 4): ivec(n)
S('glm_ivec2(int a[2], >ivec2 d)', lambda a: IV(a))
S('glm_ivec3(ivec4 a, >ivec3 d)', lambda a: IV(list(a)[:3]))
S('glm_ivec4(ivec3 a, int w, >ivec4 d)', lambda a, w: IV(list(a) + [w]))
S('glm_ivec2_cross(ivec2 a, ivec2 b) -> int', lambda a, b: isub(imul(a[0], b[1]), imul(a[1], b[0])))
S('glm_ivec3_norm2(ivec3 a) -> int', lambda a: idot(a, a))
S('glm_ivec3_norm(ivec3 a) -> int', lambda a: D._w(D.f2i(sqrt(i2f(idot(a, a))), 32), 32))
