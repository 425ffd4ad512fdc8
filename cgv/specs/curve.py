"""Curves, easing functions, colour, gradient noise."""
from .lib import *
P('C24')
S('glm_smc(float s, mat4 m, vec4 c) -> float', lambda s, m, c: dot(V([s * s * s, s * s, s, ONE]), mulv(m, c)))
def bez(s, p0, c0, c1, p1):
    x = 1 - s
    return p0 * x * x * x + 3 * c0 * s * x * x + 3 * c1 * s * s * x + p1 * s * s * s
S('glm_bezier(float s, float p0, float c0, float c1, float p1) -> float', bez)
S('glm_hermite(float s, float p0, float t0, float t1, float p1) -> float', lambda s, p0, t0, t1, p1:
  p0 * (2 * s * s * s - 3 * s * s + 1) + t0 * (s * s * s - 2 * s * s + s) + p1 * (3 * s * s - 2 * s * s * s) + t1 * (s * s * s - s * s))

P('C25')
def E_(n, f): S('glm_ease_%s(float t) -> float' % n, f)
def half(fin, fout=None):
    """in-out from in: first half f(2t)/2, second half mirrored"""
    fout = fout or (lambda t: 1 - fin(1 - t))
    return lambda t: ite(flt(t, Fraction(1, 2)), fin(2 * t) / 2, (1 + fout(2 * t - 1)) / 2)
def ipow(t, n):
    r = t
    for _ in range(n - 1): r = r * t
    return r
H = PI / 2
E_('linear', lambda t: t)
E_('sine_in', lambda t: 1 + sin((t - 1) * H))
E_('sine_out', lambda t: sin(t * H))
E_('sine_inout', lambda t: (1 - cos(t * PI)) / 2)
for nm, n in (('quad', 2), ('cubic', 3), ('quart', 4), ('quint', 5)):
    E_(nm + '_in', lambda t, n=n: ipow(t, n))
    E_(nm + '_out', lambda t, n=n: 1 - ipow(1 - t, n))
    E_(nm + '_inout', half(lambda t, n=n: ipow(t, n)))
p2 = lambda x: ffn('pow', const(2), x)
E_('exp_in', lambda t: ite(feq(t, 0), ZERO, p2(10 * (t - 1))))
E_('exp_out', lambda t: ite(feq(t, 1), ONE, 1 - p2(-10 * t)))
E_('exp_inout', lambda t: ite(feq(t, 0), ZERO, ite(feq(t, 1), ONE, ite(flt(t, Fraction(1, 2)), p2(20 * t - 10) / 2, 1 - p2(10 - 20 * t) / 2))))
circ = lambda t: 1 - sqrt(1 - t * t)
E_('circ_in', circ)
E_('circ_out', lambda t: sqrt(1 - (1 - t) * (1 - t)))
E_('circ_inout', half(circ))
def back(k):
    return lambda t: t * t * ((k + 1) * t - k)
K = Fraction(170158, 100000); K2 = K * Fraction(1525, 1000)
E_('back_in', back(K))
E_('back_out', lambda t: 1 - back(K)(1 - t))
E_('back_inout', half(back(K2)))
W = 13 * H
E_('elast_in', lambda t: sin(W * t) * p2(10 * (t - 1)))
E_('elast_out', lambda t: 1 + sin(-W * (t + 1)) * p2(-10 * t))
E_('elast_inout', lambda t: ite(flt(t, Fraction(1, 2)), sin(W * (2 * t)) * p2(10 * (2 * t - 1)) / 2, (2 + sin(-W * (2 * t)) * p2(-10 * (2 * t - 1))) / 2))
def bounce(t):
    q = lambda a, b, c: a * t * t + b * t + c
    F = Fraction
    return ite(flt(t, F(4, 11)), q(F(121, 16), 0, 0), ite(flt(t, F(8, 11)), q(F(363, 40), F(-99, 10), F(17, 5)),
           ite(flt(t, F(9, 10)), q(F(4356, 361), F(-35442, 1805), F(16061, 1805)), q(F(54, 5), F(-513, 25), F(268, 25)))))
E_('bounce_out', bounce)
E_('bounce_in', lambda t: 1 - bounce(1 - t))
E_('bounce_inout', lambda t: ite(flt(t, Fraction(1, 2)), (1 - bounce(1 - 2 * t)) / 2, (1 + bounce(2 * t - 1)) / 2))

P('C02')
S('glm_luminance(vec3 rgb) -> float', lambda c: dot(c, [fl(Fraction(212671, 10**6)), fl(Fraction(715160, 10**6)), fl(Fraction(72169, 10**6))]))

P('C26')
# the reciprocal constants are single-precision numbers: floor/fract of products with them sits on jumps
def f32(x): import struct; return const(Fraction(struct.unpack('f', struct.pack('f', x))[0]))
R289 = f32(1 / 289); R7 = f32(1 / 7)
def m289(x): return x - floor(x * R289) * 289
def perm(x): return m289((x * 34 + 1) * x)
def fade(t): return t * t * t * (t * (t * 6 - 15) + 10)
def frac(x): return fract(x)
def sfold(g, w):
    """pull a component back inside the octahedron when w <= 0"""
    sw = ite(flt(0, w), ZERO, ONE)
    return g - sw * (ite(flt(g, 0), ZERO, ONE) - Fraction(1, 2))
HALF = Fraction(1, 2)
def grad(n, i):
    if n == 4:
        gx = i / 7; gy = floor(gx) / 7; gz = floor(gy) / 6
        gx, gy, gz = frac(gx) - HALF, frac(gy) - HALF, frac(gz) - HALF
        gw = Fraction(3, 4) - fabs_(gx) - fabs_(gz) - fabs_(gy)
        return V([sfold(gx, gw), sfold(gy, gw), gz, gw])
    if n == 3:
        gx = i * R7; gy = frac(floor(gx) * R7) - HALF; gx = frac(gx)
        gz = HALF - fabs_(gx) - fabs_(gy)
        return V([sfold(gx, gz), sfold(gy, gz), gz])
    gx = 2 * frac(i / 41) - 1
    return V([gx - floor(gx + HALF), fabs_(gx) - HALF])
def perlin(p):
    """gradient noise: hash each lattice corner to a gradient, fade-interpolate the corner dot products"""
    n = len(p)
    c0 = [floor(x) for x in p]
    pi = [[ffn('fmod', c, const(289)), ffn('fmod', c + 1, const(289))] for c in c0]
    pf = [[frac(x), frac(x) - 1] for x in p]
    val = {}
    for k in range(1 << n):
        b = [(k >> j) & 1 for j in range(n)]
        h = perm(pi[0][b[0]])
        for j in range(1, n): h = perm(h + pi[j][b[j]])
        g = grad(n, h)
        g = g * (Fraction(179284291400159, 10**14) - Fraction(85373472095314, 10**14) * dot(g, g))
        val[tuple(b)] = dot(g, [pf[j][b[j]] for j in range(n)])
    f = [fade(pf[j][0]) for j in range(n)]
    for j in (range(n - 1, -1, -1) if n > 2 else range(n)):
        if n > 2: val = {b: lerp(val[b + (0,)], val[b + (1,)], f[j]) for b in {b[:-1] for b in val}}
        else: val = {b: lerp(val[(0,) + b], val[(1,) + b], f[j]) for b in {b[1:] for b in val}}
    return val[()] * (Fraction(23, 10) if n == 2 else Fraction(22, 10))
for n in (2, 3, 4): S('glm_perlin_vec%d(vec%d p) -> float' % (n, n), perlin, sweep=True,
  lemmas=lambda p: [q for x in p for q in (fle(0, fade(frac(x))), fle(fade(frac(x)), 1))])
