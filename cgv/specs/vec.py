"""vec2 / vec3 / vec4 (float) and scalar utilities."""
from .lib import *

P('C01')   # scalar utilities and interpolation -----------------------------
S('glm_sign(int v) -> int', lambda v: ite(islt(0, v), i32(1), ite(islt(v, 0), i32(-1), i32(0))))
S('glm_signf(float v) -> float', sign, bits=True)
S('glm_rad(float deg) -> float', lambda d: d * (PI / 180))
S('glm_deg(float rad) -> float', lambda r: r * (180 / PI))
S('glm_make_rad(&float* deg)', lambda d: d * (PI / 180))
S('glm_make_deg(&float* rad)', lambda r: r * (180 / PI))
S('glm_pow2(float x) -> float', lambda x: x * x)
S('glm_min(float a, float b) -> float', fmin_)
S('glm_max(float a, float b) -> float', fmax_)
S('glm_imin(int a, int b) -> int', imin)
S('glm_imax(int a, int b) -> int', imax)
S('glm_clamp(float v, float lo, float hi) -> float', clamp, requires=lambda v, lo, hi: [fle(lo, hi)])
S('glm_clamp_zo(float v) -> float', clamp01)
S('glm_lerp(float a, float b, float t) -> float', lerp)
S('glm_lerpc(float a, float b, float t) -> float', lambda a, b, t: lerp(a, b, clamp01(t)))
S('glm_step(float edge, float x) -> float', step)
S('glm_smooth(float t) -> float', smooth)
S('glm_smoothstep(float e0, float e1, float x) -> float', smoothstep)
S('glm_smoothinterp(float a, float b, float t) -> float', lambda a, b, t: lerp(a, b, smooth(t)))
S('glm_smoothinterpc(float a, float b, float t) -> float', lambda a, b, t: lerp(a, b, smooth(clamp01(t))))
S('glm_percent(float a, float b, float x) -> float', lambda a, b, x: ite(feq(b - a, 0), ONE, (x - a) / (b - a)))
S('glm_percentc(float a, float b, float x) -> float', lambda a, b, x: clamp01(ite(feq(b - a, 0), ONE, (x - a) / (b - a))))
S('glm_swapf(&float* a, &float* b)', lambda a, b: (b, a))
P('C05')
S('glm_eq(float a, float b) -> bool', eqeps, bits='nan')

def vec(n):
    v = 'vec%d' % n
    def s(sig, fn, **o): return S('glm_' + sig.replace('VEC', v).replace('vec ', v + ' '), fn, **o)
    P('C02')   # component-wise algebra
    s('VEC_copy(vec a, >vec dest)', lambda a: a)
    s('VEC_zero(>vec v)', lambda: zeros(n))
    s('VEC_one(>vec v)', lambda: fill(n, 1))
    s('VEC_fill(>vec v, float x)', lambda x: fill(n, x))
    if n > 2: s('VEC_broadcast(float x, >vec d)', lambda x: fill(n, x))
    s('VEC_dot(vec a, vec b) -> float', dot)
    s('VEC_norm2(vec v) -> float', norm2)
    s('VEC_norm(vec v) -> float', norm)
    if n > 2:
        s('VEC_norm_one(vec v) -> float', lambda v: total(fabs_(x) for x in v))
        s('VEC_norm_inf(vec v) -> float', lambda v: vmax([fabs_(x) for x in v]))
        s('VEC_hadd(vec v) -> float', total)
    s('VEC_add(vec a, vec b, >vec dest)', lambda a, b: a + b)
    s('VEC_adds(vec a, float s, >vec dest)', lambda a, b: a + b)
    s('VEC_sub(vec a, vec b, >vec dest)', lambda a, b: a - b)
    s('VEC_subs(vec a, float s, >vec dest)', lambda a, b: a - b)
    s('VEC_mul(vec a, vec b, >vec dest)', lambda a, b: a * b)
    s('VEC_scale(vec v, float s, >vec dest)', lambda a, b: a * b)
    s('VEC_div(vec a, vec b, >vec dest)', lambda a, b: a / b)
    s('VEC_divs(vec v, float s, >vec dest)', lambda a, b: a / b)
    mx = lambda a, b: vmap(fmax_, a, b); mn = lambda a, b: vmap(fmin_, a, b)
    for op, f in (('add', lambda d, x: d + x), ('sub', lambda d, x: d - x)):
        mkb = lambda f, g: (lambda a, b, d: f(d, g(a, b)))
        for nm, g in (('add', lambda a, b: a + b), ('sub', lambda a, b: a - b), ('mul', lambda a, b: a * b), ('max', mx), ('min', mn)):
            s('VEC_%s%s(vec a, vec b, &vec dest)' % (nm, op), mkb(f, g))
        s('VEC_mul%ss(vec a, float s, &vec dest)' % op, mkb(f, lambda a, b: a * b))
    s('VEC_negate_to(vec v, >vec dest)', lambda v: -v)
    s('VEC_negate(&vec v)', lambda v: -v)
    s('VEC_maxv(vec a, vec b, >vec dest)', mx)
    s('VEC_minv(vec a, vec b, >vec dest)', mn)
    s('VEC_max(vec v) -> float', vmax)
    s('VEC_min(vec v) -> float', vmin)
    s('VEC_clamp(&vec v, float lo, float hi)', lambda v, lo, hi: vmap(lambda x: clamp(x, lo, hi), v), requires=lambda v, lo, hi: [fle(lo, hi)])
    s('VEC_abs(vec v, >vec dest)', lambda v: vmap(fabs_, v))
    s('VEC_fract(vec v, >vec dest)', lambda v: vmap(fract, v))
    s('VEC_floor(vec v, >vec dest)', lambda v: vmap(floor, v))
    s('VEC_mods(vec v, float s, >vec dest)', lambda v, q: vmap(lambda x: ffn('fmod', x, q), v))
    s('VEC_sqrt(vec v, >vec dest)', lambda v: vmap(sqrt, v))
    s('VEC_sign(vec v, >vec dest)', lambda v: vmap(sign, v), bits=True)
    s('VEC_swizzle(vec v, int mask, >vec dest)', lambda v, m: V(select(v, lane(m, i)) for i in range(n)),
      requires=lambda v, m: [D.icmp('ult', lane(m, i), n, 32) for i in range(n)] if n < 4 else [])
    s('VEC_make(float src[%d], >vec dest)' % n, lambda a: V(a))
    s('VEC_center(vec a, vec b, >vec dest)', lambda a, b: (a + b) / 2) if n < 4 else None
    s('VEC_distance2(vec a, vec b) -> float', lambda a, b: norm2(a - b))
    s('VEC_distance(vec a, vec b) -> float', lambda a, b: norm(a - b))
    P('C01')   # interpolation over vectors
    if n == 2:
        s('VEC_lerp(vec a, vec b, float t, >vec dest)', lambda a, b, t: lerp(a, b, clamp01(t)))
    else:
        cl = clamp01
        for nm in ('lerp', 'mix'):
            s('VEC_%s(vec a, vec b, float t, >vec dest)' % nm, lerpv)
            s('VEC_%sc(vec a, vec b, float t, >vec dest)' % nm, lambda a, b, t: lerpv(a, b, clamp01(t)))
        s('VEC_smoothinterp(vec a, vec b, float t, >vec dest)', lambda a, b, t: lerpv(a, b, smooth(t)))
        s('VEC_smoothinterpc(vec a, vec b, float t, >vec dest)', lambda a, b, t: lerpv(a, b, smooth(clamp01(t))))
        s('VEC_smoothstep_uni(float e0, float e1, vec x, >vec dest)', lambda e0, e1, x: vmap(lambda y: smoothstep(e0, e1, y), x))
        s('VEC_smoothstep(vec e0, vec e1, vec x, >vec dest)', lambda e0, e1, x: vmap(smoothstep, e0, e1, x))
    s('VEC_step(vec edge, vec x, >vec dest)', lambda e, x: vmap(step, e, x))
    s('VEC_steps(float edge, vec x, >vec dest)', lambda e, x: vmap(lambda y: step(e, y), x))
    s('VEC_stepr(vec edge, float x, >vec dest)', lambda e, x: vmap(lambda y: step(y, x), e))
    P('C03')   # geometry
    s('VEC_scale_as(vec v, float s, >vec dest)', lambda v, k: vite(flt(norm(v), FEPS), zeros(n), v * k / norm(v)))
    s('VEC_normalize(&vec v)', normalize)
    s('VEC_normalize_to(vec v, >vec dest)', normalize)
    s('VEC_reflect(vec v, vec n, >vec dest)', (lambda v, m: v - m * (2 * dot(v, m))) if n < 4 else
      (lambda v, m: V(list((v - m * (2 * dot(v, m)))[:3]) + [v[3]])))
    def refract(v, m, eta):
        d = dot(m, v); k = 1 - eta * eta * (1 - d * d)
        bad = flt(k, 0)
        return bnot(bad), vite(bad, zeros(n), v * eta - m * (eta * d + sqrt(k)))
    s('VEC_refract(vec v, vec n, float eta, >vec dest) -> bool', refract, noalias={'n'})
    P('C05')   # comparisons and IEEE classification
    s('VEC_eq(vec v, float x) -> bool', lambda v, x: all_(feq(y, x) for y in v), bits=True)
    s('VEC_eqv(vec a, vec b) -> bool', lambda a, b: all_(feq(x, y) for x, y in zip(a, b)), bits=True)
    s('VEC_eq_eps(vec v, float x) -> bool', lambda v, x: all_(eqeps(y, x) for y in v), bits='nan')
    s('VEC_eq_all(vec v) -> bool', lambda v: all_(eqeps(y, v[0]) for y in v), bits='nan')
    s('VEC_eqv_eps(vec a, vec b) -> bool', lambda a, b: all_(eqeps(x, y) for x, y in zip(a, b)), bits='nan')
    s('VEC_isnan(vec v) -> bool', lambda v: nonfinite(any_(isnan(x) for x in v)), bits=True)
    s('VEC_isinf(vec v) -> bool', lambda v: nonfinite(any_(isinf(x) for x in v)), bits=True)
    s('VEC_isvalid(vec v) -> bool', lambda v: bnot(nonfinite(any_([isnan(x) for x in v] + [isinf(x) for x in v]))), bits=True)

def lerpv(a, b, t): return V(x + t * (y - x) for x, y in zip(a, b))
lerp_ = lerp
def lerp(a, b, t): return lerpv(a, b, t) if isinstance(a, V) else lerp_(a, b, t)
for n in (2, 3, 4): vec(n)

P('C02')
S('glm_vec2(float v[2], >vec2 dest)', lambda v: V(v))
S('glm_vec3(vec4 v, >vec3 dest)', lambda v: v[:3])
S('glm_vec4(vec3 v, float last, >vec4 dest)', lambda v, w: V(list(v) + [w]))
S('glm_vec4_copy3(vec4 v, >vec3 dest)', lambda v: v[:3])
S('glm_vec4_ucopy(vec4 v, >vec4 dest)', lambda v: v, unaligned=True)
S('glm_vec4_cubic(float s, >vec4 dest)', lambda s: V([s * s * s, s * s, s, ONE]))
S('glm_vec2_cross(vec2 a, vec2 b) -> float', lambda a, b: a[0] * b[1] - a[1] * b[0])
S('glm_vec2_complex_mul(vec2 a, vec2 b, >vec2 dest)', lambda a, b: V([a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]))
S('glm_vec2_complex_div(vec2 a, vec2 b, >vec2 dest)', lambda a, b: V([(a[0] * b[0] + a[1] * b[1]) / norm2(b), (a[1] * b[0] - a[0] * b[1]) / norm2(b)]))
S('glm_vec2_complex_conjugate(vec2 a, >vec2 dest)', lambda a: V([a[0], -a[1]]))
P('C03')
S('glm_vec2_rotate(vec2 v, float a, >vec2 dest)', lambda v, a: V([cos(a) * v[0] - sin(a) * v[1], sin(a) * v[0] + cos(a) * v[1]]))
S('glm_vec3_cross(vec3 a, vec3 b, >vec3 dest)', cross)
S('glm_vec3_crossn(vec3 a, vec3 b, >vec3 dest)', lambda a, b: normalize(cross(a, b)))
def angle(a, b):
    d = dot(a, b) / (norm(a) * norm(b))
    return ite(flt(1, d), ZERO, ite(flt(d, -1), const(PI), ffn('acos', d)))
S('glm_vec3_angle(vec3 a, vec3 b) -> float', angle)
def rotate(v, ang, axis):
    k = normalize(axis); c, s = cos(ang), sin(ang)
    return v * c + cross(k, v) * s + k * (dot(k, v) * (1 - c))
S('glm_vec3_rotate(&vec3 v, float angle, vec3 axis)', rotate)
S('glm_vec3_rotate_m4(mat4 m, vec3 v, >vec3 dest)', lambda m, v: mulv([normalize(c)[:3] for c in m[:3]], v))
S('glm_vec3_rotate_m3(mat3 m, vec3 v, >vec3 dest)', lambda m, v: mulv([normalize(c) for c in m], v))
S('glm_vec3_proj(vec3 a, vec3 b, >vec3 dest)', lambda a, b: b * (dot(a, b) / norm2(b)))
def ortho(v):
    return vite(flt(fabs_(v[2]), fabs_(v[0])), V([-v[1], v[0], ZERO]), V([ZERO, -v[2], v[1]]))
S('glm_vec3_ortho(vec3 v, >vec3 dest)', ortho)
S('glm_vec3_faceforward(vec3 n, vec3 v, vec3 nref, >vec3 dest)', lambda n, v, r: vite(flt(dot(v, r), 0), n, -n))
S('glm_cross(vec3 a, vec3 b, >vec3 d)', cross)
S('glm_dot(vec3 a, vec3 b) -> float', dot)
S('glm_normalize(&vec3 v)', normalize)
S('glm_normalize_to(vec3 v, >vec3 dest)', normalize)
