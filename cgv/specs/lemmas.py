"""Lemmas: the geometric statement of each property, derived from the contracts."""
from .lib import *
CLIPS = ('sse2', 'lh_no', 'rh_zo', 'lh_zo')          # one configuration per clip-space convention
nz = lambda x: bnot(feq(x, ZERO))
P('C07')
for n in (2, 3, 4):
    @L('mat%d_inverse' % n, 'mat%d m' % n, requires=lambda m: [nz(det(m))], domain=lambda m: [nz(det(m))])
    def _(use, m, n=n):
        i = use('glm_mat%d_inv' % n, m)
        yield 'm * inv(m) = I', use('glm_mat%d_mul' % n, m, i), ident(n)
        yield 'inv(m) * m = I', use('glm_mat%d_mul' % n, i, m), ident(n)
from .affine import T, T2, S2, R2
from .quat import qrot3, qmul, qconj, qident
from . import cam as _cam

def unit_n(*vs): return unit_rule(*vs)
def scalef(m): return [V(x) for x in m]
def hom(p): return V(list(p) + [ONE])
def gt0(x): return flt(ZERO, x)
def rot_of(q): return qrot3(q)                 # every rotation is that of a unit quaternion
def between(lo, x, hi): return [fle(lo, x), fle(x, hi)]

# C01 ------------------------------------------------------------------------
P('C01')
@L('clamp_range', 'float v, float lo, float hi', requires=lambda v, lo, hi: [fle(lo, hi)])
def _(use, v, lo, hi):
    yield 'clamp stays in [lo, hi]', between(lo, use('glm_clamp', v, lo, hi), hi)
    yield 'clamp of a value inside is the value', use('glm_clamp', ite(band(fle(lo, v), fle(v, hi)), v, lo), lo, hi), ite(band(fle(lo, v), fle(v, hi)), v, lo)
    yield 'clamp_zo stays in [0, 1]', between(ZERO, use('glm_clamp_zo', v), ONE)
    yield 'min <= max', [fle(use('glm_min', lo, v), use('glm_max', lo, v)), fle(use('glm_min', lo, v), v), fle(v, use('glm_max', lo, v))]
@L('lerp_ends', 'float a, float b, float t, float e, float f', requires=lambda a, b, t, e, f: [flt(e, f)])
def _(use, a, b, t, e, f):
    for g in ('lerp', 'lerpc', 'smoothinterp', 'smoothinterpc'):
        yield g + '(0) = a', use('glm_' + g, a, b, ZERO), a
        yield g + '(1) = b', use('glm_' + g, a, b, ONE), b
    yield 'smoothstep(e0) = 0', use('glm_smoothstep', e, f, e), ZERO
    yield 'smoothstep(e1) = 1', use('glm_smoothstep', e, f, f), ONE
    yield 'smooth(1-t) = 1 - smooth(t)', use('glm_smooth', 1 - t), 1 - use('glm_smooth', t)
    yield 'percent(a, b, lerp(a, b, t)) = t', use('glm_percent', e, f, use('glm_lerp', e, f, t)), t
    yield 'deg(rad(x)) = x', use('glm_deg', use('glm_rad', t)), t
@L('lerpc_range', 'float a, float b, float t', requires=lambda a, b, t: [fle(a, b)])
def _(use, a, b, t):
    yield 'lerpc stays in [a, b]', between(a, use('glm_lerpc', a, b, t), b)
    yield 'smoothinterpc stays in [a, b]', between(a, use('glm_smoothinterpc', a, b, t), b)
@L('smoothstep_range', 'float a, float b, float t', requires=lambda a, b, t: [flt(a, b)])
def _(use, a, b, t):
    yield 'smoothstep stays in [0, 1]', between(ZERO, use('glm_smoothstep', a, b, t), ONE)
    yield 'percentc stays in [0, 1]', between(ZERO, use('glm_percentc', a, b, t), ONE)

# C02 ------------------------------------------------------------------------
P('C02')
for n in (2, 3, 4):
    @L('vec%d_norms' % n, 'vec%d a, vec%d b, float t' % (n, n))
    def _(use, a, b, t, n=n):
        v = 'glm_vec%d_' % n
        yield 'norm^2 = norm2 = a.a', use(v + 'norm', a) * use(v + 'norm', a), use(v + 'dot', a, a)
        yield 'distance(a, b) = norm(a - b)', use(v + 'distance', a, b), use(v + 'norm', use(v + 'sub', a, b))
        yield 'distance is symmetric', use(v + 'distance', a, b), use(v + 'distance', b, a)
        yield 'lerp(0) = a', use(v + 'lerp', a, b, ZERO), a
        yield 'lerp(1) = b', use(v + 'lerp', a, b, ONE), b
        yield 'floor + fract: 0 <= fract < 1', [q for x in use(v + 'fract', a) for q in (fle(ZERO, x), flt(x, ONE))]
        yield 'min(v) <= v_i <= max(v)', [q for x in a for q in (fle(use(v + 'min', a), x), fle(x, use(v + 'max', a)))]
        if n > 2: yield 'norm_inf bounds every component', [fle(fabs_(x), use(v + 'norm_inf', a)) for x in a]
        yield 'norm is not negative', fle(ZERO, use(v + 'norm', a))
        yield 'parallelogram law', use(v + 'norm2', a + b) + use(v + 'norm2', a - b), 2 * use(v + 'norm2', a) + 2 * use(v + 'norm2', b)

# C03 ------------------------------------------------------------------------
P('C03')
for n in (2, 3, 4):
    @L('vec%d_normalize' % n, 'vec%d a' % n, requires=lambda a: [fle(fl(FEPS), norm(a))])
    def _(use, a, n=n):
        u = use('glm_vec%d_normalize_to' % n, a)
        yield 'the result has length 1', dot(u, u), ONE
        yield 'times the length gives the vector back', u * norm(a), a
    @L('vec%d_reflect' % n, 'vec%d v, vec%d nn' % (n, min(n, 3)), rules=lambda v, nn: unit_rule(nn))
    def _(use, v, nn, n=n):
        if n == 4: nn = V(list(nn) + [ZERO])       # a direction; w is kept
        r = use('glm_vec%d_reflect' % n, v, nn)
        yield 'reflection keeps the length', norm2(r), norm2(v)
        yield 'reflection flips the normal component', dot(r, nn), -dot(v, nn)
        yield 'reflecting twice is the identity', use('glm_vec%d_reflect' % n, r, nn), v
    @L('vec%d_refract' % n, 'vec%d v, vec%d nn, float eta' % (n, n), rules=lambda v, nn, eta: unit_rule(v, nn),
       requires=lambda v, nn, eta: [fle(ZERO, 1 - eta * eta * (1 - dot(v, nn) * dot(v, nn)))])
    def _(use, v, nn, eta, n=n):
        ok, r = use('glm_vec%d_refract' % n, v, nn, eta)
        yield 'a ray below the critical angle is transmitted', ok
        yield 'the refracted direction has length 1', dot(r, r), ONE
        c = dot(r, nn)
        yield "Snell's law: tangential part is eta times that of v", V(x - c * y for x, y in zip(r, nn)), V(eta * (x - dot(v, nn) * y) for x, y in zip(v, nn))
    @L('vec%d_refract_total' % n, 'vec%d v, vec%d nn, float eta' % (n, n),
       requires=lambda v, nn, eta: [flt(1 - eta * eta * (1 - dot(v, nn) * dot(v, nn)), ZERO)])
    def _(use, v, nn, eta, n=n):
        ok, r = use('glm_vec%d_refract' % n, v, nn, eta)
        yield 'total reflection is reported', bnot(ok)
        yield 'and gives the zero vector', r, zeros(n)
@L('vec3_cross', 'vec3 a, vec3 b, vec3 c')
def _(use, a, b, c):
    x = use('glm_vec3_cross', a, b)
    yield 'orthogonal to a', dot(x, a), ZERO
    yield 'orthogonal to b', dot(x, b), ZERO
    yield 'anticommutes', x, -use('glm_vec3_cross', b, a)
    yield '|a x b|^2 = |a|^2 |b|^2 - (a.b)^2', norm2(x), norm2(a) * norm2(b) - dot(a, b) * dot(a, b)
    yield 'Jacobi identity', x_plus(use, a, b, c), zeros(3)
def x_plus(use, a, b, c):
    k = lambda p, q: use('glm_vec3_cross', p, q)
    return k(a, k(b, c)) + k(b, k(c, a)) + k(c, k(a, b))
@L('vec3_ortho', 'vec3 v', requires=lambda v: [bnot(band(feq(v[0], 0), feq(v[1], 0), feq(v[2], 0)))])
def _(use, v):
    o = use('glm_vec3_ortho', v)
    yield 'orthogonal to v', dot(o, v), ZERO
    yield 'not the zero vector', bnot(band(feq(o[0], 0), feq(o[1], 0), feq(o[2], 0)))
@L('vec3_proj', 'vec3 a, vec3 b', requires=lambda a, b: [nz(norm2(b))])
def _(use, a, b):
    p = use('glm_vec3_proj', a, b)
    yield 'parallel to b', cross(p, b), zeros(3)
    yield 'the rest is orthogonal to b', dot(a - p, b), ZERO
@L('vec3_faceforward', 'vec3 n, vec3 v, vec3 r')
def _(use, n, v, r):
    f = use('glm_vec3_faceforward', n, v, r)
    yield 'n or -n', bor(*[band(*[feq(x, s * y) for x, y in zip(f, n)]) for s in (1, -1)])
    yield 'turned against v when r = n', fle(dot(use('glm_vec3_faceforward', n, v, n), v), ZERO)
@L('vec3_rotation', 'vec3 v, float a, vec3 k', rules=lambda v, a, k: unit_rule(k))
def _(use, v, a, k):
    r = use('glm_vec3_rotate', v, a, k)
    yield 'keeps the length', norm2(r), norm2(v)
    yield 'keeps the component along the axis', dot(r, k), dot(v, k)
    yield 'equals the rotation matrix', r, mulv(sub(use('glm_rotate_make', a, k), 3), v)
    yield 'back by the opposite angle', use('glm_vec3_rotate', r, -a, k), v
@L('vec2_rotation', 'vec2 v, float a, float b', trigsum=True)
def _(use, v, a, b):
    r = use('glm_vec2_rotate', v, a)
    yield 'keeps the length', norm2(r), norm2(v)
    yield 'equals the 2D rotation matrix', hom(r), mulv(use('glm_rotate2d_make', a), hom(v))
    yield 'angles add', use('glm_vec2_rotate', r, b), use('glm_vec2_rotate', v, a + b)
@L('vec2_complex', 'vec2 a, vec2 b, vec2 c', requires=lambda a, b, c: [nz(norm2(b))])
def _(use, a, b, c):
    m = lambda p, q: use('glm_vec2_complex_mul', p, q)
    yield 'associative', m(m(a, b), c), m(a, m(b, c))
    yield 'norm is multiplicative', norm2(m(a, b)), norm2(a) * norm2(b)
    yield 'division inverts multiplication', m(use('glm_vec2_complex_div', a, b), b), a
    yield 'a * conj(a) = |a|^2', m(a, use('glm_vec2_complex_conjugate', a)), V([norm2(a), ZERO])

# C06 ------------------------------------------------------------------------
P('C06')
for n in (2, 3, 4):
    @L('mat%d_algebra' % n, 'mat%d a, mat%d b, mat%d c, vec%d v, float s' % ((n,) * 4))
    def _(use, a, b, c, v, s, n=n):
        m = 'glm_mat%d_' % n; mul = lambda x, y: use(m + 'mul', x, y); t = lambda x: use(m + 'transpose_to', x)
        yield 'associative', mul(mul(a, b), c), mul(a, mul(b, c))
        yield 'identity is neutral', [mul(a, use(m + 'identity')), mul(use(m + 'identity'), a)], [a, a]
        yield '(ab)^T = b^T a^T', t(mul(a, b)), mul(t(b), t(a))
        yield 'transpose is an involution', t(t(a)), a
        yield '(ab)v = a(bv)', use(m + 'mulv', mul(a, b), v), use(m + 'mulv', a, use(m + 'mulv', b, v))
        yield 'trace(ab) = trace(ba)', use(m + 'trace', mul(a, b)), use(m + 'trace', mul(b, a))
        yield 'scaling', mul(use(m + 'scale', a, s), b), use(m + 'scale', mul(a, b), s)

# C07 ------------------------------------------------------------------------
P('C07')
for n in (2, 3, 4):
    @L('mat%d_det' % n, 'mat%d a, mat%d b, float s' % (n, n), domain=None)
    def _(use, a, b, s, n=n):
        m = 'glm_mat%d_' % n
        yield 'det(ab) = det(a) det(b)', use(m + 'det', use(m + 'mul', a, b)), use(m + 'det', a) * use(m + 'det', b)
        yield 'det(a^T) = det(a)', use(m + 'det', use(m + 'transpose_to', a)), use(m + 'det', a)
        yield 'det(I) = 1', use(m + 'det', use(m + 'identity')), ONE
@L('rigid_inverse', 'versor q, vec3 t', rules=lambda q, t: unit_rule(q))
def _(use, q, t):
    m = ext4(rot_of(q)); m[3] = V([t[0], t[1], t[2], ONE])
    i = use('glm_inv_tr', m)
    yield 'rigid * inverse = I', use('glm_mat4_mul', m, i), ident(4)
    yield 'inverse * rigid = I', use('glm_mat4_mul', i, m), ident(4)

# C08 ------------------------------------------------------------------------
P('C08')
@L('rotation_matrix', 'float a, vec3 k', requires=lambda a, k: [fle(fl(FEPS), norm(k))])
def _(use, a, k):
    m = use('glm_rotate_make', a, k); r = sub(m, 3)
    yield 'orthonormal', mmul(transpose(r), r), ident(3)
    yield 'determinant 1', det(r), ONE
    yield 'fixes its axis', mulv(r, k), k
    yield 'trace 1 + 2 cos', r[0][0] + r[1][1] + r[2][2], 1 + 2 * cos(a)
@L('rotation_compose', 'float a, float b, vec3 k', trigsum=True, rules=lambda a, b, k: unit_rule(k))
def _(use, a, b, k):
    yield 'angles about one axis add', use('glm_rotate', use('glm_rotate_make', a, k), b, k), use('glm_rotate_make', a + b, k)
    for i, x in enumerate('xyz'):
        e = V([ONE if j == i else ZERO for j in range(3)])
        yield 'axis form ' + x, use('glm_rotate_' + x, ident(4), a), use('glm_rotate_make', a, e)
@L('rotate_pivot', 'vec3 p, float a, vec3 k, vec3 v, mat4 m', requires=lambda p, a, k, v, m: [fle(fl(FEPS), norm(k))])
def _(use, p, a, k, v, m):
    r = use('glm_rotate_atm', p, a, k)
    yield 'pivot is fixed', mulv(r, hom(p)), hom(p)
    yield 'at from the identity = atm', use('glm_rotate_at', ident(4), p, a, k), r
    d = V(mulv(r, hom(v))[:3]) - p
    yield 'distance to the pivot is kept', norm2(d), norm2(v - p)
@L('rotate_pivot_matrix', 'vec3 p, float a, vec3 k, vec3 s', rules=lambda p, a, k, s: unit_rule(k))
def _(use, p, a, k, s):
    yield 'spin about the own origin keeps it', V(use('glm_spin', use('glm_translate_make', s), a, k)[3]), hom(s)
    yield 'spinned keeps the translation', V(use('glm_spinned', use('glm_translate_make', s), a, k)[3]), hom(s)
    yield 'rotated_at keeps the pivot', mulv(use('glm_rotated_at', ident(4), p, a, k), hom(p)), hom(p)
@L('affine_apply', 'vec3 t, vec3 s, vec3 p, mat4 m')
def _(use, t, s, p, m):
    yield 'translation moves a point by v', mulv(use('glm_translate_make', t), hom(p)), hom(p + t)
    yield 'translation leaves directions', mulv(use('glm_translate_make', t), V(list(p) + [ZERO])), V(list(p) + [ZERO])
    yield 'scaling', mulv(use('glm_scale_make', s), hom(p)), hom(p * s)
    yield 'translate is local: m (p + t)', mulv(use('glm_translate', m, t), hom(p)), mulv(m, hom(p + t))
    yield 'scale is local', mulv(use('glm_scale', m, s), hom(p)), mulv(m, hom(p * s))
@L('affine_parent', 'versor q, vec3 o, vec3 t, vec3 p, float a, vec3 k', rules=lambda q, o, t, p, a, k: unit_rule(q, k))
def _(use, q, o, t, p, a, k):
    m = ext4(rot_of(q)); m[3] = hom(o)
    yield 'translated is in the parent frame', mulv(use('glm_translated', m, t), hom(p)), mulv(m, hom(p)) + V(list(t) + [ZERO])
    x = V(mulv(m, hom(p))[:3])
    yield 'rotated is in the parent frame', mulv(use('glm_rotated', m, a, k), hom(p)), hom(mulv(rot3(k, a), x))
    yield 'rotate is in the local frame', mulv(use('glm_rotate', m, a, k), hom(p)), mulv(m, hom(mulv(rot3(k, a), p)))

# C09 ------------------------------------------------------------------------
P('C09')
@L('recompose', 'mat4 m', requires=lambda m: [nz(det(sub(m, 3)))], domain=lambda m: [nz(det(sub(m, 3)))])
def _(use, m):
    for j in range(3): m[j][3] = ZERO
    m[3][3] = ONE
    t, r, s = use('glm_decompose', m)
    yield 'translate * rotate * scale = m', mmul(T(V(t[:3])), r, scaling(s)), m
    yield 'rotation columns have length 1', [norm2(V(c[:3])) for c in r[:3]], [ONE] * 3
    yield 'scale is flipped exactly for mirrored matrices', [feqb(flt(s[i], ZERO), flt(det(sub(m, 3)), ZERO)) for i in range(3)]
    yield 'rotation part is not mirrored: det(r) * s.x * s.y * s.z = det(m)', det(sub(r, 3)) * s[0] * s[1] * s[2], det(sub(m, 3))
def feqb(a, b): return bor(band(a, b), band(bnot(a), bnot(b)))
@L('decompose_trs', 'vec3 t, versor q, vec3 s', rules=lambda t, q, s: unit_rule(q), requires=lambda t, q, s: [gt0(x) for x in s])
def _(use, t, q, s):
    m = mmul(T(t), ext4(rot_of(q)), scaling(s))
    t1, r1, s1 = use('glm_decompose', m)
    yield 'translation', V(t1), hom(t)
    yield 'scale', V(s1), s
    yield 'rotation', r1, ext4(rot_of(q))
    yield 'uniform scale is recognised', use('glm_uniscaled', mmul(T(t), ext4(rot_of(q)), scaling([s[0]] * 3)))

# C10 ------------------------------------------------------------------------
P('C10')
@L('affine2d', 'vec2 t, vec2 s, float a, float b, vec2 p, mat3 m', trigsum=True)
def _(use, t, s, a, b, p, m):
    r = use('glm_rotate2d_make', a)
    yield 'rotation is orthonormal', mmul(transpose(sub(r, 2)), sub(r, 2)), ident(2)
    yield 'determinant 1', det(sub(r, 2)), ONE
    yield 'angles add', use('glm_rotate2d', r, b), use('glm_rotate2d_make', a + b)
    yield 'translate is local', mulv(use('glm_translate2d', m, t), hom(p)), mulv(m, hom(p + t))
    yield 'scale is local', mulv(use('glm_scale2d', m, s), hom(p)), mulv(m, hom(p * s))
    yield 'rotate is local', mulv(use('glm_rotate2d', m, a), hom(p)), mulv(m, mulv(r, hom(p)))
    yield 'rotated is in the parent frame', mulv(use('glm_rotated2d', m, a), hom(p)), mulv(r, mulv(m, hom(p)))
    yield 'scaled is in the parent frame', mulv(use('glm_scaled2d', m, s), hom(p)), mulv(use('glm_scale2d_make', s), mulv(m, hom(p)))
    yield 'make forms', [use('glm_translate2d', ident(3), t), use('glm_scale2d', ident(3), s), use('glm_rotate2d', ident(3), a)], [use('glm_translate2d_make', t), use('glm_scale2d_make', s), r]
@L('affine2d_parent', 'vec2 t, vec2 o, float a, vec2 p')
def _(use, t, o, a, p):
    m = R2(a); m[2] = hom(o)
    yield 'translated is in the parent frame', mulv(use('glm_translated2d', m, t), hom(p)), mulv(m, hom(p)) + V(list(t) + [ZERO])

# C11 ------------------------------------------------------------------------
P('C11')
@L('quat_algebra', 'versor a, versor b, versor c')
def _(use, a, b, c):
    m = lambda p, q: use('glm_quat_mul', p, q); cj = lambda q: use('glm_quat_conjugate', q)
    yield 'associative', m(m(a, b), c), m(a, m(b, c))
    yield 'identity is neutral', [m(a, use('glm_quat_identity')), m(use('glm_quat_identity'), a)], [a, a]
    yield 'norm is multiplicative', norm2(m(a, b)), norm2(a) * norm2(b)
    yield 'conj(ab) = conj(b) conj(a)', cj(m(a, b)), m(cj(b), cj(a))
    yield 'q conj(q) = |q|^2', m(a, cj(a)), V([ZERO, ZERO, ZERO, norm2(a)])
@L('quat_inverse', 'versor q', requires=lambda q: [gt0(norm2(q))])
def _(use, q):
    i = use('glm_quat_inv', q)
    yield 'q inv(q) = 1', use('glm_quat_mul', q, i), qident()
    yield 'inv(q) q = 1', use('glm_quat_mul', i, q), qident()
    u = use('glm_quat_normalize_to', q)
    yield 'normalised: length 1', norm2(u), ONE
    yield 'normalised: same direction', V(u) * use('glm_quat_norm', q), q
@L('quat_axis_angle', 'float a, vec3 k', rules=lambda a, k: unit_rule(k))
def _(use, a, k):
    q = use('glm_quatv', a, k)
    yield 'unit', norm2(q), ONE
    yield 'real part cos(a/2)', use('glm_quat_real', q), cos(a / 2)
    yield 'imaginary part sin(a/2) k', V(use('glm_quat_imag', q)), k * sin(a / 2)
    yield 'glm_quat = glm_quatv', use('glm_quat', a, *k), q
@L('quat_axis', 'float a, vec3 k', rules=lambda a, k: unit_rule(k), requires=lambda a, k: [fle(fl(FEPS), sin(a / 2))])
def _(use, a, k):
    yield 'axis is recovered for angles in (0, 2 pi)', use('glm_quat_axis', use('glm_quatv', a, k)), k
    h = use('glm_quat_angle', use('glm_quatv', a, k)) / 2
    yield 'angle is recovered', [cos(h), sin(h)], [cos(a / 2), sin(a / 2)]

# C12 ------------------------------------------------------------------------
P('C12')
@L('quat_matrix', 'versor q, vec3 v, mat4 m', requires=lambda q, v, m: [gt0(norm2(q))])
def _(use, q, v, m):
    r = use('glm_quat_mat3', q)
    yield 'matrix times v = rotated v', mulv(r, v), use('glm_quat_rotatev', q, v)
    yield 'orthonormal', mmul(transpose(r), r), ident(3)
    yield 'determinant 1', det(r), ONE
    yield '4x4 form embeds the 3x3 form', use('glm_quat_mat4', q), ext4(r)
    yield 'transposed forms', [use('glm_quat_mat3t', q), use('glm_quat_mat4t', q)], [transpose(r), transpose(ext4(r))]
    yield 'rotating a transform = matrix product', use('glm_quat_rotate', m, q), use('glm_mat4_mul', m, use('glm_quat_mat4', q))
    yield 'q and -q are the same rotation', use('glm_quat_mat3', -q), r
@L('quat_product_matrix', 'versor p, versor q', rules=lambda p, q: unit_rule(p, q))
def _(use, p, q):
    yield 'matrix of a product = product of matrices', use('glm_quat_mat3', use('glm_quat_mul', p, q)), use('glm_mat3_mul', use('glm_quat_mat3', p), use('glm_quat_mat3', q))
@L('quat_of_matrix', 'versor q', rules=lambda q: unit_rule(q))
def _(use, q):
    r = use('glm_quat_mat3', q)
    yield 'rotation of the recovered quaternion is the matrix', qrot3(use('glm_mat3_quat', r)), r
    yield 'recovered from 4x4 is the same', use('glm_mat4_quat', use('glm_quat_mat4', q)), use('glm_mat3_quat', r)
@L('quat_of_matrix_branch', 'versor q', rules=lambda q: unit_rule(q))
def _(use, q):
    m = qrot3(q); t = m[0][0] + m[1][1] + m[2][2]
    m00, m11, m22 = m[0][0], m[1][1], m[2][2]
    big = ite(fle(0, t), 1 + t, ite(band(fle(m11, m00), fle(m22, m00)), 1 + m00 - m11 - m22, ite(fle(m22, m11), 1 + m11 - m00 - m22, 1 + m22 - m00 - m11)))
    yield 'the selected square root is at least 1: never cancels', fle(ONE, big)
@L('quat_pivot', 'versor q, vec3 p, mat4 m', rules=lambda q, p, m: unit_rule(q))
def _(use, q, p, m):
    r = use('glm_quat_rotate_atm', q, p)
    yield 'pivot is fixed', mulv(r, hom(p)), hom(p)
    yield 'at = matrix times atm', use('glm_quat_rotate_at', m, q, p), use('glm_mat4_mul', m, r)
@L('quat_from_vecs', 'vec3 a, vec3 b', rules=lambda a, b: unit_rule(a, b), requires=lambda a, b: [flt(GEPS - 1, dot(a, b)), flt(dot(a, b), const(1) - GEPS)])
def _(use, a, b):
    q = use('glm_quat_from_vecs', a, b)
    yield 'maps a to b', mulv(qrot3(q), a), b
    yield 'unit', norm2(q), ONE
@L('quat_from_vecs_opposite', 'vec3 a, vec3 b', rules=lambda a, b: unit_rule(a, b), requires=lambda a, b: [flt(dot(a, b), GEPS - 1)])
def _(use, a, b):
    q = use('glm_quat_from_vecs', a, b)
    yield 'a half turn: maps a to -a', mulv(qrot3(q), a), -a
@L('quat_axis_matrix', 'float a, vec3 k', rules=lambda a, k: unit_rule(k))
def _(use, a, k):
    yield 'axis-angle quaternion = axis-angle matrix', use('glm_quat_mat3', use('glm_quatv', a, k)), rot3(k, a)

# C13 ------------------------------------------------------------------------
P('C13')
pm = lambda x, y: bor(band(*[feq(p, q) for p, q in zip(x, y)]), band(*[feq(p, -q) for p, q in zip(x, y)]))
@L('quat_lerp', 'versor a, versor b, float t', rules=lambda a, b, t: unit_rule(a, b))
def _(use, a, b, t):
    for g in ('lerp', 'lerpc'):
        yield g + '(0) = a', use('glm_quat_' + g, a, b, ZERO), a
        yield g + '(1) = b', use('glm_quat_' + g, a, b, ONE), b
    yield 'nlerp(0) = a', use('glm_quat_nlerp', a, b, ZERO), a
    d = dot(a, b); sg = ite(fle(0, d), ONE, const(-1))
    yield 'nlerp(1) = b on the side of a', use('glm_quat_nlerp', a, b, ONE), b * sg
    for g in ('slerp', 'slerp_longest'):
        s0 = use('glm_quat_' + g, a, b, ZERO); s1 = use('glm_quat_' + g, a, b, ONE)
        yield g + '(0) = a up to sign', [s0[i] * s0[j] for i in range(4) for j in range(i + 1)], [a[i] * a[j] for i in range(4) for j in range(i + 1)]
far_apart = lambda a, b: flt(Fraction(1e-3), sqrt(1 - dot(a, b) * dot(a, b)))
@L('quat_slerp', 'versor a, versor b, float t, float s', trigsum=True, rules=lambda a, b, t, s: unit_rule(a, b), rationalize=True,
   requires=lambda a, b, t, s: [flt(fabs_(dot(a, b)), ONE), far_apart(a, b)])
def _(use, a, b, t, s):
    for g in ('slerp', 'slerp_longest'):
        f = lambda x: use('glm_quat_' + g, a, b, x)
        yield g + '(1) = b', f(ONE), b
        yield g + ' stays on the unit sphere', norm2(f(t)), ONE
    yield 'slerp takes the short arc: the cosine between its ends is |a.b|', dot(use('glm_quat_slerp', a, b, ZERO), use('glm_quat_slerp', a, b, ONE)), fabs_(dot(a, b))
    yield 'slerp_longest takes the long arc', dot(use('glm_quat_slerp_longest', a, b, ZERO), use('glm_quat_slerp_longest', a, b, ONE)), -fabs_(dot(a, b))
@L('quat_look', 'versor q, vec3 e', rules=lambda q, e: unit_rule(q))
def _(use, q, e):
    m = use('glm_quat_look', e, q); r = qrot3(q)
    yield 'eye goes to the origin', mulv(m, hom(e)), hom(zeros(3))
    yield 'forward goes to -z', mulv(m, V(list(-r[2]) + [ZERO])), V([ZERO, ZERO, const(-1), ZERO])
@L('quat_for', 'versor q, float lg, float la, float be', rules=lambda q, lg, la, be: unit_rule(q),
   requires=lambda q, lg, la, be: [fle(fl(FEPS), ffn('exp', lg)), fle(fl(FEPS), ffn('exp', la))])
def _(use, q, lg, la, be):
    r = qrot3(q); g, al = ffn('exp', lg), ffn('exp', la)          # any positive lengths
    p = use('glm_quat_for', r[2] * -g, r[1] * al + r[2] * be)
    yield 'orientation whose -z is dir and whose y leans towards up: quaternion of that rotation (see quat_of_matrix)', p, use('glm_mat3_quat', r)
    e = V([g, al, be])
    yield 'point form', use('glm_quat_forp', e, e - r[2] * g, r[1] * al + r[2] * be), p

# C14 ------------------------------------------------------------------------
P('C14')
from .euler import ORDERS
@L('euler_quaternion', 'vec3 a')
def _(use, a):
    for o in ORDERS:
        m = use('glm_euler_' + o, a); q = use('glm_euler_%s_quat_rh' % o, a)
        yield o + ': matrix of the right-handed quaternion', qrot3(q), sub(m, 3)
        yield o + ': unit', norm2(q), ONE
        yield o + ': left-handed form turns z the other way', use('glm_euler_%s_quat_lh' % o, a), use('glm_euler_%s_quat_rh' % o, V([a[0], a[1], -a[2]]))
        yield o + ': orthonormal', mmul(transpose(sub(m, 3)), sub(m, 3)), ident(3)
        yield o + ': determinant 1', det(sub(m, 3)), ONE
@L('euler_angles', 'versor q', rules=lambda q: unit_rule(q), requires=lambda q: [flt(const(-1), qrot3(q)[2][0]), flt(qrot3(q)[2][0], ONE)])
def _(use, q):
    m = ext4(qrot3(q))
    yield 'the angles rebuild the matrix', use('glm_euler_xyz', use('glm_euler_angles', m)), m
@L('euler_poles', 'float a, float c')
def _(use, a, c):
    for s in (1, -1):
        m = ext4(mmul(rotx(a), [V([ZERO, ZERO, const(-s)]), V([ZERO, ONE, ZERO]), V([const(s), ZERO, ZERO])], rotz(c)))
        yield 'gimbal lock %+d: the angles rebuild the matrix' % s, use('glm_euler_xyz', use('glm_euler_angles', m)), m

# C15 ------------------------------------------------------------------------
P('C15')
CS = ('rh_no', 'lh_no', 'rh_zo', 'lh_zo')
hand = lambda cs: 1 if cs[:2] == 'lh' else -1
znear = lambda cs: const(-1) if cs[3:] == 'no' else ZERO
for sfx in CS + ('',):
    @L('frustum_' + (sfx or 'switch'), 'float l, float r, float b, float t, float n, float f', configs=CLIPS if not sfx else ('sse2',),
       requires=lambda l, r, b, t, n, f: [flt(l, r), flt(b, t), flt(ZERO, n), flt(n, f)])
    def _(use, l, r, b, t, n, f, sfx=sfx):
        cs = sfx or CTX.clip(); h = hand(cs); u = '_' + sfx if sfx else ''
        m = use('glm_frustum' + u, l, r, b, t, n, f)
        for x, cx in ((l, -1), (r, 1)):
            for y, cy in ((b, -1), (t, 1)):
                yield 'near corner', mulv(m, V([x, y, h * n, ONE])), V([cx * n, cy * n, znear(cs) * n, n])
                yield 'far corner', mulv(m, V([x * f / n, y * f / n, h * f, ONE])), V([cx * f, cy * f, f, f])
        yield 'centre of the volume', V(mulv(m, V([(l + r) / 2, (b + t) / 2, h * n, ONE]))[:2]), zeros(2)
        w = r - l; k = t - b
        yield 'perspective is the symmetric frustum', use('glm_perspective' + u, l, w, n, f), use('glm_frustum' + u, -(tan(l / 2) * n * w), tan(l / 2) * n * w, -(tan(l / 2) * n), tan(l / 2) * n, n, f)
        yield 'perspective default', use('glm_perspective_default' + u, w), use('glm_perspective' + u, const(PI / 4), w, const(0.01), const(100))
    @L('ortho_' + (sfx or 'switch'), 'float l, float r, float b, float t, float n, float f', configs=CLIPS if not sfx else ('sse2',),
       requires=lambda l, r, b, t, n, f: [flt(l, r), flt(b, t), flt(n, f)])
    def _(use, l, r, b, t, n, f, sfx=sfx):
        cs = sfx or CTX.clip(); h = hand(cs); u = '_' + sfx if sfx else ''
        m = use('glm_ortho' + u, l, r, b, t, n, f)
        for x, cx in ((l, -1), (r, 1)):
            for y, cy in ((b, -1), (t, 1)):
                yield 'near corner', mulv(m, V([x, y, h * n, ONE])), V([const(cx), const(cy), znear(cs), ONE])
                yield 'far corner', mulv(m, V([x, y, h * f, ONE])), V([const(cx), const(cy), ONE, ONE])
        # the view box: near plane at the end nearest the eye
        zs = (n, f) if h > 0 else (f, n)
        box = [V([l, b, n]), V([r, t, f])]
        mb = use('glm_ortho_aabb' + u, box)
        for x, cx in ((l, -1), (r, 1)):
            for y, cy in ((b, -1), (t, 1)):
                yield 'box: nearest face', mulv(mb, V([x, y, zs[0], ONE])), V([const(cx), const(cy), znear(cs), ONE])
                yield 'box: farthest face', mulv(mb, V([x, y, zs[1], ONE])), V([const(cx), const(cy), ONE, ONE])
        p = n - l
        yield 'padded box', use('glm_ortho_aabb_p' + u, box, p), use('glm_ortho_aabb' + u, [box[0] - p, box[1] + p])
        yield 'padded in z', use('glm_ortho_aabb_pz' + u, box, p), use('glm_ortho_aabb' + u, [box[0] - [ZERO, ZERO, p], box[1] + [ZERO, ZERO, p]])

# C16 ------------------------------------------------------------------------
P('C16')
for sfx in CS + ('',):
    @L('decompose_projection_' + (sfx or 'switch'), 'float l, float r, float b, float t, float n, float f, float d', configs=CLIPS if not sfx else ('sse2',),
       requires=lambda l, r, b, t, n, f, d: [flt(l, r), flt(b, t), flt(ZERO, n), flt(n, f), flt(ZERO, d)])
    def _(use, l, r, b, t, n, f, d, sfx=sfx):
        u = '_' + sfx if sfx else ''; g = lambda nm, *a: use('glm_' + nm + u, *a)
        m = g('frustum', l, r, b, t, n, f)
        yield 'planes are recovered', list(g('persp_decomp', m)), [n, f, t, b, l, r]
        yield 'vector form', g('persp_decompv', m), [n, f, t, b, l, r]
        yield 'partial forms', [list(g('persp_decomp_x', m)), list(g('persp_decomp_y', m)), list(g('persp_decomp_z', m)), g('persp_decomp_near', m), g('persp_decomp_far', m)], [[l, r], [t, b], [n, f], n, f]
        yield 'moving the far plane', g('persp_move_far', m, d), g('frustum', l, r, b, t, n, f + d)
        w = r - l
        p = g('perspective', t, w, n, f); k = 2 * tan(t / 2)
        yield 'aspect', g('persp_aspect', p), w
        yield 'field of view', tan(g('persp_fovy', p) / 2), tan(t / 2)
        yield 'sizes', g('persp_sizes', p, t), V([w * k * n, k * n, w * k * f, k * f])
        yield 'resized', g('perspective_resize', d, p), g('perspective', t, d, n, f)

# C17 ------------------------------------------------------------------------
P('C17')
def nondeg(e, d, u): return [fle(fl(FEPS), norm(d)), fle(fl(FEPS), norm(cross(unit(d), u)))]
for sfx in ('rh', 'lh', 'rh_no', 'rh_zo', 'lh_no', 'lh_zo', ''):
    @L('view_' + (sfx or 'switch'), 'vec3 e, vec3 d, vec3 u', configs=CLIPS if not sfx else ('sse2',), requires=nondeg)
    def _(use, e, d, u, sfx=sfx):
        h = 1 if (sfx[:2] or CTX.hand()) == 'lh' else -1; x = '_' + sfx if sfx else ''
        m = use('glm_look' + x, e, d, u); r = sub(m, 3)
        yield 'eye goes to the origin', mulv(m, hom(e)), hom(zeros(3))
        yield 'viewing direction goes to the depth axis', mulv(m, V(list(d) + [ZERO])), V([ZERO, ZERO, h * norm(d), ZERO])
        yield 'orthonormal', mmul(r, transpose(r)), ident(3)
        yield 'determinant 1', det(r), ONE
        up = mulv(r, u)
        yield 'up stays in the vertical plane', up[0], ZERO
        yield 'up points upwards', fle(ZERO, up[1])
        yield 'look-at form', use('glm_lookat' + x, e, e + d, u), m
    @L('view_anyup_' + (sfx or 'switch'), 'vec3 e, vec3 d', configs=CLIPS if not sfx else ('sse2',), requires=lambda e, d: [bnot(band(*[feq(x, 0) for x in d]))])
    def _(use, e, d, sfx=sfx):
        from .vec import ortho as anyup
        x = '_' + sfx if sfx else ''; u = anyup(d)
        yield 'the chosen up vector is orthogonal to the direction', dot(u, d), ZERO
        yield 'and not zero', bnot(band(*[feq(y, 0) for y in u]))
        yield 'view with that up vector', use('glm_look_anyup' + x, e, d), use('glm_look' + x, e, d, u)

# C18 ------------------------------------------------------------------------
P('C18')
@L('unproject', 'vec3 p, mat4 m, vec4 vp', configs=CLIPS, requires=lambda p, m, vp: [nz(det(m)), nz(mulv(m, hom(p))[3]), nz(vp[2]), nz(vp[3])])
def _(use, p, m, vp):
    i = inv(m)
    for x in ('', '_no', '_zo'):
        s = use('glm_project' + x, p, m, vp)
        yield 'unproject(project(p)) = p' + x, use('glm_unprojecti' + x, s, i, vp), p
        yield 'depth form' + x, use('glm_project_z' + x, p, m), s[2]
    yield 'inverting form', use('glm_unproject', use('glm_project', p, m, vp), m, vp), p
@L('pickmatrix', 'vec2 c, vec2 s, vec4 vp, mat4 m', requires=lambda c, s, vp, m: [gt0(s[0]), gt0(s[1]), gt0(vp[2]), gt0(vp[3])])
def _(use, c, s, vp, m):
    k = use('glm_pickmatrix', c, s, vp, m)
    for x in (-1, 1):
        for y in (-1, 1):
            q = V([2 * (c[0] + s[0] * x / 2 - vp[0]) / vp[2] - 1, 2 * (c[1] + s[1] * y / 2 - vp[1]) / vp[3] - 1, m[0][0], ONE])
            yield 'corner of the rectangle goes to the corner of the clip square; depth is kept', mulv(k, q), V([const(x), const(y), m[0][0], ONE])

# C19 ------------------------------------------------------------------------
P('C19')
@L('frustum_planes', 'mat4 m, vec3 p', requires=lambda m, p: [fle(fl(FEPS), norm(V(r[:3]))) for r in _rawplanes(m)])
def _(use, m, p):
    q = mulv(m, hom(p))
    for nm, pl, raw, d in zip(('left', 'right', 'bottom', 'top', 'near', 'far'), use('glm_frustum_planes', m), _rawplanes(m), (q[3] + q[0], q[3] - q[0], q[3] + q[1], q[3] - q[1], q[3] + q[2], q[3] - q[2])):
        yield nm + ': normal has length 1', norm2(pl[:3]), ONE
        yield nm + ': signed distance is the clip coordinate over the length', dot(pl, hom(p)) * norm(V(raw[:3])), d
def _rawplanes(m):
    r = transpose(m); return (r[3] + r[0], r[3] - r[0], r[3] + r[1], r[3] - r[1], r[3] + r[2], r[3] - r[2])
@L('frustum_corners', 'mat4 m', requires=lambda m: [nz(det(m))])
def _(use, m):
    from .geom import CUBE
    i = inv(m)
    for c, k in zip(CUBE, use('glm_frustum_corners', i)):
        x = V([fl(y) for y in c] + [ONE]); w = mulv(i, x)[3]
        yield 'corner projects to the corner of the clip cube', mulv(m, k) * w, x
        yield 'w is 1', k[3], ONE
@L('frustum_box_frame', 'vec4 c[8], mat4 m', domain=lambda c, m: [fle(fabs_(x), const(10 ** 9)) for p in c for x in mulv(m, p)])
def _(use, c, m):
    yield 'box in a frame = box of the corners moved to that frame', use('glm_frustum_box', c, m), use('glm_frustum_box', [mulv(m, p) for p in c], ident(4))
@L('frustum_box', 'vec4 c[8]', requires=lambda c: [fle(fabs_(x), const(10 ** 9)) for p in c for x in p[:3]])
def _(use, c):
    lo, hi = use('glm_frustum_box', c, ident(4)); m = ident(4)
    for k, x in enumerate(c):
        yield 'corner %d is inside the box' % k, [q for i in range(3) for q in (fle(lo[i], x[i]), fle(x[i], hi[i]))]
    yield 'the box is tight', [bor(*[feq(b[i], p[i]) for p in c]) for b in (lo, hi) for i in range(3)]
    yield 'centre is the mean of the corners', use('glm_frustum_center', c) * 8, V(total(p[i] for p in c) for i in range(4))
@L('slice_corners', 'vec4 c[8], float s, float f', requires=lambda c, s, f: [gt0(f)] + [fle(fl(FEPS), norm(V(c[i + 4]) - V(c[i]))) for i in range(4)] + [feq(V(c[2])[3], ONE), feq(V(c[6])[3], ONE)])
def _(use, c, s, f):
    o = use('glm_frustum_corners_at', c, s, f)
    yield 'the right-top corner at s is s/f of the way along its edge', V(o[2]), V(c[2]) + (V(c[6]) - V(c[2])) * (s / f)
    yield 'slice at 0 is the near rectangle', use('glm_frustum_corners_at', c, ZERO, f), c[:4]

# C20 / C21 ------------------------------------------------------------------
def inside(b, p): return band(*[q for i in range(len(p)) for q in (fle(b[0][i], p[i]), fle(p[i], b[1][i]))])
def valid(b): return [fle(x, y) for x, y in zip(b[0], b[1])]
for n, nm, pid in ((3, 'aabb', 'C20'), (2, 'aabb2d', 'C21')):
    P(pid)
    bx = 'vec%d a[2], vec%d b[2], vec%d p' % (n, n, n)
    @L(nm + '_sets', bx)
    def _(use, a, b, p, n=n, nm=nm):
        g = lambda f, *x: use('glm_%s_%s' % (nm, f), *x)
        yield 'point test is membership', feqb(g('point', a, p), inside(a, p))
        yield 'crop is the intersection', feqb(inside(g('crop', a, b), p), band(inside(a, p), inside(b, p)))
        yield 'a point of either box is in the merged box', [bor(bnot(inside(x, p)), inside(g('merge', a, b), p)) for x in (a, b)]
        yield 'boxes with a common point overlap', bor(bnot(band(inside(a, p), inside(b, p))), g('aabb', a, b))
        yield 'overlap is symmetric', feqb(g('aabb', a, b), g('aabb', b, a))
        yield 'a contained box has only contained points', bor(bnot(band(g('contains', a, b), inside(b, p))), inside(a, p))
        yield 'the invalid box has no points', bnot(inside(g('invalidate'), p))
        yield 'merging with the invalid box changes nothing (finite boxes)', bor(bnot(band(*[fle(fabs_(x), const(10 ** 9)) for q in a for x in q])), band(*[feq(x, y) for u, v in zip(g('merge', a, g('invalidate')), a) for x, y in zip(u, v)]))
        yield 'crop_until keeps the until box', bor(bnot(inside(b, p)), inside(g('crop_until', a, [p, p], b), p))
    @L(nm + '_overlap', bx, requires=lambda a, b, p: valid(a) + valid(b))
    def _(use, a, b, p, n=n, nm=nm):
        g = lambda f, *x: use('glm_%s_%s' % (nm, f), *x)
        c = V(g('crop', a, b)[0])
        yield 'overlapping boxes have a common point', bor(bnot(g('aabb', a, b)), band(inside(a, c), inside(b, c)))
        yield 'contains is inclusion of both extreme points', feqb(g('contains', a, b), band(inside(a, V(b[0])), inside(a, V(b[1]))))
        yield 'the centre is inside', inside(a, V(g('center', a)))
        yield 'radius is half the %s' % ('size' if n == 3 else 'diagonal'), g('radius', a) * 2, g('size' if n == 3 else 'diag', a)
        yield 'merge is the smallest box containing both', bor(bnot(band(g('contains', [p, p + 1], a), g('contains', [p, p + 1], b))), g('contains', [p, p + 1], g('merge', a, b)))
    @L(nm + '_transform', 'vec%d a[2], vec%d p, mat%d m' % (n, n, n + 1), requires=lambda a, p, m: valid(a) + [inside(a, p)],
       facts=lambda a, p, m, n=n: [q for k in range(n) for i in range(n) for q in (fle(fmin_(m[k][i] * a[0][k], m[k][i] * a[1][k]), m[k][i] * p[k]), fle(m[k][i] * p[k], fmax_(m[k][i] * a[0][k], m[k][i] * a[1][k])))])
    def _(use, a, p, m, n=n, nm=nm):
        t = use('glm_%s_transform' % nm, a, m); x = mulv(m, hom(p))
        for i in range(n): yield 'the image of a point of the box is in the transformed box', [fle(t[0][i], x[i]), fle(x[i], t[1][i])]
    @L(nm + '_ball', 'vec%d a[2], vec%d p, vec%d s' % (n, n, n + 1), requires=lambda a, p, s: valid(a))
    def _(use, a, p, s, n=n, nm=nm):
        hit = use('glm_%s_%s' % (nm, 'sphere' if n == 3 else 'circle'), a, s); c = V(s[:n])
        near = vmap(fmin_, vmap(fmax_, c, a[0]), a[1])
        yield 'the nearest point of the box is in the box', inside(a, near)
        yield 'hit exactly when the nearest point is within the radius', feqb(hit, fle(norm2(near - c), s[n] * s[n]))
P('C20')
@L('aabb_frustum', 'vec3 b[2], vec3 p, vec4 pl[6]', requires=lambda b, p, pl: [inside(b, p)] + [fle(ZERO, dot(q, hom(p))) for q in pl],
   facts=lambda b, p, pl: [fle(q[i] * p[i], ite(flt(0, q[i]), q[i] * b[1][i], q[i] * b[0][i])) for q in pl for i in range(3)])
def _(use, b, p, pl):
    one = [use('glm_aabb_frustum', b, [q] * 6) for q in pl]
    yield 'the test is made plane by plane', feqb(use('glm_aabb_frustum', b, pl), band(*one))
    for q in one: yield 'a box with a point inside the plane is not rejected by it', q

# C22 ------------------------------------------------------------------------
P('C22')
@L('sphere_merge', 'vec4 a, vec4 b', requires=lambda a, b: [fle(0, a[3]), fle(0, b[3])])
def _(use, a, b):
    m = use('glm_sphere_merge', a, b); d = norm(V(a[:3]) - V(b[:3]))
    for x in (a, b):
        yield 'centre midway', norm2(V(m[:3]) - V(x[:3])) * 4, d * d
        yield 'contains the sphere: d/2 + r <= R', fle(d / 2 + x[3], m[3])
    yield 'overlap is symmetric', feqb(use('glm_sphere_sphere', a, b), use('glm_sphere_sphere', b, a))
    yield 'overlap: distance at most the radii', feqb(use('glm_sphere_sphere', a, b), fle(d, a[3] + b[3]))
    yield 'a point is a sphere of radius 0', feqb(use('glm_sphere_point', a, V(b[:3])), use('glm_sphere_sphere', a, V(list(b[:3]) + [ZERO])))

# C23 ------------------------------------------------------------------------
P('C23')
@L('ray_triangle', 'vec3 o, vec3 d, vec3 a, vec3 b, vec3 c')
def _(use, o, d, a, b, c):
    from .geom import RE
    hit, t = use('glm_ray_triangle', o, d, a, b, c, ZERO)
    e1, e2 = b - a, c - a; p = cross(d, e2); dt = dot(e1, p); s = o - a
    u = dot(s, p) / dt; v = dot(d, cross(s, e1)) / dt; w = dot(e2, cross(s, e1)) / dt
    yield 'o + w d = a + u e1 + v e2', o + d * w, a + e1 * u + e2 * v
    for q in (fle(0, u), fle(0, v), fle(u + v, 1), flt(RE, w)): yield 'a hit is inside the triangle and in front of the origin', bor(bnot(hit), q)
    yield 'at the reported distance', ite(hit, t, w), w
@L('ray_sphere', 'vec3 o, vec3 d, vec4 s', rules=lambda o, d, s: unit_rule(d), requires=lambda o, d, s: [use_hit(o, d, s)])
def _(use, o, d, s):
    hit, t1, t2 = use('glm_ray_sphere', o, d, s, ZERO, ZERO)
    yield 'a ray whose line meets the sphere not wholly behind hits', hit
    for t in (t1, t2): yield 'the hit point is on the sphere', norm2(V(use('glm_ray_at', o, d, t)) - V(s[:3])), s[3] * s[3]
    yield 'ordered', fle(t1, t2)
    yield 'the far hit is in front', fle(ZERO, t2)
def use_hit(o, d, s):
    p = V(s[:3]) - o; b = dot(d, p); disc = s[3] * s[3] - norm2(p - d * b)
    return band(fle(0, disc), fle(0, b))

# C24 ------------------------------------------------------------------------
P('C24')
@L('curves', 'float s, float p0, float c0, float c1, float p1')
def _(use, s, p0, c0, c1, p1):
    B = lambda x: use('glm_bezier', x, p0, c0, c1, p1); H = lambda x: use('glm_hermite', x, p0, c0, c1, p1)
    yield 'Bezier ends', [B(ZERO), B(ONE)], [p0, p1]
    yield 'Hermite ends', [H(ZERO), H(ONE)], [p0, p1]
    yield 'Hermite start tangent', H(s) - p0 - s * c0, s * s * (3 * (p1 - p0) - 2 * c0 - c1 + s * (2 * (p0 - p1) + c0 + c1))
    x = s - 1
    yield 'Hermite end tangent', H(s) - p1 - x * c1, x * x * (3 * (p0 - p1) + c0 + 2 * c1 + x * (2 * (p0 - p1) + c0 + c1))
    yield 'Bezier is Hermite with three times the control offsets', B(s), use('glm_hermite', s, p0, 3 * (c0 - p0), 3 * (p1 - c1), p1)
    yield 'Bezier is symmetric under reversal', B(s), use('glm_bezier', 1 - s, p1, c1, c0, p0)
    M = [[-1, 3, -3, 1], [3, -6, 3, 0], [-3, 3, 0, 0], [1, 0, 0, 0]]
    yield 'matrix form', use('glm_smc', s, [V([fl(x) for x in c]) for c in M], V([p0, c0, c1, p1])), B(s)

# C25 ------------------------------------------------------------------------
P('C25')
FAM = ('sine', 'quad', 'cubic', 'quart', 'quint', 'circ', 'back', 'elast', 'bounce', 'exp')
@L('ease', 'float t', trigsum=True, requires=lambda t: [fle(0, t), fle(t, 1)])
def _(use, t):
    for f in FAM:
        for k in ('in', 'out', 'inout'):
            g = lambda x: use('glm_ease_%s_%s' % (f, k), x)
            yield '%s_%s(0) = 0' % (f, k), g(ZERO), ZERO
            yield '%s_%s(1) = 1' % (f, k), g(ONE), ONE
        if f != 'elast': yield f + ': out is in reversed', use('glm_ease_%s_out' % f, t), 1 - use('glm_ease_%s_in' % f, 1 - t)
        yield f + '_inout(1/2) = 1/2', use('glm_ease_%s_inout' % f, const(Fraction(1, 2))), const(Fraction(1, 2))
@L('ease_joint', 'float t')
def _(use, t):
    for f in FAM:
        for k in ('in', 'out', 'inout'):
            for c, (x, y) in joints(use('glm_ease_%s_%s' % (f, k), t), t):
                if f == 'exp' and c in (0, 1): continue           # 2^-10 steps of the defining formula at its ends
                yield '%s_%s is continuous at %s' % (f, k, c), x, y
def joints(e, t):
    """both arms of every case split of e on t < c (or t = c), evaluated at c"""
    from ..norm import NF
    out = []; seen = set(); N = NF()
    def rec(x):
        if not isinstance(x, D.Node) or id(x) in seen: return
        seen.add(id(x))
        if x.op == 'ite':
            c = x.args[0]
            while c.op == 'not': c = c.args[0]
            at = lambda z, k: D.subst(z, {t.id: const(k)})
            v = [[N.const(N.nf(at(z, k))) for k in (0, 1)] for z in c.args[1:]] if c.op == 'fcmp' else [[None]]
            if all(q is not None for z in v for q in z):
                d0, d1 = Fraction(v[0][0] - v[1][0]), Fraction(v[0][1] - v[1][1])          # linear in t
                k = d0 / (d0 - d1)
                out.append((k, [at(y, k) for y in x.args[1:]]))
        for y in x.args: rec(y)
    rec(e); return out

