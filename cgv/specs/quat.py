"""Quaternions: algebra, conversions to and from rotation matrices, interpolation."""
from .lib import *
from .affine import T

def qmul(p, q):
    """Hamilton product, (x, y, z, w) layout"""
    pv, pw, qv, qw = V(p[:3]), p[3], V(q[:3]), q[3]
    v = qv * pw + pv * qw + cross(pv, qv)
    return V(list(v) + [pw * qw - dot(pv, qv)])
def qconj(q): return V([-q[0], -q[1], -q[2], q[3]])
def qident(): return V([ZERO, ZERO, ZERO, ONE])
def qnormalize(q):
    n2 = norm2(q)
    return vite(fle(n2, 0), qident(), V(x / sqrt(n2) for x in q))
def qrot3(q):
    """rotation matrix of the quaternion q (of q/|q|); the identity for the zero quaternion"""
    n2 = norm2(q); s = ite(flt(0, n2), 2 / n2, ZERO)
    x, y, z, w = q
    return [V([1 - s * (y * y + z * z), s * (x * y + w * z), s * (x * z - w * y)]),
            V([s * (x * y - w * z), 1 - s * (x * x + z * z), s * (y * z + w * x)]),
            V([s * (x * z + w * y), s * (y * z - w * x), 1 - s * (x * x + y * y)])]
def qaxis(ang, axis):
    k = normalize(axis); s, c = sin(ang / 2), cos(ang / 2)
    return V([k[0] * s, k[1] * s, k[2] * s, c])

P('C11')
S('glm_quat_identity(>versor q)', qident)
S('glm_quat_init(>versor q, float x, float y, float z, float w)', lambda x, y, z, w: V([x, y, z, w]))
S('glm_quat_make(float src[4], >versor q)', lambda a: V(a))
S('glm_quat_copy(versor q, >versor dest)', lambda q: q)
S('glm_quatv(>versor q, float angle, vec3 axis)', qaxis)
S('glm_quat(>versor q, float angle, float x, float y, float z)', lambda a, x, y, z: qaxis(a, V([x, y, z])))
S('glm_quat_norm(versor q) -> float', norm)
S('glm_quat_normalize_to(versor q, >versor dest)', qnormalize)
S('glm_quat_normalize(&versor q)', qnormalize)
S('glm_quat_dot(versor p, versor q) -> float', dot)
S('glm_quat_conjugate(versor q, >versor dest)', qconj)
S('glm_quat_inv(versor q, >versor dest)', lambda q: V(x / norm2(q) for x in qconj(q)))
S('glm_quat_add(versor p, versor q, >versor dest)', lambda p, q: p + q)
S('glm_quat_sub(versor p, versor q, >versor dest)', lambda p, q: p - q)
S('glm_quat_real(versor q) -> float', lambda q: q[3])
S('glm_quat_imag(versor q, >vec3 dest)', lambda q: q[:3])
S('glm_quat_imagn(versor q, >vec3 dest)', lambda q: normalize(q[:3]))
S('glm_quat_imaglen(versor q) -> float', lambda q: norm(q[:3]))
S('glm_quat_angle(versor q) -> float', lambda q: 2 * ffn('atan2', norm(q[:3]), q[3]))
S('glm_quat_axis(versor q, >vec3 dest)', lambda q: normalize(q[:3]))
S('glm_quat_mul(versor p, versor q, >versor dest)', qmul)

P('C12')
S('glm_quat_mat4(versor q, >mat4 dest)', lambda q: ext4(qrot3(q)))
S('glm_quat_mat4t(versor q, >mat4 dest)', lambda q: ext4(transpose(qrot3(q))))
S('glm_quat_mat3(versor q, >mat3 dest)', qrot3)
S('glm_quat_mat3t(versor q, >mat3 dest)', lambda q: transpose(qrot3(q)))
def matquat(m):
    """quaternion of a rotation matrix (largest-component method)"""
    t = m[0][0] + m[1][1] + m[2][2]
    m00, m11, m22 = m[0][0], m[1][1], m[2][2]
    r0 = sqrt(1 + t); rx = sqrt(1 + m00 - m11 - m22); ry = sqrt(1 + m11 - m00 - m22); rz = sqrt(1 + m22 - m00 - m11)
    d = lambda a, b: m[a][b] - m[b][a]
    s = lambda a, b: m[a][b] + m[b][a]
    q0 = V([d(1, 2) / (2 * r0), d(2, 0) / (2 * r0), d(0, 1) / (2 * r0), r0 / 2])
    qx = V([rx / 2, s(0, 1) / (2 * rx), s(0, 2) / (2 * rx), d(1, 2) / (2 * rx)])
    qy = V([s(0, 1) / (2 * ry), ry / 2, s(1, 2) / (2 * ry), d(2, 0) / (2 * ry)])
    qz = V([s(0, 2) / (2 * rz), s(1, 2) / (2 * rz), rz / 2, d(0, 1) / (2 * rz)])
    return vite(fle(0, t), q0, vite(band(fle(m11, m00), fle(m22, m00)), qx, vite(fle(m22, m11), qy, qz)))
S('glm_mat3_quat(mat3 m, >versor dest)', matquat)
S('glm_mat4_quat(mat4 m, >versor dest)', lambda m: matquat(sub(m, 3)))
def qrotv(q, v):
    p = qnormalize(q); u = V(p[:3]); s = p[3]
    return u * (2 * dot(u, v)) + v * (s * s - dot(u, u)) + cross(u, v) * (2 * s)
S('glm_quat_rotatev(versor q, vec3 v, >vec3 dest)', qrotv)
S('glm_quat_rotate(mat4 m, versor q, >mat4 dest)', lambda m, q: mmul(m, ext4(qrot3(q))))
def qat(q, p): return mmul(T(p), ext4(qrot3(q)), T(-p))
S('glm_quat_rotate_at(&mat4 m, versor q, vec3 pivot)', lambda m, q, p: mmul(m, qat(q, p)))
S('glm_quat_rotate_atm(>mat4 m, versor q, vec3 pivot)', qat)
def from_vecs(a, b):
    c = dot(a, b)
    from .vec import ortho
    o = ortho(a)
    qa = V([o[0], o[1], o[2], ZERO]); x = cross(a, b); qb = V([x[0], x[1], x[2], 1 + c])
    return vite(fle(const(1) - geps(), c), qident(), vite(flt(c, geps() - 1), qnormalize(qa), qnormalize(qb)))
S('glm_quat_from_vecs(vec3 a, vec3 b, >versor dest)', from_vecs)

P('C13')
S('glm_quat_lerp(versor a, versor b, float t, >versor dest)', lambda a, b, t: lerpq(a, b, t))
S('glm_quat_lerpc(versor a, versor b, float t, >versor dest)', lambda a, b, t: lerpq(a, b, clamp01(t)))
def lerpq(a, b, t): return a + (b - a) * t
S('glm_quat_nlerp(versor a, versor b, float t, >versor dest)',
  lambda a, b, t: qnormalize(lerpq(a, vite(fle(0, dot(a, b)), b, -b), t)))
def slerp(a, b, t, longest=False):
    """shortest (or longest) great-circle interpolation; (almost) linear when the angle is below 1e-3"""
    c = dot(a, b)
    neg = flt(c, 0) if not longest else bnot(flt(c, 0))
    q1 = vite(neg, -a, a); cc = ite(neg, -c, c)
    st = sqrt(1 - cc * cc); an = ffn('acos', cc)
    gc = (q1 * sin((1 - t) * an) + b * sin(t * an)) / st
    near = lerpq(q1 if not longest else a, b, t)
    return vite(fle(1, fabs_(c)), a, vite(flt(fabs_(st), Fraction(1e-3)), near, gc))
S('glm_quat_slerp(versor a, versor b, float t, >versor dest)', slerp)
S('glm_quat_slerp_longest(versor a, versor b, float t, >versor dest)', lambda a, b, t: slerp(a, b, t, True),
  note='below an angle of 1e-3 the longest arc is ill-conditioned; the contract there is the linear fallback the library chose')
S('glm_quat_look(vec3 eye, versor ori, >mat4 dest)', lambda e, q: mmul(ext4(transpose(qrot3(q))), T(-e)))
def qfor(d, up):
    z = -normalize(d); x = normalize(cross(up, z)); y = cross(z, x)
    return matquat([x, y, z])
S('glm_quat_for(vec3 dir, vec3 up, >versor dest)', qfor)
S('glm_quat_forp(vec3 frm, vec3 to, vec3 up, >versor dest)', lambda f, t, up: qfor(t - f, up))
