"""3D and 2D affine transforms."""
from .lib import *
P('C08')
def T(v): return translation(v)
def R(ang, axis): return ext4(rot3n(ang, axis))
def rot3n(ang, axis):
    """rotation matrix about axis/|axis|; cos(angle)*I when the axis is (numerically) zero"""
    return rot3(normalize(axis), ang)
E_ = lambda i, x: V([fl(x) if k == i else ZERO for k in range(3)])
S('glm_translate(&mat4 m, vec3 v)', lambda m, v: mmul(m, T(v)))
S('glm_translate_to(mat4 m, vec3 v, >mat4 dest)', lambda m, v: mmul(m, T(v)))
for i, x in enumerate('xyz'):
    S('glm_translate_%s(&mat4 m, float t)' % x, lambda m, t, i=i: mmul(m, T(E_(i, t))))
AFF = {(0, 3): 0, (1, 3): 0, (2, 3): 0, (3, 3): 1}          # bottom row of an affine matrix
LIN = {(0, 3): 0, (1, 3): 0, (2, 3): 0}
ROT = dict(AFF); ROT.update({(3, 0): 0, (3, 1): 0, (3, 2): 0})
S('glm_translated(&mat4 m, vec3 v)', lambda m, v: mmul(T(v), m), fix={'m': AFF})
S('glm_translated_to(mat4 m, vec3 v, >mat4 dest)', lambda m, v: mmul(T(v), m), fix={'m': AFF})
for i, x in enumerate('xyz'):
    S('glm_translated_%s(&mat4 m, float t)' % x, lambda m, t, i=i: mmul(T(E_(i, t)), m), fix={'m': AFF})
S('glm_translate_make(>mat4 m, vec3 v)', T)
S('glm_scale_make(>mat4 m, vec3 v)', scaling)
S('glm_scale_to(mat4 m, vec3 v, >mat4 dest)', lambda m, v: mmul(m, scaling(v)))
S('glm_scale(&mat4 m, vec3 v)', lambda m, v: mmul(m, scaling(v)))
S('glm_scale_uni(&mat4 m, float s)', lambda m, s: mmul(m, scaling([s, s, s])))
S('glm_rotate_make(>mat4 m, float angle, vec3 axis)', R)
for x, r in (('x', rotx), ('y', roty), ('z', rotz)):
    S('glm_rotate_%s(mat4 m, float a, >mat4 dest)' % x, lambda m, a, r=r: mmul(m, ext4(r(a))))
    S('glm_rotated_%s(mat4 m, float a, >mat4 dest)' % x, lambda m, a, r=r: mmul(ext4(r(a)), m), fix={'m': AFF})
S('glm_rotate(&mat4 m, float a, vec3 axis)', lambda m, a, x: mmul(m, R(a, x)))
S('glm_rotated(&mat4 m, float a, vec3 axis)', lambda m, a, x: mmul(R(a, x), m), fix={'m': AFF})
def at(p, a, x): return mmul(T(p), R(a, x), T(-p))
S('glm_rotate_at(&mat4 m, vec3 pivot, float a, vec3 axis)', lambda m, p, a, x: mmul(m, at(p, a, x)))
S('glm_rotate_atm(>mat4 m, vec3 pivot, float a, vec3 axis)', at)
S('glm_rotated_at(&mat4 m, vec3 pivot, float a, vec3 axis)', lambda m, p, a, x: mmul(at(p, a, x), m), fix={'m': AFF})
S('glm_spin(&mat4 m, float a, vec3 axis)', lambda m, a, x: mmul(m, R(a, x)))
S('glm_spinned(&mat4 m, float a, vec3 axis)', lambda m, a, x: mmul(at(m[3][:3], a, x), m), fix={'m': AFF})
S('glm_mul(mat4 a, mat4 b, >mat4 dest)', mmul, fix={'b': LIN}, prop='C06')
S('glm_mul_rot(mat4 a, mat4 b, >mat4 dest)', mmul, fix={'b': ROT}, prop='C06')
P('C07')
def inv_tr(m):
    r = transpose(sub(m, 3)); t = -mulv(r, m[3][:3])
    o = ext4(r); o[3] = V([t[0], t[1], t[2], ONE]); return o
S('glm_inv_tr(&mat4 m)', inv_tr, fix={'m': AFF})
P('C09')
def scalev(m): return V(norm(c[:3]) for c in m[:3])
S('glm_decompose_scalev(mat4 m, >vec3 s)', scalev)
S('glm_uniscaled(mat4 m) -> bool', lambda m: all_(eqeps(x, scalev(m)[0]) for x in scalev(m)))
def decomp_rs(m):
    s = scalev(m); neg = flt(det(sub(m, 3)), 0)
    r = [V(ite(neg, -x, x) for x in m[i] / s[i]) for i in range(3)] + [V([ZERO, ZERO, ZERO, ONE])]
    return r, V(ite(neg, -x, x) for x in s)
nondeg = lambda m: [bnot(feq(det(sub(m, 3)), ZERO))]     # a singular matrix has no decomposition
S('glm_decompose_rs(mat4 m, >mat4 r, >vec3 s)', decomp_rs, noalias=True, domain=nondeg)
S('glm_decompose(mat4 m, >vec4 t, >mat4 r, >vec3 s)', lambda m: (m[3],) + decomp_rs(m), noalias=True, domain=nondeg)

P('C10')
def T2(v): m = ident(3); m[2] = V([v[0], v[1], ONE]); return m
def S2(v): m = ident(3); m[0][0] = v[0]; m[1][1] = v[1]; return m
def R2(a): return rotz(a)
S('glm_translate2d(&mat3 m, vec2 v)', lambda m, v: mmul(m, T2(v)))
S('glm_translate2d_to(mat3 m, vec2 v, >mat3 dest)', lambda m, v: mmul(m, T2(v)))
S('glm_translate2d_x(&mat3 m, float x)', lambda m, x: mmul(m, T2([x, ZERO])))
S('glm_translate2d_y(&mat3 m, float y)', lambda m, y: mmul(m, T2([ZERO, y])))
S('glm_translate2d_make(>mat3 m, vec2 v)', T2)
S('glm_scale2d_to(mat3 m, vec2 v, >mat3 dest)', lambda m, v: mmul(m, S2(v)))
S('glm_scale2d_make(>mat3 m, vec2 v)', S2)
S('glm_scale2d(&mat3 m, vec2 v)', lambda m, v: mmul(m, S2(v)))
S('glm_scale2d_uni(&mat3 m, float s)', lambda m, s: mmul(m, S2([s, s])))
S('glm_rotate2d_make(>mat3 m, float a)', R2)
S('glm_rotate2d(&mat3 m, float a)', lambda m, a: mmul(m, R2(a)))
S('glm_rotate2d_to(mat3 m, float a, >mat3 dest)', lambda m, a: mmul(m, R2(a)))
LIN2 = {(0, 2): 0, (1, 2): 0, (2, 2): 1}
S('glm_translated2d(&mat3 m, vec2 v)', lambda m, v: mmul(T2(v), m), fix={'m': LIN2})
S('glm_translated2d_x(&mat3 m, float x)', lambda m, x: mmul(T2([x, ZERO]), m), fix={'m': LIN2})
S('glm_translated2d_y(&mat3 m, float y)', lambda m, y: mmul(T2([ZERO, y]), m), fix={'m': LIN2})
S('glm_rotated2d(&mat3 m, float a)', lambda m, a: mmul(R2(a), m))
S('glm_scaled2d(&mat3 m, vec2 v)', lambda m, v: mmul(S2(v), m))
S('glm_scaled2d_uni(&mat3 m, float s)', lambda m, s: mmul(S2([s, s]), m))
