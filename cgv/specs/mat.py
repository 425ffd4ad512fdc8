"""Square and non-square matrices."""
from .lib import *

def square(n):
    M = 'mat%d' % n; v = 'vec%d' % n
    def s(sig, fn, **o): return S('glm_' + sig.replace('MAT', M).replace('vec ', v + ' '), fn, **o)
    P('C06')
    s('MAT_copy(MAT m, >MAT dest)', lambda m: m)
    if n == 4: s('MAT_ucopy(MAT m, >MAT dest)', lambda m: m, unaligned=True)
    s('MAT_identity(>MAT m)', lambda: ident(n))
    s('MAT_zero(>MAT m)', lambda: mzero(n, n))
    s('MAT_make(float src[%d], >MAT dest)' % (n * n), lambda a: [V(a[c * n:c * n + n]) for c in range(n)])
    s('MAT_mul(MAT a, MAT b, >MAT dest)', mmul)
    s('MAT_mulv(MAT m, vec v, >vec dest)', mulv)
    s('MAT_transpose_to(MAT m, >MAT dest)', transpose)
    s('MAT_transpose(&MAT m)', transpose)
    s('MAT_scale(&MAT m, float s)', mscale)
    s('MAT_trace(MAT m) -> float', lambda m: total(m[i][i] for i in range(n)))
    s('MAT_rmc(vec r, MAT m, vec c) -> float', lambda r, m, c: dot(r, mulv(m, c)))
    rng = lambda m, i, j: [D.icmp('ult', i, n, 32), D.icmp('ult', j, n, 32)]
    def perm(i, j, k):
        """index k under the transposition (i j)"""
        return ite(ieq(i, k), j, ite(ieq(j, k), i, i32(k)))
    s('MAT_swap_col(&MAT m, int i, int j)', lambda m, i, j: [V(select([m[q][r] for q in range(n)], perm(i, j, c)) for r in range(n)) for c in range(n)], requires=rng, enum=dict(i=range(n), j=range(n)))
    s('MAT_swap_row(&MAT m, int i, int j)', lambda m, i, j: [V(select(m[c], perm(i, j, r)) for r in range(n)) for c in range(n)], requires=rng, enum=dict(i=range(n), j=range(n)))
    P('C07')
    s('MAT_det(MAT m) -> float', det)
    s('MAT_inv(MAT m, >MAT dest)', inv)
for n in (2, 3, 4): square(n)

P('C06')
S('glm_mat4_pick3(mat4 m, >mat3 dest)', lambda m: sub(m, 3))
S('glm_mat4_pick3t(mat4 m, >mat3 dest)', lambda m: transpose(sub(m, 3)))
def ins3(a, m):
    r = [V(c) for c in m]
    for i in range(3):
        for j in range(3): r[i][j] = a[i][j]
    return r
S('glm_mat4_ins3(mat3 a, &mat4 dest)', ins3)
S('glm_mat4_mulv3(mat4 m, vec3 v, float last, >vec3 dest)', lambda m, v, w: mulv(m, V(list(v) + [w]))[:3])
S('glm_mat4_trace3(mat4 m) -> float', lambda m: m[0][0] + m[1][1] + m[2][2])
S('glm_mat4_scale_p(&mat4 m, float s)', mscale)
P('C07')
S('glm_mat4_inv_fast(mat4 m, >mat4 dest)', inv, approx=True)
P('C06')
def textrans(n):
    def f(sx, sy, rot, tx, ty):
        c, s = cos(rot), sin(rot); m = ident(n)
        m[0][0] = c * sx; m[0][1] = -s * sy; m[1][0] = s * sx; m[1][1] = c * sy
        m[n - 1][0] = tx; m[n - 1][1] = ty
        return m
    return f
for n in (3, 4): S('glm_mat%d_textrans(float sx, float sy, float rot, float tx, float ty, >mat%d dest)' % (n, n), textrans(n))

def rect(c, r):
    M = 'mat%dx%d' % (c, r); T = 'mat%dx%d' % (r, c)
    def s(sig, fn, **o): return S('glm_' + sig.replace('MAT', M).replace('TRA', T), fn, **o)
    s('MAT_copy(MAT m, >MAT dest)', lambda m: m)
    s('MAT_zero(>MAT m)', lambda: mzero(c, r))
    s('MAT_make(float src[%d], >MAT dest)' % (c * r), lambda a: [V(a[k * r:k * r + r]) for k in range(c)])
    s('MAT_mul(MAT a, TRA b, >mat%d dest)' % r, mmul)
    s('MAT_mulv(MAT m, vec%d v, >vec%d dest)' % (c, r), mulv)
    s('MAT_transpose(MAT m, >TRA dest)', transpose)
    s('MAT_scale(&MAT m, float s)', mscale)
for c in (2, 3, 4):
    for r in (2, 3, 4):
        if c != r: rect(c, r)
