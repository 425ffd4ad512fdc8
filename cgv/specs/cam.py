"""Projection and view matrices for the four clip-space conventions, project / unproject."""
from .lib import *
from .affine import T

def frustum(l, r, b, t, n, f, cs):
    """maps the frustum with near rectangle [l,r]x[b,t] at distance n and far plane at f to the clip cube"""
    h = 1 if cs[:2] == 'lh' else -1            # viewing direction is h*z
    m = mzero(4, 4)
    m[0][0] = 2 * n / (r - l); m[1][1] = 2 * n / (t - b)
    m[2][0] = -h * ((r + l) / (r - l)); m[2][1] = -h * ((t + b) / (t - b))
    m[2][3] = const(h)
    depth(m, n, f, cs)
    return m
def depth(m, n, f, cs):
    h = 1 if cs[:2] == 'lh' else -1
    if cs[3:] == 'no': m[2][2] = h * ((f + n) / (f - n)); m[3][2] = -(2 * f * n) / (f - n)
    else: m[2][2] = h * (f / (f - n)); m[3][2] = -(f * n) / (f - n)
def perspective(fovy, aspect, n, f, cs):
    h = 1 if cs[:2] == 'lh' else -1
    m = mzero(4, 4); k = 1 / tan(fovy / 2)
    m[0][0] = k / aspect; m[1][1] = k; m[2][3] = const(h)
    depth(m, n, f, cs)
    return m
def ortho(l, r, b, t, n, f, cs):
    h = 1 if cs[:2] == 'lh' else -1
    m = mzero(4, 4)
    m[0][0] = 2 / (r - l); m[1][1] = 2 / (t - b); m[3][3] = ONE
    m[3][0] = -(r + l) / (r - l); m[3][1] = -(t + b) / (t - b)
    if cs[3:] == 'no': m[2][2] = 2 * h / (f - n); m[3][2] = -(f + n) / (f - n)
    else: m[2][2] = const(h) / (f - n); m[3][2] = -n / (f - n)
    return m
def ortho_box(lo, hi, cs):
    """view volume = the box [lo, hi] of view space"""
    n, f = (-hi[2], -lo[2]) if cs[:2] == 'rh' else (lo[2], hi[2])
    return ortho(lo[0], hi[0], lo[1], hi[1], n, f, cs)
def ortho_default(a, s, z, cs):
    """symmetric volume; the shorter side is s"""
    w = ite(fle(1, a), s * a, s); h = ite(fle(1, a), s, s / a)
    return ortho(-w, w, -h, h, -z, z, cs)
def nearfar(p, cs):
    h = 1 if cs[:2] == 'lh' else -1
    a, b = h * p[2][2], p[3][2]          # a = (f+n)/(f-n) | f/(f-n), b = -2fn/(f-n) | -fn/(f-n)
    return (-b / (a + 1) if cs[3:] == 'no' else -b / a), -b / (a - 1)
def lr(p, cs):
    h = 1 if cs[:2] == 'lh' else -1
    n, _ = nearfar(p, cs); k = -h * p[2][0]
    return n * (k - 1) / p[0][0], n * (k + 1) / p[0][0]
def bt(p, cs):
    h = 1 if cs[:2] == 'lh' else -1
    n, _ = nearfar(p, cs); k = -h * p[2][1]
    return n * (k - 1) / p[1][1], n * (k + 1) / p[1][1]
def decomp(p, cs):
    n, f = nearfar(p, cs); l, r = lr(p, cs); b, t = bt(p, cs)
    return n, f, t, b, l, r
def resize(a, p):
    q = [V(c) for c in p]; q[0][0] = ite(feq(p[0][0], 0), p[0][0], p[1][1] / a); return q
def move_far(p, d, cs):
    n, f = nearfar(p, cs); q = [V(c) for c in p]; depth(q, n, f + d, cs); return q
def sizes(p, fovy, cs):
    n, f = nearfar(p, cs); t = 2 * tan(fovy / 2); a = p[1][1] / p[0][0]
    return V([a * t * n, t * n, a * t * f, t * f])
def lookat(e, c, up, hand):
    f = normalize(c - e)
    if hand == 'rh': s = normalize(cross(f, up)); u = cross(s, f); b = -f
    else: s = normalize(cross(up, f)); u = cross(f, s); b = f
    m = ident(4)
    for i, v in enumerate((s, u, b)):
        for k in range(3): m[k][i] = v[k]
        m[3][i] = -dot(v, e)
    return m

def cam(sfx, cs):
    """cs() -> clip space in force"""
    def s(sig, fn, **o):
        nm, rest = sig.split('(', 1)
        S('glm_%s%s(%s' % (nm, sfx, rest), fn, **o)
    P('C15')
    s('frustum(float l, float r, float b, float t, float n, float f, >mat4 dest)', lambda *a: frustum(*a, cs()))
    s('perspective(float fovy, float aspect, float n, float f, >mat4 dest)', lambda *a: perspective(*a, cs()))
    s('perspective_default(float aspect, >mat4 dest)', lambda a: perspective(const(PI / 4), a, const(0.01), const(100), cs()))
    s('ortho(float l, float r, float b, float t, float n, float f, >mat4 dest)', lambda *a: ortho(*a, cs()))
    s('ortho_aabb(vec3 box[2], >mat4 dest)', lambda b: ortho_box(b[0], b[1], cs()))
    s('ortho_aabb_p(vec3 box[2], float pad, >mat4 dest)', lambda b, p: ortho_box(b[0] - p, b[1] + p, cs()))
    s('ortho_aabb_pz(vec3 box[2], float pad, >mat4 dest)', lambda b, p: ortho_box(b[0] - [ZERO, ZERO, p], b[1] + [ZERO, ZERO, p], cs()))
    s('ortho_default(float aspect, >mat4 dest)', lambda a: ortho_default(a, ONE, const(100), cs()), domain=lambda a: [flt(0, a)])
    s('ortho_default_s(float aspect, float size, >mat4 dest)', lambda a, k: ortho_default(a, k, k + 100, cs()), domain=lambda a, k: [flt(0, a), flt(0, k)])
    P('C16')
    s('perspective_resize(float aspect, &mat4 proj)', resize)
    s('persp_move_far(&mat4 proj, float d)', lambda p, d: move_far(p, d, cs()))
    s('persp_decomp(mat4 proj, >float* n, >float* f, >float* t, >float* b, >float* l, >float* r)', lambda p: decomp(p, cs()))
    s('persp_decompv(mat4 proj, >float dest[6])', lambda p: list(decomp(p, cs())))
    s('persp_decomp_x(mat4 proj, >float* l, >float* r)', lambda p: lr(p, cs()))
    s('persp_decomp_y(mat4 proj, >float* t, >float* b)', lambda p: bt(p, cs())[::-1])
    s('persp_decomp_z(mat4 proj, >float* n, >float* f)', lambda p: nearfar(p, cs()))
    s('persp_decomp_far(mat4 proj, >float* f)', lambda p: nearfar(p, cs())[1])
    s('persp_decomp_near(mat4 proj, >float* n)', lambda p: nearfar(p, cs())[0])
    s('persp_sizes(mat4 proj, float fovy, >vec4 dest)', lambda p, a: sizes(p, a, cs()))
    s('persp_fovy(mat4 proj) -> float', lambda p: 2 * ffn('atan', 1 / p[1][1]))
    s('persp_aspect(mat4 proj) -> float', lambda p: p[1][1] / p[0][0])
for cs in ('rh_no', 'lh_no', 'rh_zo', 'lh_zo'): cam('_' + cs, lambda cs=cs: cs)
cam('', lambda: CTX.clip())

P('C17')
def view(sfx, hand):
    from .vec import ortho as anyup
    S('glm_lookat%s(vec3 eye, vec3 center, vec3 up, >mat4 dest)' % sfx, lambda e, c, u: lookat(e, c, u, hand()))
    S('glm_look%s(vec3 eye, vec3 dir, vec3 up, >mat4 dest)' % sfx, lambda e, d, u: lookat(e, e + d, u, hand()))
    S('glm_look_anyup%s(vec3 eye, vec3 dir, >mat4 dest)' % sfx, lambda e, d: lookat(e, e + d, anyup(d), hand()))
for h in ('rh', 'lh', 'rh_no', 'rh_zo', 'lh_no', 'lh_zo'): view('_' + h, lambda h=h: h[:2])
view('', lambda: CTX.hand())

P('C18')
def project(p, m, vp, z):
    q = mulv(m, V(list(p) + [ONE])); n = q / q[3]
    h = lambda x: x / 2 + Fraction(1, 2)
    return V([h(n[0]) * vp[2] + vp[0], h(n[1]) * vp[3] + vp[1], n[2] if z == 'zo' else h(n[2])])
def unproject(p, im, vp, z):
    v = V([2 * (p[0] - vp[0]) / vp[2] - 1, 2 * (p[1] - vp[1]) / vp[3] - 1, p[2] if z == 'zo' else 2 * p[2] - 1, ONE])
    q = mulv(im, v)
    return V(x / q[3] for x in q[:3])
def proj(sfx, z):
    S('glm_project%s(vec3 pos, mat4 m, vec4 vp, >vec3 dest)' % sfx, lambda p, m, vp: project(p, m, vp, z()))
    S('glm_project_z%s(vec3 pos, mat4 m) -> float' % sfx, lambda p, m: project(p, m, [ZERO] * 4, z())[2])
    S('glm_unprojecti%s(vec3 pos, mat4 invm, vec4 vp, >vec3 dest)' % sfx, lambda p, m, vp: unproject(p, m, vp, z()))
for z in ('no', 'zo'): proj('_' + z, lambda z=z: z)
proj('', lambda: CTX.clip()[3:])
S('glm_unproject(vec3 pos, mat4 m, vec4 vp, >vec3 dest)', lambda p, m, vp: unproject(p, inv(m), vp, CTX.clip()[3:]))
def pick(c, s, vp, old):
    """maps the pick rectangle (centre c, size s) of the viewport to the whole clip square"""
    m = ident(4)
    m[0][0] = vp[2] / s[0]; m[1][1] = vp[3] / s[1]
    m[3][0] = (vp[2] - 2 * (c[0] - vp[0])) / s[0]; m[3][1] = (vp[3] - 2 * (c[1] - vp[1])) / s[1]
    bad = bor(fle(s[0], 0), fle(s[1], 0))
    return mite(bad, old, m)
S('glm_pickmatrix(vec2 center, vec2 size, vec4 vp, &mat4 dest)', pick)
