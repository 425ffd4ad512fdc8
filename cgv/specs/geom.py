"""Frustum, boxes, spheres, planes, rays."""
from .lib import *
P('C19')
def planen(p):
    n = norm(p[:3])
    return vite(flt(n, FEPS), zeros(4), V(x / n for x in p))
S('glm_plane_normalize(&vec4 plane)', planen)
def planes(m):
    """left, right, bottom, top, near, far: w+x, w-x, w+y, w-y, w+z, w-z >= 0"""
    r = transpose(m)
    return [planen(p) for p in (r[3] + r[0], r[3] - r[0], r[3] + r[1], r[3] - r[1], r[3] + r[2], r[3] - r[2])]
S('glm_frustum_planes(mat4 m, >vec4 dest[6])', planes)
CUBE = [(-1, -1, -1), (-1, 1, -1), (1, 1, -1), (1, -1, -1), (-1, -1, 1), (-1, 1, 1), (1, 1, 1), (1, -1, 1)]
def corners(im):
    out = []
    for c in CUBE:
        q = mulv(im, V([fl(x) for x in c] + [ONE])); out.append(q / q[3])
    return out
S('glm_frustum_corners(mat4 invm, >vec4 dest[8])', corners)
S('glm_frustum_center(vec4 corners[8], >vec4 dest)', lambda c: V(total(p[i] for p in c) / 8 for i in range(4)))
FMAX = const(Fraction(float.fromhex('0x1.fffffep+127')))
def fbox(c, m):
    q = [mulv(m, p) for p in c]
    lo = V(FMAX for _ in range(3)); hi = -lo
    for p in q: lo = vmap(fmin_, lo, p); hi = vmap(fmax_, hi, p)
    return [lo, hi]
S('glm_frustum_box(vec4 corners[8], mat4 m, >vec3 box[2])', fbox)
def corners_at(c, split, far):
    d = norm(V(c[6][:3]) - V(c[2][:3])); sc = d * (split / far)
    def at(a, b):
        e = b - a; n = norm(e)
        return a + vite(flt(n, FEPS), zeros(4), e * sc / n)
    return [at(c[i], c[i + 4]) for i in range(4)]
S('glm_frustum_corners_at(vec4 corners[8], float split, float far, >vec4 out[4])', corners_at,
  requires=lambda c, split, far: [flt(ZERO, far)],
  note='the four side edges are taken to have the length of the right-top one, as the library documents')

def boxes(n, nm, vec, mat, cv, prop):
    P(prop)
    v = 'vec%d' % n
    def s(sig, fn, **o):
        S('glm_%s_%s' % (nm, sig.replace('BOX ', v + ' ')), fn, **o)
    def transform(b, m):
        lo = V(m[n][:n]); hi = V(m[n][:n])
        for k in range(n):
            x = V(m[k][:n]) * b[0][k]; y = V(m[k][:n]) * b[1][k]
            lo = lo + vmap(fmin_, x, y); hi = hi + vmap(fmax_, x, y)
        return [lo, hi]
    s('transform(BOX b[2], %s m, >BOX dest[2])' % mat, transform)
    merge = lambda a, b: [vmap(fmin_, a[0], b[0]), vmap(fmax_, a[1], b[1])]
    crop = lambda a, b: [vmap(fmax_, a[0], b[0]), vmap(fmin_, a[1], b[1])]
    s('merge(BOX a[2], BOX b[2], >BOX dest[2])', merge)
    s('crop(BOX a[2], BOX c[2], >BOX dest[2])', crop)
    s('crop_until(BOX a[2], BOX c[2], BOX k[2], >BOX dest[2])', lambda a, c, k: merge(crop(a, c), k))
    s('invalidate(>BOX b[2])', lambda: [V([FMAX] * n), V([-FMAX] * n)])
    s('isvalid(BOX b[2]) -> bool', lambda b: band(bnot(feq(vmax(b[0]), FMAX)), bnot(feq(vmin(b[1]), -FMAX))))
    s('%s(BOX b[2]) -> float' % ('size' if n == 3 else 'diag'), lambda b: norm(b[1] - b[0]))
    s('radius(BOX b[2]) -> float', lambda b: norm(b[1] - b[0]) / 2)
    s('center(BOX b[2], >BOX dest)', lambda b: (b[0] + b[1]) / 2)
    s('%s(BOX b[2], BOX o[2]) -> bool' % 'aabb', lambda b, o: all_([fle(b[0][i], o[1][i]) for i in range(n)] + [fle(o[0][i], b[1][i]) for i in range(n)]))
    def ball(b, c):
        """squared distance from the centre to the box is at most r^2"""
        d = total(ite(flt(c[i], b[0][i]), (c[i] - b[0][i]) * (c[i] - b[0][i]), ite(flt(b[1][i], c[i]), (c[i] - b[1][i]) * (c[i] - b[1][i]), ZERO)) for i in range(n))
        return fle(d, c[n] * c[n])
    s('%s(BOX b[2], %s s) -> bool' % (('sphere' if n == 3 else 'circle'), cv), ball, requires=lambda b, c: [fle(b[0][i], b[1][i]) for i in range(n)])
    s('point(BOX b[2], BOX p) -> bool', lambda b, p: all_([fle(b[0][i], p[i]) for i in range(n)] + [fle(p[i], b[1][i]) for i in range(n)]))
    s('contains(BOX b[2], BOX o[2]) -> bool', lambda b, o: all_([fle(b[0][i], o[0][i]) for i in range(n)] + [fle(o[1][i], b[1][i]) for i in range(n)]))
    if n == 2:
        s('zero(>BOX b[2])', lambda: [zeros(2), zeros(2)])
        s('copy(BOX b[2], >BOX dest[2])', lambda b: b)
        s('sizev(BOX b[2], >BOX dest)', lambda b: b[1] - b[0])
    else:
        def fr(b, pl):
            out = []
            for p in pl:
                d = total(ite(flt(0, p[i]), p[i] * b[1][i], p[i] * b[0][i]) for i in range(3))
                out.append(bnot(flt(d, -p[3])))
            return all_(out)
        s('frustum(BOX b[2], vec4 planes[6]) -> bool', fr)
boxes(3, 'aabb', 'vec3', 'mat4', 'vec4', 'C20')
boxes(2, 'aabb2d', 'vec2', 'mat3', 'vec3', 'C21')

P('C22')
S('glm_sphere_radii(vec4 s) -> float', lambda s: s[3])
S('glm_sphere_transform(vec4 s, mat4 m, >vec4 dest)', lambda s, m: V(list(mulv(m, V(list(s[:3]) + [ONE]))[:3]) + [s[3]]))
def smerge(a, b):
    d = norm(V(a[:3]) - V(b[:3])); r = d + a[3] + b[3]
    r = fmax_(fmax_(r, a[3]), b[3])
    return V(list((V(a[:3]) + V(b[:3])) / 2) + [r])
S('glm_sphere_merge(vec4 a, vec4 b, >vec4 dest)', smerge)
S('glm_sphere_sphere(vec4 a, vec4 b) -> bool', lambda a, b: fle(norm2(V(a[:3]) - V(b[:3])), (a[3] + b[3]) * (a[3] + b[3])))
S('glm_sphere_point(vec4 s, vec3 p) -> bool', lambda s, p: fle(norm2(V(s[:3]) - p), s[3] * s[3]))

P('C23')
RE = Fraction(float.fromhex('0x1.0c6f7ap-20'))       # 1e-6f
def raytri(o, d, a, b, c, old):
    e1, e2 = b - a, c - a
    p = cross(d, e2); dt = dot(e1, p)
    t = o - a; u = dot(t, p) / dt
    q = cross(t, e1); v = dot(d, q) / dt
    w = dot(e2, q) / dt
    par = band(flt(-RE, dt), flt(dt, RE))
    out = any_([par, flt(u, 0), flt(1, u), flt(v, 0), flt(1, u + v)])
    return band(bnot(out), flt(RE, w)), ite(out, old, w)
S('glm_ray_triangle(vec3 o, vec3 d, vec3 a, vec3 b, vec3 c, &float* dist) -> bool', raytri)
def raysphere(o, d, s, t1, t2):
    """roots of t^2 - 2 (d.p) t + p.p - r^2 for p = centre - o, |d| = 1"""
    p = V(s[:3]) - o; r2 = s[3] * s[3]; b = dot(d, p)
    h = p - d * b
    disc = r2 - norm2(h)
    q = sqrt(disc); lo = b - q; hi = b + q
    miss = flt(disc, 0)
    return band(bnot(miss), bnot(band(flt(lo, 0), flt(hi, 0)))), ite(miss, t1, lo), ite(miss, t2, hi)
S('glm_ray_sphere(vec3 o, vec3 d, vec4 s, &float* t1, &float* t2) -> bool', raysphere, rules=lambda o, d, s, t1, t2: unit_rule(d), rationalize=True)
S('glm_ray_at(vec3 o, vec3 d, float t, >vec3 p)', lambda o, d, t: o + d * t)
