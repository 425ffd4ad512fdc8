"""C36: named constants, initialisers, struct members, masks and alternative names.

The code under contract here is not function bodies but declarations: macros and union layouts.
Each contract is on a one-line function that uses the name (cgvn_*), compiled against /repo's headers."""
import mpmath
from .lib import *
from .. import dag as D
from ..contract import S, P, REG, Type, SHAPES, UNSPEC, V

P('C36')
SHIMS = []        # C text
ALIASES = []      # (alias, target inline function, shim symbol)
def N(sig, body, fn, **o):
    """a function using a name, and its contract"""
    c = S(sig, fn, **o)
    ps = ', '.join('%s %s%s' % (p.ty.base, '*' if p.ty.ptr and not p.ty.shape and p.ty.n is None else '', p.name + ('[%d]' % p.ty.n if p.ty.n else '')) for p in c.params)
    rt = c.ret.base if c.ret else 'void'
    SHIMS.append((c.name, '%s %s(%s) { %s }\n' % (rt, c.name, ps or 'void', body)))

# ---- scalar constants: the nearest representable value --------------------------
mpmath.mp.dps = 60
m = mpmath
E_, PI, TAU = m.e, m.pi, 2 * m.pi
CONST = dict(E=E_, LOG2E=1 / m.log(2), LOG10E=1 / m.log(10), LN2=m.log(2), LN10=m.log(10), PI=PI, PI_2=PI / 2, PI_4=PI / 4, TAU=TAU, TAU_2=TAU / 2, TAU_4=TAU / 4,
             SQRTTAU=m.sqrt(TAU), SQRT2=m.sqrt(2), SQRT1_2=1 / m.sqrt(2))
CONST.update({'1_PI': 1 / PI, '2_PI': 2 / PI, '1_TAU': 1 / TAU, '2_TAU': 2 / TAU, '2_SQRTPI': 2 / m.sqrt(PI), '2_SQRTTAU': 2 / m.sqrt(TAU)})
for k, v in CONST.items():
    t = m.nstr(v, 40)
    N('cgvn_GLM_%s() -> bool' % k, 'double x = GLM_%s; return sizeof(GLM_%s) == sizeof(double) && x == %s;' % (k, k, t), lambda: True)
    N('cgvn_GLM_%sf() -> bool' % k, 'float x = GLM_%sf; return sizeof(GLM_%sf) == sizeof(float) && x == (float)%s;' % (k, k, t), lambda: True)
for k in ('PI', 'PI_2', 'PI_4'): N('cgvn_CGLM_%s() -> bool' % k, 'float x = CGLM_%s; return x == (float)%s;' % (k, m.nstr(CONST[k], 40)), lambda: True)
for i, k in enumerate(('LBN', 'LTN', 'RTN', 'RBN', 'LBF', 'LTF', 'RTF', 'RBF')):
    N('cgvn_GLM_%s() -> int' % k, 'return GLM_%s;' % k, lambda i=i: i)
    xyz = V([1 if k[0] == 'R' else -1, 1 if k[1] == 'T' else -1, 1 if k[2] == 'F' else -1, 1])
    N('cgvn_GLM_CSCOORD_%s(>vec4 dest)' % k, 'vec4 t = GLM_CSCOORD_%s; memcpy(dest, t, sizeof(t));' % k, lambda v=xyz: v)
for i, k in enumerate(('LEFT', 'RIGHT', 'BOTTOM', 'TOP', 'NEAR', 'FAR')): N('cgvn_GLM_%s() -> int' % k, 'return GLM_%s;' % k, lambda i=i: i)

# ---- initialisers ----------------------------------------------------------------
def const_view(ty, f):
    sh = SHAPES[ty][1]
    if len(sh) == 1: return V(f(i, i) for i in range(sh[0]))
    return [V(f(i, j) for j in range(sh[1])) for i in range(sh[0])]
INIT = []        # (name without prefix, type, value)
for n in (2, 3, 4):
    INIT += [('VEC%d_ZERO' % n, 'vec%d' % n, lambda i, j: 0), ('VEC%d_ONE' % n, 'vec%d' % n, lambda i, j: 1)]
    INIT += [('IVEC%d_ZERO' % n, 'ivec%d' % n, lambda i, j: 0), ('IVEC%d_ONE' % n, 'ivec%d' % n, lambda i, j: 1)]
    INIT += [('MAT%d_ZERO' % n, 'mat%d' % n, lambda i, j: 0), ('MAT%d_IDENTITY' % n, 'mat%d' % n, lambda i, j: int(i == j))]
INIT += [('MAT%dX%d_ZERO' % (a, b), 'mat%dx%d' % (a, b), lambda i, j: 0) for a in (2, 3, 4) for b in (2, 3, 4) if a != b]
INIT += [('VEC4_BLACK', 'vec4', lambda i, j: int(i == 3)), ('QUAT_IDENTITY', 'versor', lambda i, j: int(i == 3))]
for nm, ty, f in INIT:
    val = const_view(ty, f)
    plain = 'X' in nm      # these have no compound literal: both names initialise
    N('cgvn_GLM_%s_INIT(>%s dest)' % (nm, ty), '%s t = GLM_%s_INIT; memcpy(dest, t, sizeof(t));' % (ty, nm), lambda v=val: v)
    N('cgvn_GLM_%s(>%s dest)' % (nm, ty), ('%s t = GLM_%s; memcpy(dest, t, sizeof(t));' % (ty, nm)) if plain else 'memcpy(dest, GLM_%s, sizeof(%s));' % (nm, ty), lambda v=val: v)
    N('cgvn_GLMS_%s_INIT(>%s dest)' % (nm, ty), '%s t = GLMS_%s_INIT; memcpy(dest, t.raw, sizeof(t.raw));' % (ty + 's', nm), lambda v=val: v)
    N('cgvn_GLMS_%s(>%s dest)' % (nm, ty), '%s t = GLMS_%s; memcpy(dest, t.raw, sizeof(t.raw));' % (ty + 's', nm), lambda v=val: v)
for nm, v in (('YUP', (0, 1, 0)), ('ZUP', (0, 0, 1)), ('XUP', (1, 0, 0)), ('FORWARD', (0, 0, -1))):
    N('cgvn_GLM_%s(>vec3 dest)' % nm, 'memcpy(dest, GLM_%s, sizeof(vec3));' % nm, lambda v=v: V(v))
    if nm != 'FORWARD': N('cgvn_GLMS_%s(>vec3 dest)' % nm, 'vec3s t = GLMS_%s; memcpy(dest, t.raw, sizeof(t.raw));' % nm, lambda v=v: V(v))
# cubic bases: s' * M * c is the curve, s = (s^3, s^2, s, 1)
for nm, rows in (('BEZIER', ((-1, 3, -3, 1), (3, -6, 3, 0), (-3, 3, 0, 0), (1, 0, 0, 0))), ('HERMITE', ((2, -3, 0, 1), (-2, 3, 0, 0), (1, -2, 1, 0), (1, -1, 0, 0)))):
    val = [V(r) for r in rows]
    N('cgvn_GLM_%s_MAT_INIT(>mat4 dest)' % nm, 'mat4 t = GLM_%s_MAT_INIT; memcpy(dest, t, sizeof(t));' % nm, lambda v=val: v)
    N('cgvn_GLM_%s_MAT(>mat4 dest)' % nm, 'memcpy(dest, GLM_%s_MAT, sizeof(mat4));' % nm, lambda v=val: v)

# ---- members of the struct types ---------------------------------------------------
def members(st, raw, groups):
    for g in groups:
        names = g.split()
        if all(len(x) == 1 for x in names) or names[0].startswith('m'): acc = names
        cells = []
        for x in acc: cells.append('a.%s' % x)
        ty = raw; base = 'float' if SHAPES[raw][0] == 'f' else 'int'
        nm = 'cgvn_%s_%s' % (st, ''.join(names) if len(names) <= 4 else 'm')
        N('%s(%s raw, >%s dest)' % (nm, raw, raw), '%s a; memcpy(&a, raw, sizeof(%s)); %s *o = (%s *)dest; %s' % (st, raw, base, base, ' '.join('o[%d] = %s;' % (i, x) for i, x in enumerate(cells))), lambda r: r)
        N('%s_set(%s raw, >%s dest)' % (nm, raw, raw), '%s a; const %s *v = (const %s *)raw; %s memcpy(dest, a.raw, sizeof(%s));' % (st, base, base, ' '.join('%s = v[%d];' % (x, i) for i, x in enumerate(cells)), raw), lambda r: r)
members('vec2s', 'vec2', ['x y', 'r i', 'u v', 's t']); members('ivec2s', 'ivec2', ['x y', 'r i', 'u v', 's t'])
members('vec3s', 'vec3', ['x y z', 'r g b']); members('ivec3s', 'ivec3', ['x y z', 'r g b'])
members('vec4s', 'vec4', ['x y z w', 'r g b a']); members('ivec4s', 'ivec4', ['x y z w', 'r g b a'])
members('versors', 'versor', ['x y z w'])
N('cgvn_versors_imag(versor raw, >versor dest)', 'versors a; memcpy(&a, raw, sizeof(versor)); dest[0] = a.imag.x; dest[1] = a.imag.y; dest[2] = a.imag.z; dest[3] = a.real;', lambda r: r)
MATS = [(a, b, 'mat%d' % a if a == b else 'mat%dx%d' % (a, b)) for a in (2, 3, 4) for b in (2, 3, 4)]
for a, b, ty in MATS:
    members(ty + 's', ty, [' '.join('m%d%d' % (i, j) for i in range(a) for j in range(b))])
    N('cgvn_%ss_col(%s raw, >%s dest)' % (ty, ty, ty), '%ss a; int i, j; memcpy(&a, raw, sizeof(%s)); for (i = 0; i < %d; i++) for (j = 0; j < %d; j++) ((float *)dest)[i * %d + j] = a.col[i].raw[j];' % (ty, ty, a, b, b), lambda r: r)
for ty in [t for t in SHAPES if SHAPES[t][1] and t != 'versor'] + ['versor']:
    N('cgvn_layout_%s() -> bool' % ty, 'return sizeof(%s) == %d && sizeof(%ss) == sizeof(%s) && _Alignof(%ss) == _Alignof(%s) && sizeof(((%ss *)0)->raw) == sizeof(%s);' % (ty, Type(ty).size, ty, ty, ty, ty, ty, ty), lambda: True)
# the documented alignment (opt.rst); CGLM_ALL_UNALIGNED promises none and needs none
from ..build import CONFIGS
UA = tuple(n for n, C in CONFIGS.items() if 'CGLM_ALL_UNALIGNED' in C.defs)
AVX = tuple(n for n, C in CONFIGS.items() if n.startswith('avx') and n not in UA)
for ty in ('vec4', 'versor', 'mat4'):
    N('cgvn_align_%s() -> bool' % ty, 'return _Alignof(%s) >= 16 && _Alignof(%ss) >= 16;' % (ty, ty), lambda: True, configs=tuple(n for n in CONFIGS if n not in UA))
N('cgvn_align_mat4_avx() -> bool', 'return _Alignof(mat4) >= 32 && _Alignof(mat4s) >= 32;', lambda: True, configs=AVX)
for ty in SHAPES:
    if SHAPES[ty][1]: N('cgvn_unaligned_%s() -> bool' % ty, 'return _Alignof(%s) == _Alignof(float) && _Alignof(%ss) == _Alignof(float);' % (ty, ty), lambda: True, configs=UA)

# ---- swizzle masks --------------------------------------------------------------------
for n, names in ((3, ('XXX', 'YYY', 'ZZZ', 'ZYX')), (4, ('XXXX', 'YYYY', 'ZZZZ', 'WWWW', 'WZYX'))):
    for nm in names:
        ix = ['XYZW'.index(x) for x in nm]
        N('cgvn_GLM_%s(vec%d v, >vec%d dest)' % (nm, n, n), 'glm_vec%d_swizzle(v, GLM_%s, dest);' % (n, nm), lambda v, ix=ix: V(v[i] for i in ix))
sh = lambda *a: V([a[0]])
def orl(xs):
    r = None
    for k, x in enumerate(xs):
        t = D.iop('shl', D._unw(x), 2 * k, 32) if k else D._unw(x)
        r = t if r is None else D.iop('or', r, t, 32)
    return D._w(r, 32) if isinstance(r, D.Node) else D.ic(r, 32)
N('cgvn_GLM_SHUFFLE4(int z, int y, int x, int w) -> int', 'return GLM_SHUFFLE4(z, y, x, w);', lambda z, y, x, w: orl([w, x, y, z]))
N('cgvn_GLM_SHUFFLE3(int z, int y, int x) -> int', 'return GLM_SHUFFLE3(z, y, x);', lambda z, y, x: orl([x, y, z]))
N('cgvn_GLM_SHUFFLE2(int y, int x) -> int', 'return GLM_SHUFFLE2(y, x);', lambda y, x: orl([x, y]))
N('cgvn_GLM_MIN(float a, float b) -> float', 'return 2.0f * GLM_MIN(a + 1.0f, b) - GLM_MIN(-a, -b);', lambda a, b: 2 * fmin_(a + 1, b) - fmin_(-a, -b))
N('cgvn_GLM_MAX(float a, float b) -> float', 'return 2.0f * GLM_MAX(a + 1.0f, b) - GLM_MAX(-a, -b);', lambda a, b: 2 * fmax_(a + 1, b) - fmax_(-a, -b))

# ---- conversions to Apple's simd types
for ty, st, f in (('vec3', 'simd_float3', 'vec3'), ('vec4', 'simd_float4', 'vec4')):
    n = SHAPES[ty][1][0]; w = ' '.join('o[%d] = r[%d];' % (i, i) for i in range(n))
    N('cgvn_glm_%s_applesimd(%s v, >%s dest)' % (f, ty, ty), '%s r = glm_%s_applesimd(v); float *o = dest; %s' % (st, f, w), lambda v: v, configs=('apple',))
    N('cgvn_glms_%s_applesimd(%s v, >%s dest)' % (f, ty, ty), '%ss a; %s r; float *o = dest; memcpy(&a, v, sizeof(%s)); r = glms_%s_applesimd(a); %s' % (ty, st, ty, f, w), lambda v: v, configs=('apple',))
for ty, st, n in (('mat3', 'simd_float3x3', 3), ('mat4', 'simd_float4x4', 4)):
    w = ' '.join('o[%d] = r.columns[%d][%d];' % (i * n + j, i, j) for i in range(n) for j in range(n))
    N('cgvn_glm_%s_applesimd(%s v, >%s dest)' % (ty, ty, ty), '%s r = glm_%s_applesimd(v); float *o = (float *)dest; %s' % (st, ty, w), lambda v: v, configs=('apple',))
    N('cgvn_glms_%s_applesimd(%s v, >%s dest)' % (ty, ty, ty), '%ss a; %s r; float *o = (float *)dest; memcpy(&a, v, sizeof(%s)); r = glms_%s_applesimd(a); %s' % (ty, st, ty, ty, w), lambda v: v, configs=('apple',))

# ---- alternative names ------------------------------------------------------------------
for v in ('vec3', 'vec4'):
    for a, t in (('dup', 'copy'), ('flipsign', 'negate'), ('flipsign_to', 'negate_to'), ('inv', 'negate'), ('inv_to', 'negate_to'), ('mulv', 'mul'), ('step_uni', 'steps')): ALIASES.append(('glm_%s_%s' % (v, a), 'glm_%s_%s' % (v, t)))
    for a, t in (('flipsign', 'negate'), ('flipsign_to', 'negate_to'), ('inv', 'negate'), ('inv_to', 'negate_to'), ('step_uni', 'steps')): ALIASES.append(('glmc_%s_%s' % (v, a), 'glm_%s_%s' % (v, t)))
    ALIASES.append(('glms_%s_step_uni' % v, 'glm_%s_steps' % v))
ALIASES += [('glm_vec4_dup3', 'glm_vec4_copy3'), ('glmc_vec4_dup3', 'glm_vec4_copy3'), ('glmc_vec4_dup', 'glm_vec4_copy'), ('glmc_vec_dup', 'glm_vec3_copy'),
            ('glm_mat3_dup', 'glm_mat3_copy'), ('glm_mat4_dup', 'glm_mat4_copy'), ('glm_mat4_udup', 'glm_mat4_ucopy'), ('glm_mat4_inv_precise', 'glm_mat4_inv'),
            ('glmc_mat3_dup', 'glm_mat3_copy'), ('glmc_mat4_dup', 'glm_mat4_copy'), ('glmc_mat4_udup', 'glm_mat4_ucopy'),
            ('glm_aabb2d_size', 'glm_aabb2d_diag'), ('glmc_aabb2d_size', 'glm_aabb2d_diag')]

TARGET = dict(ALIASES)

def alias_shims(sigs, only=''):
    from .. import wrap
    t = ''
    for a, tgt in ALIASES:
        if not a.startswith(only): continue
        c = REG.c[tgt]
        if a.startswith('glms_'): body = wrap.struct_call(a, sigs['glms_' + tgt[4:]], c)
        else: body = '%s%s(%s);' % ('return ' if c.ret else '', a, ', '.join(p.name for p in c.params))
        rt = {'f': 'float', 'i': 'int', 'b': 'bool'}[c.ret.kind] if c.ret else 'void'
        t += '%s cgvn_alias_%s(%s) { %s }\n' % (rt, a, ', '.join(wrap.cparam(p) for p in c.params), body)
    return t

def shims(cfg, sigs):
    """C text of the functions using the names, in this configuration"""
    ok = lambda c: not c.configs or cfg in c.configs
    return '\n' + ''.join(t for n, t in SHIMS if ok(REG.c[n])) + alias_shims(sigs)
