"""C37: the SIMD helper functions and macros (glmm_*).

They take and return registers; each contract is on a one-line function (cgvs_*) that loads its
operands, applies the helper and stores the result, compiled against /repo's headers for the
instruction set of the configuration."""
from .lib import *
from ..contract import S, P, REG, V

P('C37')
SHIMS = []
NEON = ('neon', 'neon32')
X86 = ('sse2', 'sse1', 'sse41', 'sse3', 'avx', 'avxfma', 'unaligned', 'avxua', 'fastmath', 'altdef')
AVX = ('avx', 'avxfma', 'avxua')
SIMD = X86 + NEON + ('wasm',)
def N(sig, body, fn, configs=SIMD, **o):
    c = S(sig, fn, configs=configs, **o)
    ps = ', '.join('%s %s' % (p.ty.base, p.name + ('[%d]' % p.ty.n if p.ty.n else '')) for p in c.params)
    SHIMS.append((c.name, '%s %s(%s) { %s }\n' % (c.ret.base if c.ret else 'void', c.name, ps or 'void', body)))
def reg1(nm, fn, **o): N('cgvs_%s(vec4 a, >vec4 dest)' % nm, 'glmm_store(dest, glmm_%s(glmm_load(a)));' % nm, fn, **o)
def reg2(nm, fn, **o): N('cgvs_%s(vec4 a, vec4 b, >vec4 dest)' % nm, 'glmm_store(dest, glmm_%s(glmm_load(a), glmm_load(b)));' % nm, fn, **o)
def reg3(nm, fn, **o): N('cgvs_%s(vec4 a, vec4 b, vec4 c, >vec4 dest)' % nm, 'glmm_store(dest, glmm_%s(glmm_load(a), glmm_load(b), glmm_load(c)));' % nm, fn, **o)
def flt1(nm, fn, **o): N('cgvs_%s(vec4 a) -> float' % nm, 'return glmm_%s(glmm_load(a));' % nm, fn, **o)
def flt2(nm, fn, **o): N('cgvs_%s(vec4 a, vec4 b) -> float' % nm, 'return glmm_%s(glmm_load(a), glmm_load(b));' % nm, fn, **o)
XW = X86 + ('wasm',)
# moves
N('cgvs_load_store(vec4 a, >vec4 dest)', 'glmm_store(dest, glmm_load(a));', lambda a: a)
N('cgvs_set1(float x, >vec4 dest)', 'glmm_store(dest, glmm_set1(x));', lambda x: fill(4, x))
N('cgvs_set1_rval(float x, >vec4 dest)', 'glmm_store(dest, glmm_set1_rval(x + 1.0f));', lambda x: fill(4, x + 1))
N('cgvs_set1_ptr(vec4 a, >vec4 dest)', 'glmm_store(dest, glmm_set1_ptr(&a[1]));', lambda a: fill(4, a[1]))
for i, k in enumerate('xyzw'):
    N('cgvs_splat_%s(vec4 a, >vec4 dest)' % k, 'glmm_128 r = glmm_load(a); glmm_store(dest, glmm_splat_%s(r));' % k, lambda a, i=i: fill(4, a[i]))
    N('cgvs_splat%d(vec4 a, >vec4 dest)' % i, 'glmm_128 r = glmm_load(a); glmm_store(dest, glmm_splat(r, %d));' % i, lambda a, i=i: fill(4, a[i]), configs=XW)
for ix in ((0, 1, 2, 3), (3, 0, 2, 1), (2, 2, 1, 3)):
    N('cgvs_shuff1_%d%d%d%d(vec4 a, >vec4 dest)' % ix, 'glmm_128 r = glmm_load(a); glmm_store(dest, glmm_shuff1(r, %d, %d, %d, %d));' % ix, lambda a, ix=ix: V(a[ix[3 - k]] for k in range(4)), configs=XW)
N('cgvs_load3(vec3 a, >vec4 dest)', 'glmm_store(dest, glmm_load3(a));', lambda a: V(list(a) + [ZERO]), configs=tuple(c for c in XW if c != 'sse1'))
N('cgvs_store3(vec4 a, >vec3 dest)', 'glmm_store3(dest, glmm_load(a));', lambda a: V(a[:3]), configs=tuple(c for c in XW if c != 'sse1'))
reg1('swplane', lambda a: V([a[2], a[3], a[0], a[1]]), configs=NEON)
for k, (i, j) in dict(ll=(0, 0), hl=(2, 0), lh=(0, 2), hh=(2, 2)).items(): reg2('combine_' + k, lambda a, b, i=i, j=j: V([a[i], a[i + 1], b[j], b[j + 1]]), configs=NEON)
# lane-wise
reg1('abs', lambda a: vmap(fabs_, a))
reg2('min', lambda a, b: vmap(fmin_, a, b))
reg2('max', lambda a, b: vmap(fmax_, a, b))
reg2('div', lambda a, b: a / b)
reg3('fmadd', lambda a, b, c: a * b + c)
reg3('fmsub', lambda a, b, c: a * b - c)
reg3('fnmadd', lambda a, b, c: c - a * b)
reg3('fnmsub', lambda a, b, c: -(a * b) - c)
# across lanes
s0 = lambda call: 'CGLM_ALIGN(16) float o[4]; glmm_store(o, %s); return o[0];' % call
flt1('hadd', total); reg1('vhadd', lambda a: fill(4, total(a)))
flt1('hmin', vmin); flt1('hmax', vmax)
flt2('dot', dot); reg2('vdot', lambda a, b: fill(4, dot(a, b)))
flt1('norm', norm); flt1('norm2', norm2)
flt1('norm_one', lambda a: total(fabs_(x) for x in a)); flt1('norm_inf', lambda a: vmax([fabs_(x) for x in a]))
for nm, fn in (('vhadds', total), ('vhmin', vmin), ('vhmax', vmax)): N('cgvs_%s(vec4 a) -> float' % nm, s0('glmm_%s(glmm_load(a))' % nm), fn, configs=XW)
N('cgvs_vdots(vec4 a, vec4 b) -> float', s0('glmm_vdots(glmm_load(a), glmm_load(b))'), dot, configs=XW)
# 256-bit
N('cgvs_load_store256(mat4 a, >mat4 dest)', '__m256 x = glmm_load256(a[2]), y = glmm_load256(a[0]); glmm_store256(dest[0], x); glmm_store256(dest[2], y);', lambda a: [a[2], a[3], a[0], a[1]], configs=AVX)
def reg256(nm, fn): N('cgvs_256%s(mat4 a, mat4 b, mat4 c, >mat4 dest)' % nm, ' '.join('glmm_store256(dest[%d], glmm256_%s(glmm_load256(a[%d]), glmm_load256(b[%d]), glmm_load256(c[%d])));' % (i, nm, i, i, i) for i in (0, 2)), lambda a, b, c: [fn(x, y, z) for x, y, z in zip(a, b, c)], configs=AVX)
reg256('fmadd', lambda a, b, c: a * b + c)
reg256('fmsub', lambda a, b, c: a * b - c)
reg256('fnmadd', lambda a, b, c: c - a * b)
reg256('fnmsub', lambda a, b, c: -(a * b) - c)

def shims(cfg): return '\n' + ''.join(t for n, t in SHIMS if cfg in REG.c[n].configs)
