"""Mechanical extraction: /repo's current headers and sources -> LLVM IR, per
build configuration, with clang (no optimisation passes).  What extraction
drops: preprocessor text, debug info, attributes such as always_inline; the
IR is otherwise the code the compiler would translate."""
import os, re, subprocess, glob, shutil, json

REPO = os.environ.get('CGV_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))

BASE = ['-std=c11', '-O0', '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes',
        '-S', '-emit-llvm', '-fno-discard-value-names', '-ffp-contract=off', '-w']
CROSS = ['-ffreestanding', '-isystem', os.path.join(HERE, 'sysroot')]

def cpu(n):
    """a replayed program that loops for ever ends by itself, also when the process that waits for it is ended"""
    import resource
    return lambda: resource.setrlimit(resource.RLIMIT_CPU, (n, n + 1))

class Config:
    def __init__(s, name, flags=(), defs=(), cross=False, pre=(), run=True, desc=''):
        s.name = name; s.flags = list(flags); s.defs = list(defs); s.cross = cross; s.pre = list(pre); s.run = run; s.desc = desc; s.io = False; s.ndebug = True

XSSE0 = ['xmmintrin.h', 'emmintrin.h']
NOSSE = ['-U__SSE__', '-U__SSE2__', '-U__SSE_MATH__', '-U__SSE2_MATH__']
CONFIGS = {c.name: c for c in [
    Config('sse2', desc='default x86-64 build (SSE2)'),
    Config('scalar', NOSSE, desc='portable C paths (no SIMD)'),
    Config('sse1', ['--target=i686-linux-gnu', '-march=pentium3'], cross=True, pre=['xmmintrin.h'], run=False, desc='SSE without SSE2 (32-bit)'),
    Config('sse41', ['-msse4.1'], ['CGLM_SSE4_DOT'], pre=['immintrin.h'], desc='SSE4.1 with CGLM_SSE4_DOT'),
    Config('sse3', ['-msse3'], ['CGLM_SSE3_DOT'], pre=['immintrin.h'], desc='SSE3 with CGLM_SSE3_DOT'),
    Config('avx', ['-mavx'], pre=['immintrin.h'], desc='AVX'),
    Config('avxfma', ['-mavx2', '-mfma'], pre=['immintrin.h'], desc='AVX2 + FMA'),
    Config('unaligned', [], ['CGLM_ALL_UNALIGNED'], desc='CGLM_ALL_UNALIGNED (no alignment guaranteed)'),
    Config('avxua', ['-mavx2', '-mfma'], ['CGLM_ALL_UNALIGNED'], pre=['immintrin.h'], desc='AVX2 + FMA with CGLM_ALL_UNALIGNED'),
    Config('neon', ['--target=aarch64-linux-gnu'], cross=True, pre=['arm_neon.h'], run=False, desc='AArch64 NEON'),
    Config('neon32', ['--target=armv7a-linux-gnueabihf', '-mfpu=neon-vfpv4', '-mfloat-abi=hard'], cross=True, pre=['arm_neon.h'], run=False, desc='32-bit Arm NEON'),
    Config('wasm', ['--target=wasm32-wasi', '-msimd128'], cross=True, pre=['wasm_simd128.h'], run=False, desc='WebAssembly SIMD128'),
    Config('lh_no', [], ['CGLM_FORCE_LEFT_HANDED'], desc='left handed, depth -1..1'),
    Config('rh_zo', [], ['CGLM_FORCE_DEPTH_ZERO_TO_ONE'], desc='right handed, depth 0..1'),
    Config('lh_zo', [], ['CGLM_FORCE_LEFT_HANDED', 'CGLM_FORCE_DEPTH_ZERO_TO_ONE'], desc='left handed, depth 0..1'),
    Config('fastmath', [], ['CGLM_FAST_MATH'], desc='CGLM_FAST_MATH code paths'),
    Config('altdef', [], ['CGLM_USE_DEFAULT_EPSILON', 'CGLM_NO_INT_DOMAIN'], desc='other documented switches: CGLM_USE_DEFAULT_EPSILON, CGLM_NO_INT_DOMAIN'),
]}

# documented naming options of the struct interface: (prefix before the type name, suffix after it); C30 only
NS = {'ns_omit': ('', 's'), 'ns_pre': ('my__', '')}
CONFIGS['ns_omit'] = Config('ns_omit', [], ['CGLM_OMIT_NS_FROM_STRUCT_API', 'CGLM_STRUCT_API_NAME_SUFFIX=s'], desc='struct interface without namespace, with a name suffix')
CONFIGS['ns_pre'] = Config('ns_pre', [], ['CGLM_STRUCT_API_NS=my', 'CGLM_STRUCT_API_NS_SEPERATOR=__'], desc='struct interface with another namespace and separator')
def ns_names(cfg):
    """default name -> name under the naming options of the configuration"""
    pre, suf = NS[cfg]
    with open(os.path.join(HERE, 'public_api.json')) as f: ns = json.load(f)['struct_ns']
    out = {}
    for n in ns:
        t, rest = n[5:].split('_', 1)
        out[n] = '%s%s%s_%s' % (pre, t, suf, rest)
    return out
def ns_defs(cfg, names):
    """C text that lets the shims use the default names"""
    return ''.join('#define %s %s\n' % (n, m) for n, m in ns_names(cfg).items() if n in names) if cfg in NS else ''

# conversions to Apple's simd types; C36 only
APPLE = Config('apple', [], ['__APPLE__', 'SIMD_COMPILER_HAS_REQUIRED_FEATURES', 'SIMD_BASE', 'SIMD_TYPES', 'SIMD_VECTOR_TYPES'], pre=XSSE0 + [os.path.join(HERE, 'apple_simd.h')], desc="conversions to Apple's simd types (type declarations in cgv/apple_simd.h)")
CONFIGS['apple'] = APPLE
# C99 without anonymous structs; C30 only
CONFIGS['c99'] = Config('c99', ['-std=c99'], desc='struct interface in C99, where the struct types have no named members')
EXTRA = list(NS) + ['apple', 'c99']

# the print helpers (C35) are verified in configurations of their own
PRINTS = [
    Config('print', [], ['CGLM_DEFINE_PRINTS'], desc='print helpers enabled, default format'),
    Config('print_alt', [], ['CGLM_DEFINE_PRINTS', 'CGLM_PRINT_PRECISION=2', 'CGLM_PRINT_MAX_TO_SHORT=10.0f', 'GLM_TESTS_NO_COLORFUL_OUTPUT'], desc='print helpers with another precision, threshold and no colour'),
    Config('print_off', [], [], desc='release build (NDEBUG): inline print helpers disabled, library ones not'),
    Config('print_dbg', [], [], desc='debug build (no NDEBUG), no other switch'),
]
for _c in PRINTS: _c.io = True
PRINTS[3].ndebug = False

STD = ['stdint.h', 'stddef.h', 'stdlib.h', 'math.h', 'float.h', 'stdbool.h', 'stdio.h', 'string.h', 'assert.h', 'stdalign.h']
XSSE = XSSE0
TYPES = ['ivec2', 'ivec3', 'ivec4', 'vec2', 'vec3', 'vec4', 'versor', 'mat2', 'mat2x3', 'mat2x4', 'mat3', 'mat3x2', 'mat3x4', 'mat4', 'mat4x2', 'mat4x3']


def includes(cfg, api):
    inc = ''
    if cfg.io: return {'inline': '#include <cglm/cglm.h>\n', 'struct': '#include <cglm/struct.h>\n', 'call': '#include "%s/src/io.c"\n' % REPO}[api]
    # headers that are not reached from the umbrella include
    extra = ['handed/euler_to_quat_lh.h', 'handed/euler_to_quat_rh.h'] + \
            sorted(os.path.relpath(p, REPO + '/include/cglm') for p in glob.glob(REPO + '/include/cglm/clipspace/*.h')) + ['aabb2d.h']
    if api in ('inline', 'simdops'):
        inc += '#include <cglm/cglm.h>\n' + ''.join('#include <cglm/%s>\n' % e for e in extra)
    elif api == 'struct':
        ex = ['struct/aabb2d.h'] + sorted(os.path.relpath(p, REPO + '/include/cglm') for p in glob.glob(REPO + '/include/cglm/struct/clipspace/*.h') + glob.glob(REPO + '/include/cglm/struct/handed/*.h'))
        inc += '#include <cglm/cglm.h>\n' + ''.join('#include <cglm/%s>\n' % e for e in extra)
        inc += '#include <cglm/struct.h>\n' + ''.join('#include <cglm/%s>\n' % e for e in ex if os.path.exists(REPO + '/include/cglm/' + e))
    elif api in ('call', 'names'):
        inc += '#include <cglm/cglm.h>\n' + ''.join('#include <cglm/%s>\n' % e for e in extra) + '#include <cglm/call.h>\n#include <cglm/call/aabb2d.h>\n'
        for p in sorted(glob.glob(REPO + '/src/*.c') + glob.glob(REPO + '/src/clipspace/*.c')):
            inc += '#include "%s"\n' % p
        if api == 'names': inc += '#include <cglm/struct.h>\n#include <cglm/struct/aabb2d.h>\n#include <cglm/applesimd.h>\n'
    return inc

def tu_text(cfg, api, shims=''):
    t = ''.join('#include <%s>\n' % h for h in STD)
    pre = cfg.pre if cfg.pre else (XSSE if not cfg.cross and not any(f in NOSSE for f in cfg.flags) else [])
    t += ''.join('#include <%s>\n' % h for h in pre)
    t += '#define CGLM_CLIPSPACE_INCLUDE_ALL\n' if api != 'nope' else ''
    t += includes(cfg, api)
    t += shims
    for ty in TYPES:
        t += 'const unsigned long cgv_align_%s = _Alignof(%s);\n' % (ty, ty)
    return t

def keep(names):
    # static inline functions are only emitted when referenced
    return '__attribute__((used)) static void *const cgv_keep[] = {\n' + ''.join('  (void *)%s,\n' % n for n in names) + '};\n'

def compile_ir(cfg, api, outdir, shims='', names=()):
    if names: shims = shims + keep(names)
    src = os.path.join(outdir, '%s_%s.c' % (cfg.name, api)); out = src[:-2] + '.ll'
    with open(src, 'w') as f: f.write(tu_text(cfg, api, shims))
    cmd = ['clang'] + BASE + (CROSS if cfg.cross else []) + cfg.flags + ['-D' + d for d in cfg.defs] + \
          (['-DNDEBUG'] if cfg.ndebug else []) + ['-DCGLM_STATIC', '-I' + REPO + '/include', src, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError('clang failed for %s/%s:\n%s' % (cfg.name, api, r.stderr[:3000]))
    return out

class BuildError(Exception): pass

SIG = re.compile(r'\b((?:glm|glms|glmc|glmm)_\w+)\s*\(([^(){};]*)\)\s*\{')
def signatures(cfg, api, outdir):
    """name -> (return type, [(type, array suffix, name)]) read off the preprocessed text"""
    src = os.path.join(outdir, '%s_%s_sig.c' % (cfg.name, api))
    with open(src, 'w') as f: f.write(tu_text(cfg, api))
    cmd = ['clang', '-std=c11', '-E', '-P'] + (CROSS if cfg.cross else []) + cfg.flags + ['-D' + d for d in cfg.defs] + (['-DNDEBUG'] if cfg.ndebug else []) + ['-I' + REPO + '/include', src]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[:3000])
    out = {}; rx = SIG; ns = {}
    if cfg.name in NS:
        ns = {b: a for a, b in ns_names(cfg.name).items()}; dead = set(ns.values())
        rx = re.compile(r'\b((?:glm|glms|glmc|glmm)_\w+|%s)\s*\(([^(){};]*)\)\s*\{' % '|'.join(ns))
    for m in rx.finditer(r.stdout):
        name, ps = m.group(1), m.group(2)
        if ns:
            if name in dead: continue
            name = ns.get(name, name)
        head = r.stdout[max(0, m.start() - 200):m.start()]
        head = re.split(r'[;{}]|\)\)', head)[-1].split()
        head = [w.lstrip(')') for w in head]
        head = [w for w in head if w and w not in ('static', 'inline', 'extern') and not w.startswith('__attribute')]
        out[name] = (' '.join(head), [param(p) for p in split_params(ps)])
    return out

def split_params(ps):
    ps = ps.strip()
    if ps in ('', 'void'): return []
    return [p.strip() for p in ps.split(',')]

def param(p):
    p = re.sub(r'\b(const|__restrict|restrict|register|volatile)\b', ' ', p)
    m = re.match(r'^\s*(?:struct\s+|unsigned\s+)*(\w+)\s*(\**)\s*(\w*)\s*((?:\[[^\]]*\])*)\s*$', p)
    if not m: return (p.strip(), '', '')
    ty, st, nm, suf = m.groups()
    suf = re.sub(r'\s+', '', suf)
    return (ty + st, suf, nm)
