"""Replay of inputs against the real, compiled code of /repo (or, for targets
that cannot run here, single-precision evaluation of the extracted IR)."""
import os, subprocess, struct, hashlib, shutil, re
import numpy as np
from . import build, numeric
from . import dag as D

class ReplayError(Exception): pass

def storages(c, alias):
    """[(key, Type, [param names])] in parameter order; scalars by value have Type.ptr False"""
    rep = {}
    for o, ins in alias.items():
        for i in ins: rep[i] = ins[0]
        rep[o] = ins[0]
    out = []; seen = {}
    for p in c.params:
        k = rep.get(p.name, p.name)
        if not p.ty.ptr: out.append((p.name, p.ty, [p])); continue
        if k in seen: seen[k][2].append(p)
        else: seen[k] = e = (k, p.ty, [p]); out.append(e)
    return out, rep

def ctype(ty):
    if ty.kind == 'b' and not ty.shape: return 'bool'
    return ty.base

def driver(c, alias, shims='', api='inline', ro=False):
    """C text of a program: reads float/int records on stdin, writes every storage and the result"""
    st, rep = storages(c, alias)
    body = []; args = {}
    for k, (key, ty, ps) in enumerate(st):
        if not ty.ptr:
            ct = {'f': 'float', 'i': 'int', 'b': 'int'}[ty.kind]
            body.append('    %s v%d; if (fread(&v%d, 4, 1, stdin) != 1) break;' % (ct, k, k))
            for p in ps: args[p.name] = ('(bool)v%d' if ty.kind == 'b' else 'v%d') % k
        else:
            al = '_Alignof(%s)' % ctype(ty) if ty.kind == 'b' or not getattr(c, 'unaligned', False) else '4'
            body.append('    char *b%d = cgv_alloc(%d, %s); if (fread(b%d, 1, %d, stdin) != %d) break;' % (k, ty.size, al, k, ty.size, ty.size))
            if ro and all(p.mode == 'in' for p in ps): body[-1] = '    char *b%d = mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (fread(b%d, 1, %d, stdin) != %d) break; mprotect(b%d, 8192, PROT_READ);' % (k, k, ty.size, ty.size, k)
            for p in ps: args[p.name] = '(void *)b%d' % k
    call = '%s(%s)' % (c.symbol, ', '.join(args[p.name] for p in c.params))
    if c.ret:
        ct = {'f': 'float', 'i': 'int', 'b': 'int'}[c.ret.kind]
        body.append('    %s ret = %s;' % (ct, call)); body.append('    fwrite(&ret, 4, 1, stdout);')
    else: body.append('    %s;' % call)
    for k, (key, ty, ps) in enumerate(st):
        if ty.ptr: body.append('    fwrite(b%d, 1, %d, stdout); %s(b%d%s);' % (k, ty.size, *(('munmap', k, ', 8192') if ro and all(p.mode == 'in' for p in ps) else ('cgv_free', k, ''))))
    return shims + ('#include <sys/mman.h>\n' if ro else '') + '''
static char *cgv_base[64]; static int cgv_n;
/* exactly sized, and aligned to the type's own alignment and no more */
static char *cgv_alloc(size_t size, size_t al) {
  char *p = 0; if (al < sizeof(void *)) al = al ? al : 1;
#ifdef CGLM_ALL_UNALIGNED
  if (al > 4) al = 4;
#endif
 
  size_t a2 = al * 2 < sizeof(void *) ? sizeof(void *) : al * 2;
  if (posix_memalign((void **)&p, a2, size + al)) abort();
  cgv_base[cgv_n++] = p; return p + al;
}
static void cgv_free(char *p) { (void)p; }
int main(void) {
  for (;;) {
%s
    fflush(stdout);
    while (cgv_n) free(cgv_base[--cgv_n]);
  }
  return 0;
}
''' % '\n'.join(body)

def compile_driver(cfg, c, alias, workdir, san=False, shims='', api='inline', ro=False):
    if not cfg.run: raise ReplayError('configuration %s cannot run on this machine' % cfg.name)
    src = '#define _GNU_SOURCE 1\n' + build.tu_text(cfg, api) + driver(c, alias, shims, api, ro)
    h = hashlib.sha1((src + cfg.name + str(san)).encode()).hexdigest()[:12]
    cf = os.path.join(workdir, 'replay_%s.c' % h); ex = cf[:-2]
    with open(cf, 'w') as f: f.write(src)
    flags = [x for x in build.BASE if x not in ('-S', '-emit-llvm', '-fno-discard-value-names') and 'passes' not in x and 'optnone' not in x and x != '-Xclang']
    cmd = ['clang'] + flags + (['-fsanitize=address,undefined', '-fno-sanitize=float-divide-by-zero,float-cast-overflow,pointer-overflow', '-g'] if san else []) + \
        cfg.flags + ['-D' + d for d in cfg.defs] + ['-DNDEBUG', '-DCGLM_STATIC', '-I' + build.REPO + '/include', cf, '-o', ex, '-lm']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise ReplayError('driver does not compile: ' + r.stderr[:1500])
    return ex, cf, cmd

def cellname(key, k, ps): return '%s.%d' % (key, k)

def pack(c, alias, envs, fixed={}):
    """binary records for the driver"""
    st, rep = storages(c, alias)
    fixes = {}
    from .verify import fixcell
    for p in c.params:
        if c.fix and p.mode != 'out':
            for k in range(p.ty.count):
                fx = fixcell(c, p, k)
                if fx is not None: fixes.setdefault((rep.get(p.name, p.name), k), fx)
    out = bytearray(); recs = []
    for e in envs:
        rec = {}
        for key, ty, ps in st:
            vals = []
            for k in range(ty.count if ty.ptr else 1):
                if not ty.ptr:
                    v = fixed[key] if key in fixed else e.get(key, 0)
                else:
                    # an output's old contents get a recognisable value
                    nm = '%s.%d' % (key, k)
                    v = fixes.get((key, k))
                    if v is None: v = e.get(nm, e.get(nm + "'old"))
                    if v is None: v = 0
                vals.append(v)
                if ty.kind == 'f': out += struct.pack('<f', np.float32(v))
                elif ty.kind == 'i' or not ty.ptr: out += struct.pack('<I', int(v) & 0xffffffff)
                else: out += struct.pack('<B', 1 if v else 0)
            rec[key] = [float(v) if ty.kind == 'f' else int(v) for v in vals]
        recs.append(rec)
    return bytes(out), recs

def unpack(c, alias, data, n):
    """[(outputs per contract order flattened, storages dict)]"""
    st, rep = storages(c, alias)
    size = (4 if c.ret else 0) + sum(ty.size for key, ty, ps in st if ty.ptr)
    res = []
    for i in range(min(n, len(data) // size if size else 0)):
        b = data[i * size:(i + 1) * size]; o = 0; flat = []; sto = {}
        if c.ret:
            v = struct.unpack('<f' if c.ret.kind == 'f' else '<i', b[:4])[0]; o = 4
            flat.append(bool(v) if c.ret.kind == 'b' else v)
        for key, ty, ps in st:
            if not ty.ptr: continue
            seg = b[o:o + ty.size]; o += ty.size
            if ty.kind == 'f': vals = list(struct.unpack('<%df' % ty.count, seg))
            elif ty.kind == 'i': vals = list(struct.unpack('<%di' % ty.count, seg))
            else: vals = [bool(x) for x in seg]
            sto[key] = vals
        for p in c.outs: flat += sto[rep.get(p.name, p.name)]
        res.append((flat, sto))
    return res

# ---- WebAssembly: the compiled code runs on node -------------------------------------
def wasm_driver(c, alias, shims='', api='inline'):
    """C text with a function step() that reads one packed record from cgv_in and writes cgv_out"""
    st, rep = storages(c, alias)
    decl = []; pre = []; post = []; args = {}; i = o = 0
    if c.ret: o = 4
    for k, (key, ty, ps) in enumerate(st):
        if not ty.ptr:
            ct = {'f': 'float', 'i': 'int', 'b': 'int'}[ty.kind]
            pre.append('  %s v%d; cgv_cp((char *)&v%d, cgv_in + %d, 4);' % (ct, k, k, i)); i += 4
            for p in ps: args[p.name] = ('(bool)v%d' if ty.kind == 'b' else 'v%d') % k
        else:
            al = '_Alignof(%s)' % ctype(ty) if ty.kind == 'b' or not getattr(c, 'unaligned', False) else '4'
            decl.append('static _Alignas(64) char b%d[64 + %d];' % (k, ty.size))
            pre.append('  cgv_cp(b%d + %s, cgv_in + %d, %d);' % (k, al, i, ty.size)); i += ty.size
            post.append('  cgv_cp(cgv_out + %d, b%d + %s, %d);' % (o, k, al, ty.size)); o += ty.size
            for p in ps: args[p.name] = '(void *)(b%d + %s)' % (k, al)
    call = '%s(%s)' % (c.symbol, ', '.join(args[p.name] for p in c.params))
    if c.ret:
        call = '%s ret = %s; cgv_cp(cgv_out, (char *)&ret, 4)' % ({'f': 'float', 'i': 'int', 'b': 'int'}[c.ret.kind], call)
    return shims + """
__attribute__((export_name("cgv_in"))) char *cgv_pin(void); __attribute__((export_name("cgv_out"))) char *cgv_pout(void);
static _Alignas(16) char cgv_in[%d], cgv_out[%d];
char *cgv_pin(void) { return cgv_in; } char *cgv_pout(void) { return cgv_out; }
static void cgv_cp(volatile char *d, const volatile char *s, int n) { for (int k = 0; k < n; k++) d[k] = s[k]; }
void *memcpy(void *d, const void *s, __SIZE_TYPE__ n) { cgv_cp(d, s, (int)n); return d; }
void *memmove(void *d, const void *s, __SIZE_TYPE__ n) { volatile char *a = d; const volatile char *b = s; if (a < b) while (n--) *a++ = *b++; else while (n) { n--; a[n] = b[n]; } return d; }
void *memset(void *d, int c, __SIZE_TYPE__ n) { for (volatile char *a = d; n; n--) *a++ = (char)c; return d; }
%s
__attribute__((export_name("step"))) void cgv_step(void) {
%s
  %s;
%s
}
""" % (i or 1, o or 1, '\n'.join(decl), '\n'.join(pre), call, '\n'.join(post)), i, o

NODE = r"""
const fs = require('fs'), m = {};
for (const k of Object.getOwnPropertyNames(Math)) if (typeof Math[k] === 'function') { m[k] = Math[k]; m[k + 'f'] = (...a) => Math.fround(Math[k](...a)); }
m.fabsf = m.fabs = Math.abs; m.fmodf = m.fmod = (a, b) => a % b; m.powf = m.pow; m.rintf = m.nearbyintf = x => { const r = Math.round(x); return Math.abs(x % 1) === 0.5 && r % 2 ? r - 1 : r; };
m.fminf = m.fmin = (a, b) => a !== a ? b : b !== b ? a : Math.min(a, b); m.fmaxf = m.fmax = (a, b) => a !== a ? b : b !== b ? a : Math.max(a, b);
m.copysignf = (a, b) => (b < 0 || Object.is(b, -0)) ? -Math.abs(a) : Math.abs(a);
const env = new Proxy(m, { get: (t, k) => t[k] || (() => { throw new Error('call of ' + String(k)); }), has: () => true });
const w = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(process.argv[2])), { env }).exports;
const data = fs.readFileSync(0), IN = +process.argv[3], OUT = +process.argv[4], n = IN ? Math.floor(data.length / IN) : 0, res = Buffer.alloc(n * OUT);
for (let k = 0; k < n; k++) {
  new Uint8Array(w.memory.buffer).set(data.subarray(k * IN, (k + 1) * IN), w.cgv_in());
  w.step();
  res.set(new Uint8Array(w.memory.buffer, w.cgv_out(), OUT), k * OUT);
}
let o = 0; while (o < res.length) o += fs.writeSync(1, res, o);
"""

def can_wasm(): return all(shutil.which(x) for x in ('clang', 'wasm-ld', 'node'))

def runs(cfg): return cfg.run or (cfg.name == 'wasm' and can_wasm())

def run_wasm(cfg, c, alias, envs, workdir, fixed, shims, api, timeout):
    text, nin, nout = wasm_driver(c, alias, shims, api)
    src = build.tu_text(cfg, api) + text
    h = hashlib.sha1(src.encode()).hexdigest()[:12]
    cf = os.path.join(workdir, 'replay_w%s.c' % h); ex = cf[:-2] + '.wasm'; js = cf[:-2] + '.cjs'
    with open(cf, 'w') as f: f.write(src)
    with open(js, 'w') as f: f.write(NODE)
    cmd = ['clang', '-std=c11', '-O1', '-w', '-ffp-contract=off', '-fno-builtin'] + build.CROSS + cfg.flags + ['-D' + d for d in cfg.defs] + \
        ['-DNDEBUG', '-DCGLM_STATIC', '-I' + build.REPO + '/include', '-nostdlib', '-Wl,--no-entry,--allow-undefined', cf, '-o', ex]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise ReplayError('driver does not compile: ' + r.stderr[:1500])
    data, recs = pack(c, alias, envs, fixed)
    try: p = subprocess.run(['node', js, ex, str(nin), str(nout)], preexec_fn=build.cpu(60), input=data, capture_output=True, timeout=timeout, cwd=workdir)
    except subprocess.TimeoutExpired: return None, 'timeout', cmd, cf, recs
    if 'call of ' in p.stderr.decode(errors='replace'): raise ReplayError(p.stderr.decode(errors='replace')[:300])
    return unpack(c, alias, p.stdout, len(envs)), (p.returncode, p.stderr.decode(errors='replace')), cmd, cf, recs

def run(cfg, c, alias, envs, workdir, fixed={}, san=False, shims='', api='inline', timeout=60, ro=False):
    if cfg.name == 'wasm' and not san and can_wasm(): return run_wasm(cfg, c, alias, envs, workdir, fixed, shims, api, timeout)
    ex, cf, cmd = compile_driver(cfg, c, alias, workdir, san, shims, api, ro)
    data, recs = pack(c, alias, envs, fixed)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0', UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1')
    try: p = subprocess.run([ex], preexec_fn=build.cpu(60), input=data, capture_output=True, timeout=timeout, env=env, cwd=workdir)
    except subprocess.TimeoutExpired: return None, 'timeout', cmd, cf, recs
    return unpack(c, alias, p.stdout, len(envs)), (p.returncode, p.stderr.decode(errors='replace')), cmd, cf, recs

# ---- single-precision evaluation of the extracted code ------------------------------
def eval_f32(roots, env):
    """each operation rounded to binary32, as the extracted IR computes it"""
    val = {}
    with np.errstate(all='ignore'):
        e = {k: (np.float64(np.float32(v)) if isinstance(v, (float, np.floating)) else v) for k, v in env.items()}
        for nd in numeric.topo_all(roots):
            v = numeric.ev1(nd, val, e, 1)
            if nd.sort == 'f': v = np.float64(np.float32(v))
            val[nd.id] = v
    return [val[r.id] for r in roots]
