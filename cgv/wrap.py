"""Contracts of the struct (glms_*) and linked (glmc_*) interfaces, derived from
the inline interface: the wrapper must leave exactly what the inline function
leaves, for the same inputs."""
import re, time
from . import dag as D
from .dag import Node
from .contract import REG, Contract, CTX, Type, SHAPES
from .verify import FnResult, Ob, Verifier, cells_of
from .prove import Prover, Result
from .exe import UNDEF, Ptr, Unsupported, LoopBound
from .ir import IRError

STRUCT = {b + 's': b for b in SHAPES if b not in ('float', 'int', 'bool')}
ALIASES = {'glmc_mat4_inv_precise': 'glm_mat4_inv', 'glmc_vec3_mulv': 'glm_vec3_mul', 'glmc_vec4_mulv': 'glm_vec4_mul',
           'glms_vec3_flipsign': 'glm_vec3_negate'}          # struct/call name -> inline name when they differ

def base_of(name):
    return ALIASES.get(name) or re.sub(r'^(glms|glmc)_', 'glm_', name)

def struct_call(name, sig, c):
    """C text calling glms function `name` from a function with the inline calling convention"""
    ret, ps = sig
    rets = STRUCT.get(ret)
    cands = [p for p in c.params if p.mode != 'in' and p.ty.base and rets and shape(rets) == p.ty.shape and p.ty.n is None] if rets else [None]
    if rets and not cands: return None
    for recv in reversed(cands):
        for byname in (False, True):
            # the result parameter may also be passed (by value) as an argument
            for skip in ((recv,), ()):
                use = [p for p in c.params if not (p in skip and p.mode == 'out')]
                if len(use) != len(ps): continue
                if byname:
                    d = {p.name: p for p in use}
                    if any(nm not in d for ty, suf, nm in ps): continue
                    use = [d[nm] for ty, suf, nm in ps]
                args = [struct_arg(p, *q[:2]) for p, q in zip(use, ps)]
                if None in args: continue
                call = '%s(%s)' % (name, ', '.join(args))
                if recv is not None: return '*(%s *)%s = %s;' % (ret, recv.name, call)
                if c.ret: return 'return %s;' % call
                if ret == 'void': return call + ';'
    return None

def struct_arg(p, ty, suf):
    if ty in STRUCT and not suf:
        if not p.ty.ptr or p.ty.n is not None or shape(STRUCT[ty]) != p.ty.shape: return None
        return '*(%s *)%s' % (ty, p.name)
    if ty.rstrip('*') in STRUCT or '*' in ty or suf or (ty in SHAPES and SHAPES[ty][1]):
        return '(void *)%s' % p.name if p.ty.ptr else None
    return None if p.ty.ptr else p.name

def shape(b): return SHAPES[b][1]

def cparam(p):
    if p.ty.ptr: return 'void *%s' % p.name
    return {'f': 'float', 'i': 'int', 'b': 'bool'}[p.ty.kind] + ' ' + p.name

def struct_shims(sigs, missing=None):
    """shims giving every glms_ function the calling convention of its glm_ counterpart"""
    t = '\n'; names = []
    for n, sig in sigs.items():
        if not n.startswith('glms_'): continue
        c = REG.c.get(n) or REG.c.get(base_of(n))
        if c is None:
            if missing is not None: missing.append(n)
            continue
        call = struct_call(n, sig, c)
        if call is None:
            if missing is not None: missing.append(n)
            continue
        rt = {'f': 'float', 'i': 'int', 'b': 'bool'}[c.ret.kind] if c.ret else 'void'
        t += '%s shim_%s(%s) { %s }\n' % (rt, n, ', '.join(cparam(p) for p in c.params) or 'void', call)
        names.append(n)
    return t, names

def derived(name, symbol):
    """the contract object used to drive wrapper `symbol` (same parameters as the inline function)"""
    b = REG.c.get(name) or REG.c[base_of(name)]
    c = Contract.__new__(Contract)
    c.__dict__.update(b.__dict__)
    c.name = name; c.symbol = symbol; c.base = b
    if symbol.startswith('shim_'): c.unaligned = False
    return c

class RelVerifier:
    """wrapper against inline function, both taken from the same translation unit"""
    def __init__(self, mod, cfg, quick=True):
        self.v = Verifier(mod, cfg, REG.c, quick=quick, modular=False)
        self.cfg = cfg; self.mod = mod

    def specof(self, c, fixed):
        ex, st, objs, args, views, vars_, rep = self.v.setup(c.base, {}, fixed)
        return views, vars_, [s for ss in c.base.spec(views) for s in ss]

    def verify(self, name, symbol, other=None):
        from .search import quick_refute
        res = FnResult(name, self.cfg); t0 = time.time()
        old = CTX.cfg; CTX.cfg = self.cfg
        try:
            if not self.mod.has(symbol): raise IRError('no definition of %s' % symbol)
            c = derived(name, symbol); own = name in REG.c and not other and not name.startswith('glm_')
            ref = derived(name, other) if other else c.base
            import itertools
            combos = [{}]
            if c.enum:
                ks = list(c.enum); combos = [dict(zip(ks, v)) for v in itertools.product(*[c.enum[k] for k in ks])]
            for fixed in combos:
                for alias in ([{}] if symbol.startswith('shim_') else self.v.aliases(c)):
                    tag = ','.join('%s=%s' % (o, '='.join(i)) for o, i in alias.items())
                    tag = ','.join([tag] * bool(tag) + ['%s=%d' % kv for kv in fixed.items()])
                    ex, code, views, vars_ = self.v.execute(c, alias, fixed)
                    if own: spec = c.base.spec(views)
                    else: _, spec, _, _ = self.v.execute(ref, alias, fixed)
                    for k, n in ex.discharged.items(): res.counts[k] = res.counts.get(k, 0) + n
                    fc = [x for y in code for x in y]; fs = [x for y in spec for x in y]
                    if all(x is s for x, s in zip(fc, fs)): refuted = ()
                    else: refuted = quick_refute(c, views, vars_, fc, fs)
                    n0 = len(res.obs); pr = None; i = -1
                    for o in ex.obs:
                        if pr is None: pr = self.v.prover(c.base, views)
                        r = pr.implied(o.pc, o.cond)
                        if r.status == 'proved': res.counts[o.kind] = res.counts.get(o.kind, 0) + 1; continue
                        # an access the inline function makes as well is that function's obligation
                        if o.kind == 'frame' or 'shim' in symbol: pass
                        res.inherited = getattr(res, 'inherited', 0) + 1
                    for (nm, ty), cc, ss in zip(c.outputs(), code, spec):
                        for k, (x, s) in enumerate(zip(cc, ss)):
                            i += 1
                            label = ('%s[%d]' % (nm, k) if ty.count > 1 else nm) + (' when ' + tag if tag else '')
                            xu = x is UNDEF or isinstance(x, (tuple, Ptr)); su = not isinstance(s, Node)
                            if su: r = Result('proved', 'unspecified-by-inline')
                            elif xu: r = Result('failed', 'executor', note='value is indeterminate')
                            elif x is s: r = Result('proved', 'identical-term')
                            elif i in refuted: r = Result('failed', 'evaluation', note='refuted at a sampled input')
                            else:
                                if pr is None: pr = self.v.prover(c.base, views)
                                r = pr.equal(x, s)
                            res.obs.append(Ob(name, 'postcondition', label, r.status, r.backend, r.cases, r.note, alias, x, s, r.model, i))
                    if any(o.status != 'proved' for o in res.obs[n0:]):
                        res.ctx.append(dict(alias=alias, fixed=fixed, tag=tag, code=fc, spec=fs, views=views, vars=vars_, obs=[o for o in res.obs[n0:] if o.status != 'proved'], contract=c))
        except (Unsupported, LoopBound, IRError, KeyError, NotImplementedError, AttributeError, TypeError, ValueError, IndexError, RecursionError) as e:
            import traceback
            res.error = '%s: %s' % (type(e).__name__, e); res.trace = traceback.format_exc()
        finally: CTX.cfg = old
        res.time = time.time() - t0
        return res

class SimdVerifier:
    """one configuration against the portable C paths: the same real-number result for every input.
    Identical terms close an obligation at once; otherwise both sides meet the same contract;
    otherwise the two terms are compared directly."""
    def __init__(self, vf, vs, mod, smod, cfg, quick=True):
        self.vf = vf; self.vs = vs; self.cfg = cfg
        self.a = Verifier(mod, cfg, REG.c, quick=quick, modular=False); self.b = Verifier(smod, cfg, REG.c, quick=quick, modular=False)
    def specof(self, c, fixed):
        ex, code, views, vars_ = self.b.execute(c, {}, fixed)
        return views, vars_, [s for ss in code for s in ss]
    def verify(self, name):
        from .search import quick_refute
        import itertools
        res = FnResult(name, self.cfg); t0 = time.time(); old = CTX.cfg; CTX.cfg = self.cfg
        c = REG.c[name]
        try:
            combos = [{}]
            if c.enum:
                ks = list(c.enum); combos = [dict(zip(ks, v)) for v in itertools.product(*[c.enum[k] for k in ks])]
            both = None
            for fixed in combos:
                for alias in self.a.aliases(c):
                    tag = ','.join('%s=%s' % (o, '='.join(i)) for o, i in alias.items())
                    tag = ','.join([tag] * bool(tag) + ['%s=%d' % kv for kv in fixed.items()])
                    _, code, views, vars_ = self.a.execute(c, alias, fixed)
                    _, spec, _, _ = self.b.execute(c, alias, fixed)
                    fc = [x for y in code for x in y]; fs = [x for y in spec for x in y]
                    n0 = len(res.obs); i = -1; refuted = None; pr = None
                    for (nm, ty), cc, ss in zip(c.outputs(), code, spec):
                        for k, (x, s) in enumerate(zip(cc, ss)):
                            i += 1
                            label = ('%s[%d]' % (nm, k) if ty.count > 1 else nm) + (' when ' + tag if tag else '')
                            if not isinstance(s, Node): r = Result('proved', 'unspecified-by-scalar')
                            elif not isinstance(x, Node): r = Result('failed', 'executor', note='value is indeterminate')
                            elif x is s: r = Result('proved', 'identical-term')
                            else:
                                if both is None:
                                    o2 = CTX.cfg; both = self.vf.verify(name).ok() and self.vs.verify(name).ok(); CTX.cfg = o2
                                if both: r = Result('proved', 'common-contract')
                                else:
                                    if refuted is None: refuted = quick_refute(c, views, vars_, fc, fs)
                                    if i in refuted: r = Result('failed', 'evaluation', note='refuted at a sampled input')
                                    else:
                                        if pr is None: pr = self.a.prover(c, views)
                                        r = pr.equal(x, s)
                            res.obs.append(Ob(name, 'postcondition', label, r.status, r.backend, r.cases, r.note, alias, x, s, r.model, i))
                    if any(o.status != 'proved' for o in res.obs[n0:]):
                        res.ctx.append(dict(alias=alias, fixed=fixed, tag=tag, code=fc, spec=fs, views=views, vars=vars_, obs=[o for o in res.obs[n0:] if o.status != 'proved']))
        except (Unsupported, LoopBound, IRError, KeyError, NotImplementedError, AttributeError, TypeError, ValueError, IndexError, RecursionError) as e:
            import traceback
            res.error = '%s: %s' % (type(e).__name__, e); res.trace = traceback.format_exc()
        finally: CTX.cfg = old
        res.time = time.time() - t0
        return res

HERE = __import__('os').path.dirname(__import__('os').path.abspath(__file__))
def expected(api):
    """functions the interface must offer (recorded from the pinned tree)"""
    import json, os
    with open(os.path.join(HERE, 'public_api.json')) as f: return json.load(f)[api]
