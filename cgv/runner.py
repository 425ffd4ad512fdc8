"""Parallel verification of many (function, configuration) pairs."""
import os, sys, time, json, tempfile, shutil, multiprocessing as mp, importlib, traceback
from collections import Counter
from . import build, ir, verify
from .contract import REG, CTX, UNSPEC

SPECS = ['vec', 'ivec', 'mat', 'affine', 'quat', 'euler', 'cam', 'geom', 'curve', 'wrapped', 'names', 'simdops', 'lemmas']
def load_specs():
    for m in SPECS: importlib.import_module('cgv.specs.' + m)

class G: work = None; seed = 1; quick = True; mods = {}; vfs = {}; deadline = None; vac = ()

def module(cfg, api):
    k = (cfg, api)
    m = G.mods.get(k)
    if m is None:
        m = G.mods[k] = ir.Module(os.path.join(G.work, '%s_%s.ll' % (cfg, api)))
        m.loose = cfg in build.CONFIGS and 'CGLM_ALL_UNALIGNED' in build.CONFIGS[cfg].defs
    return m

def compile_all(jobs):
    """jobs: [(cfg, api)] -> {(cfg, api): error or None}; also leaves signatures in sigs.json"""
    with mp.Pool(min(8, len(jobs))) as p: return dict(p.map(compile_one, jobs, chunksize=1))

def compile_one(job):
    cfg, api = job
    C = build.CONFIGS.get(cfg)
    if C is None:
        from . import prints
        C = prints.CONFIGS[cfg]
        try:
            sigs = build.signatures(C, api, G.work); off = prints.off(cfg, api)
            build.compile_ir(C, api, G.work, shims=prints.shims(cfg, api), names=[n for n, (a, k) in prints.SPECS.items() if a == api and n in sigs] if not off else ())
            return job, None
        except build.BuildError as e: return job, str(e)
    try:
        sigs = build.signatures(C, api, G.work)
        if api == 'names':
            from .specs import names as NM
            names = [x for x in sigs if x.startswith('glm_')]
            build.compile_ir(C, api, G.work, shims=NM.shims(cfg, sigs), names=names)
            with open(os.path.join(G.work, '%s_%s.sig' % (cfg, api)), 'w') as f: json.dump(sigs, f)
            return job, None
        if api == 'simdops':
            from .specs import simdops as SO
            build.compile_ir(C, api, G.work, shims=SO.shims(cfg))
            with open(os.path.join(G.work, '%s_%s.sig' % (cfg, api)), 'w') as f: json.dump(sigs, f)
            return job, None
        pre = {'inline': 'glm_', 'struct': 'glms_', 'call': 'glmc_'}[api]
        names = [x for x in sigs if x.startswith(pre)]
        shims = ''
        if api == 'struct':
            from . import wrap
            shims, extra = wrap.struct_shims(sigs)
            from . import loops
            if cfg in build.NS:
                from .specs import names as NM
                build.compile_ir(C, api, G.work, shims=ns_shims(cfg, sigs), names=['shim_' + x for x in extra] + [x for x in sigs if x.startswith('glm_')])
                with open(os.path.join(G.work, '%s_%s.sig' % (cfg, api)), 'w') as f: json.dump(sigs, f)
                return job, None
            names = extra + [x for x in sigs if x.startswith('glm_')] + [x for x in loops.SPECS if x in sigs and x.startswith('glms_')]
            shims += loops.shims(sigs)
        elif api == 'call': names += [x for x in sigs if x.startswith('glm_')]
        build.compile_ir(C, api, G.work, shims=shims, names=names)
        with open(os.path.join(G.work, '%s_%s.sig' % (cfg, api)), 'w') as f: json.dump(sigs, f)
        return job, None
    except build.BuildError as e: return job, str(e)

def ns_shims(cfg, sigs):
    """shims over the renamed struct interface; alternative names first, before the default names are made to mean the renamed ones"""
    from . import wrap
    from .specs import names as NM
    return '\n' + NM.alias_shims(sigs, 'glms_') + build.ns_defs(cfg, sigs) + wrap.struct_shims(sigs)[0]

def vf_for(cfg, modular=True):
    k = (cfg, modular)
    v = G.vfs.get(k)
    if v is None:
        v = G.vfs[k] = verify.Verifier(module(cfg, 'inline'), cfg, REG.c, quick=G.quick, modular=modular)
        v.vacuity = modular and cfg in G.vac
        v.sideonly = not modular
    return v

def rel_for(cfg, api):
    k = ('rel', cfg, api)
    v = G.vfs.get(k)
    if v is None:
        from . import wrap
        v = G.vfs[k] = wrap.RelVerifier(module(cfg, api), cfg, quick=G.quick)
    return v

def simd_for(cfg):
    k = ('simd', cfg)
    v = G.vfs.get(k)
    if v is None:
        from . import wrap
        v = G.vfs[k] = wrap.SimdVerifier(vf_for(cfg), vf_for('scalar'), module(cfg, 'inline'), module('scalar', 'inline'), cfg, quick=G.quick)
    return v

def specof_factory(vf):
    def specof(c, fixed):
        ex, st, objs, args, views, vars_, rep = vf.setup(c, {}, fixed)
        return views, vars_, [s for ss in c.spec(views) for s in ss]
    return specof

def task(job):
    """job: (mode, cfg, api, names)"""
    mode, cfg, api, names = job
    out = []
    for n in names:
        if time.time() > G.deadline: out.append(dict(fn=str(n), cfg=cfg, api=api, mode=mode, skipped=True, obs=0, proved=0, fails=[])); continue
        try: d = MODES[mode](cfg, api, n)
        except Exception as e: d = dict(fn=str(n), cfg=cfg, obs=0, proved=0, fails=[], error='%s: %s' % (type(e).__name__, e), trace=traceback.format_exc(), broken=True)
        d['mode'] = mode; d['api'] = api
        out.append(d)
    return out

def summary(r, want=None):
    obs = r.obs if want is None else [o for o in r.obs if want(o)]
    kinds = Counter(o.kind for o in obs if o.status == 'proved')
    side = {k: v for k, v in r.counts.items()}
    d = dict(fn=r.name, cfg=r.cfg, obs=len(obs), proved=sum(o.status == 'proved' for o in obs), time=r.time, t_smt=r.t_smt, smt=r.smt_calls, cases=r.cases,
             side=side, backends=dict(Counter(o.backend for o in obs if o.status == 'proved')), kinds=dict(kinds),
             used=list(r.contracts_used), inlined=list(r.inlined), approx=list(r.approx), vac=r.vac, fails=[], error=None)
    return d

def m_contract(cfg, api, n, want=None):
    vf = vf_for(cfg); r = vf.verify(n)
    return explain(vf, r, REG.c[n], summary(r, want), cfg, want, 'inline', '')

def m_sample(cfg, api, n):
    """thorough only: the compiled code, run on sampled inputs, against the contract (checks the extraction and the models of the intrinsics)"""
    from .judge import Judge
    c = REG.c[n]; d = dict(fn=n, cfg=cfg, obs=0, proved=0, fails=[], sampled=0)
    J = Judge(build.CONFIGS[cfg], G.work, G.seed, api=api, shims=shims(cfg, api))
    vf = vf_for(cfg)
    st, info = J.bounded(c, getattr(vf, 'specof', None) or specof_factory(vf), 600, 80)
    if st == 'clean': d['sampled'] = info
    elif st == 'deviates': d['deviation'] = {k: info[k] for k in ('cell', 'input', 'fixed', 'observed', 'required')}
    else: d['unsampled'] = str(info)
    return d

def m_alias(cfg, api, n): return m_contract(cfg, api, n, want=lambda o: bool(o.alias))

def m_side(cfg, api, n):
    vf = vf_for(cfg, False); r = vf.verify(n)
    return explain(vf, r, REG.c[n], summary(r), cfg, None, 'inline', '')

def m_rel(cfg, api, n):
    """wrapper of the struct or linked interface against the inline function"""
    from . import wrap
    rv = rel_for(cfg, api); sym = ('shim_' if api == 'struct' else '') + n
    r = rv.verify(n, sym)
    if r.name in REG.c or wrap.base_of(n) in REG.c: c = wrap.derived(n, sym)
    return explain(rv, r, c, summary(r), cfg, None, api, shims(cfg, api))

def m_disp(cfg, api, n):
    """unsuffixed function against the variant the configuration selects: n = (name, variant)"""
    from . import wrap
    rv = rel_for(cfg, api); name, var = n
    pre = 'shim_' if api == 'struct' else ''
    r = rv.verify(name, pre + name, other=pre + var)
    return explain(rv, r, wrap.derived(name, pre + name), summary(r), cfg, None, api, shims(cfg, api))

def m_simd(cfg, api, n):
    v = simd_for(cfg); r = v.verify(n)
    return explain(v, r, REG.c[n], summary(r), cfg, None, 'inline', '')

def m_lemma(cfg, api, n):
    from .lemma import prove_lemma
    return prove_lemma(cfg, n, G.quick, G.seed)

def m_loop(cfg, api, n, kind='loop'):
    """function over an array of any length, or an iterative solver: loop invariants"""
    from . import loops, bisect
    k = (kind, cfg, api); lv = G.vfs.get(k); mod = loops if kind == 'loop' else bisect
    if lv is None: lv = G.vfs[k] = (loops.LoopVerifier if kind == 'loop' else bisect.BisectVerifier)(module(cfg, api), cfg, quick=G.quick)
    r = lv.verify(n); d = summary(r)
    bad = r.failed()
    if r.ok(): return d
    d['error'] = r.error
    if r.error: d['obs'] += 1
    with open(os.path.join(G.work, '%s_%s.sig' % (cfg, api))) as f: sigs = json.load(f)
    if r.error and r.error.startswith('IRError: no definition'): d['fails'].append(dict(obligation='%s: is defined' % n, kind='extraction', finding=None, status=r.error)); return d
    try: f = mod.search(build.CONFIGS[cfg], api, n, G.work, sigs)
    except Exception as e: f = dict(kind='replay-error', note='%s: %s' % (type(e).__name__, e))
    for o in bad: d['fails'].append(dict(obligation='%s: %s %s' % (n, o.kind, o.label), kind=o.kind, status='%s (%s) %s' % (o.status, o.backend, o.note), finding=None))
    if r.error: d['fails'].append(dict(obligation='%s: verification condition' % n, kind='extraction', finding=None, status=r.error))
    if f: d['fails'][0]['finding'] = f
    return d

def m_name(cfg, api, n):
    """constant, initialiser, struct member, mask: the one-line function that uses it"""
    k = (api, cfg); vf = G.vfs.get(k)
    if vf is None:
        vf = G.vfs[k] = verify.Verifier(module(cfg, api), cfg, REG.c, quick=G.quick, modular=False); vf.vacuity = cfg in G.vac
    r = vf.verify(n)
    return explain(vf, r, REG.c[n], summary(r), cfg, None, api, shims(cfg, api))

def m_aliasname(cfg, api, n):
    """alternative name against the function it stands for"""
    from . import wrap
    from .specs import names as NM
    rv = rel_for(cfg, api); target = NM.TARGET[n]; sym = 'cgvn_alias_' + n
    r = rv.verify(target, sym); c = wrap.derived(target, sym); r.name = n
    return explain(rv, r, c, summary(r), cfg, None, api, shims(cfg, api))

def m_bisect(cfg, api, n): return m_loop(cfg, api, n, 'bisect')

def m_print(cfg, api, n):
    """print helper: the text it writes"""
    from . import prints
    r = prints.PrintVerifier(module(cfg, api), cfg, quick=G.quick).verify(n); d = summary(r); d['vac'] = r.error is None
    if r.error and r.error.startswith('vacuous'): d['error'] = r.error; d['broken'] = True; return d
    bad = r.failed()
    if r.ok(): return d
    d['error'] = r.error
    if r.error: d['obs'] += 1
    if r.error and r.error.startswith('IRError: no definition'): d['fails'].append(dict(obligation='%s: is defined' % n, kind='extraction', finding=None, status=r.error)); return d
    try: f = prints.search(prints.CONFIGS[cfg], api, n, G.work, seed=G.seed)
    except Exception as e: f = dict(kind='replay-error', note='%s: %s' % (type(e).__name__, e))
    for o in bad: d['fails'].append(dict(obligation='%s: %s %s' % (n, o.kind, o.label), kind=o.kind, status='%s (%s) %s' % (o.status, o.backend, o.note), finding=None))
    if r.error: d['fails'].append(dict(obligation='%s: verification condition' % n, kind='extraction', finding=None, status=r.error))
    if f: d['fails'][0]['finding'] = f
    return d

MODES = dict(name=m_name, aliasname=m_aliasname, print=m_print, loop=m_loop, bisect=m_bisect, contract=m_contract, sample=m_sample, alias=m_alias, side=m_side, rel=m_rel, disp=m_disp, simd=m_simd, lemma=m_lemma)

def shims(cfg, api):
    if api == 'names':
        from .specs import names as NM
        with open(os.path.join(G.work, '%s_%s.sig' % (cfg, api))) as f: return NM.shims(cfg, json.load(f))
    if api == 'simdops':
        from .specs import simdops as SO
        return SO.shims(cfg)
    if api != 'struct': return ''
    if cfg in build.NS:
        with open(os.path.join(G.work, '%s_%s.sig' % (cfg, api))) as f: return ns_shims(cfg, json.load(f))
    from . import wrap
    with open(os.path.join(G.work, '%s_%s.sig' % (cfg, api))) as f: return wrap.struct_shims(json.load(f))[0]

def explain(vf, r, c, d, cfg, want, api, sh):
    """attach findings (inputs replayed on the real code) to what was not proved"""
    from .judge import Judge
    C = build.CONFIGS[cfg]; n = r.name
    J = Judge(C, G.work, G.seed, api=api, shims=sh)
    if r.error:
        d['error'] = r.error
        if r.error.startswith('vacuous'): d['broken'] = True; return d
        d['obs'] += 1
        if r.error.startswith('IRError: no definition'):
            d['fails'].append(dict(obligation='%s: is defined' % n, kind='extraction', finding=None, status=r.error)); return d
        specof = getattr(vf, 'specof', None) or specof_factory(vf)
        st, info = J.bounded(c, specof)
        if st == 'deviates': d['fails'].append(dict(obligation='%s: postcondition %s' % (n, info['cell']), kind='postcondition', finding=info, status='unsupported: ' + r.error))
        else: d['fails'].append(dict(obligation='%s: verification condition' % n, kind='extraction', finding=None, status=r.error, note='bounded comparison with the contract on sampled inputs: %s %s' % (st, info)))
        return d
    found = False
    for ctx in r.ctx:
        obs = [o for o in ctx['obs'] if want is None or want(o)]
        if not obs: continue
        ctx = dict(ctx, obs=obs)
        f = None
        if not found and time.time() < G.deadline:
            try: f = J.post(c, ctx, G.deadline)
            except Exception as e: f = dict(kind='replay-error', note='%s: %s' % (type(e).__name__, e), trace=traceback.format_exc())
            if (f is None or f['kind'] != 'confirmed'):
                try: f = J.memory(c, ctx) or f
                except Exception as e: pass
        if f and f['kind'] == 'confirmed': found = True
        n0 = len(d['fails'])
        for o in obs:
            d['fails'].append(dict(obligation='%s: %s %s' % (n, o.kind, o.label), kind=o.kind, status='%s (%s) %s' % (o.status, o.backend, o.note), finding=None))
        if f:
            d['fails'][n0]['finding'] = f
            if f['kind'] == 'confirmed': d['fails'][n0]['obligation'] = '%s: %s %s' % (n, f['cell'] if 'memory' in f['cell'] or 'frame' in f['cell'] else 'postcondition ' + f['cell'], ctx['tag'])
    return d

SLOW = ('lemma', 'from_vecs', 'ray_triangle', 'perlin_vec4', 'sphere', 'perlin', 'slerp', 'frustum', 'inv')
def weight(job):
    ns = [str(x) for x in job[3]] + [job[0]]
    return max([len(SLOW) - SLOW.index(s) for s in SLOW if any(s in n for n in ns)] or [0])

def run(work, stop_after=3):
    """work: [(mode, cfg, api, name)] -> list of summaries"""
    by = {}
    for mode, cfg, api, n in work: by.setdefault((mode, cfg, api), []).append(n)
    jobs = []
    for (mode, cfg, api), ns in by.items():
        heavy = [n for n in ns if weight((mode, cfg, api, [n]))]
        rest = [n for n in ns if n not in heavy]
        for n in heavy: jobs.append((mode, cfg, api, [n]))
        chunk = max(1, min(24, -(-len(rest) // 3)))
        for i in range(0, len(rest), chunk): jobs.append((mode, cfg, api, rest[i:i + chunk]))
    jobs.sort(key=lambda j: (j[1] in build.CONFIGS and not build.CONFIGS[j[1]].run if not weight(j) else False, -weight(j)))
    res = []; confirmed = 0
    with mp.Pool(min(8, max(1, len(jobs)))) as p:
        for out in p.imap_unordered(task, jobs):
            res += out
            confirmed += sum(1 for d in out for f in d['fails'] if f['finding'] and f['finding']['kind'] == 'confirmed')
            if confirmed >= stop_after: p.terminate(); break
    return res
