"""Verification of one function in one configuration against its contract."""
import time, traceback
from . import dag as D
from .dag import Node, TRUE, FALSE
from .exe import Exec, State, Obj, Ptr, PtrIte, UNDEF, Unsupported, LoopBound
from .ir import IRError
from .contract import UNSPEC, CTX, Type
from .prove import Prover, Result
from . import norm
from .search import quick_refute

class Ob:
    """one named proof obligation and its outcome"""
    __slots__ = ('fn', 'kind', 'label', 'status', 'backend', 'cases', 'note', 'alias', 'code', 'spec', 'model', 'cell', 'pc')
    def __init__(s, fn, kind, label, status, backend='', cases=1, note='', alias=None, code=None, spec=None, model=None, cell=None, pc=()):
        s.fn = fn; s.kind = kind; s.label = label; s.status = status; s.backend = backend; s.cases = cases; s.note = note
        s.alias = alias; s.code = code; s.spec = spec; s.model = model; s.cell = cell; s.pc = pc
    def __repr__(s): return '<%s %s %s: %s %s>' % (s.fn, s.kind, s.label, s.status, s.note)

class FnResult:
    def __init__(s, name, cfg):
        s.name = name; s.cfg = cfg; s.obs = []; s.counts = {}; s.error = None; s.time = 0.0
        s.t_smt = 0.0; s.smt_calls = 0; s.contracts_used = []; s.inlined = []; s.approx = []; s.bounded = None
        s.cases = 0; s.divs = 0; s.ctx = []; s.vac = None
    def failed(s): return [o for o in s.obs if o.status not in ('proved',)]
    def ok(s): return s.error is None and not s.failed()

def cells_of(st, ex, obj, ty, off=0):
    out = []
    w = 1 if ty.kind == 'b' else 4
    ity = {'f': ('f',), 'i': ('i', 32), 'b': ('i', 8)}[ty.kind]
    for k in range(ty.count):
        out.append(ex.load0(st, ity, obj, off + k * w))
    return out

def fixcell(c, p, k):
    f = c.fix.get(p.name) if c.fix else None
    if not f: return None
    if len(p.ty.shape) == 2: k = divmod(k, p.ty.shape[1])
    return f.get(k)

class ApplyHook:
    """use of a callee contract at a call site"""
    def __init__(self, vf, c): self.vf = vf; self.c = c
    def apply(self, ex, st, args):
        c = self.c
        if c.requires or c.enum or len(args) != len(c.params): return None
        views = []; regions = []
        for p, a in zip(c.params, args):
            if p.ty.ptr:
                if not isinstance(a, Ptr) or a.obj is None or not isinstance(a.off, int): return None
                o = a.obj
                if o.size is None or a.off < 0 or a.off + p.ty.size > o.size: return None
                al = 4 if c.unaligned and p.ty.kind != 'b' else p.ty.align(ex.m)
                if o.align % al or a.off % al: return None
                if p.mode != 'in' and o.ro: return None
                if o.kind == 'array': return None
                regions.append((p, o, a.off, p.ty.size))
            else: regions.append(None)
        for r in regions:
            if r is None or r[0].mode == 'in': continue
            for q in regions:
                if q is None or q is r or q[1] is not r[1]: continue
                if q[2] + q[3] <= r[2] or r[2] + r[3] <= q[2]: continue
                if q[0].mode != 'in': return None
                if q[2] != r[2] or not q[0].ty.compat(r[0].ty) or not c.may_alias(r[0], q[0]): return None
        for p, a in zip(c.params, args):
            if p.mode == 'out': continue
            if p.ty.ptr:
                try: cells = cells_of(st, ex, a.obj, p.ty, a.off)
                except Unsupported: return None
                if any(x is UNDEF or isinstance(x, (tuple, Ptr)) for x in cells): return None
                ns = [self.vf.tonode(x, p.ty.kind) for x in cells]
                if c.fix and any(fixcell(c, p, k) is not None and D.cval(x) != fixcell(c, p, k) for k, x in enumerate(ns)): return None
                views.append(p.ty.view(ns))
            else:
                if a is UNDEF or isinstance(a, (tuple, Ptr, PtrIte)): return None
                views.append(self.vf.tonode(a, p.ty.kind))
        if not self.vf.holds(c.name): return None
        outs = c.spec(views)
        i = 0; ret = None
        if c.ret:
            ret = outs[0][0]; i = 1
            if ret is UNSPEC: ret = UNDEF
            elif c.ret.kind == 'i': ret = D._unw(ret)
        for (p, a) in [(p, a) for p, a in zip(c.params, args) if p.mode != 'in']:
            w = 1 if p.ty.kind == 'b' else 4
            for k, v in enumerate(outs[i]):
                if v is UNSPEC: v = UNDEF
                elif p.ty.kind == 'i': v = D._unw(v)
                elif p.ty.kind == 'b': v = D.iext(v, 1, 8, False)
                ex.put(st, a.obj, a.off + k * w, w, v)
            i += 1
        ex.ok('callee-precondition')
        for (p, a) in zip(c.params, args):
            if p.ty.ptr: ex.ok('frame' if p.mode != 'in' else 'memory-bounds')
        return (ret,)

class Verifier:
    """all functions of one configuration; contracts by name"""
    def __init__(self, mod, cfgname, contracts, quick=True, modular=True):
        self.m = mod; self.cfg = cfgname; self.contracts = contracts
        self.memo = {}; self.active = set()
        self.modular = modular
        self.hooks = {}
        self.quick = quick; self.refute = True; self.quick_only = False; self.vacuity = False; self.sideonly = False; self.fnlimit = 240
        self.bounds = {}

    def tonode(self, x, kind):
        if isinstance(x, Node):
            if kind == 'f' and x.sort == 'i32': return D.bitsf(x)
            if kind == 'i' and x.sort == 'f': return D._w(D.fbits(x), 32)
            if kind == 'b' and x.sort == 'i8': return D.itrunc(x, 1)
            return x
        if kind == 'f': return D.bitsf(x)
        if kind == 'i': return D.ic(x, 32)
        if kind == 'b': return TRUE if x & 1 else FALSE

    def hook(self, name):
        c = self.contracts.get(name)
        if c is None or name in self.active or not self.modular: return None
        h = self.hooks.get(name)
        if h is None: h = self.hooks[name] = ApplyHook(self, c)
        return h

    def holds(self, name):
        """does the callee satisfy its own contract in this configuration?"""
        return self.verify(name).ok()

    # ------------------------------------------------------------------
    def setup(self, c, alias, fixed={}):
        """symbolic pre-state. alias: out param name -> tuple of input names sharing its storage"""
        ex = Exec(self.m, self.hook)
        st = State()
        objs = {}; args = []; inviews = {}; vars_ = []
        rep = {}
        for o, ins in alias.items():
            for i in ins: rep[i] = ins[0]
            rep[o] = ins[0]
        fixes = {}
        for p in c.params:
            if c.fix and p.mode != 'out':
                for k in range(p.ty.count):
                    fx = fixcell(c, p, k)
                    if fx is not None: fixes.setdefault((rep.get(p.name, p.name), k), fx)
        for p in c.params:
            if not p.ty.ptr:
                if p.ty.kind == 'f': v = D.var(p.name)
                elif p.name in fixed:
                    args.append(fixed[p.name] & 0xffffffff); inviews[p.name] = D.ic(fixed[p.name], 32); continue
                elif p.ty.kind == 'i': v = D.var(p.name, 'i32')
                else: v = D.var(p.name, 'b')
                vars_.append(v); args.append(v); inviews[p.name] = v
                continue
            key = rep.get(p.name, p.name)
            if key in objs:
                obj, cells = objs[key]
                if p.mode != 'in': obj.ro = False
            else:
                obj = ex.new_obj(st, key, p.ty.size, p.ty.align(self.m), ro=(p.mode == 'in'), kind='param')
                if c.unaligned: obj.align = 4; obj.loose = True
                cells = []
                for k in range(p.ty.count):
                    nm = '%s.%d' % (key, k) + ('' if p.mode != 'out' else "'old")
                    fx = fixes.get((key, k))
                    if fx is not None: v = D.const(fx)
                    elif p.ty.kind == 'f': v = D.var(nm)
                    elif p.ty.kind == 'i': v = D.var(nm, 'i32')
                    else: v = D.var(nm, 'b')
                    if v.op == 'var': vars_.append(v)
                    cells.append(v)
                    w = 1 if p.ty.kind == 'b' else 4
                    st.mem[obj.id][k * w] = (w, v if p.ty.kind != 'b' else D.iext(v, 1, 8, False))
                objs[key] = (obj, cells)
            if p.mode != 'in': obj.ro = False
            args.append(Ptr(obj, 0))
            if p.mode != 'out': inviews[p.name] = p.ty.view(cells)
        views = [inviews[p.name] for p in c.params if p.mode != 'out']
        return ex, st, objs, args, views, vars_, rep

    def aliases(self, c):
        out = [{}]
        for o in c.outs:
            ins = [p for p in c.params if p.mode == 'in' and p.ty.ptr and p.ty.compat(o.ty) and c.may_alias(o, p)]
            for p in ins: out.append({o.name: (p.name,)})
            if len(ins) > 1: out.append({o.name: tuple(p.name for p in ins)})
        return out

    def execute(self, c, alias, fixed={}):
        ex, st, objs, args, views, vars_, rep = self.setup(c, alias, fixed)
        if c.unroll: ex.loop_limit = c.unroll
        ret = ex.call_function(st, c.symbol, args)
        outs = []
        if c.ret:
            outs.append([ret])
        for p in c.outs:
            obj = objs[rep.get(p.name, p.name)][0]
            outs.append(cells_of(st, ex, obj, p.ty))
        nodes = []
        for (nm, ty), cells in zip(c.outputs(), outs):
            nodes.append([x if x is UNDEF or isinstance(x, (tuple, Ptr)) else self.tonode(x, ty.kind) for x in cells])
        return ex, nodes, views, vars_

    def verify(self, name):
        r = self.memo.get(name)
        if r is not None: return r
        c = self.contracts[name]
        self.active.add(name)
        t0 = time.time()
        res = FnResult(name, self.cfg)
        res.deadline = t0 + self.fnlimit; res.t_retry = 0.0
        oldcfg = CTX.cfg; CTX.cfg = self.cfg
        try:
            self.verify1(c, res)
        except (Unsupported, LoopBound, IRError, KeyError, NotImplementedError, AttributeError, TypeError, ValueError, IndexError, RecursionError) as e:
            res.error = '%s: %s' % (type(e).__name__, e)
            res.trace = traceback.format_exc()
        finally:
            CTX.cfg = oldcfg
            self.active.discard(name)
        res.time = time.time() - t0
        self.memo[name] = res
        return res

    def prover(self, c, views, res=None):
        req = []
        if c.requires: req = [q for q in c.requires(*views)]
        rules = None
        if c.rules: rules = c.rules(*views) if callable(c.rules) else c.rules
        mk = lambda q: Prover(rules, approx_exact=c.approx, requires=q, smt_timeout=c.smt or (4000 if self.quick else 20000), rationalize=c.rationalize)
        pr = mk(req)
        if c.lemmas:
            facts = []
            for i, f in enumerate(c.lemmas(*views)):
                r = pr.implied([], f)
                if res is not None: res.obs.append(Ob(c.name, 'lemma', 'auxiliary fact %d' % i, r.status, r.backend, note=r.note, code=f))
                if r.status == 'proved': facts.append(f)
            pr = mk(req + facts)
        pr.sweepfirst = c.sweep; pr.bits = c.bits
        return pr

    def verify1(self, c, res):
        if not self.m.has(c.symbol):
            raise IRError('no definition of %s in this configuration' % c.symbol)
        import itertools
        combos = [{}]
        if c.enum:
            ks = list(c.enum); combos = [dict(zip(ks, v)) for v in itertools.product(*[c.enum[k] for k in ks])]
        for fixed in combos: self.verify_case(c, res, fixed)

    def verify_case(self, c, res, fixed):
        base = None
        for alias in self.aliases(c):
            tag = ','.join('%s=%s' % (o, '='.join(i)) for o, i in alias.items())
            tag = ','.join([tag] * bool(tag) + ['%s=%d' % kv for kv in fixed.items()])
            ex, code, views, vars_ = self.execute(c, alias, fixed)
            spec = c.spec(views)
            pr = self.prover(c, views, res if not alias else None)
            for k, n in ex.discharged.items(): res.counts[k] = res.counts.get(k, 0) + n
            for u in ex.used_contracts:
                if u not in res.contracts_used: res.contracts_used.append(u)
            for u in sorted(ex.inlined):
                if u not in res.inlined: res.inlined.append(u)
            for u in sorted(ex.approx):
                if u not in res.approx: res.approx.append(u)
            flatc = [x for cc in code for x in cc]; flats = [x for ss in spec for x in ss]
            refuted = quick_refute(c, views, vars_, flatc, flats) if self.refute and not self.sideonly else ()
            nf0 = len(res.obs)
            # side obligations that need a proof
            for o in ex.obs:
                r = pr.implied(o.pc, o.cond) if o.cond is not FALSE or o.pc else Result('failed', note='unconditionally violated')
                if o.cond is FALSE and o.pc: r = pr.implied(o.pc, FALSE)
                res.obs.append(Ob(c.name, o.kind, o.msg + ('' if not tag else ' [%s]' % tag), r.status, r.backend, note=r.note, alias=alias, model=r.model, code=o.cond, pc=o.pc))
            # postcondition, cell by cell
            i = -1
            k0 = len(res.obs)
            for (nm, ty), cc, ss in zip(c.outputs(), code, spec):
                for k, (x, s) in enumerate(zip(cc, ss)):
                    i += 1
                    if s is UNSPEC: continue
                    label = '%s[%d]' % (nm, k) if ty.count > 1 else nm
                    if tag: label += ' when ' + tag
                    if x is UNDEF or isinstance(x, (tuple, Ptr)):
                        res.obs.append(Ob(c.name, 'postcondition', label, 'failed', 'executor', note='value is indeterminate', alias=alias, cell=i, spec=s)); continue
                    if self.sideonly: res.counts['initialised'] = res.counts.get('initialised', 0) + 1; continue
                    if base is not None and x is base[i] and s is bspec[i]:
                        r = bres[i]
                        if r.status == 'proved': r = Result('proved', 'same-term-as-unaliased')
                    elif i in refuted: r = Result('failed', 'evaluation', note='refuted at a sampled input')
                    elif time.time() > res.deadline: r = Result('unknown', note='time limit for this function')
                    else:
                        r = pr.equal(x, s)
                        if r.status == 'unknown' and not self.quick_only and res.t_retry < 60 and self.load_related(r):
                            t1 = time.time(); r = self.retry(c, views, x, s) or r; res.t_retry += time.time() - t1
                    res.cases += r.cases
                    res.obs.append(Ob(c.name, 'postcondition', label, r.status, r.backend, r.cases, r.note, alias, x, s, r.model, i))
            if any(o.status != 'proved' for o in res.obs[nf0:]):
                res.ctx.append(dict(alias=alias, fixed=fixed, tag=tag, code=flatc, spec=flats, views=views, vars=vars_, obs=[o for o in res.obs[nf0:] if o.status != 'proved']))
            elif base is None and self.vacuity: self.perturb(c, pr, flatc, flats, res)
            if base is None:
                base = flatc; bspec = [s for ss in spec for s in ss]
                bres = {} if self.sideonly else {o.cell: Result(o.status, o.backend, note=o.note, model=o.model) for o in res.obs[k0:] if o.kind == 'postcondition'}
            res.t_smt += pr.t_smt; res.smt_calls += pr.smt_calls

    def load_related(self, r):
        return any(w in (r.note or '') for w in ('limit', 'unknown', 'undecided')) or not r.note
    def retry(self, c, views, x, s):
        """once more with much larger limits (a slow machine must not change the verdict)"""
        q, self.quick = self.quick, False
        try:
            pr = self.prover(c, views); pr.budget = 120; pr.max_leaves = 3000
            r = pr.equal(x, s)
            return r if r.status == 'proved' else None
        finally: self.quick = q

    def perturb(self, c, pr, code, spec, res):
        """vacuity guard: a deliberately wrong postcondition must not be provable"""
        for x, s in zip(code, spec):
            if s is UNSPEC or not isinstance(x, Node): continue
            if s.sort == 'f': ws = [D.fadd(s, D.const(1)), D.fmul(s, D.const(2))]
            elif s.sort == 'b': ws = [D.bnot(s)]
            else: ws = [D._w(D.iop('add', D._unw(s), 1, 32), 32)]
            bad = True
            try:
                for w in ws:
                    if c.bits: bad &= pr.equal_fp(x, w).status == 'proved'
                    elif s.sort[0] == 'i': bad &= pr.equal_int(x, w).status == 'proved'
                    elif s.sort == 'b':
                        N = pr.N; bad &= N.bkey(x) == N.bkey(w)
                    else:
                        N = pr.N; bad &= N.eq(N.nf(x), N.nf(w))
            except (norm.TooBig, norm.Rebase): continue
            res.vac = not bad
            if bad: res.error = 'vacuous: a wrong postcondition was accepted'
            return
