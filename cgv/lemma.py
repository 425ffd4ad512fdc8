"""Lemmas: statements of a property derived from the function contracts (never from the bodies)."""
import time, traceback
from collections import Counter
import numpy as np
from . import dag as D, numeric, search
from .dag import Node, TRUE, FALSE
from .contract import REG, CTX, Contract, UNSPEC
from .norm import NF
from .prove import Prover

class Use:
    """contract application inside a lemma; the callee's precondition becomes an obligation"""
    def __init__(s): s.pre = []; s.used = []
    def __call__(s, name, *views):
        c = REG.c[name]; s.used.append(name)
        if c.requires:
            for q in c.requires(*views): s.pre.append(('precondition of ' + name, q))
        return c.fn(*views)

def flat(x):
    if isinstance(x, (list, tuple)):
        out = []
        for y in x: out += flat(y)
        return out
    return [x if isinstance(x, Node) else D.fl(x)]

def goals(l, views, use):
    """-> [(label, lhs, rhs or None)]; rhs None: lhs is a condition implied by the hypotheses"""
    out = []
    for g in l.build(use, *views):
        nm = g[0]
        if len(g) == 2:
            q = g[1] if isinstance(g[1], (list, tuple)) else [g[1]]
            for k, c in enumerate(q): out.append(('%s%s' % (nm, '[%d]' % k if len(q) > 1 else ''), c, None))
        else:
            a, b = flat(g[1]), flat(g[2])
            if len(a) != len(b): raise ValueError('%s: %d/%d cells' % (nm, len(a), len(b)))
            for k, (x, y) in enumerate(zip(a, b)): out.append(('%s%s' % (nm, '[%d]' % k if len(a) > 1 else ''), x, y))
    return out + [(n, q, None) for n, q in use.pre]

def views_of(c):
    vs = []; vars_ = []
    for p in c.params:
        srt = {'f': 'f', 'i': 'i32', 'b': 'b'}[p.ty.kind]
        if p.ty.ptr:
            cells = [D.var('%s.%d' % (p.name, k), srt) for k in range(p.ty.count)]
            vars_ += cells; vs.append(p.ty.view(cells))
        else:
            v = D.var(p.name, srt); vars_.append(v); vs.append(v)
    return vs, vars_

def holds(views, vars_, c, gs, seed):
    """numeric check of the lemma at sampled inputs that satisfy its hypotheses: -> (samples, bad)"""
    env, ok = search.draw(c, views, vars_, 4000, np.random.default_rng(seed))
    for k in list(env):
        if env[k].dtype == np.float64: ok &= (np.abs(env[k]) < 100)
    rows = np.nonzero(ok)[0][:40]
    units = search.unitsof(c, views); bad = None; n = 0
    for r in rows:
        e = {k: v[r] for k, v in env.items()}
        me = search.mpenv(e, units)
        try:
            xs = numeric.eval_mp([g[1] for g in gs], me); ys = numeric.eval_mp([g[2] for g in gs if g[2] is not None], me)
        except Exception: continue
        n += 1; ys = iter(ys)
        for g, x in zip(gs, xs):
            if g[2] is None:
                if not x: bad = bad or (g[0], e, x, True)
                continue
            y = next(ys)
            if g[1].sort == 'f':
                if numeric.MP.isfinite(x) and numeric.MP.isfinite(y) and abs(x - y) > 1e-12 * max(1, abs(x), abs(y)): bad = bad or (g[0], e, x, y)
            elif x != y: bad = bad or (g[0], e, x, y)
    return n, bad

def prove_lemma(cfg, name, quick, seed):
    l = next(x for x in REG.lemmas if x.name == name)
    old = CTX.cfg; CTX.cfg = cfg; NF.trigsum = l.trigsum; t0 = time.time()
    try:
        c = Contract('%s(%s) -> bool' % (name, l.vars), None, l.prop, requires=l.requires, rules=l.rules, gen=l.gen, domain=l.domain)
        views, vars_ = views_of(c); use = Use()
        gs = goals(l, views, use)
        req = list(l.requires(*views)) if l.requires else []
        rules = l.rules(*views) if l.rules else None
        d = dict(fn='lemma ' + name, cfg=cfg, obs=len(gs), proved=0, time=0, t_smt=0, smt=0, cases=0, side={}, backends={}, kinds={}, used=[], inlined=[], approx=[], vac=None, fails=[], error=None)
        back = Counter()
        def mk():
            q = Prover(rules, approx_exact=True, requires=req, smt_timeout=l.smt or 8000, budget=l.budget, rationalize=l.rationalize)
            q.sweepfirst = l.sweep; return q
        pr = mk()
        for f in (l.facts(*views) if l.facts else ()):       # auxiliary facts: proved, then used
            d['obs'] += 1; r = pr.implied([], f)
            if r.status == 'proved': d['proved'] += 1; back[r.backend] += 1; req.append(f)
            else: d['fails'].append(dict(obligation='lemma %s: auxiliary fact' % name, kind='lemma', status='%s %s' % (r.status, r.note), finding=None))
        if l.facts: pr = mk()
        for lab, a, b in gs:
            r = pr.implied([], a) if b is None else pr.equal(a, b)
            if r.status != 'proved' and pr.smt_calls:              # again without the state left by earlier goals
                d['t_smt'] += pr.t_smt; d['smt'] += pr.smt_calls; pr = mk()
                r = pr.implied([], a) if b is None else pr.equal(a, b)
            d['cases'] += r.cases
            if r.status == 'proved': d['proved'] += 1; back[r.backend] += 1
            else: d['fails'].append(dict(obligation='lemma %s: %s' % (name, lab), kind='lemma', status='%s (%s) %s' % (r.status, r.backend, r.note), finding=None))
        d['backends'] = dict(back); d['kinds'] = dict(lemma=d['proved']); d['t_smt'] += pr.t_smt; d['smt'] += pr.smt_calls; d['used'] = use.used
        # vacuity: the hypotheses have a witness, and the lemma holds there numerically
        n, bad = holds(views, vars_, c, gs, seed)
        d['vac'] = n > 0
        if not n: d['error'] = 'vacuous: no sampled input satisfies the hypotheses'; d['broken'] = True
        if bad: d['fails'].append(dict(obligation='lemma %s: %s' % (name, bad[0]), kind='lemma', status='refuted at %s: %s vs %s' % (bad[1], bad[2], bad[3]), finding=None))
        d['time'] = time.time() - t0
        return d
    finally: CTX.cfg = old; NF.trigsum = False
