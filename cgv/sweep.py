"""Equivalence by matched cut points: sub-expressions of the two sides that
agree on random samples are proved equal bottom-up and replaced by a fresh
symbol, so each step is a small normal-form problem (sound: a cut is only used
after its two definitions were proved equal)."""
import numpy as np, time
from . import dag as D
from .dag import Node
from . import numeric

N = 48
DEBUG = False

def values(nodes, rng):
    names = [(n.args[0], n.sort) for n in nodes if n.op == 'var']
    env = {}
    for nm, sort in names:
        if sort == 'f': env[nm] = np.round(rng.standard_normal(N) * 3, 4)
        elif sort == 'b': env[nm] = rng.random(N) < 0.5
        else: env[nm] = rng.integers(-50, 50, N)
    val = {}
    with np.errstate(all='ignore'):
        for nd in nodes: val[nd.id] = numeric.ev1(nd, val, env, N)
    return val

def key(v):
    v = np.broadcast_to(np.asarray(v, dtype=np.float64), (N,))
    return v

def close(x, y):
    with np.errstate(all='ignore'):
        ok = np.isclose(x, y, rtol=3e-5, atol=1e-7) | (np.isnan(x) & np.isnan(y))
    return ok.mean() >= 0.9

def dsize(n, memo):
    s = memo.get(n.id)
    if s is None:
        s = memo[n.id] = min(10**6, 1 + sum(dsize(a, memo) for a in n.args if isinstance(a, Node)))
    return s

def sweep(prove, a, b, requires, deadline, minsize=6):
    """prove(x, y, requires) -> bool.  Returns (ok, cuts)"""
    try: val = values(D.topo(a, b, *requires), np.random.default_rng(7))
    except (NotImplementedError, KeyError): return False, 0
    ta, tb = D.topo(a), D.topo(b)
    ida = {n.id for n in ta}; idb = {n.id for n in tb}
    size = {}
    for n in ta + tb: dsize(n, size)
    def interesting(n): return n.sort == 'f' and n.op not in ('var', 'c', 'fsp', 'neg') and size[n.id] >= minsize
    # spec classes
    classes = []      # [values, spec nodes]
    index = {}
    def sig(v):
        x = v[:4]
        return tuple('%.2e' % q for q in x)
    for n in tb:
        if not interesting(n): continue
        v = key(val[n.id]); s = sig(v)
        for k in index.get(s, ()):
            if close(classes[k][0], v): classes[k][1].append(n); break
        else:
            index.setdefault(s, []).append(len(classes)); classes.append([v, [n], []])
    for n in ta:
        if not interesting(n): continue
        v = key(val[n.id])
        for k in index.get(sig(v), ()):
            if close(classes[k][0], v): classes[k][2].append(n); break
    shared = [c for c in classes if c[2]]
    of = {}
    for c in shared:
        for n in c[1] + c[2]: of[n.id] = c
    cutvar = {}; defs = {}       # id(class) -> var ; var name -> definition over lower cuts
    R = {}
    dead = set()
    def rew(n):
        if not n.args or n.op in ('var', 'c'): return n
        args = [R[x.id] if isinstance(x, Node) else x for x in n.args]
        return D.rebuild(n, args)
    def expand(n, k):
        for _ in range(k):
            m = {}
            for v in D.free_vars(n):
                if v.args[0] in defs: m[v.id] = defs[v.args[0]]
            if not m: break
            n = D.subst(n, m)
        return n
    reqs = list(requires)
    order = D.topo(b, *requires, a)
    for n in order:
        if time.time() > deadline: return False, len(defs)
        m = rew(n)
        c = of.get(n.id)
        if c is not None and id(c) not in dead:
            v = cutvar.get(id(c))
            if v is None:
                if n.id in idb:
                    v = D.var('cut!%d' % len(cutvar)); cutvar[id(c)] = v; defs[v.args[0]] = m
                    m = v
            else:
                d = defs[v.args[0]]
                if m is d or m is v: m = v
                else:
                    for k in (-1, 0, 1, 2):
                        x, y = (m, v) if k < 0 else (expand(m, k), expand(d, k))
                        if k < 0 and v not in D.topo(m): continue
                        if x is y or prove(x, y, [R.get(r.id, r) for r in requires]): m = v; break
                    else:
                        if DEBUG: print('NOMATCH', m, '|||', d)
        R[n.id] = m
    return R[a.id] is R[b.id], len(defs)
