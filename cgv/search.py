"""Search for an input on which a failed obligation is really violated:
float64 sampling (plus the solver's model), confirmation with 50-digit reals."""
import numpy as np
from . import dag as D
from .dag import Node
from . import numeric
from .exe import UNDEF, Ptr
from .contract import UNSPEC

TOL = 1e-4

def unitsof(c, views):
    if c is None or not c.rules: return ()
    r = c.rules(*views) if callable(c.rules) else c.rules
    return getattr(r, 'units', ())

def mpenv(e, units=()):
    e = {k: (numeric.MP.mpf(float(v)) if isinstance(v, (float, np.floating)) else bool(v) if isinstance(v, (bool, np.bool_)) else int(v)) for k, v in e.items()}
    for u in units:
        q = numeric.MP.sqrt(sum(e[x] ** 2 for x in u if x in e))
        if q:
            for x in u: e[x] = e[x] / q
    return e

def proportional(env, names, n, rng, prop):
    """some rows with a vector parameter that is a multiple of another one"""
    g = {}
    for nm, sort in names:
        if sort == 'f' and '.' in nm: g.setdefault(nm.rsplit('.', 1)[0], []).append(nm)
    ks = [k for k in g if len(g[k]) <= 4]
    for k in ks:
        others = [q for q in ks if q != k and len(g[q]) == len(g[k])]
        if not others: continue
        m = rng.random(n) < prop
        f = np.where(rng.random(n) < 0.3, np.where(rng.random(n) < 0.5, 1.0, -1.0), rng.standard_normal(n))
        o = others[int(rng.integers(0, len(others)))]
        for x, y in zip(g[k], g[o]): env[x] = np.where(m, numeric.f32(env[y] * f), env[x])

def draw(c, views, vars_, n, rng, models=(), prop=0.04):
    """sample environments satisfying the contract's precondition"""
    names = [(v.args[0], v.sort) for v in vars_]
    env = numeric.samples(names, n, rng)
    if c is not None and c.bits:
        sp = np.array([np.nan, np.inf, -np.inf, 0.0, -0.0, 1e-40, 3e38, -1.0])
        for nm, sort in names:
            if sort == 'f': env[nm] = np.where(rng.random(n) < 0.25, sp[rng.integers(0, 8, n)], env[nm])
    proportional(env, names, n, rng, prop)
    k = 0
    for m in models:
        if not m: continue
        for rep in range(40):
            if k >= n: break
            for nm, sort in names:
                if nm not in m: continue
                x = m[nm]
                if rep and sort == 'f' and rep % 4 == 3: x = x * (1 + 0.01 * rng.standard_normal())
                if sort == 'f':
                    env[nm][k] = float(np.float32(x))
                elif sort == 'b': env[nm][k] = bool(x)
                else: env[nm][k] = D.isig(int(x), int(sort[1:]))
            k += 1
    for u in unitsof(c, views):
        u = [x for x in u if x in env]
        q = np.sqrt(sum(env[x] ** 2 for x in u)); q = np.where(q == 0, 1, q)
        zero = sum(np.abs(env[x]) for x in u) == 0
        for i, x in enumerate(u):
            env[x] = numeric.f32(np.where(zero, 1.0 if i == 0 else 0.0, env[x] / q))
    if c is not None and c.gen: env = c.gen(env, rng) or env
    ok = np.ones(n, bool)
    if c is not None and (c.requires or c.domain):
        rq = list(c.requires(*views)) if c.requires else []
        if c.domain: rq += c.domain(*views)
        if rq:
            for v in numeric.eval_np(rq, env, n): ok &= np.asarray(v, bool)
    return env, ok

def snap(code, spec):
    """constants of the code that equal a constant of the contract up to
    single-precision rounding are read as that constant (see DESIGN: machine
    arithmetic is treated as real arithmetic)"""
    cn = [x for x in code if isinstance(x, Node)]; sn = [s for s in spec if isinstance(s, Node)]
    sc = [n for n in D.topo(*sn) if n.op == 'c']
    known = {n.id for n in sc}
    sc = sorted((n for n in sc if n.args[0] != 0), key=lambda n: n.args[0])
    import bisect
    keys = [n.args[0] for n in sc]
    m = {}
    for n in D.topo(*cn):
        if n.op != 'c' or n.id in known or n.args[0] == 0: continue
        v = n.args[0]; i = bisect.bisect(keys, v)
        best = None
        for j in (i - 1, i):
            if 0 <= j < len(keys) and abs(keys[j] - v) <= abs(v) * 3 / 10**6:
                if best is None or abs(keys[j] - v) < abs(best.args[0] - v): best = sc[j]
        if best is not None: m[n.id] = best
    if not m: return code
    return [D.subst(x, m) if isinstance(x, Node) else x for x in code]

def usable(x, s):
    return isinstance(x, Node) and isinstance(s, Node) and s is not UNSPEC

def deviations(code, spec, env, ok, n):
    """rows x cells where code and specification differ noticeably (float64)"""
    idx = [i for i, (x, s) in enumerate(zip(code, spec)) if usable(x, s)]
    if not idx: return idx, None, None, None
    roots = [code[i] for i in idx] + [spec[i] for i in idx]
    vals = numeric.eval_np(roots, env, n)
    k = len(idx)
    C = np.array([np.asarray(v, dtype=np.float64) for v in vals[:k]]); S = np.array([np.asarray(v, dtype=np.float64) for v in vals[k:]])
    with np.errstate(all='ignore'):
        gap = np.abs(C - S)
        scale = np.maximum(np.abs(C), np.abs(S))
        rel = np.where(gap == 0, 0.0, gap / np.where(scale == 0, 1, scale))
        rel = np.where(np.isnan(S) | np.isinf(S), 0.0, np.where(np.isnan(C) | np.isinf(C), 2.0, rel))
        rel = np.where(ok[None, :], rel, 0.0)
        # ignore differences that are float64 cancellation noise
        big = np.maximum(1.0, np.max(np.where(np.isfinite(C), np.abs(C), 0), axis=0))
        for i, q in enumerate(idx):
            if code[q].sort == 'f': rel[i] = np.where((gap[i] < 1e-11 * big) & np.isfinite(C[i]), 0.0, rel[i])
    return idx, rel, C, S

def quick_refute(c, views, vars_, code, spec, seed=1, n=160):
    """set of cells with an obvious deviation"""
    try:
        code = snap(code, spec); units = unitsof(c, views)
        env, ok = draw(c, views, vars_, n, np.random.default_rng(seed))
        idx, rel, C, S = deviations(code, spec, env, ok, n)
    except (NotImplementedError, KeyError, ValueError, TypeError, OverflowError): return set()
    if rel is None: return set()
    out = set()
    for i, q in enumerate(idx):
        bad = np.nonzero(rel[i] > 1e-3)[0]
        for r in bad[:6]:
            e = {k: v[r] for k, v in env.items()}
            if confirm(code[q], spec[q], e, units): out.add(q); break
    return out

def confirm(code, spec, e, units=()):
    """high-precision comparison at one input"""
    try: x, s = numeric.eval_mp([code, spec], mpenv(e, units))
    except (NotImplementedError, KeyError, TypeError, OverflowError, ValueError): return None
    return gapof(x, s, code.sort)

def gapof(x, s, sort):
    mp = numeric.MP
    if sort != 'f': return (x, s) if x != s else None
    if not mp.isfinite(s): return None
    if not mp.isfinite(x): return (x, s)
    sc = max(abs(x), abs(s))
    if abs(x - s) > TOL * sc and abs(x - s) > 1e-12: return (x, s)
    return None

def candidates(c, views, vars_, code, spec, cells, models, seed, n=6000, limit=24):
    """confirmed counterexamples [(env, cell, code value, spec value)] best first"""
    out = []
    code = snap(code, spec); units = unitsof(c, views)
    for rnd in range(3):
        rng = np.random.default_rng(seed * 7919 + rnd)
        try:
            env, ok = draw(c, views, vars_, n, rng, models if rnd == 0 else ())
            idx, rel, C, S = deviations(code, spec, env, ok, n)
        except (NotImplementedError, KeyError, ValueError, TypeError, OverflowError): return out
        if rel is None: return out
        picks = []
        for i, q in enumerate(idx):
            if cells is not None and q not in cells: continue
            r = rel[i]
            rows = np.nonzero(r > TOL)[0]
            if not len(rows): continue
            # prefer large relative gaps at moderate magnitudes
            mag = np.abs(np.log10(np.abs(S[i][rows]) + 1e-30))
            sc = np.minimum(r[rows], 1.0) - 0.05 * mag
            order = rows[np.argsort(-sc)]
            picks += [(q, r0) for r0 in order[:limit]]
        for q, r0 in picks:
            e = {k: v[r0] for k, v in env.items()}
            g = confirm(code[q], spec[q], e, units)
            if g: out.append((e, q, g[0], g[1]))
            if len(out) >= limit: return out
        if out: return out
    return out
