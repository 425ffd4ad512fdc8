"""Numerical evaluation of expression DAGs: float64 vectors (search) and
60-digit reals (confirmation)."""
import numpy as np, math
from fractions import Fraction
from . import dag as D
from .dag import Node, TRUE, FALSE

def topo_all(roots): return D.topo(*roots)

def eval_np(roots, env, n):
    """env: var name -> numpy array (float64 or int64). returns list of arrays"""
    val = {}
    with np.errstate(all='ignore'):
        for nd in topo_all(roots):
            val[nd.id] = ev1(nd, val, env, n)
        return [np.broadcast_to(np.asarray(val[r.id]), (n,)) for r in roots]

def sgn(x, w):
    m = 1 << w
    x = x & (m - 1)
    return np.where(x >= (m >> 1), x - m, x)

F1 = {'sqrt': np.sqrt, 'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'asin': np.arcsin, 'acos': np.arccos, 'atan': np.arctan,
      'exp': np.exp, 'exp2': np.exp2, 'log': np.log, 'log2': np.log2, 'log10': np.log10, 'cbrt': np.cbrt, 'floor': np.floor, 'ceil': np.ceil,
      'trunc': np.trunc, 'rint': np.rint, 'sinh': np.sinh, 'cosh': np.cosh, 'tanh': np.tanh,
      'round': lambda x: np.trunc(x + np.copysign(0.5, x)), 'rcp': lambda x: round12(1 / x), 'rcp8': lambda x: round12(1 / x, 256), 'rcp16': lambda x: round12(1 / x, 65536), 'rsqrt': lambda x: round12(1 / np.sqrt(x))}
F2 = {'pow': np.power, 'atan2': np.arctan2, 'fmod': np.fmod, 'hypot': np.hypot}

def round12(x, k=4096):
    m, e = np.frexp(x)
    return np.ldexp(np.round(m * k) / k, e)

def ev1(nd, val, env, n):
    o = nd.op; A = nd.args
    V = lambda i: val[A[i].id]
    if o == 'c': return np.float64(float(A[0]))
    if o == 'var':
        return env[A[0]]
    if o == 'fsp': return {'inf': np.float64('inf'), '-inf': -np.float64('inf'), 'nan': np.float64('nan'), '-0': np.float64(-0.0)}[A[0]]
    if o == 'add': return V(0) + V(1)
    if o == 'sub': return V(0) - V(1)
    if o == 'mul': return V(0) * V(1)
    if o == 'div': return V(0) / np.asarray(V(1), dtype=np.float64)
    if o == 'neg': return -V(0)
    if o == 'abs': return np.abs(V(0))
    if o == 'fn':
        f = F1.get(A[0])
        if f is not None: return f(np.asarray(V(1), dtype=np.float64))
        return F2[A[0]](np.asarray(V(1), dtype=np.float64), V(2))
    if o == 'ite': return np.where(V(0), V(1), V(2))
    if o == 'true': return np.bool_(True)
    if o == 'false': return np.bool_(False)
    if o == 'not': return np.logical_not(V(0))
    if o == 'and':
        r = V(0)
        for i in range(1, len(A)): r = np.logical_and(r, V(i))
        return r
    if o == 'fcmp':
        x, y = val[A[1].id], val[A[2].id]
        p = A[0]
        r = {'eq': np.equal, 'lt': np.less, 'le': np.less_equal}[p[1:]](x, y)
        if p[0] == 'u': r = np.logical_or(r, np.logical_or(np.isnan(x), np.isnan(y)))
        return r
    if o == 'isnan': return np.isnan(V(0))
    if o == 'isinf': return np.isinf(V(0))
    if o == 'ic': return np.int64(D.isig(A[0], D.width(nd)))
    if o == 'icmp':
        x, y = val[A[1].id], val[A[2].id]; w = D.width(A[1])
        if A[0] == 'eq': return sgn(np.asarray(x), w) == sgn(np.asarray(y), w)
        if A[0] == 'slt': return sgn(np.asarray(x), w) < sgn(np.asarray(y), w)
        if w >= 64: return np.asarray(x, dtype=np.int64).view(np.uint64) < np.asarray(y, dtype=np.int64).view(np.uint64)
        m = (1 << w) - 1
        return (np.asarray(x) & m) < (np.asarray(y) & m)
    if o in ('i2f', 'u2f'):
        w = D.width(A[0]); x = sgn(np.asarray(V(0)), w)
        if o == 'u2f': x = np.where(x < 0, x + (1 << w), x)
        return x.astype(np.float64)
    if o in ('f2i', 'f2u'):
        x = np.trunc(np.asarray(V(0), dtype=np.float64))
        return np.where(np.abs(x) < 2**62, x, 0).astype(np.int64)
    if o in ('sext', 'trunc'): return sgn(np.asarray(V(0)), D.width(nd) if o == 'trunc' else D.width(A[0]))
    if o == 'zext': return np.asarray(V(0)) & ((1 << D.width(A[0])) - 1)
    if o == 'fbits': return np.asarray(V(0), dtype=np.float32).view(np.int32).astype(np.int64)
    if o == 'bitsf':
        x = sgn(np.asarray(V(0)), 32).astype(np.int32); return x.view(np.float32).astype(np.float64)
    if o[0] == 'i':
        w = D.width(nd); m = (1 << min(w, 63)) - 1
        x, y = sgn(np.asarray(V(0)), w) if w < 64 else np.asarray(V(0)), sgn(np.asarray(V(1)), w) if w < 64 else np.asarray(V(1))
        k = o[1:]
        if k in ('add', 'sub', 'mul'):
            r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y}[k]()
        elif k in ('and', 'or', 'xor'): r = {'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y}[k]()
        elif k == 'shl': r = x << np.clip(y, 0, 62)
        elif k == 'ashr': r = x >> np.clip(y, 0, 62)
        elif k == 'lshr': r = (x & ((1 << w) - 1)) >> np.clip(y, 0, 62)
        elif k in ('sdiv', 'srem'):
            yy = np.where(y == 0, 1, y); q = np.abs(x) // np.abs(yy) * np.sign(x) * np.sign(yy)
            r = q if k == 'sdiv' else x - q * yy
        else: raise NotImplementedError(o)
        return sgn(r, w) if w < 64 else r
    raise NotImplementedError(o)

# ---- exact-ish evaluation ---------------------------------------------------
import mpmath
MP = mpmath.mp.clone() if hasattr(mpmath.mp, 'clone') else mpmath.mp
MP.dps = 50
_nan = MP.mpf('nan'); _inf = MP.inf

def eval_mp(roots, env):
    """env: var name -> python float/int.  floats are mpf, ints are ints, bools bools"""
    val = {}
    mp = MP
    for nd in topo_all(roots):
        o = nd.op; A = nd.args
        V = lambda i: val[A[i].id]
        try:
            if o == 'c': r = mp.mpf(A[0].numerator) / A[0].denominator
            elif o == 'var':
                r = env[A[0]]
                if nd.sort == 'f' and not isinstance(r, mp.mpf): r = mp.mpf(float(r))
            elif o == 'fsp': r = {'inf': _inf, '-inf': -_inf, 'nan': _nan, '-0': mp.mpf(0)}[A[0]]
            elif o == 'add': r = V(0) + V(1)
            elif o == 'sub': r = V(0) - V(1)
            elif o == 'mul': r = V(0) * V(1)
            elif o == 'div':
                b = V(1)
                r = V(0) / b if b != 0 else (_nan if V(0) == 0 or mp.isnan(V(0)) else (_inf if V(0) > 0 else -_inf))
            elif o == 'neg': r = -V(0)
            elif o == 'abs': r = abs(V(0))
            elif o == 'fn': r = mpfn(A[0], [val[a.id] for a in A[1:]])
            elif o == 'ite': r = V(1) if V(0) else V(2)
            elif o == 'true': r = True
            elif o == 'false': r = False
            elif o == 'not': r = not V(0)
            elif o == 'and': r = all(val[a.id] for a in A)
            elif o == 'fcmp':
                x, y = val[A[1].id], val[A[2].id]
                if mp.isnan(x) or mp.isnan(y): r = A[0][0] == 'u'
                else: r = {'eq': x == y, 'lt': x < y, 'le': x <= y}[A[0][1:]]
            elif o == 'isnan': r = bool(mp.isnan(V(0)))
            elif o == 'isinf': r = bool(mp.isinf(V(0)))
            elif o == 'ic': r = D.isig(A[0], D.width(nd))
            elif o in ('i2f', 'u2f'):
                w = D.width(A[0]); v = int(V(0))
                r = mp.mpf(D.isig(v, w) if o == 'i2f' else v & ((1 << w) - 1))
            else:
                e2 = np.asarray
                sub = {a.id: np.asarray([float(val[a.id]) if a.sort == 'f' else val[a.id]]) for a in A if isinstance(a, Node)}
                x = ev1(nd, sub, env, 1)
                r = np.asarray(x).reshape(-1)[0]
                r = mp.mpf(float(r)) if nd.sort == 'f' else (bool(r) if nd.sort == 'b' else int(r))
        except (ZeroDivisionError, ValueError, OverflowError):
            r = _nan
        val[nd.id] = r
    return [val[r.id] for r in roots]

def mpfn(name, xs):
    mp = MP; x = xs[0]
    if mp.isnan(x) or any(mp.isnan(v) for v in xs): return _nan
    if name == 'sqrt': return mp.sqrt(x) if x >= 0 else _nan
    if name in ('asin', 'acos'):
        return getattr(mp, name)(x) if -1 <= x <= 1 else _nan
    if name in ('sin', 'cos', 'tan'):
        if mp.isinf(x): return _nan
        return getattr(mp, name)(x)
    if name in ('atan', 'exp', 'sinh', 'cosh', 'tanh'): return getattr(mp, name)(x)
    if name == 'exp2': return mp.mpf(2) ** x
    if name in ('log', 'log2', 'log10'):
        if x <= 0: return -_inf if x == 0 else _nan
        return mp.log(x) / {'log': 1, 'log2': mp.log(2), 'log10': mp.log(10)}[name]
    if name == 'cbrt': return mp.cbrt(abs(x)) * (1 if x >= 0 else -1)
    if name in ('floor', 'ceil'): return getattr(mp, name)(x)
    if name == 'trunc': return mp.floor(x) if x >= 0 else mp.ceil(x)
    if name == 'round': return mp.floor(abs(x) + mp.mpf(1) / 2) * (1 if x >= 0 else -1)
    if name == 'rint': return mp.mpf(float(np.rint(float(x))))
    if name == 'rcp': return _nan if x == 0 else mp.mpf(float(round12(float(1 / x))))
    if name in ('rcp8', 'rcp16'): return _nan if x == 0 else mp.mpf(float(round12(float(1 / x), 256 if name == 'rcp8' else 65536)))
    if name == 'rsqrt': return _nan if x <= 0 else mp.mpf(float(round12(float(1 / mp.sqrt(x)))))
    if name == 'pow':
        if x < 0 and xs[1] != int(xs[1]): return _nan
        if x == 0: return mp.mpf(1) if xs[1] == 0 else (mp.mpf(0) if xs[1] > 0 else _inf)
        return x ** xs[1]
    if name == 'atan2': return mp.atan2(x, xs[1])
    if name == 'fmod':
        if xs[1] == 0: return _nan
        return mp.fmod(abs(x), abs(xs[1])) * (1 if x >= 0 else -1)
    if name == 'hypot': return mp.hypot(x, xs[1])
    raise NotImplementedError(name)

# ---- samples ------------------------------------------------------------------
def f32(x):
    with np.errstate(all='ignore'): return np.asarray(x, dtype=np.float32).astype(np.float64)

def samples(varlist, n, rng, groups=None):
    """varlist: [(name, sort)] -> env of arrays, all values float32-representable"""
    env = {}
    k = len(varlist)
    mode = rng.integers(0, 10, size=n)
    base = rng.standard_normal((n, k))
    uni = rng.uniform(-1, 1, (n, k))
    ints = rng.integers(-3, 4, (n, k)).astype(float)
    zo = rng.integers(-1, 2, (n, k)).astype(float)
    sparse = np.where(rng.random((n, k)) < 0.5, 0.0, ints)
    scale = 10.0 ** rng.uniform(-7, 4, (n, 1))
    pos = np.abs(base) + 0.1
    M = np.where((mode == 0)[:, None], base, 0.0)
    M += np.where((mode == 1)[:, None], base * 3, 0)
    M += np.where((mode == 2)[:, None], uni, 0)
    M += np.where((mode == 3)[:, None], ints, 0)
    M += np.where((mode == 4)[:, None], zo, 0)
    M += np.where((mode == 5)[:, None], sparse, 0)
    M += np.where((mode == 6)[:, None], base * scale, 0)
    M += np.where((mode == 7)[:, None], pos, 0)
    M += np.where((mode == 8)[:, None], np.where(rng.random((n, k)) < 0.3, zo, base), 0)
    M += np.where((mode == 9)[:, None], base * 10.0 ** rng.uniform(-7, 3, (n, k)), 0)
    if n: M[0] = 0; 
    if n > 1: M[1] = 1
    # equal pairs now and then
    if k > 1:
        rows = rng.random(n) < 0.08
        i, j = rng.integers(0, k, n), rng.integers(0, k, n)
        idx = np.nonzero(rows)[0]
        M[idx, i[idx]] = M[idx, j[idx]]
    M = f32(M)
    rowsel = rng.integers(0, 4, n)
    for c, (nm, sort) in enumerate(varlist):
        if sort == 'f': env[nm] = M[:, c].copy()
        elif sort == 'b': env[nm] = rng.random(n) < 0.5
        else:
            w = int(sort[1:])
            big = rng.integers(-(1 << (min(w, 32) - 1)), 1 << (min(w, 32) - 1), n)
            small = rng.integers(-8, 9, n)
            edge = np.array([0, 1, -1, (1 << 31) - 1, -(1 << 31), 2, 255, 65536])[rng.integers(0, 8, n)]
            tiny = rng.integers(0, 4, n)
            sel = np.where(rowsel < 2, rng.integers(0, 4, n), np.where(rowsel == 2, 1, 3))
            env[nm] = np.where(sel == 0, big, np.where(sel == 1, small, np.where(sel == 2, edge, tiny))).astype(np.int64)
    return env
