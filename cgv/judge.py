"""What a failed obligation means: look for an input, replay it on the real code."""
import os, json, time, math
import numpy as np
from . import build, numeric, search, replay
from . import dag as D
from .dag import Node
from .exe import UNDEF
from .contract import UNSPEC, CTX

MP = numeric.MP

def fstr(x):
    if isinstance(x, (bool, np.bool_)): return str(bool(x))
    if isinstance(x, (int, np.integer)): return str(int(x))
    try: return MP.nstr(x, 12) if not isinstance(x, (float, np.floating)) else repr(float(x))
    except Exception: return str(x)

def celllabel(c, q):
    i = 0
    for nm, ty in c.outputs():
        if q < i + ty.count: return '%s[%d]' % (nm, q - i) if ty.count > 1 else nm
        i += ty.count
    return '?'

def agrees(real, code, spec, sort):
    """does the machine show the deviation code != spec?  (real close to code, far from spec)"""
    if sort != 'f': return bool(real == code and real != spec) if sort == 'b' else (int(real) & 0xffffffff) == (int(code) & 0xffffffff) != (int(spec) & 0xffffffff)
    s = float(spec)
    if not math.isfinite(s): return False
    if not math.isfinite(real): return not MP.isfinite(code) or abs(float(code)) > 1e37
    if not MP.isfinite(code): return abs(real - s) > 0.25 * max(abs(s), 1.0)
    c = float(code); gap = abs(c - s); sc = max(abs(c), abs(s))
    if abs(real - s) <= search.TOL * sc: return False
    return abs(real - c) <= 0.2 * gap

class Judge:
    def __init__(self, cfg, workdir, seed, api='inline', shims=''):
        self.cfg = cfg; self.workdir = workdir; self.seed = seed; self.api = api; self.shims = shims

    def post(self, c, ctx, deadline):
        """failed postconditions of one aliasing case -> finding dict or None"""
        cells = {o.cell for o in ctx['obs'] if o.kind == 'postcondition'}
        if not cells: return None
        models = [o.model for o in ctx['obs'] if o.model]
        code, spec = ctx['code'], ctx['spec']
        undef = [o for o in ctx['obs'] if o.kind == 'postcondition' and not isinstance(code[o.cell], Node)]
        CTX.cfg = self.cfg.name
        cand = search.candidates(c, ctx['views'], ctx['vars'], code, spec, cells, models, self.seed)
        if not cand and undef: return self.undefined(c, ctx, undef)
        if not cand: return self.rounding(c, ctx, cells)
        native = replay.runs(self.cfg)
        if native:
            try: outs, rc, cmd, cf, recs = replay.run(self.cfg, c, ctx['alias'], [e for e, *_ in cand], self.workdir, ctx['fixed'], shims=self.shims, api=self.api)
            except replay.ReplayError as ex:
                if self.cfg.run: return dict(kind='replay-error', note=str(ex), cand=cand[0])
                native = False
        if native:
            for i, (e, q, a, b) in enumerate(cand):
                if not outs or i >= len(outs):
                    if rc != 'timeout' and rc[0] not in (0,):
                        return self.finding(c, ctx, e, q, a, b, 'program ended with status %s' % (rc[0],), recs[i] if i < len(recs) else {}, cmd, cf, 'compiled code')
                    break
                real = outs[i][0][q]
                if agrees(real, a, b, code[q].sort): return self.finding(c, ctx, e, q, a, b, real, recs[i], cmd, cf, 'compiled code')
        else:
            for e, q, a, b in cand:
                try: real = replay.eval_f32([code[q]], e)[0]
                except Exception: continue
                real = bool(real) if code[q].sort == 'b' else int(real) if code[q].sort != 'f' else float(real)
                if agrees(real, a, b, code[q].sort):
                    data, recs = replay.pack(c, ctx['alias'], [e], ctx['fixed'])
                    return self.finding(c, ctx, e, q, a, b, real, recs[0], None, None, 'single-precision evaluation of the extracted %s code (no %s machine here)' % (self.cfg.name, self.cfg.name))
        f = self.rounding(c, ctx, cells)
        if f: return f
        e, q, a, b = cand[0]
        return dict(kind='real-only', cell=celllabel(c, q), code=fstr(a), spec=fstr(b), input={k: fstr(v) for k, v in e.items()})

    def finding(self, c, ctx, e, q, a, b, real, rec, cmd, cf, method):
        d = dict(kind='confirmed', function=c.name, config=self.cfg.name, api=self.api, cell=celllabel(c, q), alias={k: list(v) for k, v in ctx['alias'].items()}, fixed=ctx['fixed'],
                 input=rec, observed=fstr(real), required=fstr(b), extracted=fstr(a), method=method)
        if cf: d['program'] = open(cf).read(); d['compile'] = ' '.join(cmd)
        return d

    def rounding(self, c, ctx, cells):
        """no input separates code and contract as real functions: a guard against rounding may be gone.
        The compiled code against the contract, including proportional vectors"""
        if not replay.runs(self.cfg) or c.bits: return None
        try: st, info = self.against(c, ctx['alias'], ctx['fixed'], ctx['views'], ctx['vars'], ctx['spec'], 2500, cells, 0.25, 1.0)
        except Exception: return None
        return info if st == 'deviates' else None

    def undefined(self, c, ctx, undef):
        """an output cell is never written (or indeterminate): two runs with different garbage differ"""
        if not replay.runs(self.cfg): return None
        try:
            env, ok = search.draw(c, ctx['views'], ctx['vars'], 400, np.random.default_rng(self.seed))
            rows = np.nonzero(ok)[0][:60]
            es = []
            for r in rows:
                e = {k: v[r] for k, v in env.items()}; es.append(e)
            vals = []
            for r, e in zip(rows, es):
                vals.append([numeric.eval_mp([ctx['spec'][o.cell]], search.mpenv(e))[0] for o in undef])
            outs, rc, cmd, cf, recs = replay.run(self.cfg, c, ctx['alias'], es, self.workdir, ctx['fixed'], shims=self.shims, api=self.api)
        except (replay.ReplayError, NotImplementedError, KeyError): return None
        for i, e in enumerate(es):
            if not outs or i >= len(outs): break
            for o, s in zip(undef, vals[i]):
                sort = ctx['spec'][o.cell].sort; real = outs[i][0][o.cell]
                bad = (real != s) if sort != 'f' else (MP.isfinite(s) and not abs(real - float(s)) <= 1e-3 * max(abs(float(s)), 1e-3))
                if bad: return self.finding(c, ctx, e, o.cell, 'indeterminate', s, real, recs[i], cmd, cf, 'compiled code')
        return None

    def memory(self, c, ctx):
        """bounds / alignment / frame obligations: run under the sanitizers"""
        obs = [o for o in ctx['obs'] if o.kind not in ('postcondition', 'lemma')]
        if not obs or not self.cfg.run: return None
        CTX.cfg = self.cfg.name
        if any(o.kind == 'frame' and ' @' in o.label for o in obs):
            f = self.history(c, ctx, obs)
            if f: return f
        try:
            env, ok = search.draw(c, ctx['views'], ctx['vars'], 2000, np.random.default_rng(self.seed), [o.model for o in obs if o.model])
            rows = list(np.nonzero(ok)[0][:300])
            for o in obs:        # inputs that follow the offending path
                if not o.pc: continue
                try:
                    m = ok.copy()
                    for v in numeric.eval_np(list(o.pc), env, 2000): m &= np.asarray(v, bool)
                    rows = list(np.nonzero(m)[0][:40]) + rows
                except Exception: pass
            es = [{k: v[r] for k, v in env.items()} for r in rows[:300]]
            outs, rc, cmd, cf, recs = replay.run(self.cfg, c, ctx['alias'], es, self.workdir, ctx['fixed'], san=True, shims=self.shims, api=self.api)
        except (replay.ReplayError, NotImplementedError, KeyError, ValueError): return None
        if rc == 'timeout': return None
        k = len(outs or ())
        if rc[0] != 0 and k < len(es):
            d = dict(kind='confirmed', function=c.name, config=self.cfg.name, api=self.api, cell='memory safety', alias={a: list(b) for a, b in ctx['alias'].items()}, fixed=ctx['fixed'],
                     input=recs[k], observed='sanitizer stops the program: ' + rc[1][:1500], required='; '.join(o.label for o in obs[:3]), extracted='', method='compiled code under ASan/UBSan')
            d['program'] = open(cf).read(); d['compile'] = ' '.join(cmd)
            return d
        # frame: an input changed
        st, rep = replay.storages(c, ctx['alias'])
        for i, (flat, sto) in enumerate(outs or ()):
            for key, ty, ps in st:
                if not ty.ptr or any(p.mode != 'in' for p in ps): continue
                for k2, (x, y) in enumerate(zip(sto[key], recs[i][key])):
                    if ty.kind == 'f': x, y = np.float32(x), np.float32(y)
                    if x != y and not (x != x and y != y):
                        d = dict(kind='confirmed', function=c.name, config=self.cfg.name, api=self.api, cell='frame: %s[%d]' % (key, k2), alias={a: list(b) for a, b in ctx['alias'].items()}, fixed=ctx['fixed'],
                                 input=recs[i], observed='input changed to %r' % float(x), required='unchanged', extracted='', method='compiled code')
                        d['program'] = open(cf).read(); d['compile'] = ' '.join(cmd)
                        return d
        # the write may store the old value on these inputs: the input in read-only memory
        if any(o.kind == 'frame' for o in obs):
            try: outs, rc, cmd, cf, recs = replay.run(self.cfg, c, ctx['alias'], es, self.workdir, ctx['fixed'], shims=self.shims, api=self.api, ro=True)
            except replay.ReplayError: return None
            k = len(outs or ())
            if rc != 'timeout' and rc[0] < 0 and k < len(es):
                d = dict(kind='confirmed', function=c.name, config=self.cfg.name, api=self.api, cell='frame', alias={a: list(b) for a, b in ctx['alias'].items()}, fixed=ctx['fixed'],
                         input=recs[k], observed='the program is stopped by signal %d: it writes to an input, which is in read-only memory' % -rc[0], required='; '.join(o.label for o in obs[:3]), extracted='', method='compiled code, inputs in read-only memory')
                d['program'] = open(cf).read(); d['compile'] = ' '.join(cmd)
                return d
        return None

    def history(self, c, ctx, obs):
        """static state is written: a result that depends on the calls before it"""
        n = 600; rng = np.random.default_rng(self.seed + 7)
        try:
            env, ok = search.draw(c, ctx['views'], ctx['vars'], n, rng)
            es = [{k: v[r] for k, v in env.items()} for r in np.nonzero(ok)[0]]
            if not c.requires and not c.domain and not c.gen:      # neighbours share arguments
                for i in range(1, len(es)):
                    for p in c.params:
                        if rng.random() < 0.6:
                            for k in es[i]:
                                if k == p.name or k.startswith(p.name + '.'): es[i][k] = es[i - 1][k]
            go = lambda seq: replay.run(self.cfg, c, ctx['alias'], seq, self.workdir, ctx['fixed'], shims=self.shims, api=self.api)
            a, rc, cmd, cf, recs = go(es); b = go(es[::-1])[0]
            if not a or not b or len(a) != len(es) or len(b) != len(es): return None
            same = lambda x, y: all(u == v or u != u and v != v for u, v in zip(x, y))
            for i in range(len(es)):
                if same(a[i][0], b[len(es) - 1 - i][0]): continue
                alone = go([es[i]])[0]; seq = es[:i + 1]; r = a[i][0]
                if same(r, alone[0][0]): seq = es[i:][::-1]; r = b[len(es) - 1 - i][0]
                if same(r, alone[0][0]): continue
                two = go(seq[-2:])[0]
                if len(two) == 2 and not same(two[1][0], alone[0][0]): seq = seq[-2:]; r = two[1][0]
                q = [k for k in range(len(r)) if not (r[k] == alone[0][0][k] or r[k] != r[k] and alone[0][0][k] != alone[0][0][k])][0]
                d = self.finding(c, ctx, es[i], q, '', alone[0][0][q], r[q], dict(calls=[x for x in replay.pack(c, ctx['alias'], seq, ctx['fixed'])[1]][-6:], number_of_calls=len(seq)), cmd, cf, 'compiled code, sequence of calls')
                d['required'] += ' (the result of this call alone; it must not depend on earlier calls)'
                return d
        except (replay.ReplayError, NotImplementedError, KeyError, ValueError, TypeError, IndexError): return None
        return None

    def bounded(self, c, specof, n=1500, rows=600):
        """bounded stand-in when no verification condition could be built: the real code against
        the contract on n sampled inputs.  -> ('deviates', finding) | ('clean', count) | ('none', why)"""
        if not replay.runs(self.cfg): return 'none', 'cannot run configuration ' + self.cfg.name
        CTX.cfg = self.cfg.name
        import itertools
        combos = [{}]
        if c.enum:
            ks = list(c.enum); combos = [dict(zip(ks, v)) for v in itertools.product(*[c.enum[k] for k in ks])]
        total = 0
        for fixed in combos:
            try: views, vars_, spec = specof(c, fixed)
            except (NotImplementedError, KeyError, ValueError, TypeError) as e: return 'none', '%s: %s' % (type(e).__name__, e)
            st, info = self.against(c, {}, fixed, views, vars_, spec, n, most=rows, strict=True)
            if st != 'clean': return st, info
            total += info
        return 'clean', total

    def against(self, c, alias, fixed, views, vars_, spec, n, cells=None, tol=1e-2, floor=0.1, most=600, strict=False):
        """the compiled code against the contract on sampled inputs at which the contract is well conditioned"""
        total = 0
        try:
            env, ok = search.draw(c, views, vars_, n, np.random.default_rng(self.seed), prop=0.25)
            for k in list(env):          # moderate magnitudes: rounding stays far below the threshold
                if env[k].dtype == np.float64: ok &= (np.abs(env[k]) < 1e4) & ((env[k] == 0) | (np.abs(env[k]) > 1e-3))
            rows = np.nonzero(ok)[0][:most]
            es = [{k: v[r] for k, v in env.items()} for r in rows]
            outs, rc, cmd, cf, recs = replay.run(self.cfg, c, alias, es, self.workdir, fixed, shims=self.shims, api=self.api)
        except replay.ReplayError as e: return 'none', str(e)
        except (NotImplementedError, KeyError, ValueError, TypeError) as e: return 'none', '%s: %s' % (type(e).__name__, e)
        if rc == 'timeout': return 'none', 'timeout'
        idx = [i for i, s in enumerate(spec) if isinstance(s, Node)]
        units = search.unitsof(c, views)
        ctx = dict(alias=alias, fixed=fixed)
        for i, e in enumerate(es):
            if i >= len(outs or ()):
                return 'deviates', self.finding(c, ctx, e, idx[0] if idx else 0, '', '', 'program ended with status %s %s' % (rc[0], rc[1][:300]), recs[i], cmd, cf, 'compiled code')
            total += 1
            try:
                s0 = numeric.eval_mp([spec[q] for q in idx], search.mpenv(e, units))
                s1 = numeric.eval_mp([spec[q] for q in idx], search.mpenv({k: (v * (1 + 3e-7 * (1 if j % 2 else -1)) if isinstance(v, (float, np.floating)) else v) for j, (k, v) in enumerate(e.items())}))
                # strict: inputs near a branch or a cancellation say nothing about the code (rounding is outside)
                more = []
                if strict:
                    rng = np.random.default_rng(self.seed + i)
                    for _ in range(4): more.append(numeric.eval_mp([spec[q] for q in idx], search.mpenv({k: (v * (1 + 1e-6 * rng.uniform(-1, 1)) if isinstance(v, (float, np.floating)) else v) for k, v in e.items()})))
            except Exception: continue
            fin = [float(abs(x)) for x, q in zip(s0, idx) if spec[q].sort == 'f' and MP.isfinite(x)]
            sc = max(fin + [floor])
            if any(spec[q].sort == 'f' and MP.isfinite(x) and any(not MP.isfinite(m[j]) or abs(m[j] - x) > 1e-3 * sc for m in more) for j, (q, x) in enumerate(zip(idx, s0))): continue
            for j, (q, x, y) in enumerate(zip(idx, s0, s1)):
                real = outs[i][0][q]; sort = spec[q].sort
                if strict:
                    if sort != 'f' and any(m[j] != x for m in more): continue
                    if sort == 'i32' and int(real) == -2**31 and x == 0: continue       # conversion of a number that is not an int
                    if sort == 'f' and (not MP.isfinite(x) or abs(x) > 1e30 or any(not MP.isfinite(m[j]) or abs(m[j] - x) > 1e-4 * sc for m in more)): continue
                    if sort == 'f' and abs(abs(real - float(x)) - 2 * math.pi) < 1e-3: continue     # the same angle
                if sort != 'f': bad = (x == y) and (real != x if sort == 'b' else (int(real) & 0xffffffff) != (int(x) & 0xffffffff))
                else:
                    if not MP.isfinite(x) or not MP.isfinite(y): continue
                    if real == real and abs(x - y) > 1e-4 * sc or abs(x - y) > 1e-2 * sc: continue
                    bad = not abs(real - float(x)) <= tol * sc
                if bad and (cells is None or q in cells): return 'deviates', self.finding(c, ctx, e, q, '', x, real, recs[i], cmd, cf, 'compiled code (bounded comparison)')
        return 'clean', total
