"""Contracts: typed signatures, functional postconditions, frames, aliasing.

A contract is written against the *public name* of a function:

    S('glm_vec3_add(vec3 a, vec3 b, >vec3 dest)', lambda a, b: a + b)

'>' marks an output parameter (pointer; previous contents not read), '&' an
in/out parameter; anything else is input only and outside the frame.  The
function given is the postcondition: it maps the inputs to the values every
output must have.  Types fix the memory footprint, so bounds, alignment and
frame obligations follow from the signature.
"""
import re
from . import dag as D
from .dag import Node, TRUE, FALSE
from .exe import UNDEF, Ptr, Obj

SHAPES = {'vec2': ('f', (2,)), 'vec3': ('f', (3,)), 'vec4': ('f', (4,)), 'versor': ('f', (4,)),
          'ivec2': ('i', (2,)), 'ivec3': ('i', (3,)), 'ivec4': ('i', (4,)),
          'mat2': ('f', (2, 2)), 'mat3': ('f', (3, 3)), 'mat4': ('f', (4, 4)),
          'mat2x3': ('f', (2, 3)), 'mat2x4': ('f', (2, 4)), 'mat3x2': ('f', (3, 2)), 'mat3x4': ('f', (3, 4)),
          'mat4x2': ('f', (4, 2)), 'mat4x3': ('f', (4, 3)),
          'float': ('f', ()), 'int': ('i', ()), 'bool': ('b', ())}

class V(list):
    """vector view"""
    def __add__(s, o): return V(x + y for x, y in zip(s, bc(o, len(s))))
    def __radd__(s, o): return V(y + x for x, y in zip(s, bc(o, len(s))))
    def __sub__(s, o): return V(x - y for x, y in zip(s, bc(o, len(s))))
    def __rsub__(s, o): return V(y - x for x, y in zip(s, bc(o, len(s))))
    def __mul__(s, o): return V(x * y for x, y in zip(s, bc(o, len(s))))
    def __rmul__(s, o): return V(x * y for x, y in zip(s, bc(o, len(s))))
    def __truediv__(s, o): return V(x / y for x, y in zip(s, bc(o, len(s))))
    def __neg__(s): return V(-x for x in s)
    def __getitem__(s, k):
        r = list.__getitem__(s, k)
        return V(r) if isinstance(k, slice) else r

class IV(list):
    """integer vector view; arithmetic is modulo 2^32"""
    def _z(s, op, o): return IV(iop(op, x, y) for x, y in zip(s, bc(o, len(s))))
    def __add__(s, o): return s._z('add', o)
    def __sub__(s, o): return s._z('sub', o)
    def __mul__(s, o): return s._z('mul', o)

class I32:
    """integer scalar with C-like wraparound arithmetic for contracts"""

def iop(op, a, b):
    r = D.iop(op, _u(a), _u(b), 32)
    return r
def _u(x): return D._unw(x) if isinstance(x, Node) else x & 0xffffffff

def bc(o, n):
    if isinstance(o, (list, tuple)): return list(o)
    return [o] * n

class Type:
    __slots__ = ('base', 'kind', 'shape', 'n', 'ptr', 'size', 'count')
    def __init__(s, base, n=None, ptr=False):
        s.base = base; s.kind, s.shape = SHAPES[base]
        s.n = n                    # array length or None
        s.ptr = ptr or bool(s.shape) or n is not None
        c = 1
        for d in s.shape: c *= d
        s.count = c * (n or 1)
        s.size = s.count * (4 if s.kind != 'b' else 1)
    def __eq__(s, o): return s.compat(o)
    def compat(s, o):
        return s.kind == o.kind and s.shape == o.shape and s.n == o.n and s.ptr == o.ptr
    def __repr__(s): return s.base + ('[%d]' % s.n if s.n else '') + ('*' if s.ptr and not s.shape and s.n is None else '')
    def view(s, cells):
        cells = list(cells)
        def one():
            if not s.shape: return cells.pop(0)
            if len(s.shape) == 1:
                v = [cells.pop(0) for _ in range(s.shape[0])]
                return V(v) if s.kind == 'f' else IV(v)
            return [V(cells.pop(0) for _ in range(s.shape[1])) for _ in range(s.shape[0])]
        if s.n is None: return one()
        return [one() for _ in range(s.n)]
    def flat(s, v):
        out = []
        def rec(x, dims):
            if not dims: out.append(x); return
            if len(x) != dims[0]: raise ValueError('shape mismatch: %r for %r' % (len(x), s))
            for y in x: rec(y, dims[1:])
        rec(v, ((s.n,) if s.n is not None else ()) + s.shape)
        return out
    def align(s, mod):
        return type_align(mod, s.base)

ALIGN_NAME = {'int': 4, 'float': 4, 'bool': 1}
def type_align(mod, base):
    a = ALIGN_NAME.get(base)
    if a: return a
    if getattr(mod, 'loose', False): return 4      # the configuration promises the alignment of float only
    c = getattr(mod, '_cgv_align', None)
    if c is None: c = mod._cgv_align = {}
    if base not in c:
        try: c[base] = mod.glob('@cgv_align_' + base)[1][1]
        except Exception: c[base] = 4
    return c[base]

class Param:
    __slots__ = ('name', 'ty', 'mode')
    def __init__(s, name, ty, mode): s.name = name; s.ty = ty; s.mode = mode   # mode: in, out, inout

SIGRE = re.compile(r'^\s*(\w+)\s*\((.*)\)\s*(?:->\s*(\w+))?\s*$')
def parse_sig(t):
    m = SIGRE.match(t)
    if not m: raise ValueError('bad signature ' + t)
    name, ps, ret = m.groups()
    params = []
    for i, p in enumerate(x.strip() for x in ps.split(',')):
        if not p: continue
        mm = re.match(r'^([>&]?)\s*(\w+)\s*(\*?)\s*(\w*)\s*(?:\[(\d+)\])?$', p)
        if not mm: raise ValueError('bad parameter %r in %s' % (p, t))
        md, ty, st, nm, n = mm.groups()
        params.append(Param(nm or 'p%d' % i, Type(ty, int(n) if n else None, bool(st)), {'': 'in', '>': 'out', '&': 'inout'}[md]))
    return name, params, Type(ret) if ret else None

UNSPEC = object()      # output cell left unspecified by the contract

class Contract:
    def __init__(s, sig, fn, prop, **o):
        s.name, s.params, s.ret = parse_sig(sig)
        s.sig = sig; s.fn = fn; s.prop = prop
        s.requires = o.pop('requires', None)      # function of the inputs -> list of boolean nodes
        s.noalias = o.pop('noalias', False)       # True, or a set of input names dest must not alias
        s.approx = o.pop('approx', False)         # hardware reciprocal approximations allowed
        s.rules = o.pop('rules', None)            # param -> algebraic relation ('unit' quaternion/vector)
        s.safe = o.pop('safe', False)             # every division/sqrt must be defined for every input
        s.gen = o.pop('gen', None)                # sample post-processing for numeric search
        s.configs = o.pop('configs', None)        # restrict to configurations
        s.tol = o.pop('tol', 1e-4)
        s.domain = o.pop('domain', None)          # where sampled disagreement counts as confirmed (proofs do not use it)
        s.real = o.pop('real', None)              # name of the C symbol (derived contracts)
        s.depth = 0
        s.bounded = o.pop('bounded', None)
        s.loop = o.pop('loop', None)
        s.unroll = o.pop('unroll', None)
        s.bits = o.pop('bits', False)             # bit-precise (IEEE) semantics
        s.refconst = o.pop('refconst', None)
        s.smt = o.pop('smt', None)
        s.enum = o.pop('enum', None)              # exhaustive values of integer parameters (their whole permitted range)
        s.rationalize = o.pop('rationalize', False)
        s.sweep = o.pop('sweep', False)           # prove by matched cut points first
        s.lemmas = o.pop('lemmas', None)          # facts over the inputs, proved first, then used
        s.note = o.pop('note', None)
        s.unaligned = o.pop('unaligned', False)   # storage need only be aligned as its components are
        s.fix = o.pop('fix', None)                # param -> {(col,row): constant}: structural precondition
        if o: raise ValueError('unknown options %r for %s' % (o, sig))
        s.ins = [p for p in s.params if p.mode != 'out']
        s.outs = [p for p in s.params if p.mode != 'in']
        s.symbol = s.real or s.name
    def outputs(s):
        """[(label, Type)]: return value first"""
        return ([('return', s.ret)] if s.ret else []) + [(p.name, p.ty) for p in s.outs]
    def spec(s, inviews):
        """-> list of flat cell lists, one per output"""
        r = s.fn(*inviews)
        outs = s.outputs()
        if len(outs) == 1: r = (r,)
        if len(r) != len(outs): raise ValueError('%s: %d outputs, contract gives %d' % (s.name, len(outs), len(r)))
        res = []
        for (nm, ty), v in zip(outs, r):
            cells = ty.flat(v)
            res.append([tonode(c, ty.kind) for c in cells])
        return res
    def may_alias(s, out, inp):
        if s.noalias is True: return False
        if isinstance(s.noalias, (set, frozenset, tuple, list)) and inp.name in s.noalias: return False
        return True

def tonode(c, kind):
    if c is UNSPEC: return c
    if isinstance(c, Node):
        if kind == 'i' and c.sort == 'b': return D._w(D.iext(c, 1, 32, False), 32)
        return c
    if kind == 'f': return D.fl(c)
    if kind == 'i': return D.ic(int(c), 32)
    if kind == 'b': return TRUE if c else FALSE

# functions that only move, negate or fill: their contracts hold bit-precisely, for NaN and infinity too
MOVES = re.compile(r'glm_(swapf|vec[234]|vec4_copy3|(vec\d|mat\dx?\d?|quat|aabb2d)_(u?copy|zero|one|fill|broadcast|negate|negate_to|abs|swizzle|make|complex_conjugate|identity|transpose|transpose_to|swap_col|swap_row|pick3t?|ins3|init|conjugate|real|imag)|aabb(2d)?_invalidate)')

class Registry:
    def __init__(s): s.c = {}; s.prop = None; s.props = {}; s.lemmas = []; s.order = []
    def S(s, sig, fn, **o):
        prop = o.pop('prop', s.prop)
        c = Contract(sig, fn, prop, **o)
        if MOVES.fullmatch(c.name): c.bits = 'move'
        if c.name in s.c: raise ValueError('duplicate contract ' + c.name)
        s.c[c.name] = c
        return c

REG = Registry()
def S(sig, fn, **o): return REG.S(sig, fn, **o)
def P(pid): REG.prop = pid

class Lemma:
    """property over contracts: build(use, *inputs) yields (label, lhs, rhs) equalities and
    (label, condition) implications; use(name, *args) is the postcondition of a contract"""
    def __init__(s, name, prop, vars, build, requires=None, rules=None, configs=('sse2',), gen=None, domain=None, smt=None, rationalize=False, sweep=False, budget=60, facts=None, trigsum=False):
        s.trigsum = trigsum; s.name = name; s.prop = prop; s.vars = vars; s.build = build; s.requires = requires; s.rules = rules; s.configs = configs
        s.gen = gen; s.domain = domain; s.smt = smt; s.rationalize = rationalize; s.sweep = sweep; s.budget = budget; s.facts = facts
def L(name, vars, **o):
    def deco(f):
        if any(l.name == name for l in REG.lemmas): raise ValueError('duplicate lemma ' + name)
        REG.lemmas.append(Lemma(name, o.pop('prop', REG.prop), vars, f, **o)); return f
    return deco

class Ctx:
    cfg = 'sse2'
    def clip(s): return s.cfg if s.cfg in ('lh_no', 'rh_zo', 'lh_zo') else 'rh_no'
    def hand(s): return s.clip()[:2]
CTX = Ctx()
