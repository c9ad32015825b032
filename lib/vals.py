"""Value domain of the analysis: gated value numbers.

Leaves: Python ints (machine integers, booleans), Num (real valued terms,
hash-consed by an algebraic fingerprint), Ptr, Fn, Str, UNDEF.
Gates: Ite(atom, hi, lo), hash-consed, ordered (multi-terminal decision
diagrams).  Merging two states at a control flow join builds a gate, so there
is one state per program point and no enumeration of paths.

Two real terms get the same value number when they agree as functions; that is
decided on fingerprints (evaluation of the *term* at K random points with 40
digits), as in Gulwani and Necula's random interpretation."""
import decimal, hashlib, math, random
from decimal import Decimal as D
import mpmath
decimal.getcontext().prec = 40
decimal.getcontext().Emax = 999999999999
decimal.getcontext().Emin = -999999999999
decimal.getcontext().traps[decimal.InvalidOperation] = True
mpmath.mp.dps = 40
K = 3
MB = 1024         # witness points of ordinary magnitude
M = MB + 768      # and of unusual magnitude
import numpy as np
np.seterr(all='ignore')

SEED = 1
def set_seed(s):
    global SEED
    SEED = s

class Undef:
    __slots__ = ()
    def __repr__(self): return 'UNDEF'
UNDEF = Undef()

class Num:
    __slots__ = ('v', 'op', 'args', 'id', '_s', '_str')
    def __repr__(self): return show(self)

_nums = {}
_order = [0]
_ctx9 = decimal.Context(prec=14)
def _key(v):
    return tuple([_ctx9.plus(x) for x in v])
def mk(v, op, args):
    k = _key(v)
    n = _nums.get(k)
    if n is None:
        n = Num(); n.v = v; n.op = op; n.args = args; n._s = None; n._str = None
        _order[0] += 1; n.id = _order[0]
        _nums[k] = n
    return n
_consts = {}
def const(x):
    """x: int, float, str or Decimal"""
    n = _consts.get(x)
    if n is None:
        d = D(repr(x)) if isinstance(x, float) else D(x)
        n = mk((d,) * K, 'const', (d,))
        _consts[x] = n
    return n
def is_const(n):
    v = n.v
    return v[0] == v[1] and v[1] == v[2]
ZERO = const(0); ONE = const(1)
def _h(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], 'big')
def symbol(name, lo=0.4, hi=2.9, wide=False):
    """a real unknown. The range (and, if wide, any magnitude of the same sign) is where witnesses are looked for"""
    rnd = random.Random(_h(SEED, 'sym', name))
    part = [None] * K
    if lo < 0 < hi and '#' in name: part = list(range(K)); rnd.shuffle(part)      # normal draws: a value in each part of the range, so that both signs occur
    v = tuple(D(repr(lo + (hi - lo) * (rnd.random() if p is None else (p + rnd.random()) / K))) + D(rnd.randrange(10**30)) / D(10)**46 for p in part)
    n = mk(v, 'sym', (name, lo, hi, wide))
    return n
def opaque(fname, *args, lo=0.4, hi=2.9):
    """uninterpreted function of args (congruence only)."""
    key = tuple(_key(a.v) if isinstance(a, Num) else a for a in args)
    v = []
    for i in range(K):
        kk = tuple(str(k[i]) if isinstance(k, tuple) and len(k) == K and isinstance(a, Num) else str(a)
                   for k, a in zip(key, args))
        h = _h(SEED, fname, i if not any(isinstance(a, Num) and not is_const(a) for a in args) else 0, kk)
        v.append(D(repr(lo)) + D(repr(hi - lo)) * D(h) / D(2**64))
    return mk(tuple(v), 'fn', (fname, lo, hi) + args)

EPS = D('1e-14')
def add(a, b):
    if a is ZERO: return b
    if b is ZERO: return a
    r = []
    for x, y in zip(a.v, b.v):
        s = x + y
        if s != 0 and abs(s) < EPS * abs(x): s = D(0)
        r.append(s)
    return mk(tuple(r), '+', (a, b))
def neg(a): return mk(tuple([-x for x in a.v]), 'neg', (a,))
def sub(a, b):
    if b is ZERO: return a
    r = []
    for x, y in zip(a.v, b.v):
        s = x - y
        if s != 0 and abs(s) < EPS * abs(x): s = D(0)
        r.append(s)
    return mk(tuple(r), '-', (a, b))
def mul(a, b):
    if a is ONE: return b
    if b is ONE: return a
    return mk(tuple([x * y for x, y in zip(a.v, b.v)]), '*', (a, b))
def div(a, b):
    if b is ONE: return a
    if any(y == 0 for y in b.v): return opaque('div0', a)
    return mk(tuple([x / y for x, y in zip(a.v, b.v)]), '/', (a, b))
def _mp(f):
    def g(*xs): return D(mpmath.nstr(f(*[mpmath.mpf(str(x)) for x in xs]), 38))
    return g
def _clean(d):   # noise of elementary functions around zero
    return D(0) if abs(d) < D('1e-30') else d
def _sqrt(x): return x.sqrt()
def _exp(x):
    if abs(x) > D('1e6'): raise ArithmeticError
    return x.exp()
FN = {
    'sqrt': _sqrt, 'exp': _exp, 'log': lambda x: x.ln(), 'log10': lambda x: x.log10(),
    'sin': lambda x: _clean(_mp(mpmath.sin)(x)), 'cos': lambda x: _clean(_mp(mpmath.cos)(x)),
    'tan': lambda x: _clean(_mp(mpmath.tan)(x)), 'asin': _mp(mpmath.asin), 'acos': _mp(mpmath.acos),
    'atan': _mp(mpmath.atan), 'atan2': _mp(mpmath.atan2), 'cbrt': lambda x: x ** (D(1) / D(3)),
    'sinh': _mp(mpmath.sinh), 'cosh': _mp(mpmath.cosh), 'tanh': _mp(mpmath.tanh),
    'log1p': lambda x: (x + 1).ln(), 'expm1': lambda x: _exp(x) - 1, 'exp2': lambda x: D(2) ** x,
    'exp10': lambda x: D(10) ** x, 'log2': lambda x: x.ln() / D(2).ln(),
    'f32': lambda x: x * (1 + D('2e-4') * D(_h('f32', str(_ctx9.plus(x))) % 1000003 - 500000) / D(500000)),      # rounding to single precision, exaggerated so that it shows
}
def fn(name, *args):
    f = FN.get(name)
    if f is None: return opaque(name, *args)
    try:
        return mk(tuple(f(*[a.v[i] for a in args]) for i in range(K)), name, args)
    except (ArithmeticError, decimal.InvalidOperation, ValueError, TypeError):
        return opaque('nan_' + name, *args)
def power(a, b):
    if is_const(b):
        e = b.v[0]
        if e == e.to_integral_value() and abs(e) < 64:
            if any(x == 0 for x in a.v) and e <= 0:
                return ONE if e == 0 else opaque('div0', a)
            return mk(tuple(x ** int(e) for x in a.v), 'pow', (a, b))
    try:
        if any(x < 0 for x in a.v): raise ArithmeticError
        if any(x == 0 for x in a.v) : return ZERO if all(y > 0 for y in b.v) else opaque('div0', a)
        return mk(tuple(x ** y for x, y in zip(a.v, b.v)), 'pow', (a, b))
    except (ArithmeticError, decimal.InvalidOperation):
        return opaque('nan_pow', a, b)

def show(n, depth=5):
    if isinstance(n, Ite):
        if depth <= 0: return '(..)'
        return '(%s ? %s : %s)' % (atom_text(n.var), show(n.hi, depth - 1), show(n.lo, depth - 1))
    if not isinstance(n, Num): return repr(n)
    if is_const(n): return '%.6g' % n.v[0]
    if n.op == 'sym': return n.args[0]
    if depth <= 0: return '..'
    if n.op == 'fn': return '%s(%s)' % (n.args[0], ', '.join(show(a, depth - 1) for a in n.args[3:]))
    a = [show(x, depth - 1) for x in n.args]
    if n.op in '+-*/' and len(a) == 2: return '(%s %s %s)' % (a[0], n.op, a[1])
    return '%s(%s)' % (n.op, ', '.join(a))

# ---------------------------------------------------------------- witnesses
def _hashvec(seed, arrs):
    acc = np.full(M, (seed % 100003) / 1000.0)
    for i, a in enumerate(arrs):
        acc = acc + a * (1.2345 + 0.7717 * i)
    # piecewise pseudo random but congruent up to rounding
    return 0.5 + 0.5 * np.sin(7.13 * acc + (seed % 977))
def _apply(op, A):
    if op == '+': r = A[0] + A[1]
    elif op == '-': r = A[0] - A[1]
    elif op == '*': r = A[0] * A[1]
    elif op == '/': r = A[0] / A[1]
    elif op == 'neg': r = -A[0]
    elif op == 'pow': r = np.power(A[0], A[1])
    else:
        f = {'sqrt': np.sqrt, 'exp': np.exp, 'log': np.log, 'log10': np.log10, 'sin': np.sin, 'cos': np.cos,
             'tan': np.tan, 'asin': np.arcsin, 'acos': np.arccos, 'atan': np.arctan, 'atan2': np.arctan2,
             'cbrt': np.cbrt, 'sinh': np.sinh, 'cosh': np.cosh, 'tanh': np.tanh, 'log1p': np.log1p,
             'f32': lambda x: x * (1 + 1e-4 * np.sin(17.3 * x + 1.1)), 'expm1': np.expm1, 'exp2': np.exp2, 'log2': np.log2, 'exp10': lambda x: np.power(10.0, x)}[op]
        r = f(*A)
    return r
WIDE_FN = {'Ex': 'E', 'Ey': 'E', 'Ez': 'E', 'Bx': 'B', 'By': 'B', 'Bz': 'B', 'interp': 'log'}
def samp(n):
    """values of the term at the M witness points (numpy)"""
    if not isinstance(n, Num): return np.full(M, float(n))
    if n._s is not None: return n._s
    stack = [n]
    while stack:
        t = stack[-1]
        if t._s is not None: stack.pop(); continue
        args = t.args[3:] if t.op == 'fn' else (() if t.op in ('sym', 'const') else t.args)
        todo = [a for a in args if isinstance(a, Num) and a._s is None]
        if todo: stack.extend(todo); continue
        stack.pop()
        A = [a._s if isinstance(a, Num) else None for a in args]
        op = t.op
        if is_const(t): r = np.full(M, float(t.v[0]))
        elif op == 'sym':
            name, lo, hi, wide = t.args
            rs = np.random.RandomState(_h(SEED, 'w', name) % 2**32)
            r = lo + (hi - lo) * rs.rand(M)
            if lo < 0 < hi or lo == 0:      # log scale for part of the points: small values
                m = rs.rand(M) < 0.3
                r = np.where(m, r * 10.0 ** (-4 * rs.rand(M)), r)
            if wide is True:
                ex = (2 * rs.rand(M) - 1) * rs.choice([2, 6, 14, 25], M); on = rs.rand(M) < 0.5
                on[:MB] = False
                r = np.where(on, r * 10.0 ** ex, r)
        elif op == 'fn':
            name, lo, hi = t.args[:3]
            if name == 'div0' : r = np.full(M, np.inf)
            elif name.startswith('nan_'):
                nm = name[4:]
                f = {'sqrt': np.sqrt, 'log': np.log, 'log10': np.log10, 'pow': np.power, 'acos': np.arccos, 'asin': np.arcsin, 'exp': np.exp}.get(nm)
                r = f(*A) if f else np.full(M, np.nan)
            elif name == 'trunc': r = np.trunc(A[0])
            elif name == 'floor': r = np.floor(A[0])
            elif name == 'ceil': r = np.ceil(A[0])
            elif name == 'round': r = np.floor(A[0] + .5)
            else:
                s = _h(name, tuple(str(a) for a, x in zip(args, A) if x is None))
                r = lo + (hi - lo) * _hashvec(s, [x for x in A if x is not None])
                if name in WIDE_FN:
                    rs = np.random.RandomState(_h(SEED, 'wf', WIDE_FN[name]) % 2**32)
                    ex = (2 * rs.rand(M) - 1) * rs.choice([0, 2, 6, 14], M); ex[:MB] = 0
                    r = r + ex / 2 if WIDE_FN[name] == 'log' else r * 10.0 ** ex
        else: r = _apply(op, A)
        t._s = r
    return n._s

# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('idx', 'kind', 'p', '_m', 'name')
_atoms = []
_atomkey = {}
def _atom(kind, p, name=None):
    if kind == 'b': key = ('b', name)
    else:
        nz = next((i for i, x in enumerate(p.v) if x != 0), 0)
        s = p.v[nz]
        key = (kind, _key(tuple(x / abs(s) for x in p.v)))
    a = _atomkey.get(key)
    if a is None:
        a = Atom(); a.idx = len(_atoms); a.kind = kind; a.p = p; a._m = None; a.name = name
        _atoms.append(a); _atomkey[key] = a
    return a.idx
def atom_text(i, pos=True):
    a = _atoms[i]
    if a.kind == 'b': return ('' if pos else 'not ') + a.name
    if a.kind == '<':
        if a.p.op == '-': return '%s %s %s' % (show(a.p.args[0], 3), '<' if pos else '>=', show(a.p.args[1], 3))
        return '%s %s 0' % (show(a.p, 4), '<' if pos else '>=')
    return '%s %s 0' % (show(a.p, 4), '==' if pos else '!=')
def atom_mask(i):
    a = _atoms[i]
    if a._m is None:
        if a.kind == 'b':
            rs = np.random.RandomState(_h(SEED, 'b', a.name) % 2**32)
            a._m = rs.rand(M) < .5
        elif a.kind == '<': a._m = samp(a.p) < 0
        else: a._m = samp(a.p) == 0
    return a._m

# ---------------------------------------------------------------- gates
class Ite:
    __slots__ = ('var', 'hi', 'lo')
    def __repr__(self): return show(self)
_ut = {}
def _lk(x):
    return id(x) if isinstance(x, (Ite, Num)) else (type(x), x)
def node(var, hi, lo):
    if hi is lo or (not isinstance(hi, (Ite, Num)) and not isinstance(lo, (Ite, Num)) and type(hi) is type(lo) and hi == lo): return hi
    k = (var, _lk(hi), _lk(lo))
    n = _ut.get(k)
    if n is None:
        n = Ite(); n.var = var; n.hi = hi; n.lo = lo
        _ut[k] = n
    return n
def lt0(p):
    """gate for p < 0"""
    if is_const(p): return 1 if p.v[0] < 0 else 0
    if (s := _sign(p)) is not None: return 1 if s < 0 else 0
    flip = next((x for x in p.v if x != 0), 1) < 0
    if not flip: return node(_atom('<', p), 1, 0)
    q = neg(p)            # p<0 <=> q>0 <=> not (q<0 or q==0)
    l = _atom('<', q); e = _atom('=', q)
    return node(min(l, e), *((0, node(e, 0, 1)) if l < e else (0, node(l, 0, 1))))
def eq0(p):
    if is_const(p): return 1 if p.v[0] == 0 else 0
    if _sign(p) is not None: return 0
    if next((x for x in p.v if x != 0), 1) < 0: p = neg(p)
    l = _atom('<', p); e = _atom('=', p)
    return node(l, 0, node(e, 1, 0)) if l < e else node(e, node(l, 0, 1), 0)
def _unit(n): return n.op == 'sym' and n.args[0].startswith('U#')      # a draw from [0, 1)
POS = {}            # value numbers known positive by the analysed context
def assume_positive(n): POS[n.id] = 1
def _sign(p):
    """sign of a term known from its form (strict), or None"""
    if p.id in POS: return POS[p.id]
    op = p.op
    r = None
    if op == 'sym':
        if p.args[1] > 0: r = 1
        elif p.args[2] < 0: r = -1
    elif op == 'fn':
        if p.args[0] in ('div0',) or p.args[0].startswith('nan_'): r = None
        elif p.args[0] in ('trunc', 'floor', 'ceil', 'round'): r = None
        elif p.args[1] > 0: r = 1
    elif op == 'exp': r = 1
    elif op == '-' and is_const(p.args[0]) and _unit(p.args[1]):
        r = 1 if p.args[0].v[0] >= 1 else -1 if p.args[0].v[0] <= 0 else None
    elif op == '-' and is_const(p.args[1]) and _unit(p.args[0]):
        r = -1 if p.args[1].v[0] >= 1 else 1 if p.args[1].v[0] <= 0 else None
    elif op in '*/' and len(p.args) == 2:
        a, b = _sg(p.args[0]), _sg(p.args[1])
        r = a * b if a and b else None
    elif op == '+':
        a, b = _sg(p.args[0]), _sg(p.args[1])
        r = a if a and a == b else None
        if r is None:
            for x, y in ((a, p.args[1]), (b, p.args[0])):
                if x == 1 and _nonneg(y): r = 1
    elif op == '-':
        a, b = _sg(p.args[0]), _sg(p.args[1])
        r = a if a and b == -a else None
    elif op == 'neg':
        a = _sg(p.args[0]); r = -a if a else None
    elif op in ('sqrt', 'cbrt', 'cosh'): r = 1 if _sg(p.args[0]) == 1 else None
    elif op == 'pow': r = 1 if _sg(p.args[0]) == 1 else None
    POS[p.id] = r
    return r
def _nonneg(p):
    if _sg(p) == 1: return True
    if p.op == 'const': return p.v[0] >= 0
    if p.op == '*': return p.args[0] is p.args[1] or (_nonneg(p.args[0]) and _nonneg(p.args[1]))
    if p.op == '+': return _nonneg(p.args[0]) and _nonneg(p.args[1])
    if p.op == '/': return _nonneg(p.args[0]) and _sg(p.args[1]) == 1
    if p.op == 'pow': return is_const(p.args[1]) and p.args[1].v[0] % 2 == 0
    if p.op == 'sqrt': return True
    if p.op == 'sym': return p.args[1] >= 0
    return False
def _sg(n):
    if is_const(n): return 1 if n.v[0] > 0 else (-1 if n.v[0] < 0 else None)
    return _sign(n)
def boolatom(name): return node(_atom('b', None, name), 1, 0)

_m_ite = {}
def top(*xs):
    return min(x.var for x in xs if type(x) is Ite)
def cof(x, v, b):
    return (x.hi if b else x.lo) if type(x) is Ite and x.var == v else x
def ite(c, a, b):
    if c == 1 and type(c) is int: return a
    if c == 0 and type(c) is int: return b
    if a is b: return a
    k = (id(c), _lk(a), _lk(b))
    r = _m_ite.get(k)
    if r is not None: return r[0]
    v = top(c, a, b)
    r = node(v, ite(cof(c, v, 1), cof(a, v, 1), cof(b, v, 1)), ite(cof(c, v, 0), cof(a, v, 0), cof(b, v, 0)))
    _m_ite[k] = (r, c, a, b)
    return r
def AND(a, b): return ite(a, b, 0)
def OR(a, b): return ite(a, 1, b)
def NOT(a): return ite(a, 0, 1)
def is1(x): return type(x) is int and x == 1
def is0(x): return type(x) is int and x == 0
_m_r = {}
def restrict(v, c):
    """v simplified under the assumption c (c != 0)"""
    if type(v) is not Ite or type(c) is not Ite: return v
    k = (id(v), id(c))
    r = _m_r.get(k)
    if r is not None: return r[0]
    if c.var < v.var:
        h, l = c.hi, c.lo
        if is0(h): r = restrict(v, l)
        elif is0(l): r = restrict(v, h)
        else: r = restrict(v, OR(h, l))
    elif v.var < c.var:
        r = node(v.var, restrict(v.hi, c), restrict(v.lo, c))
    else:
        if is0(c.hi): r = restrict(v.lo, c.lo)
        elif is0(c.lo): r = restrict(v.hi, c.hi)
        else: r = node(v.var, restrict(v.hi, c.hi), restrict(v.lo, c.lo))
    _m_r[k] = (r, v, c)
    return r
def amap(f, *xs):
    """apply f to leaves, gate-wise (f may itself return gates)"""
    for x in xs:
        if type(x) is Ite: break
    else: return f(*xs)
    memo = {}
    def go(*ys):
        for y in ys:
            if type(y) is Ite: break
        else: return f(*ys)
        k = tuple(_lk(y) for y in ys)
        r = memo.get(k)
        if r is None:
            v = top(*ys)
            h = go(*[cof(y, v, 1) for y in ys]); l = go(*[cof(y, v, 0) for y in ys])
            if (type(h) is Ite and h.var <= v) or (type(l) is Ite and l.var <= v):
                r = ite(node(v, 1, 0), h, l)
            else: r = node(v, h, l)
            memo[k] = r
        return r
    return go(*xs)
def leaves(v, c=1):
    """[(condition, leaf)] of v under c"""
    v = restrict(v, c)
    if type(v) is not Ite: return [(c, v)]
    out = {}
    def go(x, pc):
        if type(x) is Ite:
            a = node(x.var, 1, 0)
            h = AND(pc, a)
            if not is0(h): go(x.hi, h)
            l = AND(pc, NOT(a))
            if not is0(l): go(x.lo, l)
        else:
            k = _lk(x)
            if k in out: out[k] = (OR(out[k][0], pc), x)
            else: out[k] = (pc, x)
    go(v, c)
    return list(out.values())
def cubes(c, limit=4000):
    """satisfying cubes of a boolean gate as lists of (atom, value)"""
    out = []
    def go(x, path):
        if len(out) >= limit: return
        if type(x) is Ite:
            go(x.hi, path + [(x.var, 1)]); go(x.lo, path + [(x.var, 0)])
        elif x == 1: out.append(path)
    go(c, [])
    return out
_m_mask = {}
ALL = np.ones(M, bool); NONE = np.zeros(M, bool)
def mask(c):
    """witness points at which the gate holds"""
    if type(c) is not Ite: return ALL if c else NONE
    r = _m_mask.get(id(c))
    if r is None:
        m = atom_mask(c.var)
        r = (m & mask(c.hi)) | (~m & mask(c.lo))
        _m_mask[id(c)] = r
        _m_mask[('k', id(c))] = c
    return r
def feasible(c): return bool(mask(c).any())
def fval(v):
    """numeric values of a (gated) real/int value at the witness points; nan where not numeric"""
    if type(v) is Ite:
        m = atom_mask(v.var)
        return np.where(m, fval(v.hi), fval(v.lo))
    if isinstance(v, Num): return samp(v)
    if isinstance(v, int): return np.full(M, float(v))
    return np.full(M, np.nan)
def cond_text(c):
    cs = cubes(c, 3)
    if not cs: return 'never'
    return ' or '.join(' and '.join(atom_text(i, b) for i, b in p) or 'always' for p in cs[:2])

def _hpop(t, A):
    op = t.op
    if op == 'fn' and t.args[0] not in ('floor', 'ceil', 'trunc', 'round'): return mpmath.nan
    try:
        if op == '+': r = A[0] + A[1]
        elif op == '-': r = A[0] - A[1]
        elif op == '*': r = A[0] * A[1]
        elif op == '/': r = A[0] / A[1]
        elif op == 'neg': r = -A[0]
        elif op == 'pow': r = mpmath.power(A[0], A[1])
        elif op == 'fn': r = {'floor': mpmath.floor, 'ceil': mpmath.ceil, 'trunc': lambda x: mpmath.mpf(int(x)), 'round': lambda x: mpmath.floor(x + .5)}[t.args[0]](A[0])
        elif op == 'exp10': r = mpmath.power(10, A[0])
        elif op == 'exp2': r = mpmath.power(2, A[0])
        elif op == 'f32': r = A[0] * (1 + mpmath.mpf('1e-4') * mpmath.sin(mpmath.mpf('17.3') * A[0] + mpmath.mpf('1.1')))
        elif op == 'log2': r = mpmath.log(A[0], 2)
        else: r = getattr(mpmath, op)(*A)
        if isinstance(r, mpmath.mpc): r = mpmath.nan
    except (ZeroDivisionError, ValueError, OverflowError): r = mpmath.nan
    return r
_hpc = {}
def hp(n, i):
    """value of a term at witness point i with 120 digits"""
    if not isinstance(n, Num): return mpmath.mpf(n)
    st = [n]
    with mpmath.workdps(120):
        while st:
            t = st[-1]
            if (t.id, i) in _hpc: st.pop(); continue
            op = t.op
            if op in ('sym', 'const', 'fn') and not (op == 'fn' and t.args[0] in ('floor', 'ceil', 'trunc', 'round')):
                _hpc[t.id, i] = mpmath.mpf(str(t.v[0])) if is_const(t) else mpmath.mpf(float(samp(t)[i])); st.pop(); continue
            args = t.args[3:] if op == 'fn' else t.args
            todo = [a for a in args if (a.id, i) not in _hpc]
            if todo: st.extend(todo); continue
            st.pop()
            A = [_hpc[a.id, i] for a in args]
            r = _hpop(t, A)
            _hpc[t.id, i] = r
    return _hpc[n.id, i]
def hp_holds(c, i):
    """does the gate hold at witness point i"""
    while type(c) is Ite:
        a = _atoms[c.var]
        if a.kind == 'b': v = bool(a._m[i]) if a._m is not None else bool(atom_mask(c.var)[i])
        else:
            x = hp(a.p, i)
            if mpmath.isnan(x): return False
            v = x < 0 if a.kind == '<' else x == 0
        c = c.hi if v else c.lo
    return bool(c)
def confirm(c, a, b, tol, cand):
    """of the candidate witness points, those that satisfy c, and those at which a and b differ, in high precision"""
    n = bad = 0; ex = None
    for i in cand:
        if not hp_holds(c, i): continue
        x, y = hp(a, i), hp(b, i)
        if mpmath.isnan(x) or mpmath.isnan(y) or mpmath.isinf(x) or mpmath.isinf(y): continue
        n += 1
        m = max(abs(x), abs(y))
        if abs(x - y) > tol * m and abs(x - y) > 1e-60:
            bad += 1; ex = ex or (i, float(x), float(y))
    return n, bad, ex
def witness(c):
    """a witness point at which the gate holds, checked in high precision"""
    if type(c) is not Ite: return bool(c)
    idx = np.flatnonzero(mask(c))
    return any(hp_holds(c, int(i)) for i in idx[:24])
# ---------------------------------------------------------------- searched witnesses
def _leaf(t): return t.op in ('sym', 'fn') and not (t.op == 'fn' and t.args[0] in ('floor', 'ceil', 'trunc', 'round', 'div0')) and not (t.op == 'fn' and str(t.args[0]).startswith('nan_'))
def _terms(roots):
    """terms under the roots in order of evaluation, with applications of unknown functions as unknowns of their own"""
    out = []; seen = set(); st = [(r, 0) for r in roots]
    while st:
        t, done = st.pop()
        if done: out.append(t); continue
        if t.id in seen: continue
        seen.add(t.id); st.append((t, 1))
        if not _leaf(t) and not is_const(t): st += [(a, 0) for a in (t.args[3:] if t.op == 'fn' else t.args) if isinstance(a, Num)]
    return out
def _group(t):
    n = t.args[0]
    if t.op == 'fn': return 'fn:' + WIDE_FN.get(n, n) if isinstance(n, str) else str(t.id)
    return n[:-1] if n[-1:] in 'xyz' else n
def _draw(rs, t, n, ex, first=False):
    """values for an unknown: in its range, or of any magnitude (ex: decades)"""
    if t.op == 'sym': name, lo, hi, wide = t.args
    else: lo, hi = t.args[1:3]; wide = t.args[0] in WIDE_FN and t.args[0] != 'interp'
    r = lo + (hi - lo) * rs.rand(n)
    if wide == 'down' or (not wide and lo <= 0 <= hi): r = np.where(rs.rand(n) < .3, r * 10.0 ** -np.abs(ex), r)
    elif wide: r = r * 10.0 ** ex
    if t.op == 'sym' and (name[:2] == 'U#' or name == 'f'):     # and next to one
        r = np.where(rs.rand(n) < .15, 1 - 10.0 ** -(.5 + np.abs(ex) % 6), r)
    return r
def _evaluate(order, env):
    val = dict(env)
    for t in order:
        if t.id in val: continue
        if is_const(t): val[t.id] = np.full(1, float(t.v[0])); continue
        if t.op == 'fn':
            nm = t.args[0]; A = [val[a.id] for a in t.args[3:] if isinstance(a, Num)]
            if nm in ('floor', 'ceil', 'trunc'): r = getattr(np, nm)(A[0])
            elif nm == 'round': r = np.floor(A[0] + .5)
            else: r = np.full(1, np.nan)
        else: r = _apply(t.op, [val[a.id] for a in t.args])
        val[t.id] = r
    return val
_sought = {}
SEEK = {'calls': 0, 'found': 0}
def seek(c, limit=12, rounds=14, n=600):
    """values of the unknowns that satisfy a gate which no witness point satisfies, or None: a directed search on its cases"""
    if type(c) is not Ite: return {} if c else None
    k = id(c)
    if k in _sought: return _sought[k][0]
    SEEK['calls'] += 1
    r = None
    cs = cubes(c, 200); cs = [x for x in sorted(cs, key=len) if not _contradiction(x)][:limit]
    for cube in cs:
        r = _seek(cube, rounds, n)
        if r is not None: SEEK['found'] += 1; break
    _sought[k] = (r, c)
    return r
def _seek(cube, rounds, n):
    at = [(_atoms[i], v) for i, v in cube]
    env0 = {('b', a.idx): v for a, v in at if a.kind == 'b'}
    at = [(a, v) for a, v in at if a.kind != 'b']
    order = _terms([a.p for a, v in at]); ls = [t for t in order if _leaf(t) and not is_const(t)]
    rs = np.random.RandomState(_h(SEED, 'seek', tuple(sorted(a.idx for a, v in at))) % 2**32)
    gs = {}
    for t in ls: gs.setdefault(_group(t), []).append(t)
    # unknowns fixed by equations: inputs that equal a constant; events that need two computed values to be equal are not looked for
    subst = []
    def squares(p):
        if p.op == '+': 
            x, y = squares(p.args[0]), squares(p.args[1]); return x + y if x and y else None
        if p.op == '*' and p.args[0] is p.args[1] and p.args[0].op == 'sym': return [p.args[0]]
    for a, v in at:
        if a.kind == '=' and v:
            p = a.p; y = None; sg = 1.0
            if p.op in '-+' and len(p.args) == 2 and (is_const(p.args[0]) or is_const(p.args[1])):
                sg = 1.0 if p.op == '-' else -1.0
                p, y = p.args if is_const(p.args[1]) else p.args[::-1]
            z = [p] if p.op == 'sym' else squares(p) if y is None else None
            if not z or any('#' in str(t.args[0]) for t in z): return None
            subst += [(t, y, sg) for t in z]
    def fresh(m):
        env = {}
        for g, ts in gs.items():
            ex = (2 * rs.rand(m) - 1) * rs.choice([0, 1, 3, 8, 16], m)
            for t in ts: env[t.id] = _draw(rs, t, m, np.where(rs.rand(m) < .8, ex, ex * rs.rand(m)))
        return env
    def scored(env, m):
        for t, y, sg in subst:
            if y is None: x = np.zeros(m)
            else: x = sg * np.broadcast_to(_evaluate(_terms([y]), env)[y.id], (m,))
            if t.op == 'sym' and not (t.args[1] <= 0 <= t.args[2]) and not (t.args[3] and (np.sign(x) == np.sign(t.args[1])).all()):
                x = np.clip(x, t.args[1], t.args[2])
            env[t.id] = x
        val = _evaluate(order, env); sc = np.zeros(m)
        for a, v in at:
            p = np.broadcast_to(val[a.p.id], (m,))
            q = np.abs(p)
            if a.p.op in '-+' and len(a.p.args) == 2:
                x, y = [np.abs(np.broadcast_to(val[z.id], (m,))) for z in a.p.args]
                hi, lo = np.maximum(x, y), np.minimum(x, y)
                q = np.abs(np.log10(np.where(lo > 0, hi, 1) / np.where(lo > 0, lo, 1))) + 1e-3 + np.where(lo > 0, 0, 1)
                q = np.where(np.isfinite(q), q, 50)
            ok = (p < 0) == bool(v) if a.kind == '<' else (p == 0) == bool(v)
            sc = sc + np.where(np.isnan(p), 1e3, np.where(ok, 0, np.minimum(q, 1e3) + 1e-6))
        return sc
    env = fresh(n); sc = scored(env, n)
    ids = [t.id for t in ls]
    for k in range(rounds):
        if not len(sc): break
        good = np.flatnonzero(sc == 0)
        for i in good[:8]:
            e = {j: float(env[j][i]) for j in ids}; e.update(env0)
            if point_holds(cube, e): return e
        best = np.argsort(sc, kind='stable')[:30]
        pick = rs.choice(best, n - 60)
        new = {}
        dec = rs.choice([.02, .3, 1, 3], n - 60); which = rs.rand(len(gs), n - 60) < min(1.0, 2.0 / max(1, len(gs)))
        fr = fresh(n - 60)
        for (g, ts), w in zip(gs.items(), which):
            ex = rs.randn(n - 60) * dec
            for t in ts:
                x = env[t.id][pick]
                if t.op == 'sym': lo, hi, wide = t.args[1:]
                else: lo, hi = t.args[1:3]; wide = t.args[0] in WIDE_FN and t.args[0] != 'interp'
                if wide is True or wide == 1: y = x * 10.0 ** ex
                elif wide == 'down': y = np.minimum(x * 10.0 ** ex, np.maximum(x, hi))
                else: y = np.clip(x + (hi - lo) * rs.randn(n - 60) * dec / 6, lo, hi)
                new[t.id] = np.where(w, np.where(rs.rand(n - 60) < .15, fr[t.id], y), x)
        keep = best; f2 = fresh(30)
        env = {j: np.concatenate([env[j][keep], new[j], f2[j]]) for j in ids}
        sc = scored(env, n)
    return None
def at_point(t, env, memo):
    """a term with 120 digits at a point"""
    for x in _terms([t]):
        if x.id in memo: continue
        if is_const(x): memo[x.id] = mpmath.mpf(str(x.v[0])); continue
        if _leaf(x):
            if x.id not in env: env[x.id] = float(x.v[0])
            memo[x.id] = mpmath.mpf(env[x.id]); continue
        memo[x.id] = _hpop(x, [memo[a.id] for a in (x.args[3:] if x.op == 'fn' else x.args) if isinstance(a, Num)])
    return memo[t.id]
def point_holds(cube, env):
    memo = {}
    with mpmath.workdps(120):
        for i, v in cube:
            a = _atoms[i]
            if a.kind == 'b': continue
            x = at_point(a.p, env, memo)
            if mpmath.isnan(x) or bool(x < 0 if a.kind == '<' else x == 0) != bool(v): return False
    return True
def differs_at(a, b, env, tol):
    """the values of two terms at a point, if they differ"""
    memo = {}
    with mpmath.workdps(120):
        x, y = [at_point(t, env, memo) if isinstance(t, Num) else mpmath.mpf(t) for t in (a, b)]
        if mpmath.isnan(x) or mpmath.isnan(y) or mpmath.isinf(x) or mpmath.isinf(y): return None
        m = max(abs(x), abs(y))
        return (float(x), float(y)) if abs(x - y) > tol * m and abs(x - y) > 1e-60 else None
def possible(c):
    """some values of the unknowns satisfy the gate: a witness point, or one that is searched for"""
    return (feasible(c) and witness(c)) or seek(c) is not None
# ---------------------------------------------------------------- refutation of gates by signs and intervals
_bnd = {}
INF = float('inf')
def bounds(t, depth=60):
    """(low, high, nonzero) of a term for all values of its unknowns; draws are in [0, 1)"""
    r = _bnd.get(t.id)
    if r is None: r = _bnd[t.id] = _bounds(t, depth) if depth else (-INF, INF, False)
    return r
def _bounds(t, depth):
    ANY = (-INF, INF, False)
    if is_const(t): x = float(t.v[0]); return (x, x, x != 0)
    op = t.op
    if op == 'sym': return (0.0, 1.0, False) if _unit(t) else ANY
    if op == 'fn' or not t.args or not all(isinstance(a, Num) for a in t.args): return (0.0, INF, True) if op in ('exp', 'exp10', 'exp2') else ANY
    A = [bounds(a, depth - 1) for a in t.args]
    def prod(x, y): return 0.0 if x == 0 or y == 0 else x * y
    if op == '+': l, h = A[0][0] + A[1][0], A[0][1] + A[1][1]
    elif op == '-':
        l, h = A[0][0] - A[1][1], A[0][1] - A[1][0]
        if is_const(t.args[0]) and float(t.args[0].v[0]) == 1 and _unit(t.args[1]): return (l, h, True)
    elif op == 'neg': l, h = -A[0][1], -A[0][0]; return (l, h, A[0][2])
    elif op == '*':
        if t.args[0] is t.args[1]: return (0.0, max(prod(A[0][0], A[0][0]), prod(A[0][1], A[0][1])), A[0][2])
        c = [prod(x, y) for x in A[0][:2] for y in A[1][:2]]; l, h = min(c), max(c)
        return (l, h, A[0][2] and A[1][2])
    elif op == '/':
        (a, b, n), (c, d, _) = A
        if c >= 0: l, h = (0.0 if a >= 0 else -INF), (0.0 if b <= 0 else INF)
        elif d <= 0: l, h = (0.0 if b <= 0 else -INF), (0.0 if a >= 0 else INF)
        else: l, h = -INF, INF
        return (l, h, n)
    elif op == 'sqrt': return (max(A[0][0], 0.0) ** .5, INF if A[0][1] == INF else max(A[0][1], 0.0) ** .5, A[0][2])
    elif op in ('exp', 'exp10', 'exp2'): return (0.0, INF, True)
    elif op == 'pow': return (0.0, INF, A[0][2] and A[0][0] >= 0) if A[0][0] >= 0 else ANY
    elif op == 'fabs': return (0.0, INF, A[0][2])
    elif op == 'log': return (-INF if A[0][0] <= 1 else 0.0, 0.0 if A[0][1] <= 1 else INF, False)
    elif op in ('cos', 'sin', 'tanh'): return (-1.0, 1.0, False)
    else: return ANY
    # rounding of the bounds themselves
    if l != l or h != h: return ANY
    l, h = l - abs(l) * 1e-12, h + abs(h) * 1e-12
    return (l, h, l > 0 or h < 0)
def refuted(c, limit=400):
    """no values of the unknowns satisfy the gate: every case of it contradicts signs and intervals"""
    if type(c) is not Ite: return not c
    cs = cubes(c, limit + 1)
    return len(cs) <= limit and all(_contradiction(k) for k in cs)
def _contradiction(cube):
    box = {}
    for i, v in cube:
        a = _atoms[i]
        if a.kind == 'b': continue
        p = a.p; forms = [(p, 0.0, 1)]
        if p.op == '-' and is_const(p.args[1]): forms.append((p.args[0], float(p.args[1].v[0]), 1))
        if p.op == '-' and is_const(p.args[0]): forms.append((p.args[1], float(p.args[0].v[0]), -1))
        if p.op == '+' and is_const(p.args[1]): forms.append((p.args[0], -float(p.args[1].v[0]), 1))
        if p.op == '+' and is_const(p.args[0]): forms.append((p.args[1], -float(p.args[0].v[0]), 1))
        for t, k, s in forms:
            b = box.get(t.id)
            if b is None: l, h, n = bounds(t); b = box[t.id] = [l, h, False, False, {0.0} if n else set()]
            if a.kind == '=':
                if v: b[0], b[1] = max(b[0], k), min(b[1], k)
                else: b[4].add(k)
            elif (v and s > 0) or (not v and s < 0):       # t < k, or not (k - t < 0) i.e. t <= k
                if k < b[1]: b[1] = k; b[3] = bool(v)
                elif k == b[1]: b[3] = b[3] or bool(v)
            else:                                            # t >= k, or t > k
                if k > b[0]: b[0] = k; b[2] = bool(v)
                elif k == b[0]: b[2] = b[2] or bool(v)
    return any(l > h or (l == h and (ls or hs or l in ne)) for l, h, ls, hs, ne in box.values())
# ---------------------------------------------------------------- pointers etc.
class Ptr:
    __slots__ = ('obj', 'off', '_hash')
    def __init__(s, obj, off=0):
        s.obj = obj; s.off = off
    def __eq__(s, o): return type(o) is Ptr and s.obj is o.obj and (s.off is o.off or (type(s.off) is int and s.off == o.off))
    def __hash__(s): return hash((id(s.obj), s.off if type(s.off) is int else id(s.off)))
    def __repr__(s): return '&%s+%s' % (s.obj.name, s.off)
class Fn:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
    def __eq__(s, o): return type(o) is Fn and s.name == o.name
    def __hash__(s): return hash(('Fn', s.name))
    def __repr__(s): return 'fn:' + s.name
class Str:
    """contents of a string: tuple of pieces (python str or value)"""
    __slots__ = ('p',)
    def __init__(s, *p):
        q = []
        for x in p:
            if isinstance(x, Str): xs = x.p
            else: xs = (x,)
            for y in xs:
                if isinstance(y, str) and q and isinstance(q[-1], str): q[-1] += y
                elif y != '': q.append(y)
        s.p = tuple(q)
    def text(s):
        if not s.p: return ''
        return s.p[0] if len(s.p) == 1 and isinstance(s.p[0], str) else None
    def __eq__(s, o): return type(o) is Str and s.p == o.p
    def __hash__(s): return hash(('Str', s.p))
    def __repr__(s):
        return repr(''.join(x if isinstance(x, str) else '<%s>' % (x,) for x in s.p))
    def disp(s): return ''.join(x if isinstance(x, str) else '<%s>' % show(x) for x in s.p)
