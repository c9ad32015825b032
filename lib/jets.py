"""Derivatives of value numbers: the gradient of a term with respect to some of its symbols, by the chain rule over the term,
evaluated at the points that also identify value numbers (no rounding to the precision of the value numbers)."""
import mpmath
from vals import *
import vals
mp = mpmath.mp
class NoDerivative(Exception): pass
def num(x, dps):
    with mpmath.workdps(dps): return mpmath.mpf(str(x))
def gradient(terms, wrt, point, dps=60, shift=None):
    """[(value, [derivative for each symbol of wrt]) for each term] at the given one of the K points, the symbols of wrt moved by shift"""
    memo = {}; n = len(wrt); index = {w.id: i for i, w in enumerate(wrt)}
    def atom(i):
        a = vals._atoms[i]
        if a.kind == 'b': raise NoDerivative('gate ' + a.name)
        v = ev(a.p)[0]
        return v < 0 if a.kind == '<' else v == 0
    def ev(t):
        while type(t) is Ite: t = t.hi if atom(t.var) else t.lo
        if type(t) is int: return mpmath.mpf(t), [0] * n
        if type(t) is not Num: raise NoDerivative(repr(t))
        r = memo.get(t.id)
        if r is not None: return r
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo: stack.pop(); continue
            kids = () if x.op in ('sym', 'const') or is_const(x) else x.args[3:] if x.op == 'fn' else x.args
            todo = []
            for a in kids:
                while type(a) is Ite: a = a.hi if atom(a.var) else a.lo
                if isinstance(a, Num) and a.id not in memo: todo.append(a)
            if todo: stack.extend(todo); continue
            stack.pop(); memo[x.id] = one(x)
        return memo[t.id]
    def one(x):
        if x.id in index:
            d = [0] * n; d[index[x.id]] = mpmath.mpf(1); return mpmath.mpf(str(x.v[point])) + (shift[index[x.id]] if shift else 0), d
        if is_const(x) or x.op in ('sym', 'const'): return mpmath.mpf(str(x.v[point])), [0] * n
        op = x.op
        if op == 'fn': raise NoDerivative(x.args[0])
        A = [ev(a) for a in x.args]; a, da = A[0]
        if len(A) == 2:
            b, db = A[1]
            if op == '+': return a + b, [p + q for p, q in zip(da, db)]
            if op == '-': return a - b, [p - q for p, q in zip(da, db)]
            if op == '*': return a * b, [p * b + a * q for p, q in zip(da, db)]
            if op == '/': v = a / b; return v, [(p - v * q) / b for p, q in zip(da, db)]
            if op == 'pow':
                v = a ** int(b) if b == int(b) else a ** b
                fa = (b * a ** (int(b) - 1) if b == int(b) else v * b / a) if b != 0 else 0
                return v, [fa * p + (v * mpmath.log(a) * q if q else 0) for p, q in zip(da, db)]
            if op == 'atan2': s = a * a + b * b; return mpmath.atan2(a, b), [(b * p - a * q) / s for p, q in zip(da, db)]
            raise NoDerivative(op)
        F = {'neg': lambda: (-a, -1), 'sqrt': lambda: (mpmath.sqrt(a), 1 / (2 * mpmath.sqrt(a)) if any(da) else 0), 'exp': lambda: (mpmath.exp(a),) * 2, 'log': lambda: (mpmath.log(a), 1 / a),
             'sin': lambda: (mpmath.sin(a), mpmath.cos(a)), 'cos': lambda: (mpmath.cos(a), -mpmath.sin(a)), 'tan': lambda: (mpmath.tan(a), 1 + mpmath.tan(a) ** 2),
             'atan': lambda: (mpmath.atan(a), 1 / (1 + a * a)), 'asin': lambda: (mpmath.asin(a), 1 / mpmath.sqrt(1 - a * a)), 'acos': lambda: (mpmath.acos(a), -1 / mpmath.sqrt(1 - a * a)),
             'sinh': lambda: (mpmath.sinh(a), mpmath.cosh(a)), 'cosh': lambda: (mpmath.cosh(a), mpmath.sinh(a)), 'tanh': lambda: (mpmath.tanh(a), 1 - mpmath.tanh(a) ** 2)}.get(op)
        if F is None: raise NoDerivative(op)
        v, f = F()
        return v, [f * p for p in da]
    with mpmath.workdps(dps): return [ev(t) for t in terms]
def dalembert(terms, wrt, point, dps=60):
    """sum of the second derivatives by the last three symbols minus that by the first (second derivatives: difference quotients of the gradient, exact to 30 digits)"""
    h = mpmath.mpf(10) ** -18; out = [0] * len(terms); size = 0
    with mpmath.workdps(dps):
        for i in range(4):
            s = [h if j == i else 0 for j in range(4)]
            a, b = gradient(terms, wrt, point, dps, s), gradient(terms, wrt, point, dps, [-x for x in s])
            for k in range(len(terms)):
                d2 = (a[k][1][i] - b[k][1][i]) / (2 * h); out[k] += d2 if i else -d2; size = max(size, abs(d2))
    return out, size
