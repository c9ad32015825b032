"""C26, C28, C31, C32: numerical tools."""
from common import *
from physics import loc_of, fault_free

def mat(w, xs):
    o = w.alloc('mat', 'stack', 72)
    for i, x in enumerate(xs): o.cells[8 * i] = (8, S(x))
    return Ptr(o)
def getmat(w, p, n=9): return [w.load(w.padd(p, 8 * i), F64) for i in range(n)]
def det3(a):
    return Sum(Mul(a[0], Sub(Mul(a[4], a[8]), Mul(a[5], a[7]))), Mul(-1, Mul(a[1], Sub(Mul(a[3], a[8]), Mul(a[5], a[6])))), Mul(a[2], Sub(Mul(a[3], a[7]), Mul(a[4], a[6]))))
def matmul(a, b): return [Sum(*[Mul(a[3 * i + k], b[3 * k + j]) for k in range(3)]) for i in range(3) for j in range(3)]
IDENT = [const(int(i == j)) for i in range(3) for j in range(3)]

def C28(ck):
    P = ck.prog(drivers=['vec']); ck.generic = True
    a, b = vsym('wa', wide=True), vsym('wb', wide=True); s = symbol('ws', -2.9, 2.9, True)
    H = 'Source/Tools/ThreeVector.hh'; HM = 'Source/Tools/ThreeMatrix.hh'
    w = W(P, ck)
    def run(f, *args, out=True):
        o = w.vec([symbol('junk' + c) for c in 'xyz'])
        av, bv = w.vec(a), w.vec(b)
        m = {'a': av, 'b': bv, 's': s}
        A = [m[x] if isinstance(x, str) else x for x in args]
        r = w.call(f, A + ([o] if out else []))
        same(ck, f + ': operands are not changed', w.getvec(av) + w.getvec(bv), a + b, loc=H)
        return w.getvec(o) if out else r
    el = lambda op, x, y: [op(p, q) for p, q in zip(x, y)]
    s3 = [s] * 3
    for f, args, want in (('v_add', 'ab', el(Add, a, b)), ('v_sub', 'ab', el(Sub, a, b)), ('v_mul', 'ab', el(Mul, a, b)), ('v_div', 'ab', el(Div, a, b)),
                          ('v_sadd', 'sb', el(Add, s3, b)), ('v_ssub', 'sb', el(Sub, s3, b)), ('v_smul', 'sb', el(Mul, s3, b)), ('v_sdiv', 'sb', el(Div, s3, b)),
                          ('v_adds', 'as', el(Add, a, s3)), ('v_subs', 'as', el(Sub, a, s3)), ('v_muls', 'as', el(Mul, a, s3)), ('v_divs', 'as', el(Div, a, s3)),
                          ('v_cross', 'ab', cross(a, b)), ('v_norm', 'a', unit(a)), ('v_dir', 'ab', unit(vsub(b, a))), ('v_copy', 'a', a)):
        same(ck, f, run(f, *args), want, loc=H)
    same(ck, 'v_dot', run('v_dot', 'a', 'b', out=False), dot(a, b), loc=H)
    same(ck, 'v_mag', run('v_mag', 'a', out=False), mag(a), loc=H); same(ck, 'v_mag2', run('v_mag2', 'a', out=False), dot(a, a), loc=H)
    o = w.vec(vsym('j')); w.call('v_new', [symbol('x'), symbol('y'), symbol('z'), o]); same(ck, 'constructor', w.getvec(o), [symbol(c) for c in 'xyz'], loc=H)
    o = w.vec(vsym('j')); w.call('v_zero', [o]); same(ck, 'default constructor', w.getvec(o), [const(0)] * 3, loc=H)
    o = w.vec(a); w.call('v_set', [o, s]); same(ck, 'indexed assignment', w.getvec(o), [s, Add(s, 1), Add(s, 2)], loc=H)
    o = mat(w, [0] * 9); w.call('v_read', [w.vec(a), o]); same(ck, 'indexed read', getmat(w, o, 3), a, loc=H)
    o = w.vec(a); w.call('v_self', [o]); same(ck, 'self assignment', w.getvec(o), a, loc=H)
    p, q = w.vec(vsym('j')), w.vec(vsym('k')); w.call('v_chain', [w.vec(a), p, q]); same(ck, 'chained assignment', w.getvec(p) + w.getvec(q), a + a, loc=H)
    # aliasing: the result overwrites an operand
    o = w.vec(a); w.call('v_cross', [o, w.vec(b), o]); same(ck, 'cross product into its own operand', w.getvec(o), cross(a, b), loc=H)
    # matrices
    A = [symbol('A%d' % i, -2.9, 2.9, True) for i in range(9)]; B = [symbol('B%d' % i, -2.9, 2.9, True) for i in range(9)]
    def mrun(f, *args):
        o = mat(w, [symbol('mj%d' % i) for i in range(9)]); w.call(f, list(args) + [o]); return getmat(w, o)
    same(ck, 'matrix sum', mrun('m_add', mat(w, A), mat(w, B)), el(Add, A, B), loc=HM)
    same(ck, 'matrix product', mrun('m_mul', mat(w, A), mat(w, B)), matmul(A, B), loc=HM)
    same(ck, 'matrix times scalar', mrun('m_muls', mat(w, A), s), [Mul(x, s) for x in A], loc=HM)
    same(ck, 'determinant', w.call('m_det', [mat(w, A)]), det3(A), loc=HM)
    inv = mrun('m_inv', mat(w, A))
    same(ck, 'inverse times matrix', matmul(inv, A), IDENT, loc=HM); same(ck, 'matrix times inverse', matmul(A, inv), IDENT, loc=HM)
    o = w.vec(vsym('j')); w.call('m_vec', [mat(w, A), w.vec(a), o]); same(ck, 'matrix times vector', w.getvec(o), [dot(A[3 * i:3 * i + 3], a) for i in range(3)], loc=H)
    same(ck, 'identity', mrun('m_ident'), IDENT, loc=HM); same(ck, 'zero matrix', mrun('m_zeros', mat(w, A)), [const(0)] * 9, loc=HM)
    same(ck, 'default matrix', mrun('m_default'), [const(0)] * 9, loc=HM); same(ck, 'matrix copies', mrun('m_copy', mat(w, A)), A, loc=HM)
    fault_free(ck, 'vector and matrix operations', w)
    # rotations
    a, b = dsym('a'), dsym('b')
    c = lambda *x: [const(str(v)) for v in x]
    cases = [('general', a, b), ('negative components', vmul(-1, a), vadd(b, c(-3, -4, 1))), ('parallel', a, vmul(symbol('k', 1.5, 3), a)), ('onto z', a, c(0, 0, 1)), ('from z', c(0, 0, 2), b),
             ('z onto -z', c(0, 0, 1), c(0, 0, -3)), ('-z onto z', c(0, 0, -2), c(0, 0, 1)), ('perpendicular', c(1, 0, 0), c(0, 2, 0)), ('nearly opposite', c('0.01', 0, -1), c(0, 0, 1)), ('same', c(0, 0, 1), c(0, 0, 5)),
             ('x onto -x', c(2, 0, 0), c(-1, 0, 0)), ('y onto -y', c(0, 1, 0), c(0, -4, 0)), ('oblique onto its opposite', c(2, 3, 6), c(-4, -6, -12)), ('opposite', a, vmul(symbol('ka', -3, -1.5), a))]
    for nm, p, q in cases:
        o = mat(w, [0] * 9); w.call('v_rotmat', [w.vec(p), w.vec(q), o]); R = getmat(w, o)
        RT = [R[3 * j + i] for i in range(3) for j in range(3)]
        same(ck, 'rotation %s: orthogonal' % nm, matmul(RT, R), IDENT, loc=H); same(ck, 'rotation %s: proper' % nm, det3(R), const(1), loc=H)
        same(ck, 'rotation %s: takes the first direction onto the second' % nm, [dot(R[3 * i:3 * i + 3], unit(p)) for i in range(3)], unit(q), loc=H)
        x = vsym('v'); o = w.vec(vsym('j')); w.call('v_rot', [w.vec(p), w.vec(q), w.vec(x), o])
        y = w.getvec(o); w.call('v_rotinv', [w.vec(p), w.vec(q), w.vec(y), o])
        same(ck, 'rotation %s: undone by its inverse' % nm, w.getvec(o), x, loc=H)
    fault_free(ck, 'rotations', w)
    ck.absorb(w)

# -------------------------------------------------------------------- C26
def points(n, gap=1.0):
    """sorted sample points with pairwise disjoint ranges, data, and a query over the whole axis and beyond"""
    xs = [symbol('x%d.%d' % (n, i), i * gap - 1.2, i * gap - 0.6) for i in range(n)]; ys = [symbol('y%d' % i, -2, 2) for i in range(n)]
    return xs, ys, symbol('query%d' % n, -2.7, n * gap - 0.7)
def array(w, xs, name='array'):
    o = w.alloc(name, 'heap', 8 * len(xs), 'new[]')
    for i, x in enumerate(xs): o.cells[8 * i] = (8, S(x))
    return Ptr(o)
def seg(xs, ys, i, q): return Add(ys[i], Mul(Sub(q, xs[i]), Div(Sub(ys[i + 1], ys[i]), Sub(xs[i + 1], xs[i]))))
def below(a, b): return amap(lambda x, y: lt0(sub(x, y)), S(a), S(b))
def many_points(ck):
    P = ck.prog()
    for n in (40, 257, 1000) + ((70001,) if ck.thorough else ()):
        w = W(P, ck); w.loop_bound = 10 ** 7; xs = [const(repr(i * .5 - 20)) for i in range(n)]; ys = [const((7 * i * i) % 101) for i in range(n)]; px, py = array(w, xs, 'points'), array(w, ys, 'data')
        for i in sorted({0, 1, 17, 38, 127, 128, 255, n // 2, n - 3, n - 2}):
            if not 0 <= i < n - 1: continue
            for fr in ('0.1', '0.4'):
                q = Add(xs[i], const(fr)); nm = '%d points, query %s after sample %d' % (n, fr, i)
                same(ck, nm + ': interpolation', w.static('Numerics::Interpolate1D', px, py, n, q), Add(ys[i], Mul(Div(const(fr), const('0.5')), Sub(ys[i + 1], ys[i]))), loc=loc_of(ck, 'Numerics::Interpolate1D'))
                same(ck, nm + ': nearest', w.static('Numerics::ArrayIndex', px, n, q), i + (fr == '0.4'), loc=loc_of(ck, 'Numerics::ArrayIndex'))
                lo = w.alloc('low', 'stack', 4); fr_ = w.alloc('frac', 'stack', 8); w.static('Numerics::ClosestPoints', px, n, q, Ptr(lo), Ptr(fr_))
                same(ck, nm + ': interval', w.load(Ptr(lo), ('i', 32)), i, loc=loc_of(ck, 'Numerics::ClosestPoints')); same(ck, nm + ': place in the interval', w.load(Ptr(fr_), F64), Div(const(fr), const('0.5')), loc=loc_of(ck, 'Numerics::ClosestPoints'))
        never(ck, '%d points: all searches answer' % n, NOT(w.pc), why='stops'); fault_free(ck, '%d points' % n, w); ck.absorb(w)
def C26(ck):
    narrow(ck, 'Numerics.cpp')
    P = ck.prog(); ck.generic = True; many_points(ck)
    for n in ([2, 3, 4, 5, 7] if not ck.thorough else list(range(2, 13))):
        L = loc_of(ck, 'Numerics::Interpolate1D')
        xs, ys, q = points(n); w = W(P, ck)
        px, py = array(w, xs, 'points'), array(w, ys, 'data')
        v = w.static('Numerics::Interpolate1D', px, py, n, q)
        for i in range(n - 1):
            inside = 1
            if i > 0: inside = AND(inside, NOT(below(q, xs[i])))
            if i < n - 2: inside = AND(inside, below(q, xs[i + 1]))
            same(ck, 'interpolation over %d points, interval %d' % (n, i), v, seg(xs, ys, i, q), inside, L)
        same(ck, 'interpolation over %d points: samples unchanged' % n, [w.load(w.padd(px, 8 * i), F64) for i in range(n)] + [w.load(w.padd(py, 8 * i), F64) for i in range(n)], xs + ys, loc=L)
        for i in range(n):
            v = w.static('Numerics::Interpolate1D', px, py, n, xs[i])
            same(ck, 'interpolation over %d points at sample %d' % (n, i), v, ys[i], loc=L)
        fault_free(ck, 'interpolation over %d points' % n, w); ck.absorb(w)
        never(ck, 'interpolation over %d points always answers' % n, NOT(w.pc), loc=L, why='stops')
        # nearest sample
        L = loc_of(ck, 'Numerics::ArrayIndex'); w = W(P, ck); px = array(w, xs, 'points')
        r = w.static('Numerics::ArrayIndex', px, n, q)
        for i in range(n):
            near = 1
            for j in range(n):
                if j != i:
                    # |q - x_i| < |q - x_j|  <=>  q on the near side of the midpoint
                    mid = Mul('0.5', Add(xs[i], xs[j])); near = AND(near, below(q, mid) if j > i else below(mid, q))
            for c, x in leaves(r, near):
                if x != i: never(ck, 'nearest of %d samples is %d' % (n, i), c, loc=L, why='index %s' % (x,))
            ck.obligation('nearest of %d samples is %d' % (n, i), None)
        fault_free(ck, 'nearest of %d samples' % n, w); ck.absorb(w)
        # interval search
        L = loc_of(ck, 'Numerics::ClosestPoints'); w = W(P, ck); px = array(w, xs, 'points')
        lo = w.alloc('low', 'stack', 4); fr = w.alloc('frac', 'stack', 8)
        w.static('Numerics::ClosestPoints', px, n, q, Ptr(lo), Ptr(fr))
        beyond = below(xs[n - 1], q)
        never(ck, 'interval search over %d points stops beyond the table' % n, AND(w.pc, beyond), loc=L, why='no stop')
        never(ck, 'interval search over %d points answers inside the table' % n, AND(NOT(w.pc), below(q, xs[n - 1])), loc=L, why='stops')
        end = w.pc; I = w.load(Ptr(lo), ('i', 32)); Fr = w.load(Ptr(fr), F64)
        for i in range(n - 1):
            c = AND(end, below(q, xs[i + 1]))
            if i > 0: c = AND(c, below(xs[i], q))
            same(ck, 'interval search over %d points, interval %d: index' % (n, i), I, i, c, L)
            same(ck, 'interval search over %d points, interval %d: position' % (n, i), Fr, Div(Sub(q, xs[i]), Sub(xs[i + 1], xs[i])), c, L)
        codes = [e for e in w.events if e.kind == 'exit']
        fault_free(ck, 'interval search over %d points' % n, w); ck.absorb(w)

# -------------------------------------------------------------------- C32
def stdvec(w, xs, name='vector'):
    o = w.alloc(name, 'stack', 24); d = array(w, xs, name + ' data')
    w.store(Ptr(o), PTR, d); w.store(Ptr(o, 8), PTR, w.padd(d, 8 * len(xs))); w.store(Ptr(o, 16), PTR, w.padd(d, 8 * len(xs)))
    return Ptr(o)
def C32(ck):
    P = ck.prog(); L = None
    for n in ([3, 5, 7, 9, 15, 201] if not ck.thorough else list(range(3, 42, 2))):
        w = W(P, ck); x0, h = symbol('x0'), symbol('h'); L = loc_of(ck, 'Numerics::SimpsonsRule')
        ax = [Add(x0, Mul(i, h)) for i in range(n)]; ys = [symbol('f%d' % i) for i in range(n)]
        a, b = stdvec(w, ax, 'axis'), stdvec(w, ys, 'integrand')
        reads = {}
        data = w.load(b, PTR).obj
        def rec(m, obj, off, sz, rw):
            if obj is data: reads[(off, rw)] = reads.get((off, rw), 0) + 1
        w.rec = rec
        v = w.static('Numerics::SimpsonsRule', a, b)
        w.rec = None
        want = Mul(Div(h, 3), Sum(*[Mul(1 if i in (0, n - 1) else (4 if i % 2 else 2), ys[i]) for i in range(n)]))
        same(ck, 'integral over %d points' % n, v, want, loc=L)
        bad = [i for i in range(n) if reads.get((8 * i, 'r'), 0) != 1]
        ck.obligation('integral over %d points reads every sample once' % n, 'sample(s) %s read %s times' % (bad, [reads.get((8 * i, 'r'), 0) for i in bad]) if bad else None, loc=L)
        ck.obligation('integral over %d points writes no sample' % n, 'sample written' if any(rw == 'w' for _, rw in reads) else None, loc=L)
        fault_free(ck, 'integral over %d points' % n, w); ck.absorb(w)

# -------------------------------------------------------------------- C31
def C31(ck):
    narrow(ck, 'MCTools.cpp')
    P = ck.prog(); ck.generic = True; a, sig, mean = symbol('a', -2.9, 2.9, True), symbol('sig', .4, 2.9, True), symbol('mean', .4, 2.9, True); b = Add(a, symbol('width', .4, 2.9, True))
    w = W(P, ck); engines = set(); w.static('MCTools::RandDouble', a, b)
    up = b
    def draws(f, *args):
        w.events.clear()
        r = w.static(f, *args)
        ds = [e for e in w.events if e.kind == 'draw']; other = [e for e in w.events if e.kind in ('engine-draw', 'libc-rand', 'engine-init')]
        L = loc_of(ck, f)
        ck.obligation(f + ': draws only from a distribution', 'raw engine use (%s)' % other[0].kind if other else None, loc=L)
        for e in ds:
            for q in ([e.data['engine']] if type(e.data['engine']) is Ptr else []): engines.add((q.obj.name, q.off))
        return r, ds, L
    def par(nm, e, dist, lo, hi, L):
        ck.obligation(nm + ': distribution', None if e.data['dist'] == dist else 'is ' + e.data['dist'], loc=L)
        same(ck, nm + ': first parameter', e.data['a'], lo, loc=L)
        if hi is not None: same(ck, nm + ': second parameter', e.data['b'], hi, loc=L)
    for f, dist, b in (('MCTools::RandDouble', 'uniform_real', b), ('MCTools::RandNorm', 'normal', sig)):
        seen = set()
        for rep in range(3):
            r, ds, L = draws(f, a, b)
            nm = '%s, call %d' % (f, rep + 1)
            ck.obligation(nm + ': one draw', None if len(ds) == 1 else '%d draws' % len(ds), loc=L)
            if ds:
                par(nm, ds[0], dist, a, b, L); same(ck, nm + ': returns the draw', r, ds[0].data['val'], loc=L)
                ck.obligation(nm + ': new draw', 'repeats an earlier draw' if ds[0].data['sym'] in seen else None, loc=L); seen.add(ds[0].data['sym'])
    if P.bydem_base('MCTools::RandPoisson'):
        r, ds, L = draws('MCTools::RandPoisson', mean)
        ck.obligation('RandPoisson: one draw', None if len(ds) == 1 else '%d draws' % len(ds), loc=L)
        if ds: par('RandPoisson', ds[0], 'poisson', mean, None, L); same(ck, 'RandPoisson: returns the draw', r, ds[0].data['val'], loc=L)
    for f, dist, b in (('MCTools::SampleUniform', 'uniform_real', up), ('MCTools::SampleNorm', 'normal', sig)):
        for n in ([0, 1, 2, 5] if not ck.thorough else range(0, 40)):
            r, ds, L = draws(f, a, b, n); nm = '%s of %d' % (f, n)
            same(ck, nm + ': length', w.vsize(r, 8), n, loc=L)
            ck.obligation(nm + ': one draw per entry', None if len(ds) == n else '%d draws' % len(ds), loc=L)
            if len(ds) != n: continue
            got = [w.load(w.padd(w.vdata(r), 8 * i), F64) for i in range(n)]
            ids = set()
            for i, g in enumerate(got):
                hit = [k for k, e in enumerate(ds) if matches(g, e.data['val'])]
                ck.obligation('%s: entry %d is a draw of its own' % (nm, i), None if hit and hit[0] not in ids else 'is %s' % show(g), loc=L)
                if hit: ids.add(hit[0]); par('%s: entry %d' % (nm, i), ds[hit[0]], dist, a, b, L)
    for n in ([1, 2, 3, 5] if not ck.thorough else range(1, 14)):
        ps = [symbol('p%d' % i, .2, 1) for i in range(n)]
        r, ds, L = draws('MCTools::RandDiscrete', stdvec(w, ps)); nm = 'RandDiscrete over %d' % n
        ck.obligation(nm + ': one draw', None if len(ds) == 1 else '%d draws' % len(ds), loc=L)
        if not ds: continue
        tot = Sum(*ps); u = ds[0]
        par(nm, u, 'uniform_real', const(0), tot, L)
        lo = const(0)
        for i in range(n):
            hi = Add(lo, ps[i])
            c = below(u.data['val'], hi) if i == 0 else AND(below(lo, u.data['val']), below(u.data['val'], hi))
            if n == 1: c = 1
            same(ck, '%s: entry %d in proportion to its probability' % (nm, i), r, i, c, L)
            if n > 1 and not feasible(c): ck.undec(nm, 'no witness for entry %d' % i)
            lo = hi
    ck.obligation('all draws use one generator', None if len(engines) == 1 else 'generators %s' % sorted(engines), loc=loc_of(ck, 'MCTools::RandDouble'))
    fault_free(ck, 'random draws', w); ck.absorb(w)
    # every generator object of the repository is seeded once, when it is created, and belongs to its thread
    for mod in P.mods.values():
        for g, d in mod.globals.items():
            if 'mersenne_twister' in d or 'linear_congruential' in d:
                if g.endswith('generatorE') or 'generator' in g:
                    ck.obligation('generator %s of %s is thread local' % (g, os.path.basename(str(getattr(mod, 'name', '')))), None if 'thread_local' in d else 'shared between threads')
