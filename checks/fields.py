"""C11, C12: electromagnetic fields."""
from common import *
from physics import loc_of, fault_free

PIC = const('3.14159265358979323846264338327950288')
LASERS = ['PlaneEMField', 'GaussianEMField', 'FocusingField']
def Cos(x): return Fn1('cos', x)
def Sin(x): return Fn1('sin', x)
def Exp(x): return Fn1('exp', x)
def rot_about(n, psi, v):
    """rotation of v by psi about the unit vector n"""
    return vadd(vmul(Cos(psi), v), vmul(Sin(psi), cross(n, v)), vmul(Mul(dot(n, v), Sub(1, Cos(psi))), n))
def from_pulse(n, v, anti=False):
    """local pulse frame -> laboratory: inverse of the minimal rotation of n onto z"""
    if anti: return [neg(S(v[0])) if type(S(v[0])) is Num else Mul(-1, v[0]), S(v[1]), Mul(-1, v[2])]
    z = [const(0), const(0), const(1)]; s = cross(z, n); sv = cross(s, v)
    return vadd(v, sv, vmul(Div(1, Add(1, n[2])), cross(s, sv)))
class F: pass
def make(ck, cls, n=None, anti=False, **kw):
    """a laser field travelling along n (unit), with its parameters as symbols"""
    r = F(); w = r.w = W(ck.prog(), ck); r.cls = cls; r.anti = anti
    r.A = kw.get('A', symbol('maxE', wide=True)); r.lam = kw.get('lam', symbol('lambda', 2, 5, wide=True)); r.psi = kw.get('psi', symbol('psi', -7, 7))
    r.tau = kw.get('tau', symbol('tau', 2, 4, wide=True)); r.w0 = kw.get('w0', symbol('waist', 2, 4, wide=True))
    r.k = Div(Mul(2, PIC), r.lam)
    if cls == 'PlaneEMField':
        d = n or dsym('dir'); r.n = unit(d); r.focus = [const(0)] * 3; r.t0 = const(0)
        r.f = w.new(cls, r.A, r.lam, r.psi, w.vec(d))
    else:
        r.focus = dsym('focus')
        if n: r.L = symbol('L', 1, 2, wide=True); r.start = vsub(r.focus, vmul(r.L, unit(n))); r.n = unit(n)
        else: r.start = [symbol('startx', -2, -.5, True), symbol('starty', -2, -.5, True), symbol('startz', -2, -.5)]; r.n = unit(vsub(r.focus, r.start)); r.L = mag(vsub(r.focus, r.start))
        r.t0 = r.L
        r.f = w.new(cls, r.A, r.lam, r.tau, r.w0, r.psi, w.vec(r.start), w.vec(r.focus))
    return r
def get(r, t, x):
    w = r.w; E = w.vec([symbol('junkE' + c) for c in 'xyz']); B = w.vec([symbol('junkB' + c) for c in 'xyz'])
    w.m(r.f, 'GetField', S(t), w.vec(x), E, B)
    return w.getvec(E), w.getvec(B)
def zero_when(vs):
    """condition under which every component is the constant zero"""
    c = 1
    for v in vs:
        z = 0
        for k, x in leaves(v):
            if type(x) is Num and is_const(x) and x.v[0] == 0: z = OR(z, k)
        c = AND(c, z)
    return c
DIRS = [('symbolic direction', None, False), ('along z', ['0', '0', '1'], False), ('against z', ['0', '0', '-1'], True), ('along x', ['1', '0', '0'], False),
        ('along -y', ['0', '-1', '0'], False), ('obliquely backwards', ['0.36', '0.48', '-0.8'], False)]
def dirs(): return [(a, [const(x) for x in b] if b else None, c) for a, b, c in DIRS]

def C11(ck):
    ck.prog(); ck.generic = True
    x = vsym('r', wide=True); t = symbol('t', -2.9, 2.9, wide=True)
    for cls in LASERS:
        L = loc_of(ck, cls + '::GetField')
        for dn, n, anti in dirs():
            nm = '%s %s' % (cls, dn)
            r = make(ck, cls, n, anti); e, b = get(r, t, x)
            r0 = make(ck, cls, n, anti, psi=const(0)); e0, b0 = get(r0, t, vadd(r.focus, rot_about(r.n, Mul(-1, r.psi), vsub(x, r.focus))))
            ok = 1
            if cls == 'FocusingField':
                z = zero_when(e + b); ok = AND(NOT(z), NOT(zero_when(e0 + b0)))
                ax = from_pulse(r.n, [Cos(r.psi), Sin(r.psi), const(0)], anti)
                same(ck, nm + ': B has no transverse component along the electric axis', dot(b, ax), const(0), ok, L)
                ck.obligation(nm + ': a field is found', 'field is zero everywhere' if is1(z) else None, loc=L)
            else:
                same(ck, nm + ': E perpendicular to B', dot(e, b), const(0), 1, L)
                same(ck, nm + ': E perpendicular to the direction of propagation', dot(e, r.n), const(0), 1, L)
                same(ck, nm + ': E and B equally strong', dot(b, b), dot(e, e), 1, L)
                same(ck, nm + ': E x B along the direction of propagation', cross(e, b), vmul(dot(e, e), r.n), 1, L)
                ax = from_pulse(r.n, [Cos(r.psi), Sin(r.psi), const(0)], anti)
                same(ck, nm + ': E along the polarisation axis rotated out of the pulse frame', cross(e, ax), [const(0)] * 3, 1, L)
            # the angle rotates the whole pattern of both fields about n
            same(ck, nm + ': the polarisation angle rotates E', e, rot_about(r.n, r.psi, e0), ok, L)
            same(ck, nm + ': the polarisation angle rotates B', b, rot_about(r.n, r.psi, b0), ok, L)
            fault_free(ck, nm, r.w)
            ck.absorb(r.w); ck.absorb(r0.w)
            if cls == 'FocusingField':
                # the local field components follow from those of the pulse travelling along z
                y = vsub(x, r.focus) if False else x
                rz = make(ck, cls, [const(0), const(0), const(1)]); loc = vsym('loc')
                # observation point with the same pulse-frame coordinates
                ez, bz = get(rz, t, vadd(rz.focus, loc))
                el, bl = get(r, t, vadd(r.focus, from_pulse(r.n, loc, anti)))
                if n is None: # travel time differs: same distance start-focus is needed
                    rz = make(ck, cls, [const(0), const(0), const(1)]); rz.w = W(ck.prog(), ck)
                    rz.f = rz.w.new(cls, rz.A, rz.lam, rz.tau, rz.w0, rz.psi, rz.w.vec(vsub(r.focus, [const(0), const(0), r.L])), rz.w.vec(r.focus))
                    ez, bz = get(rz, t, vadd(r.focus, loc))
                g = AND(NOT(zero_when(ez + bz)), NOT(zero_when(el + bl)))
                same(ck, nm + ': E is the local field rotated into the laboratory', el, from_pulse(r.n, ez, anti), g, L)
                same(ck, nm + ': B is the local field rotated into the laboratory', bl, from_pulse(r.n, bz, anti), g, L)
                ck.absorb(rz.w)
    w = W(ck.prog(), ck); E, B = vsym('E0'), vsym('B0')
    f = w.new('StaticEMField', w.vec(E), w.vec(B)); r = F(); r.w = w; r.f = f
    for i in range(3):
        e, b = get(r, symbol('t%d' % i), vsym('r%d' % i))
        same(ck, 'static E, point %d' % i, e, E, loc=loc_of(ck, 'StaticEMField::GetField')); same(ck, 'static B, point %d' % i, b, B, loc=loc_of(ck, 'StaticEMField::GetField'))
    ck.absorb(w)

def asked_before(ck, cls):
    """the field at a point and time is that of the point and time, whatever was asked before, from this field or another one of its class"""
    L = loc_of(ck, cls + '::GetField'); t, t2 = symbol('t', -2.9, 2.9, wide=True), symbol('t2', -2.9, 2.9, wide=True); x, y = vsym('r', wide=True), vsym('r2', wide=True)
    def new(**kw):
        if cls != 'StaticEMField': return make(ck, cls, **kw)
        r = F(); r.w = W(ck.prog(), ck); tag = 'o' if kw else ''; r.f = r.w.new(cls, r.w.vec(vsym(tag + 'E0')), r.w.vec(vsym(tag + 'B0'))); return r
    r = new(); e0, b0 = get(r, t, x); ck.absorb(r.w)
    for nm, tt, xx in (('another point and time', t2, y), ('another point at the same time', t, y), ('the same point at another time', t2, x), ('a point beside it', t, [y[0], y[1], x[2]]), ('a point behind it', t2, [x[0], x[1], y[2]])):
        for other in (False, True):
            r = new()
            if other:
                q = F(); q.w = r.w
                if cls == 'StaticEMField': q.f = r.w.new(cls, r.w.vec(vsym('oE0')), r.w.vec(vsym('oB0')))
                elif cls == 'PlaneEMField': q.f = r.w.new(cls, symbol('oA'), symbol('olambda', 2, 5), symbol('opsi', -7, 7), r.w.vec(dsym('odir')))
                else: q.f = r.w.new(cls, symbol('oA'), symbol('olambda', 2, 5), symbol('otau', 2, 4), symbol('owaist', 2, 4), symbol('opsi', -7, 7), r.w.vec(vsym('ostart', -2, -.5)), r.w.vec(dsym('ofocus')))
                get(q, tt, xx); get(q, t, x)
            else: get(r, tt, xx)
            e, b = get(r, t, x); s = '%s after %s of %s' % (cls, nm, 'another field' if other else 'the same field')
            same(ck, s + ': E', e, e0, 1, L); same(ck, s + ': B', b, b0, 1, L); ck.absorb(r.w)

def C12(ck):
    ck.prog(); ck.generic = True
    for cls in LASERS: asked_before(ck, cls)
    x = vsym('r', wide=True); t = symbol('t', -2.9, 2.9, wide=True); s = symbol('s', .3, 1.2); d = symbol('delta', .3, .9)
    big = const('1e12')
    for cls in LASERS:
        L = loc_of(ck, cls + '::GetField')
        pulse = cls != 'PlaneEMField'
        for dn, n, anti in dirs():
            nm = '%s %s' % (cls, dn)
            # travelling: in the plane wave limit (wide, long pulse) the field is a function of t - n.r
            kw = dict(w0=big) if pulse else {}
            r = make(ck, cls, n, anti, **kw)
            a0, b0 = get(r, t, x); a1, b1 = get(r, Add(t, s), vadd(x, vmul(s, r.n)))
            ok = NOT(OR(zero_when(a0 + b0), zero_when(a1 + b1))) if cls == 'FocusingField' else 1
            same(ck, nm + ': E moves along the direction of propagation at the speed of light', a1, a0, ok, L)
            same(ck, nm + ': B moves along the direction of propagation at the speed of light', b1, b0, ok, L)
            ck.absorb(r.w)
            # carrier and envelope in time at a fixed point
            r = make(ck, cls, n, anti)
            zl = dot(vsub(x, r.focus), r.n)
            def env(tt):
                if not pulse: return const(1)
                u = Div(Sub(Sub(tt, r.t0), zl), r.tau); return Exp(Mul(-1, Mul(u, u)))
            tp, tm = Add(t, d), Sub(t, d)
            F0, Fp, Fm = [get(r, q, x) for q in (t, tp, tm)]
            ok = 1
            if cls == 'FocusingField':
                for q in (F0, Fp, Fm): ok = AND(ok, NOT(zero_when(q[0] + q[1])))
            for i, q in enumerate('EB'):
                u = [vmul(Div(1, env(y)), f[i]) for y, f in ((t, F0), (tp, Fp), (tm, Fm))]
                same(ck, '%s: carrier frequency and envelope of %s in time' % (nm, q), vadd(u[1], u[2]), vmul(Mul(2, Cos(Mul(r.k, d))), u[0]), ok, L)
            # amplitude: square sum of two quadratures
            ck.absorb(r.w)
            if cls != 'FocusingField':
                rl = vsub(x, r.focus); r2 = Sub(dot(rl, rl), Mul(zl, zl)); zr = Div(Mul(PIC, Mul(r.w0, r.w0)), r.lam)
                quad = quadratures(r, x, t, Div(r.lam, 4), env)
                amp2 = Mul(r.A, r.A)
                if pulse: zz = Div(zl, zr); amp2 = shape2(r, zz, r2)
                for i, q in enumerate('EB'):
                    same(ck, '%s: amplitude of %s is the configured maximum times the pulse shape' % (nm, q), quad[i], amp2, 1, L)
                continue
            # leading order in eps = 1/(k w0)*2: the transverse field is a polynomial of degree 2 in eps^2 at fixed position in units of
            # the spot radius and the Rayleigh length; extrapolate its square, of degree 4, from five values of eps^2 to zero
            us = ['0.1', '0.2', '0.3', '0.4', '0.5']; tot = [const(0)] * 2; ok = 1
            zeta = symbol('zeta', .3, 1.2); px, py = symbol('px', .5, 2), symbol('py', .5, 2)
            for j, u in enumerate(us):
                w0 = symbol('waist', 2, 4); lam = Prod(Sqrt(u), PIC, w0)
                r = make(ck, cls, n, anti, lam=lam, w0=w0, tau=symbol('tau', 20, 40))
                zl = Mul(zeta, Div(Mul(PIC, Mul(w0, w0)), lam)); xx = vadd(r.focus, from_pulse(r.n, [px, py, zl], anti))
                def env(tt):
                    v = Div(Sub(Sub(tt, r.t0), zl), r.tau); return Exp(Mul(-1, Mul(v, v)))
                quad = quadratures(r, xx, t, Div(lam, 4), env, r.n); ok = AND(ok, quad[2])
                c = 1.0
                for k, v in enumerate(us):
                    if k != j: c *= float(v) / (float(v) - float(u))
                c = const(repr(round(c, 9)))
                tot = [Add(tot[i], Mul(c, quad[i])) for i in (0, 1)]
                ck.absorb(r.w)
            amp2 = shape2(r, zeta, Add(Mul(px, px), Mul(py, py)))
            for i, q in enumerate('EB'):
                same(ck, '%s: amplitude of %s at leading order is the configured maximum times the pulse shape' % (nm, q), tot[i], amp2, ok, L)
            r = make(ck, cls, n, anti, A=symbol('peak')); zl = dot(vsub(x, r.focus), r.n); rl = vsub(x, r.focus); r2 = Sub(dot(rl, rl), Mul(zl, zl))
            e, b = get(r, t, x); v = Div(Sub(Sub(t, r.t0), zl), r.tau)
            z = zero_when(e + b)
            E0 = Mul(Sqrt(shape2(r, Div(zl, Div(Mul(PIC, Mul(r.w0, r.w0)), r.lam)), r2)), Exp(Mul(-1, Mul(v, v))))
            never(ck, nm + ': the field is not cut off above 1e-9 of its maximum', AND(z, NOT(amap(lt0, Sub(E0, Mul(r.A, '1e-9'))))), loc=L, why='field cut off')
            ck.absorb(r.w)
def shape2(r, zz, r2):
    w2 = Mul(Mul(r.w0, r.w0), Add(1, Mul(zz, zz)))
    return Prod(r.A, r.A, Div(Mul(r.w0, r.w0), w2), Exp(Div(Mul(-2, r2), w2)))
def quadratures(r, x, t, quarter, env, n=None):
    """|u(t)|^2 + |u(t + quarter period)|^2 for E and B, u being the (transverse) field divided by the envelope"""
    g0, g1 = get(r, t, x), get(r, Add(t, quarter), x)
    out = []
    for i in (0, 1):
        us = [vmul(Div(1, env(tt)), g[i]) for tt, g in ((t, g0), (Add(t, quarter), g1))]
        if n: us = [vsub(v, vmul(dot(v, n), n)) for v in us]
        out.append(Add(dot(us[0], us[0]), dot(us[1], us[1])))
    return out + [NOT(OR(zero_when(g0[0] + g0[1]), zero_when(g1[0] + g1[1])))]

# -------------------------------------------------------------------- C33
EQS = ['div E = 0', 'div B = 0'] + ['(curl E + dB/dt)%s = 0' % c for c in 'xyz'] + ['(curl B - dE/dt)%s = 0' % c for c in 'xyz']
def maxwell(r, t, x, points=(0, 1, 2)):
    """residuals of the vacuum equations and the size of the fields' derivatives, root mean squares over the points"""
    from jets import gradient
    import mpmath
    d = [symbol('d' + c, 1e-9, 2e-9) for c in 'txyz']
    e, b = get(r, Add(t, d[0]), vadd(x, d[1:]))
    z = zero_when(e + b); out = [0] * 8; size = 0; E2 = 0
    with mpmath.workdps(60):
        for p in points:
            g = gradient(e + b, d, p); E, B = g[:3], g[3:]
            D = lambda F, i, j: F[i][1][j]
            curl = lambda F: [D(F, 2, 2) - D(F, 1, 3), D(F, 0, 3) - D(F, 2, 1), D(F, 1, 1) - D(F, 0, 2)]
            res = [sum(D(E, i, i + 1) for i in range(3)), sum(D(B, i, i + 1) for i in range(3))]
            res += [c + D(B, i, 0) for i, c in enumerate(curl(E))] + [c - D(E, i, 0) for i, c in enumerate(curl(B))]
            out = [o + v * v for o, v in zip(out, res)]; size += sum(v * v for q in g for v in q[1]); E2 += sum(q[0] ** 2 for q in g)
        return [mpmath.sqrt(o) for o in out], mpmath.sqrt(size), mpmath.sqrt(E2)
def wave(r, t, x, points=(0, 1, 2)):
    from jets import dalembert
    import mpmath
    d = [symbol('d' + c, 1e-9, 2e-9) for c in 'txyz']
    e, b = get(r, Add(t, d[0]), vadd(x, d[1:])); out = [0] * 6; big = 0
    with mpmath.workdps(60):
        for p in points:
            q, s = dalembert(e + b, d, p); out = [o + v * v for o, v in zip(out, q)]; big = max(big, s)
        return [mpmath.sqrt(sum(out[:3])), mpmath.sqrt(sum(out[3:]))], big
def C33(ck):
    import mpmath
    from jets import NoDerivative
    ck.prog(); t = symbol('t'); zeta = symbol('zeta', .3, 1.2); px, py = symbol('px', .3, 1.1), symbol('py', .3, 1.1)
    ds = dirs()
    for cls in LASERS:
        L = loc_of(ck, cls + '::GetField')
        for dn, n, anti in ds:
            for pol, psi in (('linear polarisation along the local x axis', const(0)), ('any polarisation angle', symbol('psi', .2, 1.4))):
                nm = '%s %s, %s' % (cls, dn, pol)
                try:
                    if cls == 'PlaneEMField':
                        r = make(ck, cls, n, anti, psi=psi); res, size, _ = maxwell(r, t, vsym('r')); ck.absorb(r.w)
                        ck.obligation(nm + ': there is a field', 'it is constant' if size == 0 else None, loc=L)
                        for q, v in zip(EQS, res): ck.obligation('%s: %s' % (nm, q), 'off by %s of the derivatives of the field' % mpmath.nstr(v / size, 3) if v > size * mpmath.mpf('1e-18') else None, loc=L)
                        continue
                    out = []
                    for eps in ('0.01', '0.005'):
                        r = make(ck, cls, n, anti, psi=psi, w0=const(1), lam=Mul(PIC, const(eps)), tau=const('1e20'))
                        z = Div(zeta, const(eps)); x = vadd(r.focus, from_pulse(r.n, [px, py, z], anti))
                        if cls == 'GaussianEMField': out.append(wave(r, Add(Mul(t, const(eps)), z), x)); ck.absorb(r.w); fault_free(ck, nm, r.w); continue
                        out.append(maxwell(r, Add(Mul(t, const(eps)), z), x)); ck.absorb(r.w); fault_free(ck, nm, r.w)
                    if cls == 'GaussianEMField':
                        ck.obligation(nm + ': there is a field', 'it is zero' if out[0][1] == 0 else None, loc=L)
                        for q, a, b in zip('EB', out[0][0], out[1][0]):
                            bad = b > out[1][1] * mpmath.mpf('1e-20') and b * mpmath.mpf(2) ** 1.5 > a
                            ck.obligation('%s: %s solves the paraxial wave equation' % (nm, q), 'the remainder is %s for a diffraction angle of 0.01 and %s for 0.005 (in units of the peak field over the square of the waist)' % (mpmath.nstr(a, 3), mpmath.nstr(b, 3)) if bad else None, loc=L)
                        continue
                    ck.obligation(nm + ': there is a field', 'it is zero' if out[0][2] == 0 else None, loc=L)
                    for q, a, b in zip(EQS, out[0][0], out[1][0]):
                        bad = b > out[1][1] * mpmath.mpf('1e-20') and b * mpmath.mpf(2) ** 3.5 > a
                        ck.obligation('%s: %s to fourth order in the diffraction angle' % (nm, q),
                                      'the remainder is %s for a diffraction angle of 0.01 and %s for 0.005 (in units of the peak field over the waist)' % (mpmath.nstr(a, 3), mpmath.nstr(b, 3)) if bad else None, loc=L)
                except NoDerivative as ex: ck.undec(nm, 'no derivative of %s' % ex)
