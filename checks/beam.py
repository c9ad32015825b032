"""C14, C23, C30: units, histograms and particle sources."""
from common import *
from physics import loc_of, fault_free
from fields import from_pulse, Cos, Sin
from tools import below

CODATA = {'pi': '3.14159265358979', 'e': '2.71828182845905', 'alpha': '0.0072973525693', 'c': '299792458', 'me': '9.1093837015e-31', 'qe': '1.602176634e-19',
          'hBar': '1.054571817e-34', 'lComp': '2.42631023867e-12', 'eps0': '8.8541878128e-12', 'eSchw': '1.323285474948166e18'}
def C14(ck):
    P = ck.prog(drivers=['units']); H = 'Source/Tools/UnitsSystem.hh'; L = loc_of(ck, 'UnitsSystem::SetUnitsSI') or H
    w = W(P, ck); k = {}
    for n, v in CODATA.items():
        x = k[n] = w.call('k_' + n, [])
        if not (isinstance(x, Num) and is_const(x)): ck.undec('constant ' + n, 'not a constant: %s' % show(x)); continue
        r = abs(float(x.v[0]) / float(v) - 1)
        ck.obligation('constant %s has its CODATA value' % n, None if r < 1e-7 else '%s instead of %s' % (x.v[0], v), loc=H)
    for system in ('SI', 'si'):
        w.pc = 1
        u = w.new('UnitsSystem', w.string(system))
        never(ck, 'unit system %s is accepted' % system, NOT(w.pc), loc=L, why='stops')
        q = {n: w.call('r_' + n, [u]) for n in ('Frequency', 'Time', 'Length', 'EField', 'BField', 'Momentum', 'Energy', 'G4Time', 'G4Length', 'G4Energy')}
        fault_free(ck, 'units ' + system, w)
        t = 1e-7
        def eq(nm, a, b, tol=1e-9):
            ok = isinstance(a, Num) and isinstance(b, Num) and is_const(a) and is_const(b)
            if not ok: same(ck, nm, a, b, loc=L); return
            x, y = float(a.v[0]), float(b.v[0])
            ck.obligation('%s (%s)' % (nm, system), None if abs(x - y) <= tol * max(abs(x), abs(y)) else '%g instead of %g' % (x, y), loc=L)
        c, me, qe = k['c'], k['me'], k['qe']
        eq('length is c times time', q['Length'], Mul(c, q['Time'])); eq('frequency is one over time', Mul(q['Frequency'], q['Time']), const(1))
        eq('energy is m c^2', q['Energy'], Prod(me, c, c)); eq('momentum is m c', q['Momentum'], Mul(me, c))
        eq('electric field is c times magnetic field', q['EField'], Mul(c, q['BField'])); eq('charge times field times length is energy', Prod(qe, q['EField'], q['Length']), q['Energy'])
        eq('fields are in units of the Schwinger field', q['EField'], const(CODATA['eSchw']), t)
        eq('Geant time is the nanosecond', Mul(q['G4Time'], q['Time']), const('1e-9')); eq('Geant length is the millimetre', Mul(q['G4Length'], q['Length']), const('1e-3'))
        eq('Geant energy is the MeV', Mul(q['G4Energy'], q['Energy']), Mul('1e6', qe))
    for bad in ('', 'Si', 'sI', 'cgs', 'CGS', 'SI ', ' SI', 'normalised', 'S', 'SII'):
        w.pc = 1; w.events.clear(); w.new('UnitsSystem', w.string(bad))
        ck.obligation('unit system "%s" stops the program' % bad, None if is0(w.pc) else 'accepted', loc=loc_of(ck, 'UnitsSystem::UnitsSystem'))
        msg = [e for e in w.events if e.kind == 'print']
        ck.obligation('unit system "%s" is reported' % bad, None if msg else 'no message', loc=loc_of(ck, 'UnitsSystem::UnitsSystem'))
        cs = [e.data['code'] for e in w.events if e.kind == 'exit']
        ck.obligation('unit system "%s" ends with a failure status' % bad, None if all(type(x) is int and x % 256 for x in cs) else 'status %s' % cs, loc=loc_of(ck, 'UnitsSystem::UnitsSystem'))
    ck.absorb(w)

# -------------------------------------------------------------------- C30
def source(w, sp, distro, n, d, **kw):
    a = dict(e1=Add(5, symbol('e1', 1, 3, wide=True)), e2=Sum(5, symbol('e1', 1, 3, wide=True), symbol('de', .5, 2, wide=True)) if distro in ('linear', 'Linear') else Add(6, symbol('sig', .1, .6, wide=True)) if distro[0] in 'mM' else symbol('sig', .1, .6, wide=True), radius=symbol('radius', wide=True), dur=symbol('duration', wide=True), div=symbol('divergence', .3, 4.5, wide='down'), track=1)
    a.update(kw); a['pos'] = vsym('centre', wide=True)
    s = w.new('SourceGenerator', w.string(sp), w.string(distro), n, a['e1'], a['e2'], a['radius'], a['dur'], a['div'], w.vec(a['pos']), w.vec(d), a['track'])
    return s, a
SPECIES = [('photon', 0, 0, 'Photon'), ('Photon', 0, 0, 'Photon'), ('electron', 1, -1, 'Electron'), ('Electron', 1, -1, 'Electron'), ('positron', 1, 1, 'Positron'), ('Positron', 1, 1, 'Positron')]
def C30(ck):
    P = ck.prog(); ck.generic = True; L = loc_of(ck, 'SourceGenerator::GenerateList'); LC = loc_of(ck, 'SourceGenerator::SourceGenerator')
    D3 = [('oblique', dsym('dir')), ('along z', [const(0), const(0), const(2)]), ('against z', [const(0), const(0), const(-1)]), ('along -x', [const(-3), const(0), const(0)])]
    runs = [(sp, di, D3[(i + j) % 4]) for i, sp in enumerate(SPECIES) for j, di in enumerate(('mono', 'gaussian', 'Gaussian', 'linear', 'Linear'))] if not ck.thorough else \
           [(sp, di, d) for sp in SPECIES for di in ('mono', 'Mono', 'gaussian', 'Gaussian', 'linear', 'Linear') for d in D3]
    for (sp, mass, charge, name), distro, (dn, d) in runs:
        n = 4 if ck.thorough else 3 if distro == 'mono' else 2
        w = W(P, ck); w.static('MCTools::RandDouble', const(0), const(1)); w.events.clear()
        s, a = source(w, sp, distro, n, d)
        parts = []
        for i in range(n):
            l = w.m(s, 'GenerateList', cls='SourceGenerator')
            never(ck, '%s %s source %s: particle %d is generated' % (distro, sp, dn, i), NOT(w.pc), loc=L, why='stops')
            if is0(w.pc): return
            same(ck, '%s %s source: one particle per event' % (distro, sp), w.m(l, 'GetNPart', cls='ParticleList'), 1, w.pc, L)
            p = w.m(l, 'GetParticle', 0, cls='ParticleList'); o = w.snap(p, hist=False); o['energy'] = w.m(p, 'GetEnergy'); parts.append(o)
        ds = [e.data for e in w.events if e.kind == 'draw']
        used = set()
        def draws(dist, x, y):
            return [k for k, e in enumerate(ds) if e['dist'] == dist and matches(e['a'], S(x)) and matches(e['b'], S(y))]
        under = 1
        def pick(nm, value, want, cands, loc):
            """the draw that explains the value: want(draw) == value"""
            for k in cands:
                if k not in used and matches(value, want(ds[k]['val']), under):
                    used.add(k); ck.obligation(nm, None); return ds[k]['val']
            again = [k for k in cands if k in used and matches(value, want(ds[k]['val']), under)]
            if again: ck.obligation(nm, 'uses a draw that is already used', loc=loc); return None
            ck.obligation(nm, 'is %s, which no such draw explains%s' % (show(value), '' if cands else ' (there is none with those parameters)'), loc=loc)
        u = unit(d); anti = dn == 'against z'
        ex, ey = from_pulse(u, [const(1), const(0), const(0)], anti), from_pulse(u, [const(0), const(1), const(0)], anti)
        for i, o in enumerate(parts):
            nm = '%s %s source %s, particle %d' % (distro, sp, dn, i)
            off = vsub(o['position'], a['pos']); under = 1
            if distro in ('gaussian', 'Gaussian'):      # energies below the rest mass have no momentum
                for k in draws('normal', a['e1'], a['e2']):
                    if k not in used and matches(o['energy'], ds[k]['val'], below(const(1), ds[k]['val'])): under = below(const(1), ds[k]['val']); break
            pick(nm + ': offset along the direction is normal with the duration', dot(off, u), lambda v: v, draws('normal', 0, a['dur']), L)
            cr = draws('normal', 0, a['radius'])
            pick(nm + ': first transverse offset is normal with the radius', dot(off, ex), lambda v: v, cr, L)
            pick(nm + ': second transverse offset is normal with the radius', dot(off, ey), lambda v: v, cr, L)
            k = unit(o['momentum']); ct = draws('normal', 0, a['div'])
            th = pick(nm + ': polar angle is normal with the divergence', dot(k, u), Cos, ct, L)
            if th is not None:
                pick(nm + ': azimuth is uniform over the circle', dot(k, ex), lambda v: Mul(Sin(th), Cos(v)), [q for q, e in enumerate(ds) if e['dist'] == 'uniform_real' and matches(e['a'], const(0)) and all(is_const(x) and abs(float(x.v[0]) - 6.283185307) < 1e-6 for _, x in leaves(e['b'], 1))], L)
                same(ck, nm + ': both azimuthal components', Add(Mul(dot(k, ex), dot(k, ex)), Mul(dot(k, ey), dot(k, ey))), Mul(Sin(th), Sin(th)), under, loc=L)
            if distro in ('gaussian', 'Gaussian'): pick(nm + ': energy is normal', o['energy'], lambda v: v, draws('normal', a['e1'], a['e2']), LC)
            elif distro in ('linear', 'Linear'): pick(nm + ': energy is uniform', o['energy'], lambda v: v, draws('uniform_real', a['e1'], a['e2']), LC)
            else: same(ck, nm + ': energy is the configured one', o['energy'], a['e1'], loc=LC)
            for q, v in (('mass', const(mass)), ('charge', const(charge)), ('name', Str(name)), ('time', const(0)), ('weight', const(1)), ('tracking', 1), ('alive', 1)):
                same(ck, '%s: %s' % (nm, q), o[q], v, loc=L)
        fault_free(ck, '%s %s source' % (distro, sp), w); ck.absorb(w)
    for tr in (0, 1):
        w = W(P, ck); s, a = source(w, 'electron', 'mono', 1, D3[0][1], track=tr); l = w.m(s, 'GenerateList', cls='SourceGenerator')
        same(ck, 'tracking setting %d reaches the particle' % tr, w.m(w.m(l, 'GetParticle', 0, cls='ParticleList'), 'GetTracking'), tr, loc=L); ck.absorb(w)

# -------------------------------------------------------------------- C23
QUANT = {'energy': lambda o: o['energy'], 'x': lambda o: o['position'][0], 'y': lambda o: o['position'][1], 'z': lambda o: o['position'][2],
         'px': lambda o: o['momentum'][0], 'py': lambda o: o['momentum'][1], 'pz': lambda o: o['momentum'][2]}
NAMES = {'energy': ['energy', 'Energy'], 'x': ['x', 'X'], 'y': ['y', 'Y'], 'z': ['z', 'Z'], 'px': ['px', 'PX'], 'py': ['py', 'PY'], 'pz': ['pz', 'PZ']}
def hist(w, typ, lo, hi, n, name='h', part='electron', time=None):
    return w.new('Histogram', w.string(name), w.string(part), w.string(typ), time if time is not None else symbol('histTime', wide=True), lo, hi, n)
def bins(w, h, what, n):
    b = w.m(h, what, cls='Histogram')
    return [w.load(w.padd(b, 8 * i), F64) for i in range(n)]
def counted(ck, LA, LM):
    """fills and merges of histograms that have been filled any number of times, and of many bins"""
    P = ck.prog(); n = 4
    def whole(w, h): return [(off, sz, v) for off, (sz, v) in h.obj.cells.items() if type(v) is int]
    w = W(P, ck); h = hist(w, 'x', const(0), const(3), n); w.m(h, 'AppParticle', w.photon(pos=[const('1.2'), const(0), const(0)]), cls='Histogram')
    for k in range(1, 21 if not ck.thorough else 31):     # merging with a copy of itself doubles the number of entries
        g = hist(w, 'x', const(0), const(3), n)
        for off, sz, v in whole(w, h): g.obj.cells[off] = (sz, v)
        vs = bins(w, h, 'GetBinValues', n); d = w.m(g, 'GetBinValues', cls='Histogram')
        for i, x in enumerate(vs): w.store(w.padd(d, 8 * i), F64, x)
        w.m(h, 'Merge', g, cls='Histogram'); same(ck, 'merge of two histograms of %d entries' % 2 ** (k - 1), bins(w, h, 'GetBinValues', n), [const(0), const(2 ** k), const(0), const(0)], loc=LM)
        if k in (8, 9, 15, 16, 17, 20, 24, 30):
            for x, j in (('1.3', 1), ('2.9', 3), ('-1', None)):
                old = bins(w, h, 'GetBinValues', n); w.m(h, 'AppParticle', w.photon(pos=[const(x), const(0), const(0)]), cls='Histogram')
                same(ck, 'particle at %s after %d entries' % (x, 2 ** k), bins(w, h, 'GetBinValues', n), [Add(v, int(i == j)) for i, v in enumerate(old)], loc=LA)
            d = w.m(h, 'GetBinValues', cls='Histogram')
            for i in range(n): w.store(w.padd(d, 8 * i), F64, const(2 ** k if i == 1 else 0))
    fault_free(ck, 'many entries', w); ck.absorb(w)
    # bins of any content
    w = W(P, ck); h = hist(w, 'x', const(0), const(3), n); vs = [symbol('bin%d' % i, .5, 4, wide=True) for i in range(n)]; d = w.m(h, 'GetBinValues', cls='Histogram')
    for i, x in enumerate(vs): w.store(w.padd(d, 8 * i), F64, x)
    w.m(h, 'AppParticle', w.photon(pos=[const('1.9'), const(0), const(0)]), cls='Histogram')
    same(ck, 'a bin of any content grows by one', bins(w, h, 'GetBinValues', n), [Add(v, int(i == 2)) for i, v in enumerate(vs)], loc=LA); ck.absorb(w)
    # normalising
    if P.bydem_base('Histogram::Normalise'):
        LN = loc_of(ck, 'Histogram::Normalise')
        for n in (1, 2, 5):
            w = W(P, ck); h = hist(w, 'x', const(0), const(4), n); w.m(h, 'Normalise', cls='Histogram'); same(ck, 'an empty histogram of %d bins stays so when normalised' % n, bins(w, h, 'GetBinValues', n), [const(0)] * n, loc=LN)
            w.m(h, 'AppParticle', w.photon(pos=[const('1.9'), const(0), const(0)]), cls='Histogram'); d = w.m(h, 'GetBinValues', cls='Histogram'); vs = [symbol('bin%d' % i, .2, 4, wide=True) for i in range(n)]
            for i, x in enumerate(vs): w.store(w.padd(d, 8 * i), F64, x)
            w.m(h, 'Normalise', cls='Histogram'); same(ck, 'normalising %d bins divides them by their sum' % n, bins(w, h, 'GetBinValues', n), [Div(v, Sum(*vs)) for v in vs], loc=LN)
            fault_free(ck, 'normalising', w); ck.absorb(w)
    # many bins
    for n in (257, 1000, 4099) + ((70001,) if ck.thorough else ()):
        w = W(P, ck); w.loop_bound = 10 ** 7; h = hist(w, 'pz', const(0), const(n - 1), n); want = {}
        for j in (1, 100, 255, 256, n // 2, n - 3):
            if j < n - 1: want[j] = want.get(j, 0) + 1; w.m(h, 'AppParticle', w.photon(mom=[const(0), const(0), const('%d.3' % j)]), cls='Histogram')
        v = bins(w, h, 'GetBinValues', n); bad = [i for i in range(n) if not matches(v[i], const(want.get(i, 0)))]
        ck.obligation('%d bins: each particle is counted in its own' % n, None if not bad else 'bin %d holds %s, not %d' % (bad[0], show(v[bad[0]]), want.get(bad[0], 0)), loc=LA)
        fault_free(ck, '%d bins' % n, w); ck.absorb(w)
def C23(ck):
    narrow(ck, 'Histogram.cpp')
    P = ck.prog(); ck.generic = True
    LI, LA, LM = loc_of(ck, 'Histogram::Initialise'), loc_of(ck, 'Histogram::AppParticle'), loc_of(ck, 'Histogram::Merge')
    for n in ([1, 2, 3, 4, 6] if not ck.thorough else range(1, 25)):
        w = W(P, ck); lo, hi = symbol('binMin', -3, -1), symbol('binMax', 2, 5); t = symbol('histTime', wide=True)
        h = hist(w, 'x', lo, hi, n, time=t)
        never(ck, 'a histogram of %d bins can be made' % n, NOT(w.pc), loc=LI, why='stops')
        same(ck, '%d bins: number of bins' % n, w.m(h, 'GetNBins', cls='Histogram'), n, loc=LI); same(ck, '%d bins: time' % n, w.m(h, 'GetTime', cls='Histogram'), t, loc=LI)
        same(ck, '%d bins: name' % n, w.getstring(w.m(h, 'GetName', cls='Histogram')), Str('h'), loc=LI); same(ck, '%d bins: species' % n, w.getstring(w.m(h, 'GetParticle', cls='Histogram')), Str('electron'), loc=LI)
        c, v = bins(w, h, 'GetBinCentres', n), bins(w, h, 'GetBinValues', n)
        if n > 1: same(ck, '%d bins: centres run evenly from the minimum to the maximum' % n, c, [Add(lo, Mul(i, Div(Sub(hi, lo), n - 1))) for i in range(n)], loc=LI)
        same(ck, '%d bins: values start at zero' % n, v, [const(0)] * n, loc=LI)
        fault_free(ck, 'histogram of %d bins' % n, w); ck.absorb(w)
    # one particle
    species = {'electron': lambda w: w.lepton(-1, pos=vsym('p.x', -6, 6), mom=vsym('p.p', -6, 6)), 'photon': lambda w: w.photon(pos=vsym('p.x', -6, 6), mom=vsym('p.p', -6, 6))}
    for q in QUANT:
        for alias in NAMES[q]:
            for sp in species:
                for n in ([2, 3, 4] if not ck.thorough else [1, 2, 3, 4, 5, 6, 9]):
                    if not ck.thorough and (sp == 'photon') != (n == 3): continue
                    w = W(P, ck); lo, hi = const('0.5'), const('5')
                    h = hist(w, alias, lo, hi, n); p = species[sp](w)
                    b = w.snap(p, hist=False); b['energy'] = w.m(p, 'GetEnergy'); x = QUANT[q](b)
                    cen = [float(0.5 + i * 4.5 / (n - 1)) for i in range(n)] if n > 1 else [0.5]
                    for rep in (1, 2):
                        w.pc = 1; w.m(h, 'AppParticle', p, cls='Histogram')
                        never(ck, 'histogram of %s: filling continues' % alias, NOT(w.pc), loc=LA, why='stops')
                        v = bins(w, h, 'GetBinValues', n); nm = 'histogram of %s of a %s, %d bins, fill %d' % (alias, sp, n, rep)
                        inside = AND(below(const('0.5'), x), below(x, const('5')))
                        outside = OR(below(x, const('0.499999')), below(const('5.000001'), x))
                        if n == 1: inside = 0
                        same(ck, nm + ': outside the range nothing is counted', v, [const(0)] * n, outside, LA)
                        for i in range(n):
                            g = inside
                            if i > 0: g = AND(g, below(const(repr((cen[i - 1] + cen[i]) / 2)), x))
                            if i < n - 1: g = AND(g, below(x, const(repr((cen[i + 1] + cen[i]) / 2))))
                            if is0(g): continue
                            same(ck, '%s: nearest bin %d' % (nm, i), v, [const(rep * int(i == j)) for j in range(n)], g, LA)
                    a = w.snap(p, hist=False); a['energy'] = w.m(p, 'GetEnergy')
                    for k in a: same(ck, 'filling a histogram of %s leaves the particle alone: %s' % (alias, k), a[k], b[k], loc=LA)
                    fault_free(ck, 'histogram of %s' % alias, w); ck.absorb(w)
    # several fills add up
    w = W(P, ck); h = hist(w, 'x', const(0), const(4), 5)
    for x, nm in (('0.9', 1), ('1.2', 1), ('3.4', 3), ('3.6', 4), ('-0.1', None), ('4.2', None), ('2', 2)):
        w.m(h, 'AppParticle', w.photon(pos=[const(x), const(0), const(0)]), cls='Histogram')
    same(ck, 'seven particles', bins(w, h, 'GetBinValues', 5), [const(v) for v in (0, 2, 1, 1, 1)], loc=LA)
    counted(ck, LA, LM)
    # merging
    n = 4
    for case, args, ok in (('same axis', ('-1', '2', 4), True), ('other minimum', ('0', '2', 4), False), ('other maximum', ('-1', '3', 4), False), ('other number of bins', ('-1', '2', 3), False)):
        w = W(P, ck)
        a, b = hist(w, 'x', const(-1), const(2), n, name='a'), hist(w, 'x', const(args[0]), const(args[1]), args[2], name='b')
        va, vb = [symbol('va%d' % i, wide=True) for i in range(n)], [symbol('vb%d' % i, wide=True) for i in range(args[2])]
        for h, v in ((a, va), (b, vb)):
            d = w.m(h, 'GetBinValues', cls='Histogram')
            for i, x in enumerate(v): w.store(w.padd(d, 8 * i), F64, x)
        w.m(a, 'Merge', b, cls='Histogram')
        same(ck, 'merge with %s' % case, bins(w, a, 'GetBinValues', n), [Add(x, y) for x, y in zip(va, vb)] if ok else va, loc=LM)
        same(ck, 'merge with %s: centres' % case, bins(w, a, 'GetBinCentres', n), [const(-1), const(0), const(1), const(2)], loc=LM)
        if not ok: ck.obligation('merge with %s is reported' % case, None if any(e.kind == 'print' for e in w.events) else 'no message', loc=LM)
        fault_free(ck, 'merge with %s' % case, w); ck.absorb(w)
    # whole lists, as one particle after another
    if P.bydem_base('Histogram::Fill'):
        LF = loc_of(ck, 'Histogram::Fill')
        for q in QUANT:
            for alias in NAMES[q]:
                for n in (2, 3) if not ck.thorough else (1, 2, 3, 4, 7):
                    w = W(P, ck); h, g = hist(w, alias, const('-1.5'), const('2'), n), hist(w, alias, const('-1.5'), const('2'), n); l = w.new('ParticleList', w.string('event'), 5)
                    for i in range(2):
                        p = (w.lepton(-1, pos=vsym('f%d.x' % i), mom=vsym('f%d.p' % i)), w.photon(pos=vsym('f%d.x' % i), mom=vsym('f%d.p' % i)))[i]
                        w.m(l, 'AddParticle', p, cls='ParticleList'); w.m(g, 'AppParticle', p, cls='Histogram')
                    w.m(g, 'Normalise', cls='Histogram'); w.m(h, 'Fill', l, cls='Histogram'); nm = 'filling a histogram of %s with %d bins from a list' % (alias, n)
                    if is0(w.pc): ck.obligation(nm + ': is refused with a message', None if [e for e in w.events if e.kind == 'print'] else 'no message', loc=LF); ck.absorb(w); continue
                    never(ck, nm + ': goes on', NOT(w.pc), loc=LF, why='stops')
                    same(ck, nm + ': is one particle after another, normalised', bins(w, h, 'GetBinValues', n), bins(w, g, 'GetBinValues', n), loc=LF); fault_free(ck, nm, w); ck.absorb(w)
        w = W(P, ck); w.loop_bound = 10 ** 6; h = hist(w, 'x', const(0), const(9), 10); l = w.new('ParticleList', w.string('event'), 1000)
        for i in range(700): w.m(l, 'AddParticle', w.photon(pos=[const('%d.2' % (i % 9)), const(0), const(0)], mom=[const(1)] * 3), cls='ParticleList')
        w.m(h, 'Fill', l, cls='Histogram'); want = [Div(len([i for i in range(700) if i % 9 == k]), 700) for k in range(10)]
        same(ck, 'filling a histogram from a list of 700', bins(w, h, 'GetBinValues', 10), want, loc=LF); ck.absorb(w)
    # unknown quantities
    for bad in ('', 'momentum', 'ENERGY', 'pX', 'e', 'theta', 'x '):
        w = W(P, ck); h = hist(w, bad, const(0), const(5), 3); w.m(h, 'AppParticle', w.photon(), cls='Histogram')
        ck.obligation('a histogram of "%s" is never filled with something else' % bad, None if is0(w.pc) or all(matches(x, const(0)) for x in bins(w, h, 'GetBinValues', 3)) else 'is filled', loc=LA); ck.absorb(w)
    import runs; runs.fills(ck)
