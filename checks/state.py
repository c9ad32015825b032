"""C34: the particle list of an event.  C35: no result depends on what was computed before."""
from common import *
from physics import loc_of, fault_free, without_memory, pushed_before
import extmodel

# -------------------------------------------------------------------- C34
class Fakes:
    """particles as opaque objects: their virtual calls are recorded"""
    def __init__(s, w, n):
        s.w = w; s.calls = []
        vt = Obj('vtable for $particle', 'global', 800); vt.fills.append((0, 800, lambda o, off, sz, ty: Fn('$particle%d' % off)))
        s.objs = []
        for i in range(n):
            o = Obj('$particle', 'heap', 8); o.cells[0] = (8, Ptr(vt, 16)); o.alloc = 'new'; s.objs.append(o)
        s.index = {id(o): i for i, o in enumerate(s.objs)}
        w.override(r'\$particle\d+', lambda m, name, a: s.calls.append((m.pc, s.index.get(id(a[0].obj)), name)))
    def ptr(s, i): return Ptr(s.objs[i])
def C34(ck):
    narrow(ck, 'ParticleList.cpp', 'ParticlePusher.cpp')
    P = ck.prog(); A = loc_of(ck, 'ParticleList::AddParticle'); D = loc_of(ck, 'ParticleList::~ParticleList')
    num = lambda w, l: w.m(l, 'GetNPart', cls='ParticleList')
    for cap, n in [(1, 0), (1, 1), (1, 3), (2, 2), (3, 5), (5, 4), (5, 5), (5, 6), (1000, 1002), (131072, 131073)] + ([(10 ** 6, 250000), (131073, 131075)] if ck.thorough else []):
        w = W(P, ck); w.loop_bound = 10 ** 7; f = Fakes(w, n); nm = 'a list of at most %d after %d particles' % (cap, n); few = n < 10
        l = w.new('ParticleList', w.string('some event'), cap)
        same(ck, nm + ': starts empty', num(w, l), 0, loc=A)
        for i in range(n):
            before = len(w.events)
            w.m(l, 'AddParticle', f.ptr(i), cls='ParticleList')
            said = any(e.kind == 'print' for e in w.events[before:])
            if few or i >= n - 3:
                never(ck, '%s: particle %d can be offered' % (nm, i + 1), NOT(w.pc), loc=A, why='stops')
                same(ck, '%s: number after particle %d' % (nm, i + 1), num(w, l), min(i + 1, cap), w.pc, A)
                if i >= cap: ck.obligation('%s: leaving out particle %d is reported' % (nm, i + 1), None if said else 'no message', loc=A)
            if is0(w.pc): break
        for i in (range(min(n, cap)) if few else sorted({0, 1, 2, 255, 256, 257, 32767, 32768, 65535, 65536, min(n, cap) - 2, min(n, cap) - 1})):
            if i >= min(n, cap): continue
            q = w.m(l, 'GetParticle', i, cls='ParticleList')
            ck.obligation('%s: particle %d is at its place' % (nm, i + 1), None if type(q) is Ptr and q.obj is f.objs[i] else 'is %r' % (q,), loc=A)
        same(ck, nm + ': name', w.getstring(w.m(l, 'GetName', cls='ParticleList')), Str('some event'), loc=A)
        ck.obligation(nm + ': particles are not touched', 'virtual call %s of particle %s' % (f.calls[0][2][9:], f.calls[0][1]) if f.calls else None, loc=A)
        f.calls.clear(); d = P.bydem_base('ParticleList::~ParticleList')
        if not d: raise AnchorMissing('ParticleList::~ParticleList')
        w.call(d[-1], [l])
        gone = {}
        for c, i, _ in f.calls: gone[i] = gone.get(i, 0) + (1 if is1(c) else .5)
        want = min(n, cap)
        bad = [i for i in range(want) if gone.get(i) != 1] + [i for i in gone if i is None or i >= want]
        ck.obligation(nm + ': destroying it deletes exactly the particles it holds, once each', None if not bad else 'particle %s (of %d) %s times' % (bad[0] + 1 if bad[0] is not None else '?', len(bad), gone.get(bad[0], 0)), loc=D)
        fault_free(ck, nm, w); ck.absorb(w)
    # pushing a list
    if P.bydem_base('ParticlePusher::PushParticleList'):
        L = loc_of(ck, 'ParticlePusher::PushParticleList')
        for n in (0, 1, 2, 7, 1500) + ((70000,) if ck.thorough else ()):
            w = W(P, ck); w.loop_bound = 10 ** 7; f = Fakes(w, n + 1); l = w.new('ParticleList', w.string('event'), n + 3); pu = w.new('LorentzPusher', w.field(), symbol('dt', wide=True)); got = []
            w.override(r'\w+::PushParticle\(.*', lambda m, name, a: got.append((m.pc, f.index.get(id(a[1].obj)), a[0])))
            for i in range(n): w.m(l, 'AddParticle', f.ptr(i), cls='ParticleList')
            w.m(pu, 'PushParticleList', l, cls='ParticlePusher'); nm = 'pushing a list of %d' % n
            ck.obligation(nm + ': every particle once', None if sorted(i for _, i, _ in got) == list(range(n)) and all(is1(c) and x.obj is pu.obj for c, _, x in got) else 'pushed %s' % ([i for _, i, _ in got][:12],), loc=L)
            same(ck, nm + ': number of particles', num(w, l), n, loc=L); fault_free(ck, nm, w); ck.absorb(w)

# -------------------------------------------------------------------- C35
def C35(ck):
    P = ck.prog()
    for kind, sp in (('stochastic', 'electron'), ('stochastic', 'positron'), ('continuous', 'electron'), ('classical', 'positron'), ('pair', 'photon')): without_memory(ck, kind, sp)
    for Q in ('LorentzPusher', 'LandauPusher', 'ModifiedLandauPusher'): pushed_before(ck, Q)
    import fields
    for cls in fields.LASERS + ['StaticEMField']: fields.asked_before(ck, cls)
    numerics(ck)
    sources(ck)
    draws(ck)
    decks_apart(ck)
    histograms_apart(ck)
def decks_apart(ck):
    """a deck is read like the first one, whatever was read before"""
    P = ck.prog(drivers=('units',)); L = loc_of(ck, 'INIReader::INIReader')
    A = '[General]\ntracking = true\nunits = SI\ntime_step = 1.5e-17\n[Field]\nfield_type = static\nfield_e = (1.0, 2.0, 3.0)\n[Particle1]\nnumber_particles = 12\n'
    for nm, B in (('one with other values', A.replace('true', 'false').replace('SI', 'cgs').replace('1.5', '2.5').replace('static', 'plane').replace('2.0', '7.0').replace('12', '31')), ('one with more', A.replace('tracking', 'file_name = x\ntracking') + 'energy = 3.0\n[Histogram1]\nbins = 4\n'), ('an empty one', ''), ('a broken one', '[General\n= 3\ntracking'), ('itself', A)):
        def mk():
            w = W(P, ck); extmodel.deckio(w, {'a.ini': A, 'b.ini': B}); return w
        def read(w, f):
            r = w.new('INIReader', w.string(f)); out = []
            if is0(w.pc): return out
            g = lambda m, s, k, d: w.m(r, m, w.string(s), w.string(k), d, cls='INIReader')
            for s, k in (('General', 'units'), ('General', 'file_name'), ('Field', 'field_type'), ('Histogram1', 'bins'), ('Particle1', 'energy')): out.append(w.getstring(g('Get', s, k, w.string('absent'))))
            out += [g('GetReal', 'General', 'time_step', const(9)), g('GetReal', 'Particle1', 'energy', const(9))] + [amap(lambda x: const(x) if type(x) is int else x, g(*a)) for a in (('GetInteger', 'Particle1', 'number_particles', 9), ('GetBoolean', 'General', 'tracking', 0), ('GetInteger', 'Histogram1', 'bins', 9))]
            v = w.m(r, 'GetSections', cls='INIReader'); n = w.vsize(v, 32); b = w.vdata(v)
            return out + [w.getstring(w.padd(b, 32 * i)) for i in range(n)]
        twice(ck, 'a deck read after ' + nm, L, mk, lambda w: read(w, 'b.ini'), lambda w: read(w, 'a.ini'))
def histograms_apart(ck):
    P = ck.prog(); L = loc_of(ck, 'Histogram::AppParticle')
    from beam import hist, bins
    x = [const('1.2'), const('2.7'), const('0.4')]
    for q in ('x', 'y', 'energy', 'pz'):
        def other(w, typ, lo, hi, n):
            h = hist(w, typ, const(lo), const(hi), n, name='other'); 
            for p in (x, x[::-1]): w.m(h, 'AppParticle', w.photon(pos=p, mom=p), cls='Histogram')
        def mine(w):
            h = hist(w, q, const(0), const(4), 5)
            for p in (x, x): w.m(h, 'AppParticle', w.photon(pos=p, mom=p), cls='Histogram')
            return bins(w, h, 'GetBinCentres', 5) + bins(w, h, 'GetBinValues', 5)
        for typ, lo, hi, n in ((q, 0, 4, 5), (q, -3, 9, 5), (q, 0, 4, 7), ('px', 0, 4, 5)):
            twice(ck, 'a histogram of %s after one of %s, %d bins from %d to %d' % (q, typ, n, lo, hi), L, lambda: W(P, ck), lambda w: other(w, typ, lo, hi, n), mine)
def twice(ck, nm, loc, world, first, second):
    """the value of the second computation, alone and after the first one"""
    w = world(); w.counter = 10 ** 6; ref = second(w); end = w.pc; ck.absorb(w)
    w = world(); first(w); pc = w.pc; w.counter = 10 ** 6; w.pc = 1; got = second(w); u = AND(end, w.pc)
    never(ck, nm + ': runs alike', OR(AND(end, NOT(w.pc)), AND(w.pc, NOT(end))), loc=loc, why='stops in one of the cases')
    same(ck, nm, got, ref, u, loc); ck.absorb(w)
def numerics(ck):
    from tools import points, array, stdvec
    P = ck.prog(); ck.generic = True; mk = lambda: W(P, ck)
    def axes(n, tag):
        xs = [symbol('%s.x%d' % (tag, i), i - 1.0, i - .4) for i in range(n)]; ys = [symbol('%s.y%d' % (tag, i), -2, 2) for i in range(n)]
        return xs, ys, symbol('%s.q' % tag, -1.5, n - .5)
    for n, n2 in ((3, 3), (4, 3), (3, 5)):
        a, b = axes(n, 'a'), axes(n2, 'b')
        for nm, share in (('other samples', ()), ('the same samples', ('xy',)), ('the same query', ('q',)), ('the same axis', ('x', 'q'))):
            if n != n2 and 'x' in ''.join(share): continue
            fx = a[0] if 'x' in ''.join(share) else b[0]; fy = a[1] if 'xy' in share else b[1]; fq = a[2] if 'q' in share else b[2]
            for f, args in (('Interpolate1D', 2), ('ArrayIndex', 1)):
                go = lambda w, x, y, q: w.static('Numerics::' + f, *([array(w, x), array(w, y)] if args == 2 else [array(w, x)]), len(x), q)
                def whole(w, x, y, q):
                    v = go(w, x, y, q); return v if f != 'ArrayIndex' else amap(lambda k: const(k) if type(k) is int else k, v)
                twice(ck, '%s over %d points after %d with %s' % (f, n, n2, nm), loc_of(ck, 'Numerics::' + f), mk, lambda w: go(w, fx, fy, fq), lambda w: whole(w, *a))
                # the same arrays in place, with other contents: nothing is remembered by address
            def inplace(w, f='Interpolate1D'):
                px, py = array(w, fx), array(w, fy); w.static('Numerics::' + f, px, py, len(fx), fq)
                for p, v in ((px, a[0]), (py, a[1])):
                    for i, x in enumerate(v): w.store(w.padd(p, 8 * i), F64, x)
                return px, py
            if n == n2:
                st = {}
                def first(w): st['p'] = inplace(w)
                def second(w):
                    px, py = st.pop('p', None) or (array(w, a[0]), array(w, a[1])); return w.static('Numerics::Interpolate1D', px, py, n, a[2])
                twice(ck, 'Interpolate1D over %d points in arrays that held %s' % (n, nm), loc_of(ck, 'Numerics::Interpolate1D'), mk, first, second)
        def cp(w, x, q):
            lo = w.alloc('low', 'stack', 4); fr = w.alloc('frac', 'stack', 8); w.static('Numerics::ClosestPoints', array(w, x), len(x), q, Ptr(lo), Ptr(fr))
            return [amap(lambda k: const(k) if type(k) is int else k, w.load(Ptr(lo), ('i', 32))), w.load(Ptr(fr), F64)] if not is0(w.pc) else [const(0)] * 2
        twice(ck, 'ClosestPoints over %d points after %d' % (n, n2), loc_of(ck, 'Numerics::ClosestPoints'), mk, lambda w: cp(w, b[0], b[2]), lambda w: cp(w, a[0], a[2]))
    for n, n2 in ((5, 5), (3, 7)):
        ax = lambda t, k: [Add(symbol(t + '.x0'), Mul(i, symbol(t + '.h'))) for i in range(k)]; fs = lambda t, k: [symbol('%s.f%d' % (t, i)) for i in range(k)]
        simp = lambda w, t, k: w.static('Numerics::SimpsonsRule', stdvec(w, ax(t, k), 'axis'), stdvec(w, fs(t, k), 'integrand'))
        twice(ck, 'SimpsonsRule over %d points after %d' % (n, n2), loc_of(ck, 'Numerics::SimpsonsRule'), mk, lambda w: simp(w, 'b', n2), lambda w: simp(w, 'a', n))
    ck.generic = False
def sources(ck):
    """two sources, one after the other, draw their own beams"""
    P = ck.prog(); L = loc_of(ck, 'SourceGenerator::SourceGenerator'); ck.generic = True
    for sp, di in (('electron', 'mono'), ('photon', 'gaussian'), ('positron', 'linear')):
        def one(w, t, sp, di, n):
            s = w.new('SourceGenerator', w.string(sp), w.string(di), n, symbol(t + '.e1', 4, 6), symbol(t + '.e2', 6.5, 7.5) if di == 'linear' else symbol(t + '.sig', .1, .5), symbol(t + '.r', wide=True), symbol(t + '.tau', wide=True), symbol(t + '.div', .05, .3), w.vec(vsym(t + '.x', wide=True)), w.vec(dsym(t + '.d')), 1)
            out = []
            for i in range(n):
                l = w.m(s, 'GenerateList', cls='SourceGenerator')
                if is0(w.pc): return [const(0)]
                p = w.m(l, 'GetParticle', 0, cls='ParticleList'); o = w.snap(p, hist=False); out += o['position'] + o['momentum'] + [o['weight'], o['time'], o['mass'], o['charge'], w.m(p, 'GetEnergy')]
            return out
        def mk():
            w = W(P, ck); w.static('MCTools::RandDouble', const(0), const(1)); return w
        for nm, other in (('another', ('electron', 'mono', 2)), ('one of its kind', (sp, di, 3))):
            twice(ck, 'a %s source of %ss after %s' % (di, sp, nm), L, mk, lambda w: one(w, 'o', *other), lambda w: one(w, 's', sp, di, 2))
    ck.generic = False
def draws(ck):
    """limits, means and widths are those of the call"""
    P = ck.prog(); L = loc_of(ck, 'MCTools::RandDouble'); a, b, c, d = symbol('a', .3, .9), symbol('b', 1.2, 2.5), symbol('c', -.9, -.3), symbol('d', 3.2, 4.5)
    def mk():
        w = W(P, ck); w.static('MCTools::RandDouble', const(0), const(1)); return w
    def dist(w, f, x, y):
        w.events.clear(); r = w.static('MCTools::' + f, x, y); e = [e.data for e in w.events if e.kind == 'draw']
        return [r] + [v for q in e for v in (q['a'], q['b'])]
    for f in ('RandDouble', 'RandNorm'):
        if not P.bydem_base('MCTools::' + f): continue
        for nm, (x, y) in (('others', (c, d)), ('the same lower one', (a, d)), ('the same upper one', (c, b)), ('the same', (a, b))):
            twice(ck, '%s after one with %s parameters' % (f, nm), L, mk, lambda w: dist(w, f, x, y), lambda w: dist(w, f, a, b))
