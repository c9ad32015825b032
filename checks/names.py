"""C15: names select models."""
from inputs import *
import inputs
UNKNOWN = ['', 'none', 'Unknown', 'QUANTUM', 'electrons', 'e-', 'gauss', 'static ', ' plane', 'focus', 'quantum1', 'semi', 'Semi-classical', 'muon', 'PHOTON', 'gamma', 'landau', 'si', 'magnetic']
FNAMES = {'static': 'StaticEMField', 'plane': 'PlaneEMField', 'gaussian': 'GaussianEMField', 'focusing': 'FocusingField'}
PNAMES = {'gaussian': 'GaussianEMField', 'Gaussian': 'GaussianEMField', 'focusing': 'FocusingField', 'Focusing': 'FocusingField'}
MNAMES = {n: MODELS[n.lower()] for n in ('Classical', 'classical', 'Semiclassical', 'semiclassical', 'Quantum', 'quantum')}
SPECIES = {'Photon': (0, 'Photon'), 'photon': (0, 'Photon'), 'Electron': (-1, 'Electron'), 'electron': (-1, 'Electron'), 'Positron': (1, 'Positron'), 'positron': (1, 'Positron')}
DISTROS = {'mono': None, 'Mono': None, 'gaussian': 'normal', 'Gaussian': 'normal', 'linear': 'uniform_real', 'Linear': 'uniform_real'}
SG = 'Source/Particles/SourceGenerator.cpp'
class Compared:
    """literals that the program compares with a name"""
    def __enter__(self): stdmodel.CMP = self.c = []; return self
    def __exit__(self, *a): stdmodel.CMP = None
    def words(self, tag):
        out = set()
        for x, y in self.c:
            for p, q in ((x, y), (y, x)):
                if p.text() is None and tag in p.disp() and q.text() is not None: out.add(q.text())
        return out
def said(w, since=0): return [e for e in w.events[since:] if e.kind == 'print']
def short(field='static', physics='Quantum', **kw):
    d = base_deck(field, physics, 1, 0, General__time_step=symbol('deck.time_step'), **kw); d['General', 'time_end'] = Mul('0.5', d['General', 'time_step']); d['Particle1', 'number_particles'] = 1
    return d
def real_sources(w):
    """GenerateList itself instead of its stand-in"""
    w.overrides = [x for x in w.overrides if 'GenerateList' not in x[0].pattern]; w._disp.clear(); w.lists = []
    def gen(m, n, a): l = body(m, n, a); w.lists.append((m.pc, l)); return l
    w.override(r'SourceGenerator::GenerateList\(.*', gen)
def unknown(tag): return Str(symbol('any ' + tag))
def refused(ck, nm, w, made, loc, what='model'):
    ck.obligation(nm + ' is refused', None if is0(w.pc) or w.ret not in (0, None) else 'the run goes on', loc=loc)
    ck.obligation(nm + ': nothing is simulated', None if not [l for l in w.loop if l[0] == 'push'] else 'particles are pushed', loc=loc)
    ck.obligation(nm + ' is reported', None if said(w) else 'no message', loc=loc)
def else_case(ck, nm, w, tag, effects, loc, stops=True):
    """the same for every name that equals no literal of the program"""
    a = atoms_of(w, tag); none = 1
    for x in a: none = AND(none, NOT(x))
    for what, pc in effects:
        c = AND(pc, none)
        ck.obligation('%s: any other name: no %s' % (nm, what), None if is0(c) else '%s when %s' % (what, cond_text(c)), loc=loc)
    r = w.ret
    if stops:
        c = AND(w.pc, none); c = AND(c, amap(lambda x: int(x == 0), r)) if r is not None and not is0(c) else c
        ck.obligation('%s: any other name stops the run' % nm, None if is0(c) else 'goes on when %s' % cond_text(c), loc=loc)
    msg = 0
    for e in said(w): msg = OR(msg, e.pc)
    miss = AND(NOT(msg), none)
    ck.obligation('%s: any other name is reported' % nm, None if is0(miss) else 'no message when %s' % cond_text(miss), loc=loc)
def atoms_of(w, tag): return [boolatom('%s == %s' % (x.disp(), y.disp())) for x, y in w.compared if tag in x.disp() + y.disp() and (x.text() is None or y.text() is None)]
def run_any(ck, deck, tag, setup=None):
    with Compared() as c: w = run_main(ck, deck, setup=setup)
    w.compared = c.c; w.words = c.words(tag); return w
def deck_names(ck):
    # ---- fields
    w = run_any(ck, short(Field__field_type=unknown('field')), 'any field'); else_case(ck, 'deck, field', w, 'any field', [('%s' % r.cls, r.pc) for r in of(w, *FNAMES.values())] + [('push', l[1]) for l in w.loop if l[0] == 'push'], EXEC); ck.absorb(w)
    for n in sorted(set(FNAMES) | w.words | set(UNKNOWN) | {x.capitalize() for x in FNAMES} | {x.upper() for x in FNAMES}):
        k = FNAMES.get(n); d = short(n if k else 'static')
        if not k: d['Field', 'field_type'] = n
        v = run_main(ck, d); nm = 'deck, field "%s"' % n
        got = [r.cls for r in of(v, *FNAMES.values()) if not is0(r.pc)]
        if k: ck.obligation(nm, None if got == [k] and not is0(v.pc) and v.ret == 0 else 'makes %s' % (got or 'nothing'), loc=EXEC)
        else: refused(ck, nm, v, got, EXEC)
        ck.absorb(v)
    # ---- models
    w = run_any(ck, short(physics='Quantum', Physics__radiation_model=unknown('model')), 'any model'); else_case(ck, 'deck, radiation model', w, 'any model', [('%s' % r.cls, r.pc) for r in of(w, *PUSHERS, *EMITTERS)] + [('push', l[1]) for l in w.loop if l[0] == 'push'], EXEC); ck.absorb(w)
    for n in sorted(set(MNAMES) | w.words | set(UNKNOWN) | {x.upper() for x in MNAMES}):
        k = MNAMES.get(n); v = run_main(ck, short(physics=n)); nm = 'deck, radiation model "%s"' % n
        got = [(r.cls, r.args[2] if r.cls == 'ContinuousEmission' else None) for r in of(v, *PUSHERS, *EMITTERS) if not is0(r.pc)]
        if k:
            ck.obligation(nm, None if [g[0] for g in got] == list(k[:2]) and not is0(v.pc) and v.ret == 0 else 'makes %s' % ([g[0] for g in got] or 'nothing'), loc=EXEC)
            for g in got:
                if g[0] == 'ContinuousEmission' and k[2] is not None: same(ck, nm + ': classical limit', g[1], k[2], loc=EXEC)
        else: refused(ck, nm, v, got, EXEC)
        ck.absorb(v)
    # ---- species, through the generated particle
    w = run_any(ck, short(Particle1__particle_type=unknown('species')), 'any species', setup=real_sources); else_case(ck, 'deck, species', w, 'any species', [('push', l[1]) for l in w.loop if l[0] == 'push'], SG); ck.absorb(w)
    for n in sorted(set(SPECIES) | w.words | set(UNKNOWN) - {''} | {x.upper() for x in SPECIES}):
        v = run_main(ck, short(Particle1__particle_type=n), setup=real_sources); species_is(ck, 'deck, species "%s"' % n, v, n); ck.absorb(v)
    # ---- units
    w = run_any(ck, short(General__units=unknown('units')), 'any units'); else_case(ck, 'deck, units', w, 'any units', [('push', l[1]) for l in w.loop if l[0] == 'push'], 'Source/Tools/UnitsSystem.cpp'); ck.absorb(w)
    for n in sorted({'SI', 'si'} | w.words | {'cgs', 'Si', 'none', 'natural', 'SI ', 'CGS'}):
        v = run_main(ck, short(General__units=n))
        if n in ('SI', 'si'): ck.obligation('deck, units "%s"' % n, None if v.ret == 0 and not is0(v.pc) else 'refused', loc='Source/Tools/UnitsSystem.cpp')
        else: refused(ck, 'deck, units "%s"' % n, v, [], 'Source/Tools/UnitsSystem.cpp')
        ck.absorb(v)
    # ---- distributions
    for n in DISTROS:
        d = short(Particle1__energy_distribution=n); v = run_main(ck, d, setup=real_sources); distro_is(ck, 'deck, distribution "%s"' % n, v, DISTROS[n], of(v, 'SourceGenerator')); ck.absorb(v)
def species_is(ck, nm, w, n):
    ls = [l for pc, l in w.lists if not is0(pc)]
    if n not in SPECIES: refused(ck, nm, w, [], SG); return
    if not ck.obligation(nm, None if len(ls) == 1 and type(ls[0]) is Ptr and not is0(w.pc) else 'no particle is made', loc=SG): return
    p = w.m(ls[0], 'GetParticle', 0, cls='ParticleList'); c, name = SPECIES[n]
    same(ck, nm + ': charge', w.m(p, 'GetCharge'), const(c), loc=SG); same(ck, nm + ': name', w.getstring(w.m(p, 'GetName')), Str(name), loc=SG); same(ck, nm + ': mass', w.m(p, 'GetMass'), const(abs(c)), loc=SG)
def distro_is(ck, nm, w, kind, src):
    ls = [l for pc, l in w.lists if not is0(pc)]
    if not ck.obligation(nm, None if len(ls) >= 1 and len(src) == 1 and not is0(w.pc) else 'no particle is made', loc=SG): return
    p = w.m(ls[0], 'GetParticle', 0, cls='ParticleList'); e = w.m(p, 'GetEnergy'); a, b = src[0].args[3:5]
    if kind is None: same(ck, nm + ': the energy is the first parameter', e, a, loc=SG); return
    ds = [x.data for x in w.events if x.kind == 'draw' and x.data['dist'] == kind and matches(x.data['a'], a) and matches(x.data['b'], b)]
    ck.obligation(nm + ': the energy is drawn from the %s distribution of the two parameters' % {'normal': 'normal', 'uniform_real': 'uniform'}[kind], None if any(matches(e, x['val']) for x in ds) else 'is %s' % show(e), loc=SG)
def hist_names(ck):
    from beam import hist, bins, QUANT, NAMES
    LA = loc_of(ck, 'Histogram::AppParticle'); P = ck.prog()
    w = W(P, ck)
    with Compared() as c: h = hist(w, unknown('quantity'), const('0.5'), const('5'), 4); w.m(h, 'AppParticle', w.photon(), cls='Histogram')
    w.compared = c.c; none = 1
    for x in atoms_of(w, 'any quantity'): none = AND(none, NOT(x))
    ck.obligation('histogram of any other quantity stops', None if is0(AND(w.pc, none)) else 'goes on', loc=LA); ck.absorb(w)
    names = {a: q for q in NAMES for a in NAMES[q]}
    for n in sorted(set(names) | c.words('any quantity') | {'', 'momentum', 'ENERGY', 'pX', 'Px', 'e', 'theta', 'gamma'}):
        w = W(P, ck); q = names.get(n); nm = 'histogram of "%s"' % n
        val = {k: const(str(1 + i * 0.5)) for i, k in enumerate(QUANT)}
        # a particle whose quantities are all in different bins
        r2 = sum(float(val[k].v[0]) ** 2 for k in ('px', 'py', 'pz')); E = r2 ** 0.5
        centres = sorted([float(val[k].v[0]) for k in QUANT if k != 'energy'] + [E])
        p = w.photon(pos=[val['x'], val['y'], val['z']], mom=[val['px'], val['py'], val['pz']])
        h = hist(w, n, const('0'), const('10'), 41); w.m(h, 'AppParticle', p, cls='Histogram')
        if q is None:
            ck.obligation(nm + ' stops the run', None if is0(w.pc) else 'goes on', loc=LA); ck.obligation(nm + ' is reported', None if said(w) else 'no message', loc=LA); ck.absorb(w); continue
        x = E if q == 'energy' else float(val[q].v[0]); want = [const(int(i == round(x / 0.25))) for i in range(41)]
        same(ck, nm, bins(w, h, 'GetBinValues', 41), want, loc=LA); ck.absorb(w)
    # the species of a histogram
    for sp in ('Electron', 'Photon', 'Positron', 'electron', 'photon', 'Muon', ''):
        d = base_deck('static', 'Quantum', 3, 1, General__time_step=const('1e-16'), General__time_end=const('1e-16'), Histogram1__particle=sp, General__tracking=False, Histogram1__time=const(0))
        for i in range(3): d['Particle%d' % (i + 1), 'number_particles'] = 1; d['Particle%d' % (i + 1), 'output'] = False
        v = run_main(ck, d, setup=real_sources); got = [v.getstring(v.m(l[3][1], 'GetName')).text() for l in v.loop if l[0] == 'hist']
        want = [x for x in ('Electron', 'Photon', 'Positron') if x == sp]
        ck.obligation('a histogram of species "%s" sees exactly those particles' % sp, None if got == want else 'sees %s' % got, loc=EXEC); ck.absorb(v)
def py_names(ck):
    def one(field='gaussian', physics='quantum', particle='electron', distro='mono', real=False):
        r = py(ck); v = py_values()
        if real: real_sources(r.w)
        py_setup(r, v, field, physics, particle, distro); r.do('beamOn', 1, 1); r.w.ret = None; return r
    for what, names, tag, mk in (('field', PNAMES, 'any pyfield', lambda x: one(field=x)), ('radiation model', MNAMES, 'any pymodel', lambda x: one(physics=x))):
        cls = list(FNAMES.values()) if what == 'field' else list(PUSHERS + EMITTERS)
        with Compared() as c: r = mk(unknown(tag[4:]))
        w = r.w; w.compared = c.c; else_case(ck, 'Python, ' + what, w, tag, [(q.cls, q.pc) for q in of(w, *cls)] + [('push', l[1]) for l in w.loop if l[0] == 'push'], RM, stops=False); ck.absorb(w)
        for n in sorted(set(names) | c.words(tag) | set(UNKNOWN) | {x.upper() for x in names} | {'static', 'plane'}):
            r = mk(n); k = names.get(n); got = [q.cls for q in of(r.w, *cls) if not is0(q.pc)]; nm = 'Python, %s "%s"' % (what, n)
            if k:
                ck.obligation(nm, None if got == ([k] if what == 'field' else list(k[:2])) else 'makes %s' % (got or 'nothing'), loc=RM)
                for q in of(r.w, 'ContinuousEmission'):
                    if what != 'field' and k[2] is not None: same(ck, nm + ': classical limit', q.args[2], k[2], loc=RM)
            else:
                ck.obligation(nm + ' is left unset', None if not got and not [l for l in r.w.loop if l[0] == 'push'] else 'makes %s' % (got or 'a run'), loc=RM)
                ck.obligation(nm + ' is reported', None if len(said(r.w)) >= 2 else 'setter or run is silent', loc=RM)
                ck.obligation(nm + ' does not end Python', None if not is0(r.w.pc) else 'the process ends', loc=RM)
            ck.absorb(r.w)
        # a name that is refused does not run as the earlier one
        for good, bad in ((sorted(names)[0], 'nonsense'), (sorted(names)[-1], '')):
            r = mk(good); r.w.made.clear(); r.w.loop.clear(); v = py_values()
            if what == 'field': r.do('setField', bad, v['e_max'], v['wavelength'], v['duration'], v['waist'], v['polerisation'], v['start'], v['focus'])
            else: r.do('setPhysics', bad)
            r.do('beamOn', 1, 1); got = [q.cls for q in of(r.w, *cls) if not is0(q.pc)]
            ck.obligation('Python, %s "%s" after "%s" is left unset' % (what, bad, good), None if not got and not r.w.loop else 'makes %s' % got, loc=RM); ck.absorb(r.w)
    with Compared() as c: r = one(particle=unknown('pyspecies'), real=True)
    w = r.w; w.compared = c.c; else_case(ck, 'Python, species', w, 'any pyspecies', [('push', l[1]) for l in w.loop if l[0] == 'push'], SG, stops=False); ck.absorb(w)
    for n in sorted(set(SPECIES) | c.words('any pyspecies') | {'muon', 'ELECTRON', '', 'gamma'}):
        r = one(particle=n, real=True); species_is(ck, 'Python, species "%s"' % n, r.w, n); ck.absorb(r.w)
    for n in DISTROS:
        r = one(distro=n, real=True); distro_is(ck, 'Python, distribution "%s"' % n, r.w, DISTROS[n], of(r.w, 'SourceGenerator')); ck.absorb(r.w)
def C15(ck):
    ck.generic = True
    deck_names(ck); hist_names(ck); py_names(ck)
