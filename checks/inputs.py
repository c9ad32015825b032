"""C13, C15, C16, C17: from the user's input to the objects of a run."""
from deck import *
import extmodel
from physics import interact, world, make_particle, ploc, tok, numdep, guard_dep, influences, PROCS, PUSHERS as PUSHER_CLASSES
EXEC = 'Source/Exec/QEDCASC.cpp'; FP = 'Source/IO/Input/FileParser.cpp'; RM = 'Source/Python/RunManager.cpp'
FIELDS = {'static': 'StaticEMField', 'plane': 'PlaneEMField', 'gaussian': 'GaussianEMField', 'focusing': 'FocusingField'}
MODELS = {'classical': ('LandauPusher', 'ContinuousEmission', 1), 'semiclassical': ('ModifiedLandauPusher', 'ContinuousEmission', 0), 'quantum': ('LorentzPusher', 'StochasticEmission', None)}
PUSHERS = ('LorentzPusher', 'LandauPusher', 'ModifiedLandauPusher'); EMITTERS = ('ContinuousEmission', 'StochasticEmission')
P_LASER = [('e_max', 'EField'), ('wavelength', 'Length'), ('duration', 'Time'), ('waist', 'Length'), ('polerisation', None), ('start', 'Length'), ('focus', 'Length')]
PARAMS = {'StaticEMField': [('e_field', 'EField'), ('b_field', 'BField')], 'PlaneEMField': [('e_max', 'EField'), ('wavelength', 'Length'), ('polerisation', None), ('direction', None)],
          'GaussianEMField': P_LASER, 'FocusingField': P_LASER,
          'SourceGenerator': [('particle_type', 'w'), ('energy_distribution', 'w'), ('number_particles', None), ('energy_mean', 'Energy'), ('energy_sig', 'Energy'), ('radius', 'Length'),
                              ('duration', 'Time'), ('divergence', None), ('position', 'Length'), ('direction', None)],
          'Histogram': [('name', 'w'), ('particle', 'w'), ('type', 'w'), ('time', 'Time'), ('min_bin', None), ('max_bin', None), ('bins', None)]}
def scaled(v, ref):
    if isinstance(v, list): return [Div(x, ref) for x in v]
    return Div(v, ref)
def plain(v):
    if isinstance(v, list): return [S(x) for x in v]
    if isinstance(v, str): return Str(v)
    return int(v) if isinstance(v, (bool, int)) else S(v)
def is_num(v): return isinstance(v, (Num, Ite)) or (isinstance(v, list) and all(isinstance(x, (Num, Ite)) for x in v))
def ratio(a, v):
    if isinstance(v, list): return [Div(x, y) for x, y in zip(a, v)]
    return Div(a, v)
def first(r):
    x = r
    while isinstance(x, Ite): x = x.a if hasattr(x, 'a') else next(v for _, v in leaves(x))
    return x
def constant(ck, nm, r, L):
    """the value is one positive number for all inputs"""
    rs = r if isinstance(r, list) else [r]
    k = [v for _, v in leaves(rs[0])][0]
    if not isinstance(k, Num): ck.obligation(nm, 'is %s' % show(k), loc=L); return
    c = const(repr(float(k.v[0])))
    same(ck, nm, rs, [c] * len(rs), loc=L)
    if not float(k.v[0]) > 0: ck.obligation(nm, 'factor %g' % float(k.v[0]), loc=L)
def of(w, *cls): return [r for r in w.made if r.cls in cls]
def compare(ck, mode, nm, r, params, values, R):
    """constructor arguments against the user's values"""
    for i, (k, dim) in enumerate(params):
        v = values[k]
        if i >= len(r.args): ck.obligation('%s: %s' % (nm, k), 'no such argument', loc=r.loc); continue
        a = r.args[i]
        if mode == 'C13':
            if dim == 'w' or isinstance(v, bool): continue
            if isinstance(a, Ptr) or isinstance(a, Str): continue
            if isinstance(v, int) and not isinstance(a, Num): same(ck, '%s: %s is passed unchanged' % (nm, k), a, v, loc=r.loc); continue
            same(ck, '%s: %s %s' % (nm, k, 'in units of the reference %s' % dim.lower() if dim else 'is passed unchanged'), a, scaled(v, R[dim]) if dim else plain(v), loc=r.loc)
        elif dim == 'w' or isinstance(v, (int, bool, str)): same(ck, '%s: %s' % (nm, k), a, plain(v), loc=r.loc)
        else:
            try: q = ratio(a, v)
            except Exception: ck.obligation('%s: %s' % (nm, k), 'is %s' % show(a), loc=r.loc); continue
            constant(ck, '%s: %s and nothing else' % (nm, k), q, r.loc)
def identity(a, p): return type(a) is Ptr and type(p) is Ptr and a.obj is p.obj and a.off == p.off
def section(deck, s): return {k: v for (t, k), v in deck.items() if t == s}

def deck_run(ck, mode, R, field, physics, nsrc, nhist, pair, track, outs):
    d = base_deck(field, physics, nsrc, nhist); d['Physics', 'pair_production'] = pair; d['General', 'tracking'] = track
    for i in range(nsrc): d['Particle%d' % (i + 1), 'output'] = outs[i]
    nm = '%s field, %s' % (field, physics)
    # one event per source is enough here; the loop itself is C18
    d['General', 'time_step'] = symbol('deck.time_step'); d['General', 'time_end'] = Mul('0.5', d['General', 'time_step'])
    w = run_main(ck, d)
    if is0(w.pc) or w.ret != 0: ck.obligation(nm + ': runs', 'the program stops (%s)' % [show(e.data.get('val', '')) for e in w.events if e.kind == 'print'][-2:], loc=EXEC)
    fs = of(w, *FIELDS.values())
    ck.obligation(nm + ': the field of that name is made', None if [r.cls for r in fs] == [FIELDS[field]] else 'made %s' % [r.cls for r in fs], loc=EXEC)
    if len(fs) != 1 or fs[0].cls != FIELDS[field]: ck.absorb(w); return w
    f = fs[0]; dt = d['General', 'time_step']
    compare(ck, mode, nm + ': ' + f.cls, f, PARAMS[f.cls], section(d, 'Field'), R)
    def num(r, i, nm2, v, dim):
        compare(ck, mode, nm2, r, [(None, None)] * 0, {}, R)
        if mode == 'C13': same(ck, nm2 + (' in units of the reference %s' % dim.lower() if dim else ' is passed unchanged'), r.args[i], scaled(v, R[dim]) if dim else plain(v), loc=r.loc)
        else: constant(ck, nm2 + ' and nothing else', ratio(r.args[i], v), r.loc)
    want = MODELS[physics.lower()]
    pu, em, bw = of(w, *PUSHERS), of(w, *EMITTERS), of(w, 'NonLinearBreitWheeler')
    for r in pu: num(r, 1, '%s: time step of the %s' % (nm, r.cls), dt, 'Time')
    for r in em:
        num(r, 1, '%s: time step of the %s' % (nm, r.cls), dt, 'Time'); o = 2 + (r.cls == 'ContinuousEmission')
        num(r, o, '%s: sample fraction of the %s' % (nm, r.cls), d['Physics', 'sample_fraction'], None); num(r, o + 1, '%s: minimum energy of the %s' % (nm, r.cls), d['Physics', 'min_energy'], 'Energy')
    for r in bw: num(r, 1, '%s: time step of pair production' % nm, dt, 'Time')
    src = of(w, 'SourceGenerator'); hs = of(w, 'Histogram')
    for i, r in enumerate(src): compare(ck, mode, '%s: source %d' % (nm, i + 1), r, PARAMS['SourceGenerator'], section(d, 'Particle%d' % (i + 1)), R)
    for i, r in enumerate(hs): compare(ck, mode, '%s: histogram %d' % (nm, i + 1), r, PARAMS['Histogram'], section(d, 'Histogram%d' % (i + 1)), R)
    if mode == 'C16':
        ob = lambda n, ok, txt, loc=EXEC: ck.obligation('%s: %s' % (nm, n), None if ok else txt, loc=loc)
        ob('one source per section', len(src) == nsrc, '%d sources' % len(src)); ob('one histogram per section', len(hs) == nhist, '%d histograms' % len(hs))
        ob('the pusher of the model', [r.cls for r in pu] == [want[0]], 'made %s' % [r.cls for r in pu]); ob('the emission of the model', [r.cls for r in em] == [want[1]], 'made %s' % [r.cls for r in em])
        ob('pair production if and only if requested', len(bw) == int(pair), '%d pair production processes' % len(bw))
        for r in pu + em + bw: ob('the %s uses the field of the run' % r.cls, identity(r.args[0], f.obj), 'another field', r.loc)
        for r in em:
            if r.cls == 'ContinuousEmission' and want[2] is not None: same(ck, nm + ': classical limit', r.args[2], want[2], loc=r.loc)
        tr = {'StochasticEmission': 4, 'ContinuousEmission': 5, 'NonLinearBreitWheeler': 2, 'SourceGenerator': 10}
        for r in em + bw + src: same(ck, '%s: tracking reaches the %s' % (nm, r.cls), r.args[tr[r.cls]], int(track), loc=r.loc)
        om = of(w, 'OutputManager')
        ob('one output file', len(om) == 1, '%d output managers' % len(om))
        for r in om: same(ck, nm + ': name of the output file', r.args[0], Str(d['General', 'file_name']), loc=r.loc)
        ps = {id(l[3][0].obj): l for l in w.loop if l[0] == 'push'}
        ob('the pusher made is the one used', len(pu) == 1 and list(ps) == [id(pu[0].obj.obj)], 'another pusher')
        seen = [id(l[3][0].obj) for l in w.loop if l[0] == 'interact']; procs = [r for r in w.made if r.cls in EMITTERS + ('NonLinearBreitWheeler',)]
        ob('exactly the processes made are used', set(seen) == {id(r.obj.obj) for r in procs}, 'other processes')
        gens = [id(l[3][0].obj) for l in w.loop if l[0] == 'generate']
        ob('every source made is used', set(gens) == {id(r.obj.obj) for r in src}, 'other sources')
        oh = [id(l[3][1].obj) for l in w.loop if l[0] == 'outhist']
        ob('every histogram is written once', sorted(oh) == sorted(id(r.obj.obj) for r in hs), '%d of %d histograms are written' % (len(oh), len(hs)))
        # output switches of each source, in order
        ev = [l for l in w.loop if l[0] == 'events']
        ob('results of every source are written', len(ev) == nsrc, '%d times for %d sources' % (len(ev), nsrc))
        for i, l in enumerate(ev[:nsrc]): same(ck, '%s: output switches of source %d' % (nm, i + 1), list(l[3][1:3]), [int(outs[i]), int(track)], loc=l[4])
        n_of = lambda i: d['Particle%d' % (i + 1), 'number_particles']
        ini = [l for l in w.loop if l[0] == 'init']
        same(ck, nm + ': storage for the sources that are written', [l[3][1] for l in ini], [n_of(i) for i in range(nsrc) if outs[i]], loc=EXEC)
        st = [l for l in w.loop if l[0] == 'store']
        ob('events of the sources that are written are stored', len(st) == sum(2 * n_of(i) for i in range(nsrc) if outs[i]), '%d stored' % len(st))
        tk = [l for l in w.loop if l[0] == 'track']
        ob('tracks are stored if and only if tracking is on', len(tk) == (sum(n_of(i) for i in range(nsrc)) if track else 0), '%d stored' % len(tk))
    fault_free(ck, nm, w); ck.absorb(w)
    return w

# ------------------------------------------------------------------ Python
class Py: pass
def py(ck, cfg='py', stub=True):
    P = ck.prog(cfg, drivers=('units',)); w = W(P, ck, overrides=TABLES); small_tables(w); extmodel.pybind(w); record(w); w.loop = []; w.heap = []
    given = w.alloc
    def alloc(name, kind, size, alloc=None):
        o = given(name, kind, size, alloc)
        if kind == 'heap': w.heap.append(o)
        return o
    w.alloc = alloc
    def gen(m, n, a):
        l = w.new('ParticleList', w.string('event'), 40); k = len(w.loop)
        w.m(l, 'AddParticle', w.lepton(-1, name='g%d' % k), cls='ParticleList'); w.loop.append(('generate', m.pc, l, a, m.where(), m.tid, m.locks)); return l
    def note(kind):
        def h(m, n, a): w.loop.append((kind, m.pc, None, a, m.where(), m.tid, m.locks))
        return h
    if stub:
        w.override(r'SourceGenerator::GenerateList\(.*', gen)
        for k, p in (('push', r'\w+::PushParticle\(.*'), ('interact', r'\w+::Interact\(.*'), ('free', r'SourceGenerator::FreeSources\(.*')): w.override(p, note(k))
    r = Py(); r.w = w; r.o = w.new('RunManager')
    def do(name, *a):
        b = []
        for x in a:
            if isinstance(x, str): b.append(w.string(x))
            elif isinstance(x, list): b.append(w.vec(x))
            elif isinstance(x, bool): b.append(int(x))
            else: b.append(x)
        n0 = len(w.events); v = w.m(r.o, name, *b, cls='RunManager'); r.last = w.events[n0:]; return v
    r.do = do
    return r
def printed(evs): return [e for e in evs if e.kind == 'print']
def py_values():
    v = lambda n: vsym('py.' + n, wide=True); s = lambda n, lo=.4, hi=2.9, wide=True: symbol('py.' + n, lo, hi, wide)
    return {'e_max': s('e_max'), 'wavelength': s('wavelength'), 'duration': s('duration'), 'waist': s('waist'), 'polerisation': s('polerisation', -7, 7), 'start': v('start'), 'focus': [Add(x, y) for x, y in zip(v('start'), dsym('py.focus'))],
            'energy_mean': s('emean', 4, 6, False), 'energy_sig': s('esig'), 'radius': s('radius'), 'pduration': s('pduration'), 'divergence': s('divergence'), 'position': v('position'), 'direction': dsym('py.direction'),
            'time_step': s('time_step'), 'sample_fraction': const('0.37')}
def py_setup(r, v, field='gaussian', physics='quantum', particle='electron', distro='mono', order=0, end=None):
    ops = [lambda: r.do('setTime', v['time_step'], end if end is not None else Mul('0.5', v['time_step'])),
           lambda: r.do('setField', field, v['e_max'], v['wavelength'], v['duration'], v['waist'], v['polerisation'], v['start'], v['focus']),
           lambda: r.do('setPhysics', physics),
           lambda: r.do('setGenerator', particle, distro, v['energy_mean'], v['energy_sig'], v['radius'], v['pduration'], v['divergence'], v['position'], v['direction']),
           lambda: r.do('setSampleFraction', v['sample_fraction'])]
    for f in (ops if not order else ops[::-1]): f()
def py_run(ck, mode, R, field, physics, particle, distro, pair, order, cfg='py'):
    r = py(ck, cfg); w = r.w; v = py_values(); nm = 'Python, %s field, %s' % (field, physics); n = 3
    py_setup(r, v, field, physics, particle, distro, order)
    if pair is not None: r.do('usePairProduction', pair)
    r.do('beamOn', n, 1)
    fs = of(w, *FIELDS.values()); src = of(w, 'SourceGenerator'); pu, em, bw = of(w, *PUSHERS), of(w, *EMITTERS), of(w, 'NonLinearBreitWheeler')
    ok = ck.obligation(nm + ': runs with the field of that name', None if not is0(w.pc) and [x.cls for x in fs] == [FIELDS[field.lower()]] and len(src) == 1 else 'made %s, %d sources' % ([x.cls for x in fs], len(src)), loc=RM)
    if not ok: ck.absorb(w); return
    f = fs[0]
    compare(ck, mode, nm + ': ' + f.cls, f, P_LASER, v, R)
    compare(ck, mode, nm + ': source', src[0], PARAMS['SourceGenerator'], dict(v, duration=v['pduration'], particle_type=particle, energy_distribution=distro, number_particles=n), R)
    def num(q, i, nm2, val, dim):
        if mode == 'C13': same(ck, nm2, q.args[i], scaled(val, R[dim]) if dim else plain(val), loc=q.loc)
        else: constant(ck, nm2 + ' and nothing else', ratio(q.args[i], val), q.loc)
    for q in pu + em + bw: num(q, 1, '%s: time step of the %s' % (nm, q.cls), v['time_step'], 'Time')
    for q in em:
        o = 2 + (q.cls == 'ContinuousEmission'); num(q, o, '%s: sample fraction of the %s' % (nm, q.cls), v['sample_fraction'], None)
    if mode == 'C16':
        want = MODELS[physics.lower()]; ob = lambda n_, ok, txt, loc=RM: ck.obligation('%s: %s' % (nm, n_), None if ok else txt, loc=loc)
        ob('the pusher of the model', [q.cls for q in pu] == [want[0]], 'made %s' % [q.cls for q in pu]); ob('the emission of the model', [q.cls for q in em] == [want[1]], 'made %s' % [q.cls for q in em])
        ob('pair production if and only if requested', len(bw) == int(bool(pair)), '%d pair production processes' % len(bw))
        for q in pu + em + bw: ob('the %s uses the field of the run' % q.cls, identity(q.args[0], f.obj), 'another field', q.loc)
        for q in em:
            if q.cls == 'ContinuousEmission': same(ck, nm + ': classical limit', q.args[2], want[2], loc=q.loc)
            same(ck, nm + ': no minimum energy', q.args[2 + (q.cls == 'ContinuousEmission') + 1], const(0), loc=q.loc)
        ps = {id(l[3][0].obj) for l in w.loop if l[0] == 'push'}; ob('the pusher made is the one used', len(pu) == 1 and ps == {id(pu[0].obj.obj)}, 'another pusher')
        seen = {id(l[3][0].obj) for l in w.loop if l[0] == 'interact'}; ob('exactly the processes made are used', seen == {id(q.obj.obj) for q in em + bw}, 'other processes')
        g = [l for l in w.loop if l[0] == 'generate']; ob('the events asked for', len(g) == n, '%d events' % len(g))
    fault_free(ck, nm, w); ck.absorb(w)

def loops(ck, R):
    """the end time, seen through the number of steps, for numbers chosen around whole multiples"""
    for dt, end in (('1e-16', '2.5e-16'), ('2e-16', '1.1e-15'), ('1', '3.5'), ('3e-17', '1e-17')) if not ck.thorough else [('%d.%de-16' % (i, k), '%de-16' % e) for i in (1, 3) for k in (0, 7) for e in (1, 5, 11, 20)]:
        n = -(-float(end) // float(dt)); d = base_deck('static', 'Classical', 1, 0); d['General', 'time_step'] = const(dt); d['General', 'time_end'] = const(end); d['Physics', 'pair_production'] = False
        d['Particle1', 'number_particles'] = 1
        w = run_main(ck, d, cap=2); k = len([l for l in w.loop if l[0] == 'push'])
        ck.obligation('deck with time step %s and end time %s makes %d steps' % (dt, end, n), None if k == n else '%d steps' % k, loc=EXEC); ck.absorb(w)
        r = py(ck); v = dict(py_values(), time_step=const(dt)); py_setup(r, v, end=const(end)); r.do('beamOn', 1, 1)
        k = len([l for l in r.w.loop if l[0] == 'push']); ck.obligation('Python with time step %s and end time %s makes %d steps' % (dt, end, n), None if k == n else '%d steps' % k, loc=RM); ck.absorb(r.w)
PLAN = [('static', 'Classical', 3, 3, True, True, (True, False, True)), ('plane', 'Semiclassical', 1, 0, False, False, (True,)), ('gaussian', 'Quantum', 2, 2, True, False, (False, True)),
        ('focusing', 'Quantum', 1, 1, False, True, (False,))]
def plan(ck):
    if not ck.thorough: return PLAN
    return [(f, p, n, h, a, b, o) for f in FIELDS for p in ('Classical', 'classical', 'Semiclassical', 'semiclassical', 'Quantum', 'quantum') for (n, h, a, b, o) in ((3, 3, True, True, (True, False, True)), (1, 1, False, False, (True,)), (2, 0, True, False, (False, True)), (2, 2, False, True, (False, False)))]
def pyplan(ck):
    if not ck.thorough: return [('gaussian', 'classical', 'electron', 'mono', None, 0), ('focusing', 'semiclassical', 'photon', 'gaussian', True, 1), ('Gaussian', 'quantum', 'positron', 'linear', True, 0), ('Focusing', 'Quantum', 'Electron', 'Linear', False, 1)]
    return [(f, p, s, d, b, o) for f in ('gaussian', 'Gaussian', 'focusing', 'Focusing') for p in ('classical', 'Semiclassical', 'Quantum') for s, d in (('electron', 'mono'), ('photon', 'gaussian')) for b in (None, True, False) for o in (0, 1)]
def C13(ck):
    R = refs(ck); ck.generic = True
    for p in plan(ck): deck_run(ck, 'C13', R, *p)
    loops(ck, R)
    for p in pyplan(ck): py_run(ck, 'C13', R, *p)
    results(ck, R); tracks(ck, R)
def C16(ck):
    narrow(ck, 'FileParser.cpp', 'QEDCASC.cpp')
    ck.generic = True
    for p in plan(ck): deck_run(ck, 'C16', None, *p)
    for p in pyplan(ck): py_run(ck, 'C16', None, *p)
    fractions(ck); inside_processes(ck); inside_fields(ck); inside_sources(ck); inside_histograms(ck)
def fractions(ck):
    """any fraction from nothing to all, both included"""
    for x in ('0', '1', '1e-9', '0.5', '0.999'):
        for how in ('deck', 'Python'):
            if how == 'deck':
                d = base_deck('static', 'Quantum', 1, 0); d['Physics', 'sample_fraction'] = const(x); d['General', 'time_step'] = const('1e-16'); d['General', 'time_end'] = const('5e-17'); d['Physics', 'pair_production'] = True; w = run_main(ck, d, cap=2)
            else:
                r = py(ck); py_setup(r, dict(TIMED(), sample_fraction=const(x))); r.do('usePairProduction', 1); r.do('beamOn', 1, 1); w = r.w
            em = of(w, *EMITTERS); nm = '%s with sample fraction %s' % (how, x)
            if ck.obligation(nm + ': runs', None if len(em) == 1 and not is0(w.pc) else 'makes %s' % [q.cls for q in em], loc=EXEC if how == 'deck' else RM): same(ck, nm + ': reaches the process', em[0].args[2 + (em[0].cls == 'ContinuousEmission')], const(x), loc=em[0].loc)
            ck.obligation(nm + ': pair production stays switched on', None if of(w, 'NonLinearBreitWheeler') else 'it is not set up', loc=EXEC if how == 'deck' else RM)
            ck.absorb(w)

# ------------------------------------------------ what a constructed object does with its parameters
def moves(vs, *syms): return [x for x in syms if any(guard_dep(v, x) for v in vs)]
def inside_processes(ck):
    dt, f, em = symbol('dt', wide=True), symbol('f', .1, .9999, wide='down'), symbol('eMin', wide=True); h = [tok('hsokolov.table', k) for k in (2, 4)]
    for kind in PROCS:
        sp = 'photon' if kind == 'pair' else 'electron'
        for tr in (0, 1):
            nm = '%s, tracking %d' % ({'pair': 'pair production', 'classical': 'continuous emission in the classical limit'}.get(kind, kind + ' emission'), tr); L = ploc(ck, kind)
            r = interact(ck, kind, sp, ptrack=tr)
            if not r.new: ck.obligation(nm + ': makes particles', 'never', loc=L); continue
            for c, s in r.new: same(ck, nm + ': the tracking setting reaches the new particles', s['tracking'], tr, c, L)
            out = [s['weight'] for _, s in r.new] + [r.a['optical depth']]
            ck.obligation(nm + ': the time step sets the rate', None if moves(out + [c for c, _ in r.new], dt) else 'it has no influence', loc=L)
            if kind == 'pair': continue
            c, s = r.new[0]; low = amap(lambda e: NOT(lt0(sub(em, e))), s['energy'])
            never(ck, nm + ': nothing below the minimum energy is recorded', AND(c, low), loc=L, why='photon below the minimum energy')
            r0 = interact(ck, kind, sp, ptrack=tr, emin=const(0)); r1 = interact(ck, kind, sp, ptrack=tr, f=const(1))
            for q, sym, txt in ((r0, f, 'the sample fraction'), (r1, em, 'the minimum energy')):
                ck.obligation(nm + ': %s decides what is recorded' % txt, None if q.new and guard_dep(q.new[0][0], sym) else 'it has no influence', loc=L)
            if kind == 'stochastic': ck.obligation(nm + ': the rate is that of the time step alone', 'the optical depth depends on %s' % show(moves([r.a['optical depth']], f, em)[0]) if moves([r.a['optical depth']], f, em) else None, loc=L)
            else:
                d = [x for x in h if any(numdep(v, x) for v in (s['weight'], s['energy']))]
                ck.obligation(nm + ': the classical limit is used if and only if asked for', None if bool(d) == (kind == 'continuous') else 'the quantum rate is%s used' % ('' if d else ' not'), loc=L)
    for P in PUSHERS:
        w = world(ck); p = make_particle(w, 'photon'); b = w.snap(p); pu = w.new(P, w.field(), dt); w.m(pu, 'PushParticle', p, cls='ParticlePusher' if w.vslot(pu, 'PushParticle') is None else None); a = w.snap(p)
        L = loc_of(ck, P + '::PushParticle', 'ParticlePusher::PushParticle')
        same(ck, '%s: photons move for the time step' % P, a['position'], vadd(b['position'], vmul(dt, unit(b['momentum']))), loc=L); same(ck, '%s: the clock moves by the time step' % P, a['time'], Add(b['time'], dt), loc=L); ck.absorb(w)
def inside_fields(ck):
    import fields
    from fields import make, get, zero_when, from_pulse, quadratures, Exp, Cos, Sin
    big = const('1e9'); t = symbol('t')
    w = W(ck.prog(), ck); E, B = vsym('E0'), vsym('B0'); q = Py(); q.w = w; q.f = w.new('StaticEMField', w.vec(E), w.vec(B)); e, b = get(q, t, vsym('r')); L = loc_of(ck, 'StaticEMField::StaticEMField')
    same(ck, 'static field: electric field', e, E, loc=L); same(ck, 'static field: magnetic field', b, B, loc=L); ck.absorb(w)
    for cls in fields.LASERS:
        L = loc_of(ck, cls + '::' + cls); pulse = cls != 'PlaneEMField'
        for dn, n, anti in (('symbolic direction', None, False), ('along x', [const(1), const(0), const(0)], False)):
            nm = '%s %s' % (cls, dn); kw = dict(w0=big) if pulse else {}
            r = make(ck, cls, n, anti, **kw)
            env = (lambda tt: Exp(Mul(-1, Mul(Div(Sub(tt, r.t0), r.tau), Div(Sub(tt, r.t0), r.tau))))) if pulse else (lambda tt: const(1))
            qd = quadratures(r, r.focus, t, Div(r.lam, 4), env); g = qd[2] if cls == 'FocusingField' else 1
            same(ck, nm + ': maximum field, wavelength%s at the focus' % (', duration, start and focus' if pulse else ''), qd[0], Mul(r.A, r.A), g, L)
            e, b = get(r, t, r.focus); g = NOT(zero_when(e + b)) if cls == 'FocusingField' else 1
            ax = from_pulse(r.n, [Cos(r.psi), Sin(r.psi), const(0)], anti)
            same(ck, nm + ': polarisation and direction', vmul(dot(e, ax), ax), e, g, L); ck.absorb(r.w)
            if not pulse: continue
            # amplitude along the axis is symmetric about the focus
            q = make(ck, cls, n, anti); z = symbol('zAxis', 1, 3); v = []
            for sg in (1, -1):
                zl = Mul(sg, z); env2 = lambda tt: Exp(Mul(-1, Mul(Div(Sub(Sub(tt, q.t0), zl), q.tau), Div(Sub(Sub(tt, q.t0), zl), q.tau))))
                v.append(quadratures(q, vadd(q.focus, vmul(zl, q.n)), Add(Add(q.t0, zl), '0.1'), Div(q.lam, 4), env2))
            same(ck, nm + ': the amplitude is symmetric about the focus', v[0][0], v[1][0], AND(v[0][2], v[1][2]) if cls == 'FocusingField' else 1, L); ck.absorb(q.w)
            # the waist sets the transverse profile and nothing on the axis at the focus; the duration does not set the profile
            ra = make(ck, cls, n, anti); x = vadd(ra.focus, from_pulse(ra.n, [symbol('px', .5, 2), symbol('py', .5, 2), const(0)], anti)); tp = Add(ra.t0, const('0.05')); v = []
            for k in (dict(), dict(w0=symbol('waist2', 5, 8)), dict(tau=symbol('tau2', 20, 40))):
                q = make(ck, cls, n, anti, **k); u = Sub(tp, q.t0); e, b = get(q, tp, x); v.append((vmul(Exp(Mul(Div(u, q.tau), Div(u, q.tau))), e), NOT(zero_when(e + b)))); ck.absorb(q.w)
            ck.obligation(nm + ': the waist sets the transverse profile', 'it has no influence' if all(matches(a, b) for a, b in zip(v[1][0], v[0][0])) else None, loc=L)
            same(ck, nm + ': the duration is no part of the transverse profile', v[2][0], v[0][0], AND(v[0][1], v[2][1]) if cls == 'FocusingField' else 1, L)
def inside_sources(ck):
    import beam
    from fields import from_pulse
    P = ck.prog(); LC, L = loc_of(ck, 'SourceGenerator::SourceGenerator'), loc_of(ck, 'SourceGenerator::GenerateList')
    for sp, mass, charge, name, distro, tr in (('electron', 1, -1, 'Electron', 'gaussian', 1), ('positron', 1, 1, 'Positron', 'linear', 0), ('photon', 0, 0, 'Photon', 'mono', 1), ('photon', 0, 0, 'Photon', 'linear', 0)):
        for n in (1, 3):
            w = W(P, ck); w.static('MCTools::RandDouble', const(0), const(1)); w.events.clear(); d = dsym('dir'); nm = '%s %s source of %d' % (distro, sp, n)
            s, a = beam.source(w, sp, distro, n, d, track=tr); l = w.m(s, 'GenerateList', cls='SourceGenerator')
            p = w.m(l, 'GetParticle', 0, cls='ParticleList'); o = w.snap(p, hist=False); o['energy'] = w.m(p, 'GetEnergy')
            ds = [e.data for e in w.events if e.kind == 'draw']
            def by(v): return [e for e in ds if influences(v, e['sym'])]
            u = unit(d); ex, ey = from_pulse(u, [const(1), const(0), const(0)]), from_pulse(u, [const(0), const(1), const(0)]); off = vsub(o['position'], a['pos'])
            for q, v, k in (('duration sets the longitudinal spread', dot(off, u), 'dur'), ('radius sets the transverse spread', dot(off, ex), 'radius'), ('radius sets the other transverse spread', dot(off, ey), 'radius'), ('divergence sets the angle', dot(unit(o['momentum']), u), 'div')):
                ck.obligation('%s: %s' % (nm, q), None if by(v) and all(matches(e['b'], a[k]) for e in by(v)) else 'draws with %s' % [show(e['b']) for e in by(v)], loc=LC)
            for i in range(3): ck.obligation('%s: the position is the centre of the source, component %s' % (nm, 'xyz'[i]), None if not any(influences(off[i], c) for c in a['pos']) else 'offset %s' % show(off[i]), loc=LC)
            if distro == 'mono': same(ck, nm + ': energy', o['energy'], a['e1'], loc=LC)
            else: ck.obligation(nm + ': energy parameters', None if [1 for e in by(o['energy']) if matches(e['a'], a['e1']) and matches(e['b'], a['e2'])] else 'no draw with them', loc=LC)
            for q, v in (('mass', const(mass)), ('charge', const(charge)), ('name', Str(name)), ('tracking', tr)): same(ck, '%s: %s' % (nm, q), o[q], v, loc=LC)
            ck.absorb(w)
def inside_histograms(ck):
    import beam
    P = ck.prog(); L = loc_of(ck, 'Histogram::Histogram')
    for i, q in enumerate(beam.QUANT):
        n = 2 + i % 3; w = W(P, ck); lo, hi, t = symbol('binMin', -3, -1), symbol('binMax', 2, 5), symbol('histTime', wide=True); h = beam.hist(w, q, lo, hi, n, name='hist%d' % i, part='part%d' % i, time=t); nm = 'histogram of ' + q
        g = lambda m: w.m(h, m, cls='Histogram')
        same(ck, nm + ': bins', g('GetNBins'), n, loc=L); same(ck, nm + ': time', g('GetTime'), t, loc=L); same(ck, nm + ': name', w.getstring(g('GetName')), Str('hist%d' % i), loc=L); same(ck, nm + ': particle', w.getstring(g('GetParticle')), Str('part%d' % i), loc=L)
        c = beam.bins(w, h, 'GetBinCentres', n); same(ck, nm + ': minimum and maximum', [c[0], c[-1]], [lo, hi], loc=L); ck.absorb(w)
        w = W(P, ck); h = beam.hist(w, q, const(0), const(10), 2); p = w.photon(pos=[const(v) for v in (-1, -2, -3)], mom=[const(v) for v in (-4, -5, -6)]) if q == 'energy' else None
        if p is None:
            k = 'x y z px py pz'.split().index(q); v = [-1] * 6; v[k] = 2; p = w.photon(pos=[const(x) for x in v[:3]], mom=[const(x) for x in v[3:]])
        w.m(h, 'AppParticle', p, cls='Histogram'); x = beam.bins(w, h, 'GetBinValues', 2)
        ck.obligation(nm + ': that quantity is counted', None if not all(matches(y, const(0)) for y in x) else 'a particle inside its range is not', loc=L); ck.absorb(w)
def results(ck, R):
    import runs
    for cfg, t in (("py", 1), ("pyomp", 2)):
        r = runs.pymanager(ck, cfg); py_setup(r, TIMED()); r.beam(runs.EVS, t); runs.arrays(ck, "Python results, %d threads" % t, r, R); fault_free(ck, "Python results", r.w); ck.absorb(r.w)
def tracks(ck, R):
    """tracks in the file: reference units with a unit system, none without"""
    from output import manager, plist, track_spec, OM
    C = 'OutputManager'
    for units in (True, False):
        Ru = R if units else None; nm = 'tracks %s units' % ('with' if units else 'without')
        o = manager(ck, 'std', units); w = o.w; sn = []
        l, ps = plist(w, ['Electron'], 'a', 2, 1); w.m(o.om, 'SingleParticle', ps[0], w.string('one'), cls=C); track_spec(ck, nm + ', single particle', o.f, 'Particles/Single/one', w.snap(ps[0]), Ru)
        l, ps = plist(w, ['Photon', 'Positron'], 'b', 3, 1); w.m(o.om, 'ListTracks', l, w.string('many'), cls=C)
        for j, p in enumerate(ps): track_spec(ck, nm + ', list', o.f, 'Particles/ParticleList/many/%d' % j, w.snap(p), Ru)
        for e in range(2): l, ps = plist(w, ['Electron', 'Photon'][:e + 1], 'c%d' % e, 1 + e, 1); w.m(o.om, 'StoreTrack', l, e, cls=C); sn += [w.snap(p) for p in ps]
        w.m(o.om, 'OutputEvents', 0, 1, cls=C)
        for i, s in enumerate(sn): track_spec(ck, '%s, stored track %d' % (nm, i), o.f, 'Particles/ParticleTrack/Event%d' % i, s, Ru)
        fault_free(ck, nm, w); ck.absorb(w)
def TIMED(): return dict(py_values(), time_step=const('2e-16'))
