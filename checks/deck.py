"""Input decks as abstract values, and main() run on them up to and through the event loop."""
from common import *
from physics import loc_of, fault_free

class Deck(dict):
    """(section, key) -> value: str for words, Num for numbers, list for vectors, int for counts, bool for switches"""
    def sections(self): return list(dict.fromkeys(s for s, _ in self))
CLASSES = ['StaticEMField', 'PlaneEMField', 'GaussianEMField', 'FocusingField', 'LorentzPusher', 'LandauPusher', 'ModifiedLandauPusher', 'ContinuousEmission', 'StochasticEmission',
           'NonLinearBreitWheeler', 'SourceGenerator', 'Histogram', 'OutputManager', 'HDF5Output']
def body(m, name, args):
    mod, nn = m.prog.resolve(name, None)
    return m.run(mod.func(nn), args)
def decode(m, name, args):
    """arguments of a call by their declared types: strings and vectors by value"""
    d = m.prog.dem[name]; ps = stdmodel.split_args(d[len(basename(d)):])
    if ps == ['void']: ps = []
    out = []
    off = len(args) - len(ps)
    for p, a in zip(ps, args[off:]):
        if 'basic_string' in p: out.append(stdmodel.getstr(m, a))
        elif p.startswith('ThreeVector'): out.append(m.getvec(a))
        else: out.append(a)
    return out
def reader(w, deck):
    """INIReader by its contract: the value of the key, or the default"""
    w.reads = []
    low = {(s.lower(), k.lower()): v for (s, k), v in deck.items()}
    def key(m, a, b):
        s, k = stdmodel.getstr(m, a), stdmodel.getstr(m, b)
        return (s.text() if isinstance(s, Str) and s.text() is not None else show(s)), (k.text() if isinstance(k, Str) and k.text() is not None else show(k))
    def look(m, a, b, kind, dflt):
        s, k = key(m, a, b); v = low.get((s.lower(), k.lower()))
        w.reads.append((s, k, kind, dflt, m.where())); return v
    def string(m, n, a):
        d = stdmodel.getstr(m, a[4]); v = look(m, a[2], a[3], 'string', d)
        stdmodel.setstr(m, a[0], d if v is None or v == '' else v if isinstance(v, Str) else Str(str(v)))
    def real(m, n, a):
        v = look(m, a[1], a[2], 'real', a[3]); return a[3] if v is None else S(v)
    def integer(m, n, a):
        v = look(m, a[1], a[2], 'integer', a[3]); return a[3] if v is None else v
    def boolean(m, n, a):
        v = look(m, a[1], a[2], 'boolean', a[3]); return a[3] if v is None else int(v)
    def vector(m, n, a):
        d = m.getvec(a[4]); v = look(m, a[2], a[3], 'vector', d)
        for i, x in enumerate(d if v is None else v): m.store(m.padd(a[0], 8 * i), F64, S(x))
    def has(m, n, a):
        s, k = key(m, a[1], a[2]); w.reads.append((s, k, 'has', None, m.where())); return int((s.lower(), k.lower()) in low)
    def sections(m, n, a):
        ss = deck.sections(); o = m.alloc('sections', 'heap', 32 * max(len(ss), 1), 'new')
        for i, s in enumerate(ss): o.cells[32 * i] = (32, Str(s))
        for i, p in enumerate((0, 32 * len(ss), 32 * len(ss))): m.store(m.padd(a[0], 8 * i), PTR, Ptr(o, p))
    for n, h in (('Get', string), ('GetString', string), ('GetReal', real), ('GetInteger', integer), ('GetBoolean', boolean), ('GetThreeVector', vector), ('HasValue', has), ('GetSections', sections)):
        w.override(r'INIReader::%s(\[abi:cxx11\])?\(.*' % n, h)
    w.override(r'INIReader::ParseError\(.*', lambda m, n, a: 0)
    def ctor(m, n, a): m.event('reader', file=stdmodel.getstr(m, a[1]) if len(a) > 1 else None)
    w.override(r'INIReader::~?INIReader(\[abi:cxx11\])?\(.*', ctor)
def record(w, classes=CLASSES, real=True):
    """constructors are recorded with their arguments, then executed abstractly"""
    w.made = []
    for c in classes:
        def h(m, n, a, c=c):
            d = m.prog.dem[n]
            if re.match(r'%s::%s\((%s const&|%s&&)\)' % (c, c, c, c), d): return body(m, n, a)
            r = Made(); r.cls = c; r.args = decode(m, n, a); r.loc = m.where(); r.pc = m.pc; r.obj = a[0]; r.loc = m.where(); r.seq = len(w.made); r.depth = len(m.stack)
            w.made.append(r); m.event('made', cls=c, args=r.args, obj=a[0])
            if real and c not in ('HDF5Output', 'OutputManager'): body(m, n, a)
            return None
        w.override(r'%s::%s\(.*' % (c, c), h)
class Made: pass
def base_deck(field='gaussian', physics='Quantum', nsrc=1, nhist=0, **kw):
    """every key of the documentation, each with its own symbol"""
    d = Deck()
    sy = lambda n, lo=.4, hi=2.9, wide=True: symbol('deck.' + n, lo, hi, wide)
    vec = lambda n: vsym('deck.' + n, wide=True)
    g = {'units': 'SI', 'time_step': sy('time_step'), 'time_end': Mul('2.5', sy('time_step')), 'file_name': 'file.h5', 'tracking': True}
    for k, v in g.items(): d['General', k] = v
    f = {'field_type': field}
    if field == 'static': f.update(e_field=vec('e_field'), b_field=vec('b_field'))
    else:
        f.update(e_max=sy('e_max'), wavelength=sy('wavelength'), polerisation=sy('polerisation', -7, 7))
        if field == 'plane': f.update(direction=dsym('deck.fdirection'))
        else: f.update(duration=sy('fduration'), waist=sy('waist'), start=vec('start'), focus=[Add(x, y) for x, y in zip(vec('start'), dsym('deck.focus'))])
    for k, v in f.items(): d['Field', k] = v
    for i in range(1, nsrc + 1):
        p = {'number_particles': 1 + i, 'name': 'src%d' % i, 'particle_type': ['Electron', 'photon', 'Positron'][(i - 1) % 3], 'energy_distribution': ['mono', 'gaussian', 'linear'][(i - 1) % 3],
             'position': vec('pos%d' % i), 'direction': dsym('deck.dir%d' % i), 'energy_mean': sy('emean%d' % i, 4, 6, False), 'energy_sig': sy('esig%d' % i), 'radius': sy('radius%d' % i),
             'divergence': sy('div%d' % i), 'duration': sy('dur%d' % i), 'output': bool(i % 2)}
        for k, v in p.items(): d['Particle%d' % i, k] = v
    ph = {'radiation_model': physics, 'min_energy': sy('min_energy'), 'sample_fraction': sy('sample_fraction', .1, .9, 'down'), 'pair_production': True}
    for k, v in ph.items(): d['Physics', k] = v
    for i in range(1, nhist + 1):
        h = {'name': 'hist%d' % i, 'particle': ['Photon', 'Electron', 'Positron'][(i - 1) % 3], 'type': ['energy', 'x', 'px'][(i - 1) % 3], 'time': sy('htime%d' % i), 'bins': 4 + i,
             'min_bin': sy('minbin%d' % i, -9, -5, False), 'max_bin': sy('maxbin%d' % i, -4, 3, False)}
        for k, v in h.items(): d['Histogram%d' % i, k] = v
    for k, v in kw.items(): d[tuple(k.split('__'))] = v
    return d
def refs(ck, drivers=('units',), cfg='std'):
    P = ck.prog(cfg, drivers=drivers); w = W(P, ck); u = w.new('UnitsSystem', w.string('SI'))
    return {n: w.call('r_' + n, [u]) for n in ('Time', 'Length', 'EField', 'BField', 'Momentum', 'Energy')}
def argv(w, *args):
    o = w.alloc('argv', 'stack', 8 * (len(args) + 1)); o.cells[8 * len(args)] = (8, 0)
    for i, a in enumerate(args): o.cells[8 * i] = (8, stdmodel.cstr_ptr(w, Str(a)))
    return Ptr(o)
class StopRun(Exception): pass
def run_main(ck, deck, cfg='std', stub=True, cap=60, args=('qedcasc', 'run.ini'), setup=None, drivers=('units',)):
    """main() on a deck. The loop's calls are recorded; with stub they do nothing"""
    P = ck.prog(cfg, drivers=drivers); w = W(P, ck, overrides=TABLES); small_tables(w)
    reader(w, deck); record(w)
    w.override(r'OutputManager::~OutputManager\(.*', lambda m, n, a: None)
    w.loop = []
    def note(kind):
        def h(m, n, a):
            w.loop.append((kind, m.pc, decode(m, n, a), a, m.where(), m.tid, m.locks))
            if len(w.loop) > cap * 40: m.pc = 0
        return h
    def gen(m, n, a):
        l = w.new('ParticleList', w.string('event'), 40); w.m(l, 'AddParticle', w.photon(name='g%d' % len(w.loop)), cls='ParticleList')
        w.loop.append(('generate', m.pc, l, a, m.where(), m.tid, m.locks)); return l
    if stub:
        w.override(r'SourceGenerator::GenerateList\(.*', gen)
        for k, p in (('push', r'\w+::PushParticle\(.*'), ('interact', r'\w+::Interact\(.*'), ('free', r'SourceGenerator::FreeSources\(.*'), ('hist', r'Histogram::AppParticle\(.*'),
                     ('init', r'OutputManager::InitSource\(.*'), ('store', r'OutputManager::StoreSource\(.*'), ('track', r'OutputManager::StoreTrack\(.*'),
                     ('events', r'OutputManager::OutputEvents(MPI)?\(.*'), ('outhist', r'OutputManager::OutputHist(MPI)?\(.*')): w.override(p, note(k))
    if setup: setup(w)
    w.events.clear()
    w.ret = w.call('main', [len(args), argv(w, *args)])
    return w
