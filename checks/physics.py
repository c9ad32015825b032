"""C01-C10, C29: particles, pushers and processes."""
from common import *

PUSHERS = ['LorentzPusher', 'LandauPusher', 'ModifiedLandauPusher']
PROCS = ['stochastic', 'continuous', 'classical', 'pair']
TWO = const(2)

class R: pass

def world(ck, **kw):
    w = W(ck.prog(), ck, overrides=TABLES); small_tables(w)
    return w
def make_process(w, kind, f=None, dt=None, emin=None, track=1, field=None):
    dt = dt if dt is not None else symbol('dt', wide=True); f = f if f is not None else symbol('f', .1, .9999, wide='down'); emin = emin if emin is not None else symbol('eMin', wide=True)
    field = field or w.field()
    if kind == 'stochastic': return w.new('StochasticEmission', field, dt, f, emin, track)
    if kind in ('continuous', 'classical'): return w.new('ContinuousEmission', field, dt, int(kind == 'classical'), f, emin, track)
    return w.new('NonLinearBreitWheeler', field, dt, track)
def make_particle(w, species, track=0, name='p'):
    if species == 'photon': return w.photon(mom=vsym(name + '.p', -9, 9, wide=True), track=track, name=name)
    if species == 'electron': return w.lepton(-1, mom=vsym(name + '.p', -5, 5, wide=True), track=track, name=name)
    if species == 'positron': return w.lepton(1, mom=vsym(name + '.p', -5, 5, wide=True), track=track, name=name)
    return w.lepton(symbol('q', -2, -1.1), mass=symbol('mass', 1.5, 3), mom=vsym(name + '.p', -5, 5, wide=True), track=track, name=name)
def interact(ck, kind, species, alive=1, track=0, ptrack=1, f=None, dt=None, emin=None, before=None):
    """one call of Interact on a particle that is the only one of an event"""
    r = R(); w = r.w = world(ck); r.kind = kind; r.species = species
    r.proc = make_process(w, kind, f, dt, emin, ptrack)
    r.p = make_particle(w, species, track)
    r.list = w.new('ParticleList', w.string('event'), 40)
    w.m(r.list, 'AddParticle', r.p, cls='ParticleList')
    if not alive: w.m(r.p, 'Kill')
    r.b = w.snap(r.p)
    if before: before(w, r)
    w.events.clear(); w.field_calls.clear()
    r.ret = w.m(r.proc, 'Interact', r.p, r.list)
    r.events = list(w.events); r.fields = list(w.field_calls)
    r.draws = [e for e in r.events if e.kind == 'draw']
    r.end = w.pc
    r.a = w.snap(r.p)
    n = r.n = w.m(r.list, 'GetNPart', cls='ParticleList')
    r.count = [(c, x) for c, x in leaves(n, w.pc)]
    r.new = []
    mx = max([x for _, x in r.count if type(x) is int], default=1)
    for i in range(1, min(mx, 5)):
        save = w.pc
        c = AND(save, NOT(w.icmp('ule', ('i', 32), n, i)))
        if is0(c): break
        w.pc = c
        q = w.m(r.list, 'GetParticle', i, cls='ParticleList')
        s = {}
        for q1 in w.each(q):
            t = snapv(w, q1)
            for k in t: s[k] = t[k] if k not in s else merge(w.pc, t[k], s[k])
        r.new.append((c, s))
        w.pc = save
    w.pc = 1
    w.pc = r.end
    first = w.m(r.list, 'GetParticle', 0, cls='ParticleList')
    r.first = first
    ck.absorb(w)
    return r
SHARED = ((), ('time',), ('position',), ('momentum',), ('time', 'position'), ('time', 'momentum'), ('position', 'momentum'), ('time', 'position', 'momentum', 'weight'))
def other_particle(w, species, shared, name='p'):
    """a second particle, that agrees with the one of make_particle(w, species, name=name) in some of its state"""
    S = lambda k, sfx: (name if k in shared else 'o') + sfx
    a = dict(pos=vsym(S('position', '.x'), -2.9, 2.9, wide=True), weight=symbol(S('weight', '.w'), wide=True), time=symbol(S('time', '.t'), wide=True))
    if species == 'photon': return w.photon(mom=vsym(S('momentum', '.p'), -9, 9, wide=True), **a)
    return w.lepton(-1 if species == 'electron' else 1, mom=vsym(S('momentum', '.p'), -5, 5, wide=True), **a)
def without_memory(ck, kind, species):
    """what a process does to a particle does not depend on what was done before to another particle, by the same process or another one"""
    L = ploc(ck, kind)
    def renumber(w, r): w.counter = 10 ** 6
    ref = interact(ck, kind, species, before=renumber)
    def compare(nm, r):
        u = AND(ref.end, r.end)
        if is0(u): ck.obligation(nm + ': still runs', 'stops', loc=L); return
        unchanged(ck, nm, ref.a, r.a, under=u, loc=L)
        same(ck, nm + ': particles in the event', r.n, ref.n, u, L)
        if len(r.new) == len(ref.new):
            for i, ((c, s), (c2, s2)) in enumerate(zip(ref.new, r.new)): unchanged(ck, '%s: new particle %d' % (nm, i), s, s2, under=AND(u, AND(c, c2)), loc=L)
        else: ck.obligation(nm + ': new particles', '%d, not %d' % (len(r.new), len(ref.new)), loc=L)
    def prior(shared, same_process, other_kind=None, other_species=None):
        def before(w, r):
            p = other_particle(w, other_species or species, shared); l = w.new('ParticleList', w.string('other'), 40); w.m(l, 'AddParticle', p, cls='ParticleList')
            pr = r.proc if same_process else make_process(w, other_kind or kind, symbol('of', .1, .9), symbol('odt', wide=True), symbol('oEmin', wide=True), 0, field=w.field())
            w.m(pr, 'Interact', p, l); w.counter = 10 ** 6
        return before
    for sh in SHARED if ck.thorough else (SHARED[0], SHARED[1], SHARED[2], SHARED[3], SHARED[7]):
        compare('%s, %s after another that shares its %s' % (kind, species, ', '.join(sh) or 'species'), interact(ck, kind, species, before=prior(sh, True)))
    for k2, s2 in (('stochastic', species), ('continuous', species)) if species != 'photon' else (('pair', species),):
        compare('%s, %s after another process (%s) with the same particle' % (kind, species, k2), interact(ck, kind, species, before=prior(SHARED[7], False, k2, s2)))
def merge(c, a, b):
    if isinstance(a, (list, tuple)): return [merge(c, x, y) for x, y in zip(a, b)]
    return ite(c, a, b)
def snapv(w, q):
    d = w.snap(q, hist=False)
    d['energy'] = w.m(q, 'GetEnergy'); d['gamma'] = w.m(q, 'GetGamma'); d['beta'] = w.m(q, 'GetBeta')
    return d
def unchanged(ck, name, b, a, keys=None, under=1, loc=None):
    for k in (keys or b.keys()):
        x, y = b[k], a[k]
        if isinstance(x, tuple):
            same(ck, '%s: size of the %s' % (name, k), y[0], x[0], under, loc)
            if type(x[0]) is int and type(y[0]) is int and x[0] == y[0]:
                for i, (p, q) in enumerate(zip(x[1], y[1])): same(ck, '%s: %s entry %d' % (name, k, i), q, p, under, loc)
        else: same(ck, '%s: %s unchanged' % (name, k), y, x, under, loc)
def fault_free(ck, name, w, events=None):
    fs = [e for e in (events if events is not None else w.events) if e.kind in FAULTS and possible(e.pc)]
    for e in fs[:1]: ck.obligation(name + ': memory', '%s %s' % (e.kind, e.data), loc=e.loc)
    if not fs: ck.obligation(name + ': memory', None)
def loc_of(ck, *names):
    for p in ck.progs.values():
        for n in names:
            ns = p.bydem_base(n)
            if ns:
                m, nn = p.resolve(ns[0], None); F = m.func(nn)
                return m.loc(F.scope)
PROC_CLASS = {'stochastic': 'StochasticEmission', 'continuous': 'ContinuousEmission', 'classical': 'ContinuousEmission', 'pair': 'NonLinearBreitWheeler'}
def ploc(ck, kind): return loc_of(ck, PROC_CLASS[kind] + '::Interact')

# -------------------------------------------------------------------- specification terms
def tok(f, k): return symbol('%s#%d' % (f, k))
def kin(b):
    n = unit(b['momentum']); p2 = dot(b['momentum'], b['momentum'])
    g = Sqrt(Add(1, Div(p2, Mul(b['mass'], b['mass']))))
    return n, g, Sqrt(Sub(1, Div(1, Mul(g, g))))
def eta_spec(n, g, beta, E, B):
    ep = vsub(E, vmul(dot(E, n), n))
    v = vadd(ep, vmul(beta, cross(n, B)))
    return Mul(g, Sqrt(Add(dot(v, v), Div(Mul(dot(n, E), dot(n, E)), Mul(g, g)))))
def interp_spec(x0, x1, y0, y1, q):
    return amap(lambda *a: opaque('interp', *a, lo=0.2, hi=0.9), S(x0), S(x1), S(y0), S(y1), S(q))
def frac_spec(a0, a1, q):
    return amap(lambda *a: opaque('frac', *a, lo=0.05, hi=0.95), S(a0), S(a1), S(q))
def log10(x): return Fn1('log10', x)
def h_spec(eta):
    return interp_spec(tok('hsokolov.table', 1), tok('hsokolov.table', 3), tok('hsokolov.table', 2), tok('hsokolov.table', 4), log10(eta))
def etaAxis(i): return Add(tok('ksi_sokolov.table', 2), Mul(i, Div(Sub(tok('ksi_sokolov.table', 3), tok('ksi_sokolov.table', 2)), 2)))
def chiAxis(i, j):
    lo = log10(tok('chimin.table', i))
    return Add(lo, Mul(j, Div(Sub(Sub(etaAxis(i), log10(2)), lo), 4)))
def ksi(i, j): return tok('ksi_sokolov.table', 4 + 5 * i + j)
def chi_sample(eta, u):
    """10^(interpolated sampled log chi) for the table row pair (1, 2)"""
    q = log10(eta); fr = frac_spec(etaAxis(0), etaAxis(1), q)
    v = [interp_spec(ksi(i, 0), ksi(i, 1), chiAxis(i, 0), chiAxis(i, 1), u) for i in (1, 2)]
    return Pow(10, Add(Mul(Sub(1, fr), v[0]), Mul(fr, v[1])))
def emission_depth(dt, eta, logh, g):
    return Div(Prod(dt, Sqrt(3), const(ALPHA_CODE[0]), eta, Pow(10, logh)), Prod(g, 2, PI))
PI = const('3.14159265358979323846')
ALPHA_CODE = ['0.0072973525693']
def set_alpha(ck):
    """fine structure constant as the code has it (its value is C14's business): taken from the symbol table"""
    ALPHA_CODE[0] = ALPHA
    P = ck.prog()
    for m in P.mods.values():
        for g, d in m.globals.items():
            if g.endswith('5alphaE') and 'UnitsSystem' in g:
                t = toks(re.search(r'\b(?:constant|global) (.*)', d).group(1))
                if t[0] == 'double' and len(t) > 1 and t[1] not in ('undef',):
                    v = m.pval(F64, t, 1)[0]
                    if v[0] == 'kf' and v[1]: ALPHA_CODE[0] = repr(v[1]); return
def small_eta(): return const('1e-12')
def pair_chi(b, E, B):
    n = unit(b['momentum']); ep = vsub(E, vmul(dot(E, n), n))
    return Prod('0.5', mag(b['momentum']), mag(vadd(ep, cross(n, B))))
def t_spec(chi):
    return interp_spec(tok('pairprod.table', 1), tok('pairprod.table', 3), tok('pairprod.table', 2), tok('pairprod.table', 4), log10(chi))
def esplit(i, j): return tok('e_split.table', 1 + 3 * i + j)
def split_spec(chi, u):
    q = log10(chi); fr = frac_spec(tok('log_chi.table', 0), tok('log_chi.table', 1), q)
    v = [interp_spec(esplit(i, 0), esplit(i, 1), tok('epsilon.table', 0), tok('epsilon.table', 1), u) for i in (1, 2)]
    return Add(Mul(Sub(1, fr), v[0]), Mul(fr, v[1]))
def depends(v, sym, seen=None):
    if type(v) is Ite:
        return depends(_atoms_p(v.var), sym) or depends(v.hi, sym) or depends(v.lo, sym)
    if not isinstance(v, Num): return False
    seen = set(); st = [v]
    while st:
        x = st.pop()
        if x is sym: return True
        if x.id in seen: continue
        seen.add(x.id)
        if x.op in ('sym', 'const'): continue
        st += [a for a in (x.args[3:] if x.op == 'fn' else x.args) if isinstance(a, Num)]
    return False
def _atoms_p(i): return vals._atoms[i].p
def replaced(v, sym, new, memo=None):
    """the number with the symbol replaced"""
    memo = {} if memo is None else memo
    if v is sym: return new
    if v.op in ('sym', 'const') or not any(isinstance(x, Num) for x in v.args): return v
    if v.id not in memo:
        a = [replaced(x, sym, new, memo) if isinstance(x, Num) else x for x in v.args]
        memo[v.id] = v if all(x is y for x, y in zip(a, v.args)) else \
            {'+': add, '-': sub, '*': mul, '/': div, 'neg': neg, 'pow': power}[v.op](*a) if v.op in ('+', '-', '*', '/', 'neg', 'pow') else \
            opaque(a[0], *a[3:], lo=a[1], hi=a[2]) if v.op == 'fn' else fn(v.op, *a)
    return memo[v.id]
def influences(v, sym):
    """does the value change with the symbol"""
    new = symbol('other ' + sym.args[0], sym.args[1], sym.args[2], sym.args[3])
    return any(not matches(replaced(x, sym, new), x) for c, x in leaves(v) if isinstance(x, Num) and feasible(c))
def numdep(v, sym):
    """does the value (not its guards) depend on the symbol"""
    return any(depends(x, sym) for _, x in leaves(v))

# -------------------------------------------------------------------- C01
def C01(ck):
    for P in PUSHERS:
        for sp in ('electron', 'positron', 'photon'):
            for tr in (0, 1):
                w = world(ck); f = w.field(); p = make_particle(w, sp, tr)
                pu = w.new(P, f, symbol('dt', wide=True))
                w.m(p, 'Kill'); b = w.snap(p)
                w.m(pu, 'PushParticle', p, cls='ParticlePusher' if w.vslot(pu, 'PushParticle') is None else None)
                a = w.snap(p)
                unchanged(ck, 'dead %s through %s (tracking %d)' % (sp, P, tr), b, a, loc=loc_of(ck, 'ParticlePusher::PushParticle'))
                if tr == 0:
                    w2 = world(ck); p = make_particle(w2, sp, 0); pu = w2.new(P, w2.field(), symbol('dt', wide=True))
                    w2.m(pu, 'PushParticle', p, cls='ParticlePusher' if w2.vslot(pu, 'PushParticle') is None else None)
                    same(ck, 'pushing a living %s with %s does not kill it' % (sp, P), w2.m(p, 'IsAlive'), 1, loc=loc_of(ck, 'ParticlePusher::PushParticle'))
                    ck.absorb(w2)
                ck.absorb(w)
    for kind in PROCS:
        for sp in ('electron', 'positron', 'photon'):
            for tr in (0, 1):
                r = interact(ck, kind, sp, alive=0, track=tr)
                nm = 'dead %s through %s (tracking %d)' % (sp, PROC_CLASS[kind] + ('(classical)' if kind == 'classical' else ''), tr)
                unchanged(ck, nm, r.b, r.a, loc=ploc(ck, kind))
                same(ck, nm + ': no particle added', r.n, 1, r.end, loc=ploc(ck, kind))
            r = interact(ck, kind, sp, alive=1)
            nm = '%s through %s' % (sp, kind)
            if kind == 'pair' and sp == 'photon':
                died = AND(r.end, NOT(r.a['alive'])); added = AND(r.end, NOT(r.w.icmp('eq', ('i', 32), r.n, 1)))
                same(ck, nm + ': dies exactly when a pair was added', died, added, r.end, loc=ploc(ck, kind))
            else: same(ck, nm + ': stays alive', r.a['alive'], 1, r.end, loc=ploc(ck, kind))
            for c, s in r.new: same(ck, nm + ': a new particle is alive', s['alive'], 1, c, loc=ploc(ck, kind))
    # a list push, and the particle's own methods, keep the flag
    w = world(ck); pu = w.new('LorentzPusher', w.field(), symbol('dt', wide=True))
    l = w.new('ParticleList', w.string('l'), 5); p = make_particle(w, 'electron'); q = make_particle(w, 'photon', name='g')
    for x in (p, q): w.m(l, 'AddParticle', x, cls='ParticleList'); w.m(x, 'Kill')
    b = [w.snap(x) for x in (p, q)]
    if w.prog.bydem_base('ParticlePusher::PushParticleList'):
        w.m(pu, 'PushParticleList', l, cls='ParticlePusher')
        for x, y, nm in zip(b, (p, q), ('electron', 'photon')): unchanged(ck, 'dead %s through PushParticleList' % nm, x, w.snap(y))
    for x, nm in ((p, 'lepton'), (q, 'photon')):
        w.m(x, 'UpdateTrack', w.vec(vsym('n')), w.vec(vsym('m'))); w.m(x, 'UpdateTime', symbol('dt', wide=True)); w.m(x, 'UpdateOpticalDepth', symbol('od')); w.m(x, 'InitOpticalDepth')
        same(ck, 'no update revives a dead ' + nm, w.m(x, 'IsAlive'), 0, loc=loc_of(ck, 'Particle::Kill'))
    ck.absorb(w)

# -------------------------------------------------------------------- C02
def C02(ck):
    for kind in PROCS:
        wrong = ('photon',) if kind != 'pair' else ('electron', 'positron', 'heavy')
        right = ('electron', 'positron', 'heavy') if kind != 'pair' else ('photon',)
        for sp in wrong:
            for tr in (0, 1):
                r = interact(ck, kind, sp, track=tr)
                nm = '%s applied to a %s (tracking %d)' % (kind, sp, tr)
                unchanged(ck, nm, r.b, r.a, loc=ploc(ck, kind))
                same(ck, nm + ': nothing added', r.n, 1, r.end, loc=ploc(ck, kind))
        for sp in right:
            r = interact(ck, kind, sp)
            nm = '%s applied to a %s' % (kind, sp)
            if kind in ('stochastic', 'pair'):
                od0, od1 = r.b['optical depth'], r.a['optical depth']
                idle = 0
                for c, x in leaves(od1, r.end):
                    if x is od0: idle = OR(idle, c)
                if kind == 'pair':
                    E, B = field_spec(r.b['time'], r.b['position'])
                    chi = pair_chi(r.b, E, B)
                    idle = AND(idle, NOT(lt0(sub(chi, const('1e-9')))))
                    idle = AND(idle, NOT(NOT(r.a['alive'])))
                never(ck, nm + ': the optical depth is reduced at every step', idle, loc=ploc(ck, kind), why='particle skipped')
            else:
                # with no subsampling and no threshold every step gives a macro photon
                r = interact(ck, kind, sp, f=const(1), emin=const(0))
                ck.generic = True      # a particle that sees no field has no photon energy
                never(ck, nm + ': a photon is emitted at every step (sample fraction 1, no threshold)', AND(r.end, r.w.icmp('eq', ('i', 32), r.n, 1)), loc=ploc(ck, kind), why='particle skipped')
                ck.generic = False

# -------------------------------------------------------------------- C03
def C03(ck):
    for kind in PROCS:
        for sp in (('electron', 'positron') if kind != 'pair' else ('photon',)):
            r = interact(ck, kind, sp); nm = '%s of a %s' % (kind, sp); L = ploc(ck, kind)
            w = r.w
            for c, x in r.count:
                ok = x in ((1, 2) if kind != 'pair' else (1, 3))
                if feasible(c): ck.obligation('%s: %s particles in the event afterwards' % (nm, x), None if ok else 'event holds %s particles when %s' % (x, cond_text(c)), loc=L)
            same(ck, nm + ': the particle keeps its place', r.first, r.p, r.end, loc=L)
            unchanged(ck, nm, r.b, r.a, ('mass', 'charge', 'name', 'type'), loc=L)
            if kind != 'pair':
                same(ck, nm + ': the emitter stays', r.a['alive'], 1, r.end, loc=L)
                ck.obligation(nm + ': can emit', None if r.new else 'no photon is ever added', loc=L)
                for c, s in r.new[:1]:
                    same(ck, nm + ': photon mass', s['mass'], const(0), c, L); same(ck, nm + ': photon charge', s['charge'], const(0), c, L)
                    same(ck, nm + ': photon name', s['name'], Str('Photon'), c, L); same(ck, nm + ': photon type', s['type'], Str('Photon'), c, L)
            else:
                ck.obligation(nm + ': can convert', None if len(r.new) == 2 else '%d particles can be added' % len(r.new), loc=L)
                if len(r.new) == 2:
                    (c0, s0), (c1, s1) = r.new
                    same(ck, nm + ': total charge of the pair', Add(s0['charge'], s1['charge']), const(0), c1, L)
                    same(ck, nm + ': unit charges', Mul(s0['charge'], s1['charge']), const(-1), c1, L)
                    for s in (s0, s1):
                        same(ck, nm + ': electron mass', s['mass'], const(1), c1, L)
                        same(ck, nm + ': lepton', s['type'], Str('Lepton'), c1, L)
                        same(ck, nm + ': name follows charge', s['name'], amap(lambda q: Str('Electron') if is_const(q) and q.v[0] == -1 else Str('Positron'), s['charge']), c1, L)
                    same(ck, nm + ': the photon is removed exactly when a pair is added', NOT(r.a['alive']), AND(r.end, c1), r.end, loc=L)
    # names of leptons from both constructors, and updates leave the identity alone
    for form in (0, 1):
        for q, nmx in ((const(-1), 'Electron'), (const(1), 'Positron'), (symbol('q', 1.5, 3), 'Positron'), (symbol('q2', -0.9, -0.1), 'Positron')):
            w = world(ck); pos = w.vec(vsym('x')); mom = w.vec(vsym('k'))
            if form == 0: p = w.new('Lepton', const(1), q, pos, mom, symbol('wt'), symbol('t'), 0, sig='(double, double, ThreeVector const&')
            else: p = w.new('Lepton', const(1), q, symbol('energy', 3, 5), pos, mom, symbol('wt'), symbol('t'), 0, sig='(double, double, double,')
            same(ck, 'lepton of charge %s (constructor %d) is called %s' % (show(q), form, nmx), w.getstring(w.m(p, 'GetName')), Str(nmx), under=1 if is_const(q) else NOT(eq0(Add(q, 1))), loc=loc_of(ck, 'Lepton::Lepton'))
            b = w.snap(p)
            w.m(p, 'UpdateTrack', w.vec(vsym('n')), w.vec(vsym('m'))); w.m(p, 'UpdateTime', symbol('dt', wide=True)); w.m(p, 'UpdateOpticalDepth', symbol('od')); w.m(p, 'InitOpticalDepth'); w.m(p, 'Kill')
            unchanged(ck, 'updates of a lepton', b, w.snap(p), ('mass', 'charge', 'name', 'type', 'weight'), loc=loc_of(ck, 'Particle::UpdateTrack'))
            ck.absorb(w)
    w = world(ck); p = w.photon(); b = w.snap(p)
    same(ck, 'photon mass', b['mass'], const(0)); same(ck, 'photon charge', b['charge'], const(0)); same(ck, 'photon name', b['name'], Str('Photon'))
    w.m(p, 'UpdateTrack', w.vec(vsym('n')), w.vec(vsym('m'))); w.m(p, 'UpdateTime', symbol('dt', wide=True)); w.m(p, 'UpdateOpticalDepth', symbol('od')); w.m(p, 'InitOpticalDepth')
    unchanged(ck, 'updates of a photon', b, w.snap(p), ('mass', 'charge', 'name', 'type', 'weight', 'alive'))
    for P in PUSHERS:
        for sp in ('electron', 'positron', 'heavy', 'photon'):
            w = world(ck); q = make_particle(w, sp); b = w.snap(q); pu = w.new(P, w.field(), symbol('dt', wide=True))
            w.m(pu, 'PushParticle', q, cls='ParticlePusher' if w.vslot(pu, 'PushParticle') is None else None)
            unchanged(ck, '%s pushes a %s' % (P, sp), b, w.snap(q), ('mass', 'charge', 'name', 'type', 'weight', 'alive'), loc=loc_of(ck, 'ParticlePusher::PushParticle'))
            ck.absorb(w)

# -------------------------------------------------------------------- C04
def C04(ck):
    L = ploc(ck, 'pair') if 'std' in ck.progs else None
    for tr in (0, 1):
        r = interact(ck, 'pair', 'photon', ptrack=tr); L = ploc(ck, 'pair')
        if len(r.new) != 2: ck.obligation('a pair is produced', '%d particles' % len(r.new), loc=L); continue
        c = r.new[1][0]; E0 = mag(r.b['momentum']); n = unit(r.b['momentum'])
        E, B = field_spec(r.b['time'], r.b['position']); chi = pair_chi(r.b, E, B)
        s0, s1 = r.new[0][1], r.new[1][1]
        ePos = ite(lt0(s0['charge']) if type(s0['charge']) is Num else amap(lt0, s0['charge']), s1['energy'], s0['energy'])
        eEle = ite(lt0(s0['charge']) if type(s0['charge']) is Num else amap(lt0, s0['charge']), s0['energy'], s1['energy'])
        same(ck, 'energy of the pair (tracking %d)' % tr, Add(ePos, eEle), E0, c, L)
        us = [e for e in r.draws if e.data['dist'] == 'uniform_real']
        ok = any(matches(ePos, Mul(split_spec(chi, e.data['val']), E0), c) for e in us)
        if not ok: same(ck, 'the positron takes the sampled fraction of the energy', ePos, Mul(split_spec(chi, us[-1].data['val'] if us else symbol('U')), E0), c, L)
        else: ck.obligation('the positron takes the sampled fraction of the energy', None)
        for s, nm in ((s0, 'first'), (s1, 'second')):
            e = s['energy']
            same(ck, nm + ' daughter: momentum along the photon', s['momentum'], vmul(Sqrt(Sub(Mul(e, e), 1)), n), c, L)
            for k in ('position', 'time', 'weight'): same(ck, '%s daughter: %s of the photon' % (nm, k), s[k], r.b[k], c, L)
            same(ck, '%s daughter: tracking setting of the process' % nm, s['tracking'], tr, c, L)
            same(ck, '%s daughter: mass' % nm, s['mass'], const(1), c, L)
        fault_free(ck, 'pair production', r.w, r.events)

# -------------------------------------------------------------------- C05
def changed(b, a, end):
    """condition under which a vector observable changed"""
    F = 0
    for x, y in zip(b, a):
        for c, l in leaves(y, end):
            if l is not x: F = OR(F, c)
    return F
def C05(ck):
    for sp in ('electron', 'positron'):
        for tr in (0, 1):
            r = interact(ck, 'stochastic', sp, ptrack=tr); L = ploc(ck, 'stochastic'); nm = 'quantum emission of a ' + sp
            if not r.new: ck.obligation(nm, 'no photon is ever emitted', loc=L); continue
            F = changed(r.b['momentum'], r.a['momentum'], r.end)
            c, s = r.new[0]
            n = unit(r.b['momentum'])
            never(ck, nm + ': recoil whenever a photon is recorded', AND(c, NOT(F)), loc=L, why='photon without recoil')
            gE = restrict(s['energy'], c)
            same(ck, nm + ': momentum lost is the photon energy times the direction before recoil', r.a['momentum'], vsub(r.b['momentum'], vmul(gE, n)), F, L)
            same(ck, nm + ': emission happens at an unchanged position', r.a['position'], r.b['position'], r.end, L)
            same(ck, nm + ': at an unchanged time', r.a['time'], r.b['time'], r.end, L)
            same(ck, nm + ': without recoil nothing is lost', r.a['momentum'], r.b['momentum'], AND(r.end, NOT(F)), L)
            photon(ck, nm, r, s, c, L, tr, recoil=True)
            # recoil must not depend on whether the photon is recorded
            em = symbol('eMin', wide=True); f = symbol('f', .1, .9999, wide='down')
            for i in range(3):
                ck.obligation('%s: recoil %s does not depend on the recording threshold or the sample fraction' % (nm, 'xyz'[i]),
                              'it does' if any(guard_dep(r.a['momentum'][i], x) for x in (em, f)) else None, loc=L)
        for kind, tr in (('continuous', 0), ('continuous', 1), ('classical', 0), ('classical', 1)):
            r = interact(ck, kind, sp, ptrack=tr); L = ploc(ck, kind); nm = kind + ' emission of a ' + sp
            unchanged(ck, nm, r.b, r.a, loc=L)
            if not r.new: ck.obligation(nm, 'no photon is ever emitted', loc=L); continue
            c, s = r.new[0]
            photon(ck, nm, r, s, c, L, tr, recoil=False)
def guard_dep(v, sym):
    if type(v) is Ite:
        p = _atoms_p(v.var)
        return (p is not None and depends(p, sym)) or guard_dep(v.hi, sym) or guard_dep(v.lo, sym)
    return depends(v, sym)
def photon(ck, nm, r, s, c, L, tr, recoil):
    n = unit(r.b['momentum'])
    dirs = [vmul(s['energy'], n)]
    if recoil: dirs.append(vmul(s['energy'], unit(vsub(r.b['momentum'], vmul(s['energy'], n)))))
    if not any(matches(s['momentum'], d, c) for d in dirs): same(ck, nm + ': photon along the emitter', s['momentum'], dirs[0], c, L)
    else: ck.obligation(nm + ': photon along the emitter', None)
    same(ck, nm + ': photon position', s['position'], r.b['position'], c, L)
    same(ck, nm + ': photon time', s['time'], r.b['time'], c, L)
    same(ck, nm + ': photon tracking setting', s['tracking'], tr, c, L)
    em = symbol('eMin', wide=True)
    low = amap(lambda e: NOT(lt0(sub(em, e))), s['energy'])
    never(ck, nm + ': photon above the minimum energy', AND(c, low), loc=L, why='photon below the minimum energy recorded')

# -------------------------------------------------------------------- C06
def C06(ck):
    f = symbol('f', .1, .9999, wide='down'); em = symbol('eMin', wide=True)
    for kind in ('stochastic', 'continuous', 'classical'):
        for sp in ('electron', 'positron'):
            nm = '%s emission of a %s' % (kind, sp)
            r = interact(ck, kind, sp, f=f); L = ploc(ck, kind)
            r1 = interact(ck, kind, sp, f=const(1))
            if not r.new or not r1.new: ck.obligation(nm, 'no photon is ever recorded', loc=L); continue
            (c, s), (c1, s1) = r.new[0], r1.new[0]
            gE1 = restrict(s1['energy'], c1)
            F = changed(r.b['momentum'], r.a['momentum'], r.end) if kind == 'stochastic' else r.end
            F1 = changed(r1.b['momentum'], r1.a['momentum'], r1.end) if kind == 'stochastic' else r1.end
            above1 = amap(lambda e: lt0(sub(em, e)), gE1)
            same(ck, nm + ': with sample fraction 1 every photon above the minimum energy is kept', c1, AND(F1, above1), r1.end, L)
            same(ck, nm + ': weight with sample fraction 1', Mul(s['weight'], f), s1['weight'], AND(c, c1) if feasible(AND(c, c1)) else c, L)
            gE = restrict(s['energy'], c)
            above = amap(lambda e: lt0(sub(em, e)), gE)
            cands = [e for e in r.draws if e.data['dist'] == 'uniform_real']
            good = None
            for e in cands:
                keep = lt0(sub(e.data['sym'], f))
                if matches(c, AND(AND(F, above), keep), r.end) and not is0(AND(AND(F, above), keep)): good = e; break
            if good is None:
                best = [e for e in cands if guard_dep(c, e.data['sym'])] or cands
                e = next((x for x in best if guard_dep_pair(c, x.data['sym'], f)), best[-1] if best else None)
                if e is None: ck.obligation(nm + ': kept with probability f', 'no uniform draw decides', loc=L)
                else: same(ck, nm + ': kept when a uniform draw on (0,1) is below the sample fraction', c, AND(AND(F, above), lt0(sub(e.data['sym'], f))), r.end, L)
            else:
                ck.obligation(nm + ': kept when a uniform draw on (0,1) is below the sample fraction', None)
                same(ck, nm + ': the deciding draw runs from 0', good.data['a'], const(0), r.end, L)
                same(ck, nm + ': the deciding draw runs to 1', good.data['b'], const(1), r.end, L)
                used = [k for k in s if k != 'x' and any(numdep(v, good.data['sym']) for v in (s[k] if isinstance(s[k], list) else [s[k]]))]
                used += ['emitter ' + k for k in ('momentum', 'position', 'optical depth', 'time') for v in (r.a[k] if isinstance(r.a[k], list) else [r.a[k]]) if guard_dep(v, good.data['sym'])]
                ck.obligation(nm + ': the deciding draw is used for nothing else', ('it also determines the ' + ', '.join(sorted(set(used)))) if used else None, loc=L)
def guard_dep_pair(v, a, b):
    if type(v) is Ite:
        p = _atoms_p(v.var)
        if p is not None and depends(p, a) and depends(p, b): return True
        return guard_dep_pair(v.hi, a, b) or guard_dep_pair(v.lo, a, b)
    return False

# -------------------------------------------------------------------- C07
def fresh_od(e): return Mul(-1, Fn1('log', Sub(1, e.data['sym'])))
def C07(ck):
    dt = symbol('dt', wide=True)
    for kind in ('stochastic', 'pair'):
        for sp in (('electron', 'positron') if kind == 'stochastic' else ('photon',)):
            nm = '%s of a %s' % ('emission' if kind == 'stochastic' else 'pair production', sp); L = ploc(ck, kind) if ck.progs else None
            r = interact(ck, kind, sp, dt=dt); L = ploc(ck, kind)
            r2 = interact(ck, kind, sp, dt=Mul(2, dt))
            od0 = r.b['optical depth']; od1 = r.a['optical depth']
            if kind == 'stochastic':
                fired = changed(r.b['momentum'], r.a['momentum'], r.end)
                fired2 = changed(r2.b['momentum'], r2.a['momentum'], r2.end)
            else:
                fired = AND(r.end, NOT(r.a['alive'])); fired2 = AND(r2.end, NOT(r2.a['alive']))
            quiet, quiet2 = AND(r.end, NOT(fired)), AND(r2.end, NOT(fired2))
            if is0(quiet) or is0(fired): ck.obligation(nm, 'the process %s' % ('always fires' if is0(quiet) else 'never fires'), loc=L); continue
            delta = restrict(Sub(od0, od1), quiet); delta2 = restrict(Sub(od0, r2.a['optical depth']), quiet2)
            same(ck, nm + ': depth lost per step is proportional to the time step', delta2, Mul(2, delta), AND(quiet, quiet2), L)
            ck.obligation(nm + ': the rate does not depend on the remaining depth', 'it does' if any(depends(x, od0) for _, x in leaves(delta, quiet) if isinstance(x, Num)) else None, loc=L)
            # fires exactly when the remaining depth is negative
            dd = extend(delta, quiet, r.end)
            rem = Sub(od0, dd)
            below = amap(lt0, rem)
            same(ck, nm + ': fires exactly when the remaining depth is below zero', fired, below, r.end, L)
            if kind == 'stochastic':
                us = [e for e in r.draws if e.data['dist'] == 'uniform_real']
                ok = next((e for e in us if matches(od1, fresh_od(e), fired)), None)
                if ok is None: same(ck, nm + ': fresh depth after firing', od1, fresh_od(us[-1]) if us else symbol('-log(1-U)'), fired, L)
                else:
                    ck.obligation(nm + ': fresh depth after firing', None)
                    same(ck, nm + ': drawn from 0', ok.data['a'], const(0), fired, L); same(ck, nm + ': drawn to 1', ok.data['b'], const(1), fired, L)
                    oth = [k for k, v in [('new particle', x) for _, s in r.new for x in [s['optical depth'], s['energy'], s['weight']]] + [('momentum', x) for x in r.a['momentum']] if guard_dep(v, ok.data['sym'])]
                    ck.obligation(nm + ': the fresh depth is an independent draw', 'its draw also decides the ' + oth[0] if oth else None, loc=L)
            for i, (c, s) in enumerate(r.new): init_depth(ck, '%s: new particle %d' % (nm, i), r.draws, s['optical depth'], c, L)
            if len(r.new) == 2:
                ck.obligation(nm + ': the two daughters draw separate depths', 'same depth' if matches(r.new[0][1]['optical depth'], r.new[1][1]['optical depth'], r.new[1][0]) else None, loc=L)
    for kind in ('continuous', 'classical'):
        r = interact(ck, kind, 'electron'); same(ck, kind + ' emission leaves the optical depth alone', r.a['optical depth'], r.b['optical depth'], r.end, ploc(ck, kind))
        for c, s in r.new: init_depth(ck, kind + ': photon', r.draws, s['optical depth'], c, ploc(ck, kind))
    for P in PUSHERS:
        for sp in ('electron', 'photon'):
            w = world(ck); q = make_particle(w, sp); b = w.snap(q); pu = w.new(P, w.field(), symbol('dt', wide=True))
            w.m(pu, 'PushParticle', q, cls='ParticlePusher' if w.vslot(pu, 'PushParticle') is None else None)
            same(ck, '%s leaves the optical depth of a %s alone' % (P, sp), w.m(q, 'GetOpticalDepth'), b['optical depth'], loc=loc_of(ck, 'ParticlePusher::PushParticle'))
            ck.absorb(w)
    # constructors and the particle's own methods
    for nmx in ('lepton from momentum', 'lepton from energy', 'photon from momentum', 'photon from energy', 'untracked base constructor'):
        w = world(ck); pos, k = w.vec(vsym('x')), w.vec(vsym('k')); a = (symbol('wt'), symbol('t'), 0)
        if nmx == 'lepton from momentum': p = w.new('Lepton', const(1), const(-1), pos, k, *a, sig='(double, double, ThreeVector const&')
        elif nmx == 'lepton from energy': p = w.new('Lepton', const(1), const(-1), symbol('e', 3, 5), pos, k, *a, sig='(double, double, double,')
        elif nmx == 'photon from momentum': p = w.new('Photon', pos, k, *a, sig='(ThreeVector const&, ThreeVector const&')
        elif nmx == 'photon from energy': p = w.new('Photon', symbol('e', 3, 5), pos, k, *a, sig='(double, ThreeVector const&')
        else: continue
        ds = [e for e in w.events if e.kind == 'draw']
        od = w.m(p, 'GetOpticalDepth'); init_depth(ck, nmx, ds, od, 1, loc_of(ck, 'Particle::InitOpticalDepth'))
        w.m(p, 'UpdateOpticalDepth', symbol('x'))
        same(ck, nmx + ': UpdateOpticalDepth subtracts its argument', w.m(p, 'GetOpticalDepth'), Sub(od, symbol('x')), loc=loc_of(ck, 'Particle::UpdateOpticalDepth'))
        o = w.m(p, 'GetOpticalDepth')
        w.m(p, 'UpdateTrack', w.vec(vsym('n')), w.vec(vsym('m'))); w.m(p, 'UpdateTime', symbol('dt', wide=True)); w.m(p, 'Kill')
        same(ck, nmx + ': no other update changes the depth', w.m(p, 'GetOpticalDepth'), o, loc=loc_of(ck, 'Particle::UpdateTrack'))
        ck.absorb(w)
def init_depth(ck, nm, draws, od, c, L):
    us = [e for e in draws if e.data['dist'] == 'uniform_real']
    ok = next((e for e in us if matches(od, fresh_od(e), c)), None)
    if ok is None: same(ck, nm + ': starts with depth -log(1-U)', od, fresh_od(us[-1]) if us else symbol('-log(1-U)'), c, L)
    else:
        ck.obligation(nm + ': starts with depth -log(1-U)', None)
        same(ck, nm + ': U from 0', ok.data['a'], const(0), c, L); same(ck, nm + ': U to 1', ok.data['b'], const(1), c, L)
def extend(v, c, end):
    """v known under c; drop the atoms that only guard c"""
    return restrict(v, c)

# -------------------------------------------------------------------- C08
def C08(ck):
    set_alpha(ck)
    dt = symbol('dt', wide=True)
    for sp in ('electron', 'positron', 'heavy'):
        for kind in ('stochastic', 'continuous', 'classical'):
            r = interact(ck, kind, sp, dt=dt, f=const(1), emin=const(0)); L = ploc(ck, kind); nm = '%s, %s' % (kind, sp)
            for pc, t, x in r.fields:
                same(ck, nm + ': field at the particle time', t, r.b['time'], pc, L); same(ck, nm + ': field at the particle position', x, r.b['position'], pc, L)
            n, g, beta = kin(r.b); E, B = field_spec(r.b['time'], r.b['position'])
            eta = eta_spec(n, g, beta, E, B)
            small = lt0(sub(eta, small_eta()))
            logh = ite(small, const('0.7193'), h_spec(eta)) if kind != 'classical' else const('0.7193')
            delta = emission_depth(dt, eta, logh, g)
            us = [e for e in r.draws if e.data['dist'] == 'uniform_real']
            if kind == 'stochastic':
                fired = changed(r.b['momentum'], r.a['momentum'], r.end); quiet = AND(r.end, NOT(fired))
                if is0(quiet): ck.obligation(nm, 'always fires', loc=L); continue
                normal = NOT(small)
                same(ck, nm + ': optical depth per step', Sub(r.b['optical depth'], r.a['optical depth']), delta, AND(quiet, normal), L)
            else:
                if not r.new: ck.obligation(nm, 'no photon', loc=L); continue
                c, s = r.new[0]
                same(ck, nm + ': weight is the optical depth per step', Div(s['weight'], r.b['weight']), delta, AND(c, NOT(small)), L)
            if not r.new: ck.obligation(nm, 'no photon', loc=L); continue
            c, s = r.new[0]
            if kind == 'classical':
                # the spectrum is that of some small reference parameter, scaled with its square
                chi = Div(Mul(s['energy'], eta), Mul(2, g))
                k = Div(chi, Mul(eta, eta))
                for y in r.b['momentum'] : ck.obligation(nm + ': sampled parameter scales with eta squared', None if not any(momentum_dep(x, r.b) for _, x in leaves(k, c)) else 'it does not', loc=L)
            else:
                want = [Div(Prod(2, chi_sample(eta, e.data['val']), g), eta) for e in us]
                cc = AND(c, NOT(small))
                if not any(matches(s['energy'], x, cc) for x in want): same(ck, nm + ': photon energy is 2 chi gamma / eta', s['energy'], want[0] if want else symbol('?'), cc, L)
                else: ck.obligation(nm + ': photon energy is 2 chi gamma / eta with chi sampled at log10(eta)', None)
    r = interact(ck, 'pair', 'photon', dt=dt); L = ploc(ck, 'pair'); nm = 'pair production'
    for pc, t, x in r.fields:
        same(ck, nm + ': field at the photon time', t, r.b['time'], pc, L); same(ck, nm + ': field at the photon position', x, r.b['position'], pc, L)
    E, B = field_spec(r.b['time'], r.b['position']); chi = pair_chi(r.b, E, B)
    big = NOT(lt0(sub(chi, small_eta())))
    quiet = AND(AND(r.end, r.a['alive']), big)
    delta = Div(Prod(dt, const(ALPHA_CODE[0]), chi, Pow(10, t_spec(chi))), mag(r.b['momentum']))
    same(ck, nm + ': optical depth per step', Sub(r.b['optical depth'], r.a['optical depth']), delta, quiet, L)
    if len(r.new) == 2:
        c = r.new[1][0]
        us = [e for e in r.draws if e.data['dist'] == 'uniform_real']
        es = [s['energy'] for _, s in r.new]
        ok = any(matches(e_, Mul(split_spec(chi, e.data['val']), mag(r.b['momentum'])), c) for e in us for e_ in es)
        ck.obligation(nm + ': energy split sampled at log10(chi)', None if ok else 'no daughter has the sampled fraction of the table at log10(chi)', loc=L)
    # the same parameter in the radiation reaction pushers
    for P in ('LandauPusher', 'ModifiedLandauPusher'):
        w, F, spec = force(ck, P)
        same(ck, P + ': radiation reaction uses the same quantum parameter', F, spec['total'], loc=loc_of(ck, P + '::PushMomentum'))
    for kind, sp in (('stochastic', 'electron'), ('continuous', 'electron'), ('classical', 'positron'), ('pair', 'photon')): without_memory(ck, kind, sp)
def momentum_dep(v, b):
    return isinstance(v, Num) and any(depends(v, y) for y in b['momentum'] if isinstance(y, Num)) and not const_in(v, b)
def const_in(v, b):
    """numerically independent of the momentum (terms may still mention it): the value is a table reference"""
    x = samp(v); x = x[np.isfinite(x)]
    return False
def _indep(v):
    return False
# a value number is independent of the momentum when it equals a term without it
def momentum_dep(v, b):
    if not isinstance(v, Num): return False
    ps = [y for y in b['momentum'] if isinstance(y, Num)]
    if not any(depends(v, y) for y in ps): return False
    # substitute another momentum: compare on fingerprints of the substituted term
    sub_ = {y.id: symbol('other' + str(i), 2, 5) for i, y in enumerate(ps)}
    return not num_close(v, substitute(v, sub_))
def substitute(v, mp, memo=None):
    memo = {} if memo is None else memo
    if v.id in mp: return mp[v.id]
    if v.id in memo: return memo[v.id]
    if v.op in ('sym', 'const') : r = v
    elif v.op == 'fn':
        r = opaque(v.args[0], *[substitute(a, mp, memo) if isinstance(a, Num) else a for a in v.args[3:]], lo=v.args[1], hi=v.args[2])
    else:
        a = [substitute(x, mp, memo) if isinstance(x, Num) else x for x in v.args]
        r = {'+': add, '-': sub, '*': mul, '/': div}[v.op](*a) if v.op in '+-*/' else (neg(*a) if v.op == 'neg' else power(*a) if v.op == 'pow' else fn(v.op, *a))
    memo[v.id] = r
    return r

# -------------------------------------------------------------------- C09 / C10
def call_force(w, pu, mass, q, mom, E, B):
    n = w.vslot(pu, 'PushMomentum')
    if n is None: raise AnchorMissing('PushMomentum')
    return w.getvec(w.fcall(n, [pu, S(mass), S(q), w.vec(mom), w.vec(E), w.vec(B)]))
def force(ck, P, q=None, E=None, B=None):
    set_alpha(ck)
    w = world(ck); pu = w.new(P, w.field(), symbol('dt', wide=True))
    mass, q = symbol('mass', 1.1, 3), q or symbol('q', -2, -1.1)
    mom = vsym('p', 0.8, 3); E = E or vsym('E', 0.4, 1.9); B = B or vsym('B', -1.7, -0.4)
    F = call_force(w, pu, mass, q, mom, E, B)
    n = unit(mom); g = Sqrt(Add(1, Div(dot(mom, mom), Mul(mass, mass)))); beta = Sqrt(Sub(1, Div(1, Mul(g, g))))
    eta = eta_spec(n, g, beta, E, B)
    lor = vmul(q, vadd(E, [Div(x, Mul(mass, g)) for x in cross(mom, B)]))
    rr = Prod(Div(-2, 3), const(ALPHA_CODE[0]), eta, eta)
    if P == 'ModifiedLandauPusher':
        rr = Mul(rr, Pow(Sum(1, Prod('4.8', Add(1, eta), Fn1('log', Add(1, Mul('1.7', eta)))), Prod('2.44', eta, eta)), Div(-2, 3)))
    if P == 'LorentzPusher': rr = const(0)
    ck.absorb(w)
    return w, F, {'total': vadd(lor, vmul(rr, n)), 'lorentz': lor, 'rr': rr, 'n': n, 'mom': mom, 'E': E}
def C10(ck):
    for P in PUSHERS:
        L = loc_of(ck, P + '::PushMomentum') if ck.progs else None
        w, F, sp = force(ck, P); L = loc_of(ck, P + '::PushMomentum')
        same(ck, P + ': force law', F, sp['total'], loc=L)
        w2, F2, sp2 = force(ck, P, q=Mul(-1, symbol('q', -2, -1.1)))
        same(ck, P + ': reversing the charge reverses the Lorentz part only', vadd(F, F2), vmul(Mul(2, sp['rr']), sp['n']), loc=L)
        w3, F3, _ = force(ck, P, E=[const(0)] * 3, B=[const(0)] * 3)
        same(ck, P + ': no fields, no force', F3, [const(0)] * 3, loc=L)
        if P == 'LorentzPusher':
            w4, F4, s4 = force(ck, P, E=[const(0)] * 3)
            same(ck, P + ': the magnetic field does no work', dot(F4, s4['mom']), const(0), loc=L)
        for e in w.faults(): ck.obligation(P + ': memory', repr(e), loc=e.loc)
        for e in F: 
            pass
        ck.obligation(P + ': force has no effect on state', None)
def push(ck, P, sp, track, before=None):
    w = world(ck); p = make_particle(w, sp, track); f = w.field(); dt = symbol('dt', wide=True)
    pu = w.new(P, f, dt)
    if before: before(w, pu)
    b = w.snap(p); w.events.clear(); w.field_calls.clear()
    w.m(pu, 'PushParticle', p, cls='ParticlePusher' if w.vslot(pu, 'PushParticle') is None else None)
    calls = list(w.field_calls); ev = list(w.events)
    a = w.snap(p)
    return w, p, pu, b, a, dt, calls, ev
def C09(ck):
    for P in PUSHERS:
        for sp in ('electron', 'positron', 'heavy', 'photon'):
            for tr in ((0, 1) if P == 'LorentzPusher' or ck.thorough else (1,)):
                w, p, pu, b, a, dt, calls, ev = push(ck, P, sp, tr); L = loc_of(ck, 'ParticlePusher::PushParticle'); nm = '%s, %s, tracking %d' % (P, sp, tr)
                same(ck, nm + ': clock advances by one time step', a['time'], Add(b['time'], dt), w.pc, L)
                x, k, m, q = b['position'], b['momentum'], b['mass'], b['charge']
                if sp == 'photon':
                    same(ck, nm + ': moves at the speed of light along its momentum', a['position'], vadd(x, vmul(dt, unit(k))), w.pc, L)
                    same(ck, nm + ': momentum unchanged', a['momentum'], k, w.pc, L)
                else:
                    def vel(kk): return [Div(c, Mul(m, Sqrt(Add(1, Div(dot(kk, kk), Mul(m, m)))))) for c in kk]
                    def frc(t, xx, kk):
                        E, B = field_spec(t, xx); return call_force(w, pu, m, q, kk, E, B)
                    h = Div(dt, 2)
                    v1, f1 = vel(k), frc(b['time'], x, k)
                    k2 = vadd(k, vmul(h, f1)); v2, f2 = vel(k2), frc(Add(b['time'], h), vadd(x, vmul(h, v1)), k2)
                    k3 = vadd(k, vmul(h, f2)); v3, f3 = vel(k3), frc(Add(b['time'], h), vadd(x, vmul(h, v2)), k3)
                    k4 = vadd(k, vmul(dt, f3)); v4, f4 = vel(k4), frc(Add(b['time'], dt), vadd(x, vmul(dt, v3)), k4)
                    s = Div(dt, 6)
                    same(ck, nm + ': position is the RK4 step', a['position'], vadd(x, vmul(s, vadd(v1, vmul(2, v2), vmul(2, v3), v4))), w.pc, L)
                    same(ck, nm + ': momentum is the RK4 step', a['momentum'], vadd(k, vmul(s, vadd(f1, vmul(2, f2), vmul(2, f3), f4))), w.pc, L)
                for hname in ('position history', 'momentum history', 'time history', 'gamma history'):
                    same(ck, '%s: %s grows by %d' % (nm, hname, tr), a[hname][0], tr, w.pc, L)
                if tr and a['time history'][0] == 1:
                    same(ck, nm + ': track time', a['time history'][1][0], [Add(b['time'], dt)], w.pc, L)
                    same(ck, nm + ': track position', a['position history'][1][0], a['position'], w.pc, L)
                for e in ev:
                    if e.kind in ('uninit-read', 'out-of-bounds', 'null-deref') and feasible(e.pc): ck.obligation(nm + ': memory', repr(e), loc=e.loc)
                ck.absorb(w)
        pushed_before(ck, P)
def pushed_before(ck, P):
    """what was pushed before, by this pusher or another one, leaves no trace"""
    for sp in ('electron', 'photon'):
        w, p, pu, b, ref, dt, calls, ev = push(ck, P, sp, 1); end = w.pc
        for sh in SHARED if ck.thorough else (SHARED[0], SHARED[1], SHARED[2], SHARED[3], SHARED[7]):
            for mine in (True, False):
                def before(w, pu):
                    q = pu if mine else w.new(P, w.field(), symbol('odt', wide=True))
                    w.m(q, 'PushParticle', other_particle(w, sp, sh), cls='ParticlePusher' if w.vslot(q, 'PushParticle') is None else None)
                w, p, pu, b, a, dt, calls, ev = push(ck, P, sp, 1, before); u = AND(end, w.pc)
                unchanged(ck, '%s, %s after another that shares its %s, %s pusher' % (P, sp, ', '.join(sh) or 'species', 'same' if mine else 'other'), ref, a, under=u, loc=loc_of(ck, 'ParticlePusher::PushParticle')); ck.absorb(w)

# -------------------------------------------------------------------- C29
def C29(ck):
    narrow(ck, 'Particle.cpp', 'Lepton.cpp', 'Photon.cpp')
    pos, mom = vsym('x', -3, 3), vsym('k', 1.5, 4)
    for tr in (0, 1):
        for form in ('lepton', 'lepton-energy', 'photon', 'photon-energy'):
            w = world(ck); m, q, wt, t, en = symbol('mass', .5, 3), symbol('q', -2, -1.1), symbol('wt'), symbol('t'), symbol('en', 3, 5)
            P, K = w.vec(pos), w.vec(mom)
            if form == 'lepton': p = w.new('Lepton', m, q, P, K, wt, t, tr, sig='(double, double, ThreeVector const&'); k = mom
            elif form == 'lepton-energy': p = w.new('Lepton', m, q, en, P, K, wt, t, tr, sig='(double, double, double,'); k = None
            elif form == 'photon': p = w.new('Photon', P, K, wt, t, tr, sig='(ThreeVector const&, ThreeVector const&'); k = mom; m = q = const(0)
            else: p = w.new('Photon', en, P, K, wt, t, tr, sig='(double, ThreeVector const&'); k = vmul(en, unit(mom)); m = q = const(0)
            L = loc_of(ck, 'Lepton::Lepton' if 'lepton' in form else 'Photon::Photon'); nm = '%s constructor, tracking %d' % (form, tr)
            s = w.snap(p)
            for key, v in (('position', pos), ('weight', wt), ('time', t), ('tracking', tr), ('mass', m), ('charge', q), ('alive', 1)) + ((('momentum', k),) if k else ()):
                same(ck, '%s: %s' % (nm, key), s[key], v, loc=L)
            if k is None:
                same(ck, nm + ': momentum along the given direction', cross(s['momentum'], mom), [const(0)] * 3, loc=L)
                k = s['momentum']
            def kine(k, tag):
                p2 = dot(k, k)
                if 'lepton' in form:
                    g = Sqrt(Add(1, Div(p2, Mul(m, m)))); e = Mul(m, g); be = Sqrt(Sub(1, Div(1, Mul(g, g))))
                else: e = Sqrt(p2); g = e; be = const(1)
                same(ck, '%s: energy%s' % (nm, tag), w.m(p, 'GetEnergy'), e, loc=loc_of(ck, ('Lepton' if 'lepton' in form else 'Photon') + '::GetEnergy'))
                if 'lepton' in form: same(ck, '%s: gamma%s' % (nm, tag), w.m(p, 'GetGamma'), g, loc=loc_of(ck, 'Lepton::GetGamma'))
                same(ck, '%s: beta%s' % (nm, tag), w.m(p, 'GetBeta'), be, loc=loc_of(ck, ('Lepton' if 'lepton' in form else 'Photon') + '::GetBeta'))
                same(ck, '%s: direction%s' % (nm, tag), w.vm(p, 'GetDirection'), unit(k), loc=loc_of(ck, 'Particle::GetDirection'))
            kine(k, '')
            same(ck, nm + ': no track yet', [s[h][0] for h in ('position history', 'momentum history', 'time history', 'gamma history')], [0] * 4, loc=L)
            # two track updates with a time update in between
            L = loc_of(ck, 'Particle::UpdateTrack')
            want = []
            for i in range(3 if ck.thorough else 2):
                nx, nk = vsym('nx%d' % i, -3, 3), vsym('nk%d' % i, 1.5, 4)
                w.m(p, 'UpdateTime', symbol('d%d' % i)); t = Add(t, symbol('d%d' % i))
                w.m(p, 'UpdateTrack', w.vec(nx), w.vec(nk))
                a = w.snap(p); want.append((nx, nk, t, w.m(p, 'GetGamma')))
                same(ck, '%s: update %d stores the position' % (nm, i), a['position'], nx, loc=L); same(ck, '%s: update %d stores the momentum' % (nm, i), a['momentum'], nk, loc=L)
                same(ck, '%s: update %d keeps the clock' % (nm, i), a['time'], t, loc=loc_of(ck, 'Particle::UpdateTime'))
                kine(nk, ' after update %d' % i)
                for h, j in (('position history', 0), ('momentum history', 1), ('time history', 2), ('gamma history', 3)):
                    n = (i + 1) * tr
                    if same(ck, '%s: %s has %d entries' % (nm, h, n), a[h][0], n, loc=L):
                        for e in range(n):
                            v = want[e][j]; same(ck, '%s: %s entry %d' % (nm, h, e), a[h][1][e], v if isinstance(v, list) else [v], loc=L)
            fault_free(ck, nm, w)
            ck.absorb(w)
    long_tracks(ck)
def long_tracks(ck):
    """one more entry on tracks of any length: the vectors are found in the particle by their contents and replaced by long ones"""
    L = loc_of(ck, 'Particle::UpdateTrack')
    for sp in ('electron', 'photon'):
        for n, room in ((255, 3), (256, 0), (65535, 10), (65536, 0), (100001, 5), (10 ** 6, 8), (2 ** 24 + 1, 1), (2 ** 31 - 1, 4), (2 ** 32, 2)):
            w = world(ck); p = make_particle(w, sp, 1); nx, nk, dt = vsym('nx'), vsym('nk', 1.5, 4), symbol('dt', wide=True)
            w.m(p, 'UpdateTrack', w.vec(nx), w.vec(nk)); s = w.snap(p); want = {'position': s['position history'][1], 'momentum': s['momentum history'][1], 'time': s['time history'][1], 'gamma': s['gamma history'][1]}
            at = {}
            for off, (sz, v) in sorted(p.obj.cells.items()):
                e = p.obj.cells.get(off + 8)
                if type(v) is not Ptr or e is None or type(e[1]) is not Ptr or e[1].obj is not v.obj or type(v.off) is not int or type(e[1].off) is not int: continue
                d = e[1].off - v.off
                if d not in (8, 24): continue
                x = [w.load(w.padd(v, 8 * i), F64) for i in range(d // 8)]
                for h, q in want.items():
                    if h not in at and q and len(q[0]) == d // 8 and all(a is b for a, b in zip(x, q[0])): at[h] = (off, d); break
            if len(at) < 4: break
            for h, (off, d) in at.items():
                o = Ptr(w.alloc('long ' + h + ' history', 'heap', (n + room) * d, 'new'))
                for i, q in enumerate((0, n * d, (n + room) * d)): w.store(w.padd(p, off + 8 * i), PTR, w.padd(o, q))
            mx, mk = vsym('mx'), vsym('mk', 1.5, 4); w.m(p, 'UpdateTime', dt); w.events.clear()
            try: w.m(p, 'UpdateTrack', w.vec(mx), w.vec(mk))
            except Unsupported: continue      # the standard library refuses a vector of that size
            new = {'position': mx, 'momentum': mk, 'time': [w.m(p, 'GetTime')], 'gamma': [w.m(p, 'GetGamma')]}; nm = 'track of %d entries of a %s, room for %d more' % (n, sp, room)
            for h, (off, d) in at.items():
                b, e = w.load(w.padd(p, off), PTR), w.load(w.padd(p, off + 8), PTR)
                if type(b) is not Ptr or type(e) is not Ptr or type(e.off) is not int: ck.obligation('%s: %s history' % (nm, h), 'is no vector', loc=L); continue
                ck.obligation('%s: %s history grows by one' % (nm, h), None if (e.off - b.off) == (n + 1) * d and b.obj is e.obj else 'has %s entries' % ((e.off - b.off) / d,), loc=L)
                if e.off - b.off == (n + 1) * d: same(ck, '%s: %s history ends with the new entry' % (nm, h), [w.load(w.padd(e, 8 * i - d), F64) for i in range(d // 8)], new[h], loc=L)
            same(ck, nm + ': position', w.vm(p, 'GetPosition'), mx, loc=L); ck.absorb(w)
