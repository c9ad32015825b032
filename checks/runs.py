"""C18, C22, C24, C27: runs, threads and histories."""
from inputs import *
import inputs, os
from physics import make_process
SP = {'Electron': lambda w, **k: w.lepton(-1, **k), 'Positron': lambda w, **k: w.lepton(1, **k), 'Photon': lambda w, **k: w.photon(**k)}
CH = {'Electron': 'getElectrons', 'Positron': 'getPositrons', 'Photon': 'getPhotons'}
# events: what the source makes, and what is there at the end
EVS = [(['Electron'], ['Electron', 'Photon', 'Photon']), (['Photon'], ['Photon', 'Electron', 'Positron']), (['Electron', 'Photon', 'Positron'], ['Electron', 'Photon', 'Positron']), (['Positron'], ['Positron']),
       (['Electron'], ['Electron', 'Positron', 'Electron', 'Photon'])]
def pymanager(ck, cfg='pyomp'):
    """a run manager whose events are made up: particles are symbolic, the first step moves them and adds others"""
    r = py(ck, cfg); w = r.w; r.plan = []; r.n = 0; r.inp = []; r.out = []; r.evs = {}
    def gen(m, n, a):
        k = r.n; r.n += 1; tag = 'r%d.e%d' % (len(r.inp), k)
        first, last = r.plan[k] if k < len(r.plan) else r.plan[-1]
        save, w.tid = w.tid, w.tid
        l = w.new('ParticleList', w.string('event'), 40 + len(last)); ps = []
        for i, s in enumerate(first): p = SP[s](w, name='%s.%d' % (tag, i)); w.m(l, 'AddParticle', p, cls='ParticleList'); ps.append(p)
        r.inp[-1] += [(m.tid, w.vm(p, 'GetMomentum') + w.vm(p, 'GetPosition')) for p in ps]
        r.evs[id(l.obj)] = (l, tag, list(first), last, ps, [0])
        w.loop.append(('generate', m.pc, l, a, m.where(), m.tid, m.locks)); return l
    def push(m, n, a):
        w.loop.append(('push', m.pc, None, a, m.where(), m.tid, m.locks))
        e = next((e for e in r.evs.values() if any(p.obj is a[1].obj for p in e[4])), None)
        if e is None or e[5][0]: return
        l, tag, first, last, ps, done = e; done[0] = 1
        for i, p in enumerate(ps): w.m(p, 'UpdateTrack', w.vec(vsym('%s.%d.nx' % (tag, i), wide=True)), w.vec(vsym('%s.%d.np' % (tag, i), wide=True)))
        for i, s in enumerate(last[len(first):]): p = SP[s](w, name='%s.new%d' % (tag, i)); w.m(l, 'AddParticle', p, cls='ParticleList'); ps.append(p)
        r.out[-1] += [(m.tid, s, w.vm(p, 'GetMomentum') + w.vm(p, 'GetPosition') + [w.m(p, 'GetWeight')]) for s, p in zip(last, ps)]
    w.override(r'SourceGenerator::GenerateList\(.*', gen); w.override(r'\w+::PushParticle\(.*', push)
    def beam(plan, threads=1, n=None):
        r.plan = plan; r.n = 0; r.inp.append([]); r.out.append([]); r.evs = {}; r.do('beamOn', n if n is not None else len(plan), threads)
    r.beam = beam
    return r
def get(r, meth):
    o = r.w.alloc('result', 'stack', 8); n = r.w.prog.bydem_base('RunManager::' + meth)
    if not n: raise AnchorMissing('RunManager::' + meth)
    r.w.call(n[0], [Ptr(o), r.o]); p = r.w.load(Ptr(o), PTR)
    return p.obj.model[1] if type(p) is Ptr and p.obj.model and p.obj.model[0] == 'array' else None
def arrays(ck, nm, r, R=None, loc=RM):
    """the four arrays against the last run; without R up to one positive factor per column kind"""
    sets = [('getInput', 6, [x for _, x in r.inp[-1]] if r.inp else [])] + [(CH[s], 7, [x for _, t, x in r.out[-1] if t == s] if r.out else []) for s in CH]
    for meth, k, rows in sets:
        a = get(r, meth); n2 = '%s: %s' % (nm, meth)
        if a is None: ck.obligation(n2, 'is not an array', loc=loc); continue
        if a['shape'] is None: ck.obligation(n2 + ': shape', 'is flat', loc=loc)
        else: same(ck, n2 + ': one row of %d per particle' % k, a['shape'], [len(rows), k], loc=loc)
        v = a['values']
        if v is None: ck.undec(n2, 'symbolic size'); continue
        if not ck.obligation(n2 + ': number of values', None if len(v) == k * len(rows) else '%d instead of %d' % (len(v), k * len(rows)), loc=loc): continue
        if R: want = [[Mul(x, R['Momentum']) for x in q[:3]] + [Mul(x, R['Length']) for x in q[3:6]] + q[6:] for q in rows]
        else:
            # the factors of the first row serve for all rows
            f = None
            want = rows
        left = list(want); got = [v[k * i:k * i + k] for i in range(len(rows))]
        for i, g in enumerate(got):
            hit = None
            for j, q in enumerate(left):
                if R:
                    if matches(g, q): hit = j; break
                else:
                    fs = factors(g, q)
                    if fs: hit = j; break
            if hit is None: ck.obligation('%s: row %d is the momentum, position%s of a particle' % (n2, i, '' if k == 6 else ' and weight'), 'is %s' % [show(x) for x in g], loc=loc)
            else: ck.obligation('%s: row %d' % (n2, i), None); left.pop(hit)
def factors(g, q):
    """one positive constant for the momenta, one for the positions, one for the weight"""
    out = []
    for a, b in ((0, 3), (3, 6), (6, 7)):
        if a >= len(g): break
        try: x = [Div(u, v) for u, v in zip(g[a:b], q[a:b])]
        except Exception: return None
        ks = [l for y in x for _, l in leaves(y)]
        if not all(isinstance(y, Num) for y in ks): return None
        c = const(repr(float(ks[0].v[0])))
        if not float(ks[0].v[0]) > 0: return None
        if any(diff(y, c) is not None and diff(y, c)[1] == 'violation' for y in x): return None
        out.append(c)
    return out
def C24(ck):
    narrow(ck, 'RunManager.cpp', cfg='py')
    ck.generic = True
    for cfg, threads in (('py', (1,)), ('pyomp', (1, 2, 3, 5) if not ck.thorough else (1, 2, 3, 4, 5, 8))):
        for t in threads:
            for k, plan_ in enumerate((EVS, EVS[3:4], EVS[1:3] + EVS[:1]) if not ck.thorough else [EVS[i:] + EVS[:i] for i in range(5)] + [EVS[i:i + 1] for i in range(5)] + [EVS[i:i + 2] for i in range(4)]):
                r = pymanager(ck, cfg); w = r.w; nm = '%s, %d threads, events %d' % ('OpenMP' if cfg == 'pyomp' else 'serial', t, k)
                arrays(ck, nm + ', before any run', r)
                py_setup(r, TIMED()); r.beam(plan_, t); arrays(ck, nm + ', first run', r)
                arrays(ck, nm + ', asked again', r)
                r.beam(plan_[::-1], t); arrays(ck, nm + ', second run', r)
                if cfg == 'pyomp': r.beam(plan_[:1], 1 if t > 1 else 2); arrays(ck, nm + ', third run with other threads', r)
                never(ck, nm + ': goes on', NOT(w.pc), loc=RM, why='stops')
                fault_free(ck, nm, w); ck.absorb(w)
        n = 1100; r = pymanager(ck, cfg); nm = '%s, an event of %d particles' % ('OpenMP' if cfg == 'pyomp' else 'serial', 3 * n); r.w.loop_bound = 10 ** 7
        py_setup(r, TIMED()); r.beam([(['Electron'] * n, ['Electron'] * n + ['Photon'] * n + ['Positron'] * n)], 1); arrays(ck, nm, r); ck.absorb(r.w)
# ---------------------------------------------------------------- C18: the event loop
SG = 'Source/Particles/SourceGenerator.cpp'
PLANS = {'nothing is created': {}, 'two photons in the first step': {0: ['Photon', 'Photon']}, 'a cascade': {0: ['Photon'], 2: ['Electron', 'Positron'], 3: ['Photon'], 5: ['Electron'], 9: ['Photon', 'Electron', 'Positron']},
         'creation in the last interaction': {1: ['Photon'], 11: ['Electron']}, 'creation by the last process': {1: ['Photon']}, 'a burst': {0: ['Photon'] * 600}, 'two bursts': {0: ['Photon', 'Electron'] * 400, 30: ['Positron'] * 300}}
def watch(w, plan, fixed=False):
    """the real sources; pushers and processes are recorded, and create particles by plan: number of the interaction in its event -> species"""
    w.overrides = [x for x in w.overrides if not re.search('GenerateList|FreeSources', x[0].pattern)]; w._disp.clear()
    w.hist = []; w.lists = []; w.parts = []; cnt = {}
    def note(kind, *d): w.hist.append((kind, w.pc, w.where(), w.tid) + d)
    def gen(m, n, a): l = body(m, n, a); w.lists.append(l); note('generate', l, a[0]); return l
    def free(m, n, a): l = restrict(a[1], m.pc); r = body(m, n, a); note('free', l, a[0]); return r
    def push(m, n, a): note('push', restrict(a[1], m.pc), a[0])
    def interact(m, n, a):
        p, l = restrict(a[1], m.pc), restrict(a[2], m.pc); note('interact', p, a[0], l)
        k = cnt.get(id(l.obj) if type(l) is Ptr else 0, 0); cnt[id(l.obj) if type(l) is Ptr else 0] = k + 1
        for s in plan.get(k, []):
            q = SP[s](w, name='new%d' % len(w.parts), **(dict(mom=FIXED, pos=FIXED, track=1) if fixed else {})); w.parts.append(q); w.m(l, 'AddParticle', q, cls='ParticleList'); note('create', q, l)
    w.override(r'SourceGenerator::GenerateList\(.*', gen); w.override(r'SourceGenerator::FreeSources\(.*', free); w.override(r'\w+::PushParticle\(.*', push); w.override(r'\w+::Interact\(.*', interact)
    def add(m, n, a): note('add', restrict(a[1], m.pc), restrict(a[0], m.pc)); return body(m, n, a)
    w.override(r'ParticleList::AddParticle\(.*', add)
    for k, p in (('init', r'OutputManager::InitSource\(.*'), ('store', r'OutputManager::StoreSource\(.*'), ('track', r'OutputManager::StoreTrack\(.*'), ('events', r'OutputManager::OutputEvents(MPI)?\(.*')):
        w.override(p, lambda m, n, a, k=k: note(k, *[restrict(x, m.pc) for x in a[1:]]))
def key(p): return (id(p.obj), p.off) if type(p) is Ptr else ('?', show(p))
def rounds(ck, nm, w, procs, steps, L):
    """the history of one event list after another"""
    own = {}; pl = {}
    for h in w.hist:
        if h[0] == 'add': pl[key(h[4])] = key(h[5])
    ev = {key(l): [] for l in w.lists}
    for h in w.hist:
        if h[0] in ('push', 'interact'):
            l = pl.get(key(h[4]))
            if l is None: ck.obligation(nm + ': a particle of an event', '%s of %s' % (h[0], show(h[4])), loc=h[2]); continue
            ev[l].append(h)
        elif h[0] == 'add': ev.get(key(h[5]), []).append(h)
    for i, l in enumerate(w.lists):
        bad = None; present = []; pushed = set(); done = {}; n = 0; L2 = L
        def close():
            for p in present:
                if p not in pushed: return 'a particle is not pushed in step %d' % n
                if sorted(done.get(p, [])) != sorted(procs): return 'step %d: %d interactions of a particle instead of %d, or of another process' % (n, len(done.get(p, [])), len(procs))
        fresh = True
        for h in ev[key(l)]:
            c = AND(w.pc, NOT(h[1]))
            if not is0(c) and feasible(c) and witness(c): bad = bad or '%s only when %s' % (h[0], cond_text(h[1])); L2 = h[2]
            if h[0] == 'add': present.append(key(h[4])); continue
            p = key(h[4]); L2 = h[2]
            if h[0] == 'push':
                if p in pushed or not n:
                    if n:
                        bad = bad or close()
                    pushed = set(); done = {}; n += 1
                pushed.add(p)
            else:
                if p not in pushed: bad = bad or 'a process acts before the push of step %d' % (n + 1)
                done.setdefault(p, []).append(key(h[5]))
                if key(h[6]) != key(l): bad = bad or 'a process gets the list of another event'
        if n: bad = bad or close()
        if not bad and n != steps: bad = '%d steps instead of %d' % (n, steps)
        ck.obligation('%s: event %d: %d steps, every particle pushed once and subjected to every process once' % (nm, i, steps), bad, loc=L2 if bad else None)
def lifecycle(ck, nm, w, counts, outs, tracks, gens, L):
    """generated, stored, freed exactly once, in this order"""
    gs = [h for h in w.hist if h[0] == 'generate']
    per = {}
    for h in gs: per.setdefault(key(h[5]), []).append(h)
    ck.obligation(nm + ': events per source', None if [len(per.get(key(g), [])) for g in gens] == counts else 'are %s instead of %s' % ([len(per.get(key(g), [])) for g in gens], counts), loc=L)
    ck.obligation(nm + ': every event is a new one', None if len({key(h[4]) for h in gs}) == len(gs) else 'an event is generated twice', loc=SG)
    for si, g in enumerate(gens):
        idx = []; tr = []
        for h in per.get(key(g), []):
            l = key(h[4]); hs = [x for x in w.hist if x[0] in ('store', 'track', 'free') and key(x[4]) == l]
            want = (['store', 'store'] if outs and outs[si] else []) + (['track'] if tracks else []) + ['free']
            got = [x[0] for x in hs]
            bad = next(('%s only when %s' % (x[0], cond_text(x[1])) for x in hs for c in [AND(w.pc, NOT(x[1]))] if not is0(c) and feasible(c) and witness(c)), None)
            bad = bad if bad else None if sorted(got) == sorted(want) and got[-1:] == ['free'] else 'is %s instead of %s' % (got, want)
            st = [x for x in hs if x[0] == 'store']
            if not bad and st:
                if [x[6] & 1 for x in st if type(x[6]) is int] != [1, 0]: bad = 'stored with flags %s' % [show(x[6]) for x in st]
                elif st[0][5] != st[1][5]: bad = 'stored under %s and %s' % (st[0][5], st[1][5])
                idx.append(st[0][5])
                i0, i1 = w.hist.index(st[0]), w.hist.index(st[1]); use = [k for k, x in enumerate(w.hist) if x[0] in ('push', 'interact') and x[4] is not None and key(x[4]) in h_parts(w, l)]
                if use and not bad and not (i0 < use[0] and use[-1] < i1): bad = 'is stored in the middle of its run'
            for x in hs:
                if x[0] == 'track': tr.append(x[5])
            fr = [k for k, x in enumerate(w.hist) if x[0] == 'free' and key(x[4]) == l]; use = [k for k, x in enumerate(w.hist) if x[0] in ('push', 'interact') and key(x[4]) in h_parts(w, l)]
            if not bad and fr and use and use[-1] > fr[0]: bad = 'is used after it is freed'
            ck.obligation('%s: source %d: the life of each event' % (nm, si + 1), bad, loc=L)
        if idx: ck.obligation('%s: source %d: events are stored under their own indices' % (nm, si + 1), None if sorted(idx) == list(range(counts[si])) else 'under %s' % idx, loc=L)
        if tr: ck.obligation('%s: source %d: tracks under their own indices' % (nm, si + 1), None if sorted(tr) == list(range(counts[si])) else 'under %s' % tr, loc=L)
    ck.obligation(nm + ': memory of the events is given back', 'never freed: %s' % [show(l) for l in w.lists if l.obj.freed == 0][:3] if any(l.obj.freed == 0 for l in w.lists) else None, loc=SG)
    ps = [h[4] for h in w.hist if h[0] == 'add' and type(h[4]) is Ptr]
    ck.obligation(nm + ': memory of the particles is given back', 'never freed: %d particles' % len([p for p in ps if p.obj.freed == 0]) if any(p.obj.freed == 0 for p in ps) else None, loc='Source/Particles/ParticleList.cpp')
def h_parts(w, l):
    c = w.__dict__.setdefault('_hp', {})
    if len(c) == 0 or c.get('n') != len(w.hist):
        c.clear(); c['n'] = len(w.hist)
        for h in w.hist:
            if h[0] == 'add': c.setdefault(key(h[5]), set()).add(key(h[4]))
    return c.get(l, set())
def exe_loop(ck, cfg, nsrc, counts, steps, physics, pair, plan, outs, tracks, nhist=0, threads=2, nm=''):
    d = base_deck('static', physics, nsrc, nhist); d['Physics', 'pair_production'] = pair; d['General', 'tracking'] = tracks
    d['General', 'time_step'] = const('1e-16'); d['General', 'time_end'] = const('%.1fe-16' % (steps - 0.5) if steps else '0')
    for i in range(nsrc): d['Particle%d' % (i + 1), 'output'] = outs[i]; d['Particle%d' % (i + 1), 'number_particles'] = counts[i]
    def setup(w):
        watch(w, plan); w.omp_threads = threads
        if cfg == 'mpi': extmodel.mpi(w, 0, extmodel.Net(1))
    w = run_main(ck, d, cfg, setup=setup)
    L = EXEC; ck.obligation(nm + ': runs', None if not is0(w.pc) and w.ret == 0 else 'the program stops', loc=L)
    if is0(w.pc): ck.absorb(w); return
    procs = [key(r.obj) for r in of(w, *EMITTERS) + of(w, 'NonLinearBreitWheeler') if not is0(r.pc)]
    rounds(ck, nm, w, procs, steps, L); lifecycle(ck, nm, w, counts, outs, tracks, [r.obj for r in of(w, 'SourceGenerator')], L)
    # tables are set up before and written after the events of their source
    seq = [h for h in w.hist if h[0] in ('init', 'generate', 'events')]; want = []
    for i in range(nsrc): want += (['init'] if outs[i] else []) + ['generate'] * counts[i] + ['events']
    ck.obligation(nm + ': tables are set up before and written after the events of their source', None if [h[0] for h in seq] == want else 'order is %s' % ' '.join(h[0] for h in seq), loc=L)
    for h, i in zip([h for h in seq if h[0] == 'init'], [i for i in range(nsrc) if outs[i]]): same(ck, nm + ': tables of the right size', h[4], counts[i], loc=L)
    fault_free(ck, nm, w); ck.absorb(w)
def py_loop(ck, cfg, n, steps, physics, pair, plan, threads, nm):
    r = py(ck, cfg); w = r.w; v = TIMED(); dt = v['time_step']
    watch(w, plan)
    py_setup(r, v, 'gaussian', physics, end=Mul(str(steps - 0.5), dt) if steps else const('0')); r.do('usePairProduction', pair)
    for again in range(2):
        w.hist.clear(); w.lists.clear(); made = len(w.made)
        r.do('beamOn', n, threads); nm2 = nm + (', second run' if again else '')
        new = w.made[made:]
        procs = [key(x.obj) for x in new if x.cls in EMITTERS + ('NonLinearBreitWheeler',)]
        ck.obligation(nm2 + ': runs', None if not is0(w.pc) and len([x for x in new if x.cls == 'SourceGenerator']) == 1 else 'no run', loc=RM)
        rounds(ck, nm2, w, procs, steps, RM); lifecycle(ck, nm2, w, [n], None, False, [x.obj for x in new if x.cls == 'SourceGenerator'], RM)
    fault_free(ck, nm, w); ck.absorb(w)
def sources(ck):
    for n in (0, 1, 2, 3) if not ck.thorough else range(8):
        for sp in ('electron', 'Positron', 'photon'):
            for di in ('mono', 'gaussian', 'linear'):
                w = W(ck.prog('std', drivers=('units',)), ck); nm = 'source of %d %ss, %s' % (n, sp.lower(), di); s = lambda k, *a: symbol('s.' + k, *a)
                g = w.new('SourceGenerator', w.string(sp), w.string(di), n, s('e1', 4, 6), s('e2'), s('r'), s('tau'), s('div'), w.vec(vsym('s.x')), w.vec(dsym('s.d')), 0)
                ls = []
                same(ck, nm + ': announced number', w.m(g, 'GetSourceNumber', cls='SourceGenerator'), n, loc=SG)
                for i in range(n):
                    l = w.m(g, 'GenerateList', cls='SourceGenerator')
                    if is0(w.pc): break
                    ls.append(l); same(ck, nm + ': one particle', w.m(l, 'GetNPart', cls='ParticleList'), 1, loc=SG)
                ck.obligation(nm + ': produces them all', None if len(ls) == n else 'stops after %d' % len(ls), loc=SG)
                if len(ls) == n:
                    same(ck, nm + ': announced number afterwards', w.m(g, 'GetSourceNumber', cls='SourceGenerator'), n, loc=SG)
                    ck.obligation(nm + ': different lists', None if len({id(l.obj) for l in ls}) == n else 'the same list again', loc=SG)
                    fault_free(ck, nm, w); w.events.clear()
                    w.m(g, 'GenerateList', cls='SourceGenerator')
                    ck.obligation(nm + ': one more stops the program', None if is0(w.pc) else 'goes on', loc=SG); ck.obligation(nm + ': one more is reported', None if [e for e in w.events if e.kind == 'print'] else 'no message', loc=SG)
                    ck.obligation(nm + ': one more: no exception', 'exception' if [e for e in w.events if e.kind == 'throw'] else None, loc=SG)
                fault_free(ck, nm, w); ck.absorb(w)
def big_sources(ck):
    """the same of sources so large that their counter is set instead of counted up"""
    big = 300001 if ck.thorough else 33001
    w = W(ck.prog('std', drivers=('units',)), ck); w.loop_bound = 10 ** 8; w.override(r'std::\w+_distribution<.*>::operator\(\)<.*', lambda m, n, a: const('0.3')); s = lambda k, *a: symbol('s.' + k, *a)
    g = w.new('SourceGenerator', w.string('photon'), w.string('mono'), big, s('e1', 4, 6), s('e2'), s('r'), s('tau'), s('div'), w.vec(vsym('s.x')), w.vec(dsym('s.d')), 0)
    same(ck, 'source of %d: announced number' % big, w.m(g, 'GetSourceNumber', cls='SourceGenerator'), big, loc=SG)
    snaps = []
    for _ in range(3):
        snaps.append({k: v[1] for k, v in g.obj.cells.items() if type(v[1]) is int and v[0] == 4}); w.m(g, 'GenerateList', cls='SourceGenerator')
    up = [k for k in snaps[0] if [x.get(k) for x in snaps] == [0, 1, 2]]; down = [k for k in snaps[0] if [x.get(k) for x in snaps] == [big, big - 1, big - 2]]
    if len(up) + len(down) != 1: ck.notes.append('large sources: no single counter'); return
    c = (up + down)[0]
    for k in (255, 256, 999, 1000, 1023, 1024, 4095, 4096, 9999, 10000, 32767, 32768, 65535, 65536, 10 ** 5, big - 2, big - 1):
        if k >= big: continue
        g.obj.cells[c] = (4, k if up else big - k); nm = 'source of %d after %d events' % (big, k); l = w.m(g, 'GenerateList', cls='SourceGenerator')
        if not ck.obligation(nm + ': produces another', None if not is0(w.pc) and type(l) is Ptr else 'stops', loc=SG): break
        same(ck, nm + ': one particle', w.m(l, 'GetNPart', cls='ParticleList'), 1, loc=SG)
        x = g.obj.cells[c][1]; ck.obligation(nm + ': counts it', None if x == (k + 1 if up else big - k - 1) else 'as %s' % show(x), loc=SG)
    if not is0(w.pc): w.m(g, 'GenerateList', cls='SourceGenerator'); ck.obligation('source of %d: one more stops the program' % big, None if is0(w.pc) else 'goes on', loc=SG)
    fault_free(ck, 'large sources', w); ck.absorb(w)
def C18(ck):
    big_sources(ck)
    narrow(ck, 'QEDCASC.cpp', 'SourceGenerator.cpp'); narrow(ck, 'RunManager.cpp', cfg='py')
    sources(ck)
    full = ck.thorough
    for cfg, nt in (('std', 1), ('omp', 1), ('omp', 2), ('omp', 3), ('mpi', 1)):
        T = {'std': 'serial', 'omp': 'OpenMP, %d threads' % nt, 'mpi': 'MPI'}[cfg]
        for k, (nsrc, counts, steps, physics, pair, plan, outs, tracks, nh) in enumerate(
            [(1, [2], 3, 'Quantum', True, 'a cascade', [True], True, 0), (2, [3, 2], 2, 'Quantum', True, 'two photons in the first step', [True, False], False, 1), (1, [3], 1, 'Classical', False, 'creation by the last process', [False], True, 0),
             (3, [1, 0, 4], 2, 'Semiclassical', True, 'creation in the last interaction', [False, True, True], False, 2), (1, [2], 0, 'Quantum', True, 'nothing is created', [True], True, 1), (1, [5], 4, 'Quantum', False, 'a cascade', [True], False, 0)]):
            if cfg != 'std' and not full and k in (2, 4): continue
            exe_loop(ck, cfg, nsrc, counts, steps, physics, pair, PLANS[plan], outs, tracks, nh, nt, '%s, %s events, %d steps, %s' % (T, '+'.join(map(str, counts)), steps, plan))
        exe_loop(ck, cfg, 1, [1], 2, 'Classical', False, PLANS['a burst' if cfg != 'std' else 'two bursts'], [True], False, 0, nt, '%s, one event, 2 steps, %s' % (T, 'a burst')) if (cfg, nt) != ('omp', 1) else None
    for cfg, nt in (('py', 1), ('pyomp', 1), ('pyomp', 2), ('pyomp', 3)):
        for n, steps, physics, pair, plan in [(3, 3, 'quantum', True, 'a cascade'), (2, 1, 'classical', False, 'creation by the last process'), (5, 2, 'semiclassical', True, 'two photons in the first step'), (1, 0, 'quantum', True, 'nothing is created'), (4, 4, 'quantum', False, 'a cascade')] + ([(1, 2, 'classical', False, 'a burst')] if (cfg, nt) != ('pyomp', 1) else []):
            py_loop(ck, cfg, n, steps, physics, pair, PLANS[plan], nt, 'Python, %s, %d events, %d steps, %s' % ('serial' if cfg == 'py' else 'OpenMP, %d threads' % nt, n, steps, plan))
# ---------------------------------------------------------------- C23: when and with what the loop fills histograms
FILLS = [('one at the start', 3, [('Electron', '0')]), ('one after each step', 3, [('Electron', '0'), ('Photon', '1'), ('Positron', '1.5'), ('Electron', '9')]), ('three at the same time', 3, [('Electron', '0.5'), ('Photon', '0.5'), ('Positron', '0.5')]),
         ('two never reached', 2, [('Photon', '2'), ('Electron', '5')]), ('two at the start, two later', 4, [('Electron', '0'), ('Electron', '0'), ('Photon', '2.5'), ('Electron', '2.5')]), ('no step', 0, [('Electron', '0'), ('Electron', '1')]),
         ('unused species', 2, [('Muon', '0'), ('Electron', '0.5')]),
         ('sixteen at the end', 2, [('Electron', '0')] + [(('Photon', 'Electron', 'Positron')[i % 3], '%g' % (2 + i)) for i in range(15)]), ('sixteen on the way', 2, [(('Electron', 'Photon')[i % 2], '1') for i in range(15)] + [('Positron', '7')])]
def fills(ck):
    for cfg, nt in (('std', 1), ('omp', 2), ('mpi', 1)):
        for k, (what, steps, hs) in enumerate(FILLS):
            if cfg != 'std' and not ck.thorough and k not in (1, 2, 7): continue
            for physics, pair, plan in (('Quantum', True, 'a cascade'), ('Classical', False, 'two photons in the first step')):
                if not ck.thorough and (k % 2 == 0) != pair and cfg == 'std': continue
                fill(ck, cfg, nt, '%s, %s, %s' % ({'std': 'serial', 'omp': 'OpenMP', 'mpi': 'MPI'}[cfg], what, plan), steps, hs, physics, pair, PLANS[plan])
def fill(ck, cfg, nt, nm, steps, hs, physics, pair, plan):
    """every push and interaction moves the particle, so that a bin tells which particle was counted and after how many of them"""
    ST, PT = 16, 12; counts = [2, 1]; d = base_deck('static', physics, 2, len(hs)); d['Physics', 'pair_production'] = pair; d['General', 'tracking'] = False
    d['General', 'time_step'] = const('1e-16'); d['General', 'time_end'] = const('%.1fe-16' % (steps - 0.5) if steps else '0')
    for i in range(2): d['Particle%d' % (i + 1), 'output'] = False; d['Particle%d' % (i + 1), 'number_particles'] = counts[i]; d['Particle%d' % (i + 1), 'particle_type'] = 'electron'
    n = 3 * ST * PT + 1
    for i, (sp, t) in enumerate(hs):
        for q, v in (('particle', sp), ('type', 'x'), ('time', const(t + 'e-16') if t != '0' else const(0)), ('bins', n), ('min_bin', const(0)), ('max_bin', const(n - 1))): d['Histogram%d' % (i + 1), q] = v
    out = []; st = {}; begin = {}
    def code(w, p):
        e, i, c, _ = st[key(p)]; w.m(p, 'UpdateTrack', w.vec([const(1 + (e * PT + i) * ST + c), const(0), const(0)]), w.vec([const(0), const(0), const(1)]))
    def setup(w):
        watch(w, plan); w.omp_threads = nt; w.overrides = [x for x in w.overrides if 'AppParticle' not in x[0].pattern]
        if cfg == 'mpi': extmodel.mpi(w, 0, extmodel.Net(1))
        def wrap(pat, after, before=None):
            h = [x for x in w.overrides if x[0].pattern == pat][0][1]
            def g(m, name, a):
                if before: before(m, a)
                r = h(m, name, a); after(m, a, r); return r
            w.override(pat, g)
        def born(m, l):
            e = [key(x) for x in w.lists].index(key(l))
            for h in w.hist:
                if h[0] == 'add' and key(h[5]) == key(l) and key(h[4]) not in st: st[key(h[4])] = [e, len([1 for v in st.values() if v[0] == e]), 0, w.getstring(w.m(h[4], 'GetName')).text()]; code(w, h[4])
        def touch(m, a, r): p = restrict(a[1], m.pc); st[key(p)][2] += 1; code(w, p)
        def start(m, a):
            e, i = st[key(restrict(a[1], m.pc))][:2]
            if i == 0: begin.setdefault(e, []).append([list(v) for v in st.values() if v[0] == e])
        wrap(r'SourceGenerator::GenerateList\(.*', lambda m, a, l: born(m, l)); wrap(r'\w+::PushParticle\(.*', touch, start); wrap(r'\w+::Interact\(.*', lambda m, a, r: (touch(m, a, r), born(m, restrict(a[2], m.pc))))
        def outhist(m, name, a):
            h = restrict(a[1], m.pc); b = w.m(h, 'GetBinValues', cls='Histogram'); out.append((w.getstring(w.m(h, 'GetName', cls='Histogram')).text(), [w.load(w.padd(b, 8 * i), F64) for i in range(n)]))
        w.override(r'OutputManager::OutputHist(MPI)?\(.*', outhist)
    w = run_main(ck, d, cfg, setup=setup); L = EXEC
    if not ck.obligation(nm + ': runs', None if not is0(w.pc) and w.ret == 0 else 'the program stops', loc=L): ck.absorb(w); return
    if not ck.obligation(nm + ': every histogram is written', None if sorted(o[0] for o in out) == sorted('hist%d' % (i + 1) for i in range(len(hs))) else 'written: %s' % [o[0] for o in out], loc=L): ck.absorb(w); return
    for hname, vals in out:
        sp, t = hs[int(hname[4:]) - 1]; k = next((q for q in range(steps) if q >= float(t)), steps); want = [0] * n
        for e in range(len(w.lists)):
            at = begin[e][k] if k < len(begin.get(e, [])) else [v for v in st.values() if v[0] == e]
            for _, i, c, name in at: want[1 + (e * PT + i) * ST + c] += name == sp
        got = [next(iter([float(v.v[0]) for _, v in leaves(x)]), None) for x in vals]; bad = [(j, got[j], want[j]) for j in range(n) if got[j] != want[j]]
        def say(j): q, c = divmod(j - 1, ST); e, i = divmod(q, PT); return 'particle %d of event %d after %d pushes and interactions' % (i, e, c)
        ck.obligation('%s: %s of %s at %s steps counts once each of these particles at that time and no other' % (nm, hname, sp, t), ('%s is counted %g times instead of %g' % ((say(bad[0][0]),) + bad[0][1:])) if bad else None, loc=L)
    fault_free(ck, nm, w); ck.absorb(w)

# ---------------------------------------------------------------- C22: data races
class Races:
    """accesses of each thread to each object in each parallel region, with the locks held"""
    def __init__(self, w): self.w = w; self.acc = {}; self.n = 0; self.keep = []; self.order = set(); w.rec = self
    def __call__(self, m, o, off, sz, rw):
        if not m.parallel or o.kind == 'tls' or o.ro: return
        if 'once' in m.locks or o.name.startswith('guard variable'): return
        d = self.acc.get((m.region, id(o)))
        if d is None: d = self.acc[m.region, id(o)] = {}; self.keep.append(o); d['obj'] = o
        k = (m.tid, getattr(m, 'phases', {}).get(m.tid, 0), off if type(off) is int else None, sz if type(sz) is int else 1 << 40, rw, frozenset(l if isinstance(l, str) else show(l) for l in m.locks))
        if k not in d: d[k] = (m.where(), m.pc); self.n += 1
    def conflicts(self):
        out = []
        for (reg, _), d in self.acc.items():
            o = d['obj']; by = {}
            for k, x in d.items():
                if k != 'obj': by.setdefault(k[0], []).append((k, x))
            if len(by) < 2: continue
            if not any(k[4] in 'wf' for v in by.values() for k, _ in v): continue
            seen = set()
            ts = sorted(by)
            for i, t in enumerate(ts):
                for u in ts[i + 1:]:
                    for ka, xa in by[t]:
                        for kb, xb in by[u]:
                            if ka[1] != kb[1] or (ka[4] == 'r' and kb[4] == 'r') or ka[5] & kb[5]: continue
                            if ka[2] is not None and kb[2] is not None and (ka[2] + ka[3] <= kb[2] or kb[2] + kb[3] <= ka[2]): continue
                            s = (xa[0], xb[0])
                            if s in seen: continue
                            seen.add(s); out.append((o, t, ka, xa, u, kb, xb))
        return out
def where(x): return '%s:%s' % (str(x[0]).split('/')[-1], x[1]) if isinstance(x, tuple) and len(x) > 1 else str(x)
KIND = {'r': 'read', 'w': 'write', 'f': 'release'}
def races(ck, nm, w, R, loc, regions=1):
    cs = R.conflicts()
    forks = [e for e in w.events if e.kind == 'fork']
    ck.obligation(nm + ': events run in parallel', None if len(forks) >= regions else '%d parallel regions' % len(forks), loc=loc)
    by = {}
    for c in cs: by.setdefault((where(c[3][0]), where(c[6][0])), c)
    for (a, b), (o, t, ka, xa, u, kb, xb) in list(by.items())[:6]:
        ck.obligation('%s: no conflict on %s' % (nm, o.name), '%s at %s by one thread and %s at %s by another, no common lock (%s / %s)' % (KIND[ka[4]], a, KIND[kb[4]], b, ', '.join(sorted(ka[5])) or 'none', ', '.join(sorted(kb[5])) or 'none'), loc=xa[0])
    shared = 0
    for (reg, _), d in R.acc.items():
        if len({k[0] for k in d if k != 'obj'}) > 1: shared += 1
    if not cs: ck.obligation('%s: %d objects used by several threads, no conflict' % (nm, shared), None)
    for e in [e for e in w.events if e.kind == 'libc-rand'][:1]: ck.obligation(nm + ': random numbers', 'rand() is called by several threads', loc=e.loc)
    for e in [e for e in w.events if e.kind == 'lock-held'][:1]: ck.obligation(nm + ': locks are given back', 'a thread ends with %s' % (e.data['locks'],), loc=loc)
    ck.notes.append('%s: %d distinct accesses to %d objects, %d of them shared' % (nm, R.n, len(R.acc), shared))
REAL = ('InitSource', 'StoreSource', 'AppParticle', 'GenerateList', 'FreeSources')
def real(w, names):
    """the bodies of these functions instead of their stand-ins"""
    w.overrides = [x for x in w.overrides if not any(k in x[0].pattern for k in names)]; w._disp.clear()
FIXED = [const('0.5'), const('-0.25'), const('2')]
def exe_races(ck, species, nm, threads=2, events=2, nhist=1, plan={}, steps=1, physics='Quantum'):
    """the loop of the executable with real sources, histograms, tracks and tables; steps are those of the plan"""
    nsrc = len(species)
    d = base_deck('static', physics, nsrc, nhist)
    d['General', 'time_step'] = const('1e-16'); d['General', 'time_end'] = const('%.1fe-16' % (steps - 0.5))
    for i in range(nsrc):
        k = 'Particle%d' % (i + 1); d[k, 'number_particles'] = events; d[k, 'output'] = True; d[k, 'energy_distribution'] = 'mono'; d[k, 'particle_type'] = species[i]
        d[k, 'energy_mean'] = const('2e-13'); d[k, 'direction'] = [const('0'), const('0'), const('1')]
    for i in range(nhist):
        k = 'Histogram%d' % (i + 1); d[k, 'time'] = const('%de-16' % (i * steps)); d[k, 'particle'] = species[0].capitalize(); d[k, 'type'] = 'energy'; d[k, 'min_bin'] = const('0'); d[k, 'max_bin'] = const('10')
    box = []
    def setup(w):
        w.omp_threads = threads; watch(w, plan, True)
        real(w, ('InitSource', 'StoreSource', 'StoreTrack', 'AppParticle', 'OutputManager::OutputManager', 'HDF5Output', '~OutputManager', 'OutputEvents', 'OutputHist')); extmodel.h5(w); box.append(Races(w))
    w = run_main(ck, d, 'omp', setup=setup)
    ck.obligation(nm + ': runs', None if not is0(w.pc) else 'stops', loc=EXEC)
    races(ck, nm, w, box[0], EXEC, nsrc); fault_free(ck, nm, w); ck.absorb(w); return w
def py_races(ck, species, nm, threads=2, events=2, plan={}, steps=1, physics='quantum'):
    r = py(ck, 'pyomp'); w = r.w; v = TIMED(); watch(w, plan)
    py_setup(r, v, 'gaussian', physics, species, 'gaussian', end=Mul(str(steps - 0.5), v['time_step'])); r.do('usePairProduction', True)
    R = Races(w)
    for again in range(2): r.do('beamOn', events, threads)
    ck.obligation(nm + ': runs', None if not is0(w.pc) else 'stops', loc=RM)
    races(ck, nm, w, R, RM, 2); ck.absorb(w)
def together(ck, cfg, nm, loc, *calls, tables=False):
    """the same calls by two threads at a time, on shared arguments"""
    w = W(ck.prog(cfg, drivers=('units',)), ck, overrides=TABLES if tables else ()); small_tables(w); fs = calls[0](w)
    R = Races(w); w.parallel = 1; w.region = 1; w.nthreads = 2; pc = w.pc
    for t in range(2):
        w.tid = t; w.pc = pc
        for f in fs: f()
    w.parallel = 0; w.tid = 0
    cs = R.conflicts()
    for o, t, ka, xa, u, kb, xb in cs[:3]: ck.obligation('%s: no conflict on %s' % (nm, o.name), '%s at %s and %s at %s' % (KIND[ka[4]], where(xa[0]), KIND[kb[4]], where(xb[0])), loc=xa[0])
    if not cs: ck.obligation(nm + ': no conflict', None)
    ck.absorb(w)
def step_races(ck, cfg, field, kind, pusher, species):
    """pushers and processes are shared by the threads; particles and lists are their own"""
    nm = '%s field, %s, %s, %s' % (field.lower(), pusher, kind, species)
    def make(w):
        f = w.new(field, *FARGS[field](w)) if field != 'any' else w.field()
        dt = symbol('dt', .01, .02); pu = w.new(pusher, f, dt); pr = make_process(w, kind, const('0.5'), dt, symbol('emin', .01, .02), 1, f)
        fs = []; own = {}
        def mine():
            if w.tid not in own:
                l = w.new('ParticleList', w.string('event'), 40); p = SP[species](w, track=1, name='t%d' % w.tid); w.m(l, 'AddParticle', p, cls='ParticleList'); own[w.tid] = (p, l)
            return own[w.tid]
        fs.append(mine)
        fs.append(lambda: w.m(pu, 'PushParticle', mine()[0])); fs.append(lambda: w.m(pr, 'Interact', *mine()))
        return fs
    together(ck, cfg, nm, loc_of(ck, pusher + '::PushParticle'), make, tables=True)
FS = lambda n, *a: symbol('field.' + n, *a)
FLASER = lambda w: [FS('a'), FS('l'), FS('d'), FS('w'), FS('p'), w.vec(dsym('field.s')), w.vec([Add(3, x) for x in dsym('field.f')])]
FARGS = {'StaticEMField': lambda w: [w.vec(vsym('field.e')), w.vec(vsym('field.b'))], 'PlaneEMField': lambda w: [FS('a'), FS('l'), FS('p'), w.vec(dsym('field.d'))], 'GaussianEMField': FLASER, 'FocusingField': FLASER}
def C22(ck):
    for t in (2, 3):
        exe_races(ck, ('electron', 'photon'), 'executable, %d threads' % t, t, t + 1, 3, PLANS['a cascade'], 2); exe_races(ck, ('positron',), 'executable, %d threads, one event each' % t, t, t, 0, PLANS['two photons in the first step'], 1)
        py_races(ck, 'electron', 'Python, %d threads' % t, t, t + 1, PLANS['a cascade'], 2); py_races(ck, 'photon', 'Python, %d threads, one event each' % t, t, t, PLANS['two photons in the first step'], 1)
    for pusher in PUSHERS:
        for kind in ('stochastic', 'continuous', 'classical', 'pair'):
            for sp in SP:
                if ck.thorough or pusher == 'LorentzPusher' or kind == 'classical': step_races(ck, 'omp', 'any', kind, pusher, sp)
    for field in FARGS: step_races(ck, 'omp', field, 'classical', 'LorentzPusher', 'Electron')
    # the tools all threads call
    S_ = lambda n, *a: symbol('race.' + n, *a)
    def arr(w, n, k=4):
        o = w.alloc(n, 'heap', 8 * k)
        for i in range(k): o.cells[8 * i] = (8, Add(i, S_(n, .1, .2)))
        return Ptr(o)
    def tools(w):
        x, y, q = arr(w, 'x'), arr(w, 'y'), S_('q', 1.3, 1.6)
        def own(ty=8): return Ptr(w.alloc('local', 'stack', ty))
        fs = []
        for n in w.prog.bydem_base('Numerics::Interpolate1D'): fs.append(lambda n=n: w.fcall(n, [x, y, 4, q]))
        for n in w.prog.bydem_base('Numerics::ClosestPoints'): fs.append(lambda n=n: w.fcall(n, [x, 4, q, own(4), own()]))
        return fs
    together(ck, 'omp', 'table lookups', 'Source/Tools/Numerics.cpp', tools)
    def random(w):
        fs = []
        for n, a in (('MCTools::RandDouble', [const('0'), const('1')]), ('MCTools::SampleNorm', [const('0'), S_('s'), 2]), ('MCTools::SampleUniform', [const('0'), S_('s'), 2])):
            for k in w.prog.bydem_base(n):
                if len(w.func(k).params) == len(a) + (1 if w.is_sret(k) else 0): fs.append(lambda k=k, a=a: w.fcall(k, a))
        ck.obligation('random numbers: drawing functions are found', None if len(fs) >= 2 else 'found %d' % len(fs), loc='Source/Tools/MCTools.hh')
        return fs
    together(ck, 'omp', 'random numbers', 'Source/Tools/MCTools.cpp', random)
# ---------------------------------------------------------------- C27: the run manager under every sequence of calls
INVALID = 'neither of the documented names'
class Session:
    """a run manager and, beside it, what the calls so far must have set"""
    def __init__(self, ck, cfg, nm):
        self.ck = ck; self.cfg = cfg; self.nm = nm; self.r = py(ck, cfg); self.w = self.r.w; self.heap = []; self.calls = []
        self.v = TIMED(); self.time = self.field = self.phys = self.gen = None; self.frac = const(1); self.pair = False
        self.heap = self.w.heap; self.w.stop_on_fault = True
        w = self.w; w.overrides = [x for x in w.overrides if not re.search('GenerateList|FreeSources', getattr(x[0], 'pattern', str(x[0])))]; w._disp.clear()
        def gen(m, n, a): l = body(m, n, a); w.loop.append(('generate', m.pc, l, a, m.where(), m.tid, m.locks)); return l
        w.override(r'SourceGenerator::GenerateList\(.*', gen)
    def name(self): return '%s: %s' % (self.nm, ' '.join(self.calls) or 'nothing')
    quiet = False
    def ob(self, n, bad, loc=RM): return True if self.quiet else self.ck.obligation('%s: %s' % (self.name(), n), bad, loc=loc)
    def do(self, op):
        try: self.call(op)
        except Faulted: self.quiet = False; self.w.pc = 0
    def call(self, op):
        r, v, w = self.r, self.v, self.w; fresh = lambda k, *a: symbol('%s.%s' % (op, k), *a); self.calls.append(op); n0 = len(w.made); l0 = len(w.loop); said = None
        if op == 'time': self.time = (v['time_step'], Mul('0.5', v['time_step'])); r.do('setTime', *self.time)
        elif op.startswith('time:'): self.time = (const(op[5:]), Mul('0.5', const(op[5:]))); r.do('setTime', *self.time)
        elif op.startswith('fraction:'): self.frac = const(op[9:]); r.do('setSampleFraction', self.frac); said = False
        elif op == 'no-time': self.time = None; r.do('setTime', const(0), const('1e-15'))
        elif op in ('gaussian', 'focusing', 'bad-field'):
            x = dict(e_max=fresh('e_max'), wavelength=fresh('wavelength'), duration=fresh('duration'), waist=fresh('waist'), polerisation=fresh('polerisation'), start=[fresh('start' + i) for i in 'xyz'], focus=[Add(3, fresh('focus' + i)) for i in 'xyz'])
            r.do('setField', op if op != 'bad-field' else INVALID, *x.values()); self.field = (op, x) if op != 'bad-field' else None; said = op == 'bad-field'
        elif op in ('classical', 'semiclassical', 'quantum', 'bad-physics'):
            r.do('setPhysics', op if op != 'bad-physics' else INVALID); self.phys = op if op != 'bad-physics' else None; said = op == 'bad-physics'
        elif op in ('source', 'source2'):
            x = {k: [fresh(k + c) for c in 'xyz'] if k in ('position', 'direction') else fresh(k, *((4, 6) if k == 'energy_mean' else ())) for k in ('energy_mean', 'energy_sig', 'radius', 'duration', 'divergence', 'position', 'direction')}
            n = ('electron', 'mono') if op == 'source' else ('photon', 'gaussian')
            r.do('setGenerator', *n, *x.values()); self.gen = dict(x, particle_type=n[0], energy_distribution=n[1])
        elif op == 'fraction': x = const('0.37'); r.do('setSampleFraction', x); self.frac = x; said = False
        elif op in ('bad-fraction', 'worse-fraction'): r.do('setSampleFraction', const('1.5' if op[0] == 'b' else '-0.5')); said = True
        elif op in ('pair', 'no-pair'): self.pair = op == 'pair'; r.do('usePairProduction', self.pair)
        elif op.startswith('run'): self.run(2, int(op[3:] or 1)); return
        elif op == 'results':
            for meth, k in (('getInput', 6), ('getElectrons', 7), ('getPositrons', 7), ('getPhotons', 7)):
                a = get(r, meth); self.ob(meth + ' gives an array of rows of %d' % k, None if a is not None and a['shape'] is not None and len(a['shape']) == 2 and a['shape'][1] == k else 'is not')
            return
        if said is not None: self.ob('is reported' if said else 'is accepted', None if bool(printed(r.last)) == said else 'no message' if said else 'message')
        self.ob('starts nothing', None if len(w.made) == n0 and len(w.loop) == l0 else 'made %s' % [x.cls for x in w.made[n0:]])
    def run(self, n, threads):
        w, r = self.w, self.r; m0 = len(w.made); l0 = len(w.loop)
        missing = [k for k, x in (('time', self.time), ('field', self.field), ('physics', self.phys), ('source', self.gen)) if not x]
        why = 'without %s' % ', '.join(missing) if missing else 'with %d threads' % threads if threads < 1 or (threads != 1 and self.cfg == 'py') else None
        try: r.do('beamOn', n, threads)
        except Unsupported:
            if not why: raise
            self.quiet = False; self.ob('a run %s is refused' % why, 'it starts and does not end'); w.pc = 0; return
        new = [x for x in w.made[m0:] if not is0(x.pc)]; loop = w.loop[l0:]
        fs, src, pu, em, bw = ([x for x in new if x.cls in c] for c in (tuple(FIELDS.values()), ('SourceGenerator',), PUSHERS, EMITTERS, ('NonLinearBreitWheeler',)))
        if why:
            self.ob('a run %s is refused' % why, None if not [l for l in loop if l[0] in ('generate', 'push', 'interact')] and not src else 'it starts')
            self.ob('a run %s is reported' % why, None if printed(r.last) else 'no message'); return
        if not self.ob('the run starts', None if len(fs) == 1 and len(src) == 1 and len(pu) == 1 and len(em) == 1 and len([l for l in loop if l[0] == 'generate']) == n and len(loop) > n else 'made %s' % [x.cls for x in new]): return
        if self.quiet: return
        self.ob('of the field, physics and processes asked for', None if fs[0].cls == FIELDS[self.field[0]] and [pu[0].cls, em[0].cls] == list(MODELS[self.phys][:2]) and len(bw) == self.pair else 'made %s' % [x.cls for x in new])
        q = lambda nm, x, params, vals: compare(self.ck, 'C16', '%s: %s' % (self.name(), nm), x, params, vals, None)
        q('field', fs[0], P_LASER, self.field[1]); q('source', src[0], PARAMS['SourceGenerator'], dict(self.gen, number_particles=n))
        for x in pu + em + bw:
            constant(self.ck, '%s: time step of the %s and nothing else' % (self.name(), x.cls), ratio(x.args[1], self.time[0]), x.loc)
            self.ob('the %s uses the field of the run' % x.cls, None if identity(x.args[0], fs[0].obj) else 'another field', x.loc)
        for x in em: same(self.ck, '%s: sample fraction of the %s' % (self.name(), x.cls), x.args[2 + (x.cls == 'ContinuousEmission')], self.frac, loc=x.loc)
        if em[0].cls == 'ContinuousEmission': same(self.ck, '%s: classical limit' % self.name(), em[0].args[2], MODELS[self.phys][2], loc=em[0].loc)
        used = {id(l[3][0].obj) for l in loop if l[0] in ('push', 'interact', 'generate')}
        self.ob('uses the objects made for it and no others', None if used == {id(x.obj.obj) for x in src + pu + em + bw} else 'others')
    def end(self):
        """the destructor: everything is given back, once"""
        w = self.w; self.calls.append('end'); f = w.faults()
        if not f:
            if is0(w.pc): self.ob('goes on', 'the program stops')
            d = [n for n in w.prog.bydem_base('RunManager::~RunManager') if n in w.prog.sym]
            if not d: raise AnchorMissing('RunManager::~RunManager')
            try: w.call(d[0], [self.r.o])
            except Faulted: pass
            f = w.faults()
        self.ob('no memory error', None if not f else '%s %s' % (f[0].kind, f[0].data), f[0].loc if f else RM)
        if f: self.ck.absorb(w); return
        left = [o for o in self.heap if is0(o.freed) and o is not self.r.o.obj]
        self.ob('everything is given back', None if not left else 'never freed: %s' % ', '.join(sorted({'%s of %s' % (o.name, fmt(o.loc)) for o in left}))[:300], (left[0].loc if left and left[0].loc else RM))
        self.ob('no exception', None if not [e for e in w.events if e.kind == 'throw'] else 'exception')
        self.ck.absorb(w)
    def state(self):
        """what the manager holds, up to the names of the values"""
        seen = {}; out = []
        def val(v):
            if type(v) is Ptr: return ('p', node(v.obj), v.off if isinstance(v.off, int) else 0)
            if isinstance(v, Num): return str(v.v[0])[:12]
            if isinstance(v, (int, Str, str)): return v if not isinstance(v, Str) else v.disp()
            return type(v).__name__
        def node(o):
            if id(o) in seen: return seen[id(o)]
            k = seen[id(o)] = len(seen)
            if o.kind in ('const', 'global', 'function'): return o.name
            if o.freed: out.append((k, 'freed'))
            elif o is self.r.o.obj: out.append((k, tuple(sorted((c, val(v)) for c, (sz, v) in list(o.cells.items())))))
            else: out.append((k, len(o.cells), val(o.cells[0][1]) if 0 in o.cells else None))
            return k
        node(self.r.o.obj); return repr((sorted(out, key=repr), bool(self.time), self.field and self.field[0], self.phys, self.gen and self.gen['particle_type'], self.pair, val(self.frac)))
def fmt(l): return '%s:%s' % (os.path.basename(l[0]), l[1]) if isinstance(l, tuple) else str(l)
def session(ck, cfg, ops, nm=None):
    s = Session(ck, cfg, nm or ('OpenMP' if cfg == 'pyomp' else 'serial'))
    for o in ops:
        s.do(o)
        if is0(s.w.pc): break
    s.end(); return s

# calls after which a run is possible, and the calls explored from there
READY = ['time', 'gaussian', 'quantum', 'source']
ALPHABETS = [('time and field', ['quantum', 'source'], ['time', 'no-time', 'gaussian', 'focusing', 'bad-field', 'run', 'run0']), ('physics', ['time', 'gaussian', 'source'], ['quantum', 'classical', 'bad-physics', 'run', 'run2']),
             ('processes', READY, ['pair', 'no-pair', 'classical', 'quantum', 'run']), ('source and sampling', ['time', 'focusing', 'semiclassical'], ['source', 'source2', 'fraction', 'bad-fraction', 'worse-fraction', 'run']), ('results', READY, ['run', 'results', 'run0', 'bad-field', 'gaussian'])]
FULL = ('everything', [], ['time', 'no-time', 'gaussian', 'bad-field', 'quantum', 'bad-physics', 'source', 'run', 'run0', 'results'])
def closure(ck, cfg, nm, start, ops, limit):
    """every state the calls can lead to, with every call out of it"""
    nm = '%s, %s' % ('OpenMP' if cfg == 'pyomp' else 'serial', nm); seen = {}; todo = [[]]; n = 0; closed = True
    while todo:
        path = todo.pop(0)
        for o in [None] + ops if not path else ops:
            s = Session(ck, cfg, nm); k = path + ([o] if o else []); n += 1; last = (start + k)[-1:]
            # obligations of the last call only: the earlier ones were decided on the way here
            for c in start + k[:-1] if o else start: s.quiet = True; s.do(c)
            s.quiet = False
            if o: s.do(o)
            if is0(s.w.pc) or s.w.faults(): s.end(); continue
            st = s.state()
            if st not in seen and o:
                if len(seen) >= limit: closed = False
                else: seen[st] = k; todo.append(k)
            s.end()
    ck.notes.append('%s: %d states, %d calls, %s' % (nm, len(seen), n, 'closed' if closed else 'not closed'))
    return closed

def C27(ck):
    ck.generic = True
    for cfg in ('py', 'pyomp'): ck.prog(cfg, drivers=('units',))
    lim = 100000 if ck.thorough else 120
    jobs = [(cfg,) + a for cfg in ('py', 'pyomp') for a in ALPHABETS if cfg == 'py' or a[0] in ('physics', 'results') or ck.thorough]
    if ck.thorough: jobs = [(cfg,) + FULL for cfg in ('py', 'pyomp')] + jobs
    ck.parallel([lambda c, j=j: closure(c, *j, limit=lim) for j in jobs], 7)
    for t in ('1e-60', '1e-30', '1e-21', '1', '1e20'): session(ck, 'py', ['time:' + t] + READY[1:] + ['run'])
    for x in ('0', '1', '1e-12'): session(ck, 'py', READY + ['fraction:' + x, 'run'])
    # a refused setting after any other call, everything else being set
    kind = {'bad-field': 'gaussian', 'bad-physics': 'quantum', 'no-time': 'time'}
    def crossed(c, b, a):
        rest = [x for x in READY if x != kind.get(b)]
        session(c, 'py', [a, b] + rest + ['run']); session(c, 'py', rest + [a, b, 'run'])
    ck.parallel([lambda c, b=b, a=a: crossed(c, b, a) for b in list(kind) + ['bad-fraction'] for a in ('pair', 'fraction', 'source2', 'focusing', 'classical', 'results', 'run', 'run0', b) + (() if b in kind else ('no-pair',))], 7)
