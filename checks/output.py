"""C19, C20, C21: the output file."""
from common import *
from physics import loc_of, fault_free
import extmodel
OM = 'Source/IO/Output/OutputManager.cpp'; HO = 'Source/IO/Output/HDF5Output.cpp'
class Out: pass
def manager(ck, cfg='std', units=True, rank=None, net=None, name='run.h5'):
    P = ck.prog(cfg, drivers=('units',)); w = W(P, ck); extmodel.h5(w)
    if rank is not None: extmodel.mpi(w, rank, net)
    elif cfg == 'mpi': extmodel.mpi(w, 0, extmodel.Net(1))
    o = Out(); o.w = w; o.u = w.new('UnitsSystem', w.string('SI')) if units else 0
    o.om = w.new('OutputManager', w.string(name), o.u) if units else w.new('OutputManager', w.string(name))
    o.f = w.h5; return o
SPEC = {'Electron': lambda w, **k: w.lepton(-1, **k), 'Positron': lambda w, **k: w.lepton(1, **k), 'Photon': lambda w, **k: w.photon(**k)}
def plist(w, names, tag, updates=0, track=0, name='event', cap=40):
    """a particle list with symbolic particles; tracked ones have a history"""
    l = w.new('ParticleList', w.string(name), cap); ps = []
    for i, s in enumerate(names):
        p = SPEC[s](w, track=track, name='%s.%d' % (tag, i))
        for k in range(updates):
            w.m(p, 'UpdateTime', symbol('%s.%d.dt%d' % (tag, i, k))); w.m(p, 'UpdateTrack', w.vec(vsym('%s.%d.x%d' % (tag, i, k))), w.vec(vsym('%s.%d.p%d' % (tag, i, k))))
        w.m(l, 'AddParticle', p, cls='ParticleList'); ps.append(p)
    return l, ps
def row(w, p, ev):
    return [const(ev), w.m(p, 'GetEnergy')] + w.vm(p, 'GetMomentum') + w.vm(p, 'GetPosition')
def flat(x): return [z for y in x for z in y]
def data(ck, nm, f, path, dims, values, loc=OM):
    """one dataset: shape, element type and content"""
    s = f.sets.get(path)
    if s is None: ck.obligation('%s: %s is written' % (nm, path), 'no such dataset among %s' % sorted(f.sets), loc=loc); return
    same(ck, '%s: %s: shape' % (nm, path), list(s['dims'] or []), dims, loc=s['loc'])
    if s['mtype'] is not None: ck.obligation('%s: %s: stored and written as doubles' % (nm, path), None if 'DOUBLE' in s['type'] and 'DOUBLE' in s['mtype'] else 'stored as %s, written as %s' % (s['type'], s['mtype']), loc=s['loc'])
    if s['values'] is None: ck.obligation('%s: %s: data is written' % (nm, path), 'nothing is written', loc=s['loc'])
    elif s['values'] == 'symbolic': ck.undec('%s: %s' % (nm, path), 'symbolic shape')
    elif values is not None: same(ck, '%s: %s: content' % (nm, path), s['values'], [S(v) for v in values], loc=s['loc'])
def track_spec(ck, nm, f, base, snap, R=None, loc=OM):
    n = snap['position history'][0]; L = lambda k: R[k] if R else const(1)
    n = n if type(n) is int else 0
    data(ck, nm, f, base + '/Position', [n, 3], [Mul(v, L('Length')) for v in flat(snap['position history'][1])], loc)
    data(ck, nm, f, base + '/Momentum', [n, 3], [Mul(v, L('Momentum')) for v in flat(snap['momentum history'][1])], loc)
    data(ck, nm, f, base + '/Time', [n], [Mul(v, L('Time')) for v in flat(snap['time history'][1])], loc)
    data(ck, nm, f, base + '/Gamma', [n], flat(snap['gamma history'][1]), loc)

EVENTS = [[['Electron']], [['Photon'], ['Positron']], [['Electron', 'Photon', 'Electron', 'Positron', 'Photon'], ['Photon'], ['Positron', 'Electron', 'Photon']]]
LATER = [[['Electron', 'Photon', 'Positron']], [['Photon', 'Photon', 'Electron'], ['Positron', 'Photon']], [['Electron', 'Photon', 'Electron', 'Positron', 'Photon', 'Electron'], ['Photon', 'Positron', 'Electron'], ['Positron', 'Electron', 'Photon', 'Photon']]]
def more(ck):
    if not ck.thorough: return list(zip(EVENTS, LATER))
    sp = ('Electron', 'Positron', 'Photon'); out = list(zip(EVENTS, LATER))
    for a in sp:
        for n in range(1, 5):
            k = [sp[(i * 2 + n) % 3] for i in range(n)]
            out.append(([[a], [sp[n % 3]]], [[a] + k, [sp[n % 3]] + k[::-1]]))
    for a in sp: out.append(([[a]], [[a]])); out.append(([[a]] * 3, [[a, a], [a], [a, a, a]]))
    return out
TABLE = {'Electron': 'Electrons', 'Positron': 'Positrons', 'Photon': 'Photons'}
def fill(o, before, after, tag, order=None, cap=40):
    """a source with these events, stored before and after; returns rows by table"""
    w = o.w; n = len(before); C = 'OutputManager'
    w.m(o.om, 'InitSource', n, cls=C)
    rows = {'Primary': [], 'Electrons': [], 'Positrons': [], 'Photons': []}; by = {}
    for e in (order or range(n)):
        l, ps = plist(w, before[e], '%s.e%d' % (tag, e), cap=cap)
        prim = row(w, ps[0], e); w.m(o.om, 'StoreSource', l, e, 1, cls=C)
        for i, p in enumerate(ps):
            w.m(p, 'UpdateTrack', w.vec(vsym('%s.e%d.%d.nx' % (tag, e, i), wide=True)), w.vec(vsym('%s.e%d.%d.np' % (tag, e, i), wide=True)))
            if before[e][i] == 'Photon': w.m(p, 'Kill')      # one that has turned into a pair keeps its row
        for i, s in enumerate(after[e][len(before[e]):]):
            p = SPEC[s](w, name='%s.e%d.new%d' % (tag, e, i)); w.m(l, 'AddParticle', p, cls='ParticleList'); ps.append(p)
        by[e] = (prim, [(TABLE[s], row(w, p, e)) for s, p in zip(after[e], ps)])
        w.m(o.om, 'StoreSource', l, e, 0, cls=C)
        # the event is gone once it has been stored
        g = w.prog.bydem_base('SourceGenerator::FreeSources')
        if g: w.call(g[0], [0, l])
    for e in range(n):
        rows['Primary'].append(by[e][0])
        for t, r in by[e][1]: rows[t].append(r)
    return rows
def tables(ck, nm, f, rows, anyorder=False):
    for t, r in rows.items():
        p = 'Particles/ParticleSource/' + t
        if not r: ck.obligation('%s: no table for absent %s' % (nm, t.lower()), 'a table is written' if p in f.sets else None, loc=OM)
        else: data(ck, nm, f, p, [len(r), 8], flat(r))
def quiet(ck, nm, o, f=None, err=True):
    never(ck, nm + ': the program goes on', NOT(o.w.pc), loc=OM, why='stops')
    if err: ck.obligation(nm + ': the file accepts it', (f or o.f).errors[0][0] if (f or o.f).errors else None, loc=(f or o.f).errors[0][1] if (f or o.f).errors else None)
    fault_free(ck, nm, o.w); ck.absorb(o.w)
def C19(ck):
    narrow(ck, 'OutputManager.cpp', 'HDF5Output.cpp')
    ck.generic = True
    for cfg in ('std', 'mpi'):
        for k, (b, a) in enumerate(more(ck)):
            for order in ([None] if len(b) == 1 else [None, list(range(len(b)))[::-1]]):
                o = manager(ck, cfg); nm = '%s writer, case %d, %s' % ('serial' if cfg == 'std' else 'MPI', k, 'events in order' if order is None else 'events completed in reverse')
                rows = fill(o, b, a, 's', order)
                o.w.m(o.om, 'OutputEvents' if cfg == 'std' else 'OutputEventsMPI', 1, 0, cls='OutputManager')
                tables(ck, nm, o.f, rows); quiet(ck, nm, o)
    sp = ('Electron', 'Photon', 'Positron')
    for cfg in ('std', 'mpi'):
        for nm, b, a in (('300 events', [[sp[i % 3]] for i in range(300)], [[sp[i % 3]] + ['Photon'] * (i % 2) for i in range(300)]), ('events of 600 and 1 particles', [['Electron'], ['Photon']], [['Electron'] + [sp[i * i % 3] for i in range(599)], ['Photon']])):
            o = manager(ck, cfg); nm = '%s writer, %s' % ('serial' if cfg == 'std' else 'MPI', nm); o.w.loop_bound = 10 ** 7
            rows = fill(o, b, a, 'm', None, 2000); o.w.m(o.om, 'OutputEvents' if cfg == 'std' else 'OutputEventsMPI', 1, 0, cls='OutputManager'); tables(ck, nm, o.f, rows); quiet(ck, nm, o)
    mpi_rows(ck, 'C19')
    stored_when(ck)
def stored_when(ck):
    """main stores each event once before its first push and once after its last step"""
    from deck import base_deck, run_main
    for cfg in ('std', 'omp'):
        d = base_deck('static', 'Quantum', 1, 1, General__time_step=const('1e-16'), General__time_end=const('2.5e-16'), General__tracking=False, Histogram1__time=const('1.5e-16'))
        d['Particle1', 'number_particles'] = 3
        w = run_main(ck, d, cfg)
        cur = None; seen = []; st = {}
        for l in w.loop:
            if l[0] == 'generate': cur = l[2]; st[id(cur.obj)] = []; seen.append(cur)
            elif l[0] in ('push', 'interact', 'free') and cur is not None: st[id(cur.obj)].append(l[0])
            elif l[0] == 'store': st.setdefault(id(l[3][1].obj), []).append(('store', l[3][2], l[3][3]))
        for i, q in enumerate(seen):
            s = st[id(q.obj)]; a = [x for x in s if isinstance(x, tuple)]; nm = '%s: event %d' % (cfg, i)
            ck.obligation(nm + ' is stored once before and once after', None if [x[2] for x in a] == [1, 0] else 'stored %s' % [x[2] for x in a], loc='Source/Exec/QEDCASC.cpp')
            if len(a) == 2:
                ck.obligation(nm + ' is stored before its first push', None if s.index(a[0]) < min([j for j, x in enumerate(s) if x == 'push'] or [99]) else 'stored later', loc='Source/Exec/QEDCASC.cpp')
                ck.obligation(nm + ' is stored after its last step and before it is freed', None if max([j for j, x in enumerate(s) if x in ('push', 'interact')] or [-1]) < s.index(a[1]) < min([j for j, x in enumerate(s) if x == 'free'] or [1e9]) else 'stored at another time', loc='Source/Exec/QEDCASC.cpp')
                same(ck, nm + ' is stored under one index', a[0][1], a[1][1], loc='Source/Exec/QEDCASC.cpp')
        ids = [x[1] for q in seen for x in st[id(q.obj)] if isinstance(x, tuple) and x[2] == 1]
        ck.obligation(cfg + ': events have the indices from 0 up', None if sorted(str(x) for x in ids) == ['0', '1', '2'] else 'indices %s' % ids, loc='Source/Exec/QEDCASC.cpp'); ck.absorb(w)
def C20(ck):
    narrow(ck, 'OutputManager.cpp', 'HDF5Output.cpp')
    ck.generic = True
    from inputs import refs
    R = refs(ck); C = 'OutputManager'
    for cfg in ('std', 'mpi'):
        for units in (True, False):
            nm0 = '%s, %s' % ('serial' if cfg == 'std' else 'MPI', 'SI' if units else 'code units')
            new = lambda: manager(ck, cfg, units); Ru = R if units else None; W_ = 'OutputEvents' if cfg == 'std' else 'OutputEventsMPI'
            o = new(); w = o.w
            ck.obligation(nm0 + ': the top groups exist', None if {'Particles', 'Fields', 'Histograms'} <= o.f.groups else 'groups %s' % sorted(o.f.groups), loc=OM)
            ck.obligation(nm0 + ': the file has the given name', None if o.f.name == 'run.h5' else 'named %s' % o.f.name, loc=OM)
            ck.obligation(nm0 + ': a file of that name is replaced', None if o.f.mode in (2, 4) else 'opened with mode %s' % o.f.mode, loc=OM)
            # histograms
            from beam import hist, bins
            for i, n in enumerate((4, 1, 7)):
                h = hist(w, 'x', symbol('binMin', -3, -1), symbol('binMax', 2, 5), n, name='hist%d' % i)
                for j in range(n): w.store(w.padd(w.m(h, 'GetBinValues', cls='Histogram'), 8 * j), F64, symbol('hv%d.%d' % (i, j)))
                c, v = bins(w, h, 'GetBinCentres', n), bins(w, h, 'GetBinValues', n)
                w.m(o.om, 'OutputHist' if cfg == 'std' else 'OutputHistMPI', h, cls=C); nm = nm0 + ': histogram %d' % i
                data(ck, nm, o.f, 'Histograms/hist%d/BinCentres' % i, [n], c if n > 1 else None); data(ck, nm, o.f, 'Histograms/hist%d/BinValues' % i, [n], v)
            quiet(ck, nm0 + ': histograms', o)
            # single tracked particles
            o = new(); w = o.w
            for i, (s, k) in enumerate((('Electron', 2), ('Photon', 1), ('Positron', 3))):
                l, ps = plist(w, [s], 't%d' % i, k, 1); w.m(o.om, 'SingleParticle', ps[0], w.string('one%d' % i), cls=C)
                track_spec(ck, nm0 + ': single particle %d' % i, o.f, 'Particles/Single/one%d' % i, w.snap(ps[0]), Ru)
            quiet(ck, nm0 + ': single particles', o)
            # lists
            o = new(); w = o.w; first_ = None
            for i in range(2):
                l, ps = plist(w, ['Electron', 'Photon', 'Positron'][:2 + i], 'l%d' % i, 2, 1, name='list%d' % i)
                w.m(o.om, 'ListTracks', l, w.string('two%d' % i), cls=C)
                for j, p in enumerate(ps): track_spec(ck, nm0 + ': list %d' % i, o.f, 'Particles/ParticleList/two%d/%d' % (i, j), w.snap(p), Ru)
                if i == 0: first_ = (l, ps)
            for l, ps, nn, nm in ((first_[0], first_[1], 'list0', 'a'), (first_[0], first_[1], 'list0', 'b'), (l, ps, 'list1', 'a')):
                w.m(o.om, 'ListProperties', l, w.string(nm), cls=C)
                data(ck, nm0 + ': properties', o.f, 'Particles/ParticleList/%s/%s' % (nn, nm), [len(ps), 5], flat([[const(i), w.m(p, 'GetEnergy')] + w.vm(p, 'GetPosition') for i, p in enumerate(ps)]))
            quiet(ck, nm0 + ': lists', o)
            # event tables, then tracks, in both orders with the other list outputs
            for order in (0, 1):
                o = new(); w = o.w; nm = nm0 + ', order %d' % order
                if order: w.m(o.om, 'ListTracks', plist(w, ['Electron'], 'pre', 1, 1)[0], w.string('pre'), cls=C)
                rows = fill(o, EVENTS[1], LATER[1], 's')
                sn = []
                if cfg == 'std':
                    for e in range(2):
                        l, ps = plist(w, ['Electron', 'Photon'][:e + 1], 'tr%d' % e, 2 - e, 1); w.m(o.om, 'StoreTrack', l, e, cls=C); sn += [w.snap(p) for p in ps]
                w.m(o.om, W_, 1, int(cfg == 'std'), cls=C)
                tables(ck, nm, o.f, rows)
                for i, s in enumerate(sn): track_spec(ck, nm + ': track %d' % i, o.f, 'Particles/ParticleTrack/Event%d' % i, s, Ru)
                if order == 0: w.m(o.om, 'ListTracks', plist(w, ['Photon'], 'post', 1, 1)[0], w.string('post'), cls=C)
                want = {'Particles/ParticleSource/' + t for t, r in rows.items() if r} | {'Particles/ParticleTrack/Event%d/%s' % (i, q) for i in range(len(sn)) for q in ('Position', 'Momentum', 'Time', 'Gamma')} | \
                       {'Particles/ParticleList/%s/0/%s' % ('pre' if order else 'post', q) for q in ('Position', 'Momentum', 'Time', 'Gamma')}
                ck.obligation(nm + ': nothing else is written', None if set(o.f.sets) <= want else 'datasets %s' % sorted(set(o.f.sets) - want), loc=OM)
                quiet(ck, nm + ': events', o)
            # only what is asked for
            o = new(); w = o.w; fill(o, EVENTS[0], LATER[0], 's'); w.m(o.om, W_, 0, 0, cls=C)
            ck.obligation(nm0 + ': no event table unless asked for', 'datasets %s' % sorted(o.f.sets) if o.f.sets else None, loc=OM); quiet(ck, nm0 + ': no output', o)
            # fields
            o = new(); w = o.w; f = w.field(); ax = {c: [symbol('%s%d' % (c, i)) for i in range(n)] for c, n in (('t', 4), ('x', 2), ('y', 3), ('z', 2))}
            from tools import stdvec
            w.m(o.om, 'OutEMField', f, *[stdvec(w, ax[c], c) for c in 'txyz'], cls=C)
            for i, t in enumerate(ax['t']):
                e = {(a, b, c): field_spec(t, [ax['x'][a], ax['y'][b], ax['z'][c]]) for a in range(2) for b in range(3) for c in range(2)}
                for q, F_ in enumerate('EB'):
                    for d in range(3): data(ck, nm0 + ': field', o.f, 'Fields/%d/%s%d' % (i, F_, d), [2, 3, 2], [e[k][q][d] for k in sorted(e)])
            quiet(ck, nm0 + ': field', o)
    # untracked particles are refused
    for meth, mk in (('SingleParticle', lambda w: plist(w, ['Electron'], 'u')[1][0]), ('ListTracks', lambda w: plist(w, ['Electron'], 'u')[0])):
        o = manager(ck); o.w.m(o.om, meth, mk(o.w), o.w.string('x'), cls=C)
        ck.obligation('%s refuses a particle without a track' % meth, None if is0(o.w.pc) else 'accepted', loc=OM); ck.absorb(o.w)
    large(ck, R); whole(ck)
    groups(ck)
def large(ck, R):
    """long histories, long lists and wide histograms"""
    from beam import hist, bins
    C = 'OutputManager'; o = manager(ck); w = o.w; w.loop_bound = 10 ** 7
    l, ps = plist(w, ['Electron', 'Photon'], 'big', 150, 1)
    w.m(o.om, 'SingleParticle', ps[0], w.string('one'), cls=C); track_spec(ck, 'a track of 151 entries', o.f, 'Particles/Single/one', w.snap(ps[0]), R)
    w.m(o.om, 'StoreTrack', plist(w, ['Photon'], 'stored', 99, 1)[0], 12345, cls=C)
    l, ps = plist(w, ['Electron', 'Photon', 'Positron'] * 40, 'wide', 0, 1, name='wide', cap=200)
    w.m(o.om, 'ListTracks', l, w.string('wide'), cls=C); w.m(o.om, 'ListProperties', l, w.string('props'), cls=C)
    for j in (0, 1, 9, 10, 63, 64, 99, 100, 119): track_spec(ck, 'a list of 120', o.f, 'Particles/ParticleList/wide/%d' % j, w.snap(ps[j]), R)
    data(ck, 'a list of 120', o.f, 'Particles/ParticleList/wide/props', [120, 5], flat([[const(i), w.m(p, 'GetEnergy')] + w.vm(p, 'GetPosition') for i, p in enumerate(ps)]))
    n = 1025; h = hist(w, 'x', const(-3), const('5.5'), n, name='hist')
    for j in range(n): w.store(w.padd(w.m(h, 'GetBinValues', cls='Histogram'), 8 * j), F64, const(j * j + 1))
    c, v = bins(w, h, 'GetBinCentres', n), bins(w, h, 'GetBinValues', n); w.m(o.om, 'OutputHist', h, cls=C)
    data(ck, 'a histogram of %d bins' % n, o.f, 'Histograms/hist/BinCentres', [n], c); data(ck, 'a histogram of %d bins' % n, o.f, 'Histograms/hist/BinValues', [n], v)
    quiet(ck, 'long tracks, lists and histograms', o)
def groups(ck):
    """AddGroup, for any history of groups"""
    for hist_ in (['a', 'a', 'a/b', 'a/b', 'a', 'c'], ['x', 'y', 'x', 'x/1', 'x/2', 'x/1', 'y']):
        P = ck.prog(); w = W(P, ck); extmodel.h5(w); h = w.new('HDF5Output', w.string('f.h5'), 0)
        for g in hist_: w.m(h, 'AddGroup', w.string(g), cls='HDF5Output')
        ck.obligation('groups %s are created once each' % hist_, (w.h5.errors[0][0] if w.h5.errors else None) or (None if w.h5.groups == {''} | set(hist_) else 'groups %s' % sorted(w.h5.groups)), loc=HO)
        for i, dims in enumerate(([3], [2, 3], [2, 3, 4])):
            n = 1
            for x in dims: n *= x
            v = [symbol('d%d.%d' % (i, k)) for k in range(n)]; b = w.alloc('data', 'heap', 8 * n, 'new[]')
            for k, x in enumerate(v): b.cells[8 * k] = (8, x)
            w.m(h, 'AddArray%dD' % (i + 1), Ptr(b), *dims, w.string(hist_[0] + '/set%d' % i), cls='HDF5Output')
            data(ck, 'array of %d dimensions' % (i + 1), w.h5, hist_[0] + '/set%d' % i, dims, v, HO)
        fault_free(ck, 'groups', w); ck.absorb(w)
    # arrays of any size are stored alike
    P = ck.prog(); w = W(P, ck); w.loop_bound = 10 ** 7; extmodel.h5(w); h = w.new('HDF5Output', w.string('f.h5'), 0)
    for i, dims in enumerate(([1], [70001], [1, 8], [70001, 1], [2, 40001], [1, 1, 1], [70001, 1, 1], [1, 70001, 1], [2, 1, 40001])):
        n = 1
        for x in dims: n *= x
        b = w.alloc('data', 'heap', 8 * n, 'new[]')
        for k in range(n): b.cells[8 * k] = (8, const(k % 257))
        w.m(h, 'AddArray%dD' % len(dims), Ptr(b), *dims, w.string('big%d' % i), cls='HDF5Output')
        data(ck, 'array of %s elements' % dims, w.h5, 'big%d' % i, dims, [const(k % 257) for k in range(n)], HO)
    fault_free(ck, 'arrays', w); ck.absorb(w)
    for app in (0, 1):
        w = W(P, ck); extmodel.h5(w); h = w.new('HDF5Output', w.string('f.h5'), app)
        ck.obligation('a file opened %s is %s' % (('to be replaced', 'truncated'), ('to append', 'kept'))[app], None if (w.h5.mode in (2, 4)) == (not app) else 'opened with mode %s' % w.h5.mode, loc=HO); ck.absorb(w)
def whole(ck):
    """the whole program with its real output manager"""
    from deck import base_deck, run_main
    for nm, nsrc, outs, track in (('one source', 1, (True,), True), ('one source without output', 1, (False,), False), ('two sources, one with output', 2, (False, True), False), ('three sources, the first with output', 3, (True, False, False), False),
                                  ('two sources with output', 2, (True, True), False), ('two sources with tracking', 2, (False, False), True)):
        d = base_deck('static', 'Quantum', nsrc, 2, General__time_step=const('1e-16'), General__time_end=const('0.5e-16'), General__tracking=track, Histogram1__time=const('1e-16'), Histogram2__time=const('2e-16'))
        for i in range(nsrc): d['Particle%d' % (i + 1), 'output'] = outs[i]; d['Particle%d' % (i + 1), 'number_particles'] = 2
        def setup(w):
            w.overrides = [x for x in w.overrides if not re.search(r'OutputManager|HDF5Output', x[0].pattern if hasattr(x[0], 'pattern') else str(x[0]))]
            extmodel.h5(w)
        w = run_main(ck, d, setup=setup); f = w.h5
        want = {'Histograms/hist%d/%s' % (i, q) for i in (1, 2) for q in ('BinCentres', 'BinValues')}
        bad = f.errors[0][0] if f.errors else 'the program stops' if is0(w.pc) else None
        ck.obligation('whole program, %s: the file accepts everything' % nm, bad, loc=f.errors[0][1] if f.errors else 'Source/Exec/QEDCASC.cpp', key='%s:%s' % (nm.replace(' ', '-'), 'exists' if bad and 'although it exists' in bad else bad and re.sub(r'\W+', '-', bad)))
        if not bad:
            ck.obligation('whole program, %s: histograms are written' % nm, None if want <= set(f.sets) else 'datasets %s' % sorted(f.sets), loc='Source/Exec/QEDCASC.cpp')
            ck.obligation('whole program, %s: event tables as asked for' % nm, None if any('ParticleSource' in x for x in f.sets) == any(outs) else 'datasets %s' % sorted(f.sets), loc='Source/Exec/QEDCASC.cpp')
            ck.obligation('whole program, %s: tracks as asked for' % nm, None if any('ParticleTrack' in x for x in f.sets) == track else 'datasets %s' % sorted(f.sets), loc='Source/Exec/QEDCASC.cpp')
        fault_free(ck, 'whole program, ' + nm, w); ck.absorb(w)

# ------------------------------------------------------------------ MPI
WORLDS = [[0, 1, 2], [2, 0, 1, 1], [1, 2], [0]]
EMPTY = ([['Photon']], [['Photon']])      # a rank without leptons
SPARE = ([['Electron']], [['Electron']])
def world(ck, plan_, histograms=2, events=True, shift=0):
    """every rank of a communicator on its own events, workers first"""
    from beam import hist, bins
    from tools import stdvec
    size = len(plan_); net = extmodel.Net(size); outs = {}
    pool = list(zip(EVENTS, LATER)) + [EMPTY, SPARE]
    for r in list(range(1, size)) + [0]:
        o = manager(ck, 'mpi', True, r, net); w = o.w; o.rows = {}; o.hv = []
        b, a = pool[(plan_[r] + shift) % len(pool)]
        if events: o.rows = fill(o, b, a, 'r%d' % r); w.m(o.om, 'OutputEventsMPI', 1, 0, cls='OutputManager')
        for i in range(histograms):
            n = 3 + i; h = hist(w, 'x', symbol('binMin', -3, -1), symbol('binMax', 2, 5), n, name='hist%d' % i)
            for j in range(n): w.store(w.padd(w.m(h, 'GetBinValues', cls='Histogram'), 8 * j), F64, symbol('hv%d.%d.%d' % (r, i, j)))
            o.hv.append((bins(w, h, 'GetBinCentres', n), bins(w, h, 'GetBinValues', n)))
            w.m(o.om, 'OutputHistMPI', h, cls='OutputManager')
        n0 = len([e for e in w.events if e.kind.startswith('h5')]); o.dead = is0(w.pc)
        w.call(w.prog.bydem_base('OutputManager::~OutputManager')[0], [o.om]) if not o.dead else None
        outs[r] = o
    return net, outs
def rowset(ck, nm, s, rows, loc=OM):
    """the rows of a table, in any order of the ranks"""
    if s is None: ck.obligation(nm, 'no such dataset' if rows else None, loc=loc); return
    v = s['values']
    if not isinstance(v, list): ck.obligation(nm, 'nothing is written', loc=s['loc']); return
    same(ck, nm + ': shape', list(s['dims'] or []), [len(rows), 8], loc=s['loc'])
    got = [v[8 * i:8 * i + 8] for i in range(len(v) // 8)]; left = list(rows)
    for i, g in enumerate(got):
        k = next((k for k, r in enumerate(left) if matches(g, [S(x) for x in r])), None)
        if k is None: ck.obligation('%s: row %d is one of the rows' % (nm, i), 'is %s' % [show(x) for x in g[:3]], loc=s['loc'])
        else: left.pop(k); ck.obligation('%s: row %d is one of the rows' % (nm, i), None)
    ck.obligation(nm + ': no row is missing', '%d rows missing' % len(left) if left else None, loc=s['loc'])
def exchange(ck, nm, net, outs, gate='OutputManager'):
    ck.obligation(nm + ': every message fits its receive', net.errors[0][0] if net.errors else None, loc=net.errors[0][1] if net.errors else None)
    ck.obligation(nm + ': every message is received', None if not net.pending else 'rank %d sends tag %d and nobody receives it' % (net.pending[0].src, net.pending[0].tag), loc=net.pending[0].loc if net.pending else None)
    coll = {r: [t for t in tr if t[0] in ('init', 'barrier', 'finalize')] for r, tr in net.trace.items()}
    ref = [t[0] for t in coll[0]]
    for r in coll:
        if r: ck.obligation('%s: rank %d reaches the collective calls of rank 0' % (nm, r), None if [t[0] for t in coll[r]] == ref else '%s instead of %s' % ([t[0] for t in coll[r]], ref), loc=OM)
        for t in coll[r]: never(ck, '%s: rank %d: %s is unconditional' % (nm, r, t[0]), NOT(t[1]), loc=OM, why='is skipped')
    for r, o in outs.items():
        if r: ck.obligation('%s: rank %d leaves the file alone' % (nm, r), 'touches it' if o.f.name or o.f.sets or o.f.order or o.f.errors or len(o.f.groups) > 1 or any(e.kind.startswith('h5') for e in o.w.events) else None, loc=OM)
        never(ck, '%s: rank %d goes on' % (nm, r), NOT(o.w.pc), loc=OM, why='stops')
        fault_free(ck, '%s: rank %d' % (nm, r), o.w); ck.absorb(o.w)
def mpi_rows(ck, mode):
    for plan_ in (WORLDS if ck.thorough else WORLDS[:2] if mode == 'C21' else WORLDS[:1]):
        for shift in ((0, 1, 2, 3, 4) if ck.thorough else (0, 2) if mode == 'C21' else (0,)):
            net, outs = world(ck, plan_, 2 if mode == 'C21' else 0, shift=shift); nm = '%d ranks, plan %s shifted by %d' % (len(plan_), plan_, shift); f = outs[0].f
            tot = {}
            for r in sorted(outs):
                for t, x in outs[r].rows.items(): tot.setdefault(t, []).extend(x)
            for t, x in tot.items(): rowset(ck, '%s: %s' % (nm, t), f.sets.get('Particles/ParticleSource/' + t), x)
            if mode == 'C21':
                for i in range(2):
                    c = outs[0].hv[i][0]; n = len(c)
                    data(ck, nm, f, 'Histograms/hist%d/BinCentres' % i, [n], c)
                    data(ck, nm, f, 'Histograms/hist%d/BinValues' % i, [n], [Sum(*[outs[r].hv[i][1][j] for r in sorted(outs)]) for j in range(n)])
                exchange(ck, nm, net, outs)
            else:
                for r, o in outs.items(): ck.absorb(o.w)
def C21(ck):
    ck.generic = True
    mpi_rows(ck, 'C21')
    for nm, ev, nh in (('histograms only', False, 3), ('events only', True, 0)):
        net, outs = world(ck, [1, 0, 2], nh, ev); exchange(ck, nm, net, outs)
        for i in range(nh): data(ck, nm, outs[0].f, 'Histograms/hist%d/BinValues' % i, [3 + i], [Sum(*[outs[r].hv[i][1][j] for r in sorted(outs)]) for j in range(3 + i)])
    # the program on every rank
    from deck import base_deck, run_main
    for nm, nsrc, outs_, nh in (('one source, two histograms', 1, (True,), 2), ('two sources, the second with output', 2, (False, True), 1), ('no output', 1, (False,), 0)):
        net = extmodel.Net(3); res = {}
        for r in (1, 2, 0):
            d = base_deck('static', 'Quantum', nsrc, nh, General__time_step=const('1e-16'), General__time_end=const('0.5e-16'), General__tracking=False)
            for i in range(nh): d['Histogram%d' % (i + 1), 'time'] = const('1e-16')
            for i in range(nsrc): d['Particle%d' % (i + 1), 'output'] = outs_[i]; d['Particle%d' % (i + 1), 'number_particles'] = 2
            def setup(w):
                w.overrides = [x for x in w.overrides if not re.search(r'OutputManager|HDF5Output', x[0].pattern)]
                extmodel.h5(w); extmodel.mpi(w, r, net)
            w = run_main(ck, d, 'mpi', setup=setup); o = Out(); o.w = w; o.f = w.h5; res[r] = o
        n2 = 'program on three ranks, ' + nm
        for r in res: ck.obligation('%s: rank %d starts and ends MPI' % (n2, r), None if [t[0] for t in net.trace[r] if t[0] in ('init', 'finalize')] == ['init', 'finalize'] else 'calls %s' % [t[0] for t in net.trace[r]], loc='Source/Exec/QEDCASC.cpp')
        for r in res:
            tr = [t[0] for t in net.trace[r]]
            ck.obligation('%s: rank %d communicates between the two' % (n2, r), None if tr and tr[0] == 'init' and tr[-1] == 'finalize' else 'calls %s' % tr, loc='Source/Exec/QEDCASC.cpp')
        exchange(ck, n2, net, res)
        ck.obligation(n2 + ': rank 0 writes everything', None if any('ParticleSource' in x for x in res[0].f.sets) == any(outs_) and len([x for x in res[0].f.sets if 'BinValues' in x]) == nh else 'datasets %s' % sorted(res[0].f.sets), loc='Source/Exec/QEDCASC.cpp')
