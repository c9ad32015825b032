"""C25: tables are found, loaded, indexed and given back."""
from physics import *
import physics, os, math
PE = 'Source/Physics/Processes/PhotonEmission.cpp'; BW = 'Source/Physics/Processes/NonLinearBreitWheeler.cpp'
KINDS = {'stochastic': PE, 'continuous': PE, 'classical': PE, 'pairs': BW}
H, K, C, T, SP, EP, LC = 'hsokolov.table', 'ksi_sokolov.table', 'chimin.table', 'pairprod.table', 'e_split.table', 'epsilon.table', 'log_chi.table'
USED = {'stochastic': [H, K, C], 'continuous': [H, K, C], 'classical': [H, K, C], 'pairs': [T, SP, EP, LC]}
DIR = '$QED_TABLES_PATH'
# ---- the tables, entry by entry: value(file, index) is the number in the file
def h_axis(v, n): return [v(H, 1 + 2 * i) for i in range(n)]
def h_data(v, n): return [v(H, 2 + 2 * i) for i in range(n)]
def eta_axis(v, n): lo, hi = v(K, 2), v(K, 3); return [Add(lo, Mul(i, Div(Sub(hi, lo), n - 1))) for i in range(n)]
def chi_axis(v, n, m, r): lo = log10(v(C, r)); return [Add(lo, Mul(j, Div(Sub(Sub(eta_axis(v, n)[r], log10(2)), lo), m - 1))) for j in range(m)]
def ksi_row(v, m, r): return [v(K, 4 + m * r + j) for j in range(m)]
def t_axis(v, n): return [v(T, 1 + 2 * i) for i in range(n)]
def t_data(v, n): return [v(T, 2 + 2 * i) for i in range(n)]
def split_row(v, n, r): return [v(SP, 1 + n * r + j) for j in range(n)]
def eps_axis(v, n): return [v(EP, i) for i in range(n)]
def logchi_axis(v, n): return [v(LC, i) for i in range(n)]
def value(f, k): return symbol('%s#%d' % (f, k), 0.01, 0.9) if f == C else symbol('%s#%d' % (f, k))
def world(ck, counts, drivers=('drop',)):
    w = W(ck.prog(drivers=drivers), ck); w.tok = {}; w.look = []; w.row = 1; w.heap = []
    def token(f, k, t):
        d, b = os.path.split(f); w.tok.setdefault(b, {})[k] = t
        if t != 'double': return counts.get((b, k), 3)
        return value(b, k)
    w.token = token
    given = w.alloc
    def alloc(name, kind, size, alloc=None):
        o = given(name, kind, size, alloc)
        if kind == 'heap': w.heap.append(o)
        return o
    w.alloc = alloc
    def whole(m, p, n):
        out = []
        for i in range(n): out.append(m.load(m.padd(p, 8 * i), F64))
        return out
    def interp(m, name, a):
        n = a[2] if type(a[2]) is int else 0
        w.look.append(('interp', n, whole(m, a[0], n), whole(m, a[1], n), a[3], m.where(), m.pc)); return symbol(m.fresh('looked up'), .2, .9)
    def closest(m, name, a):
        n = a[1] if type(a[1]) is int else 0
        w.look.append(('closest', n, whole(m, a[0], n), None, a[2], m.where(), m.pc)); m.store(a[3], ('i', 32), w.row); m.store(a[4], F64, symbol(m.fresh('fraction'), .05, .95))
    w.override(r'Numerics::Interpolate1D\(.*', interp); w.override(r'Numerics::ClosestPoints\(.*', closest)
    return w
def counts(kind, a, b): return {(H, 0): a + 1, (K, 0): a, (K, 1): b, (T, 0): b, (SP, 0): a}
def missing(ck, kind):
    """each file may or may not be there"""
    L = KINDS[kind]; nm = 'tables of the %s process' % kind
    w = world(ck, counts(kind, 3, 4)); w.env = dict(w.env, QED_TABLES_PATH=None); n0 = len(w.events)
    make_process(w, kind)
    ex = [e for e in w.events if e.kind == 'exit']
    ck.obligation(nm + ': without QED_TABLES_PATH the program stops', None if is0(w.pc) and ex else 'it goes on', loc=L)
    ck.obligation(nm + ': without QED_TABLES_PATH there is a message', None if [e for e in w.events if e.kind == 'print'] else 'no message', loc=L)
    ck.obligation(nm + ': without QED_TABLES_PATH nothing is opened', None if not [e for e in w.events if e.kind == 'open'] else 'a file is opened', loc=L)
    ck.obligation(nm + ': without QED_TABLES_PATH: no exception', 'exception' if [e for e in w.events if e.kind == 'throw'] else None, loc=L)
    fault_free(ck, nm, w); ck.absorb(w)
    w = world(ck, counts(kind, 3, 4)); there = {}
    def file_open(s):
        t = s.text() or s.disp() if isinstance(s, Str) else str(s)
        return there.setdefault(t, lt0(Sub(symbol('there:' + t, -1, 1), 0)))
    w.file_open = file_open
    make_process(w, kind)
    opened = [e for e in w.events if e.kind == 'open']; names = [e.data['name'].text() or e.data['name'].disp() for e in opened]
    ck.obligation(nm + ': the files read are those of the process', None if sorted(names) == sorted('%s/%s' % (DIR, f) for f in USED[kind]) else 'are %s' % names, loc=L)
    for e, t in zip(opened, names):
        b = os.path.basename(t); c = there[t]
        ck.obligation('%s: %s is shipped' % (nm, b), None if os.path.isfile(os.path.join(irgen.REPO, 'Tables', b)) else 'not in Tables/', loc=e.loc)
        never(ck, '%s: the program stops without %s' % (nm, b), AND(w.pc, NOT(c)), loc=L, why='it goes on')
    rc = [e for e in w.events if e.kind == 'read-closed' and feasible(e.pc) and witness(e.pc)]
    ck.obligation(nm + ': nothing is read from a file that is not there', None if not rc else 'reads %s' % rc[0].data['name'].disp(), loc=rc[0].loc if rc else L)
    ex = [e for e in w.events if e.kind == 'exit']
    ck.obligation(nm + ': a missing file is an error', None if ex and all(type(e.data['code']) is int and e.data['code'] & 255 for e in ex) else 'exit code %s' % [show(e.data['code']) for e in ex], loc=L)
    for e in ex:
        said = 0
        for p in w.events:
            if p.kind == 'print' and p.seq < e.seq: said = OR(said, p.pc)
        never(ck, '%s: message before the exit' % nm, AND(e.pc, NOT(said)), loc=e.loc, why='no message')
    ck.obligation(nm + ': no exception', 'exception' if [e for e in w.events if e.kind == 'throw'] else None, loc=L)
    fault_free(ck, nm, w); ck.absorb(w)
def drop(w, p):
    f = [n for n in w.prog.sym if n == 'drop_process']
    if not f: raise AnchorMissing('drop_process')
    w.call(f[0], [p])
def lookups(ck, nm, w, kind, a, b, L, proc):
    """every table argument of every lookup, over its whole length"""
    nh, ne, nc, nt, ns = a + 1, a, b, b, a
    rows = range(max(0, (ne if kind != 'pairs' else ns) - 1)); seen = set()
    for r in rows:
        w.row = r; w.look.clear(); l = w.new('ParticleList', w.string('event'), 40)
        p = make_particle(w, 'photon' if kind == 'pairs' else 'electron', name='p%d' % r); w.m(l, 'AddParticle', p, cls='ParticleList')
        w.m(proc, 'Interact', p, l)
        if kind == 'pairs': want = {'rate': ('interp', nt, t_axis(value, nt), t_data(value, nt)), 'axis': ('closest', ns, logchi_axis(value, ns), None),
                                    'row': ('interp', ns, split_row(value, ns, r), eps_axis(value, ns)), 'next row': ('interp', ns, split_row(value, ns, r + 1), eps_axis(value, ns))}
        else: want = {'rate': ('interp', nh, h_axis(value, nh), h_data(value, nh)), 'axis': ('closest', ne, eta_axis(value, ne), None),
                      'row': ('interp', nc, ksi_row(value, nc, r), chi_axis(value, ne, nc, r)), 'next row': ('interp', nc, ksi_row(value, nc, r + 1), chi_axis(value, ne, nc, r + 1))}
        order = [k for k in want if k != 'rate'] if kind == 'classical' else list(want)
        got = [x for x in w.look if not is0(x[6])]
        # the classical limit and the small-argument branch look up the same tables again
        for x in got:
            hit = None
            for k in want:
                q = want[k]
                if x[0] != q[0] or x[1] != q[1]: continue
                if all(matches(g, v) for g, v in zip(x[2], q[2])) and (q[3] is None or all(matches(g, v) for g, v in zip(x[3], q[3]))): hit = k; break
            ck.obligation('%s, row %d: lookup in a table over its own axis, complete' % (nm, r), None if hit else '%s over %d points: %s -> %s' % (x[0], x[1], [show(g)[:30] for g in x[2]][:6], [show(g)[:30] for g in x[3] or []][:6]), loc=x[5])
            if hit: seen.add(hit)
        lack = [k for k in order if k not in seen]
        ck.obligation('%s, row %d: rate, axis and both rows are looked up' % (nm, r), None if not lack else 'no lookup of the %s' % ', '.join(lack), loc=L); seen.clear()
def load(ck, kind, a, b):
    L = KINDS[kind]; nm = '%s, %d and %d points' % (kind, a, b)
    w = world(ck, counts(kind, a, b)); n0 = len(w.heap); p = make_process(w, kind); mine = w.heap[n0:]
    mine = [o for o in mine if o.loc]
    ck.obligation(nm + ': loads', None if is1(w.pc) else 'stops', loc=L)
    want = {'pairs': {T: 1 + 2 * b, SP: 1 + a * a, EP: a, LC: a}}.get(kind, {H: 1 + 2 * (a + 1), K: 4 + a * b, C: a})
    for f, n in want.items():
        got = w.tok.get(f, {})
        ck.obligation('%s: %s is read to its end, nothing twice' % (nm, f), None if sorted(got) == list(range(n)) else 'reads %d entries (last %s) of %d' % (len(got), max(got) if got else None, n), loc=L)
    fault_free(ck, nm + ': loading', w)
    if is0(w.pc): ck.absorb(w); return
    lookups(ck, nm, w, kind, a, b, L, p); fault_free(ck, nm + ': lookups', w)
    # a second process of the kind lives on when the first goes
    q = make_process(w, kind); drop(w, p)
    left = [o for o in mine if is0(o.freed)]
    ck.obligation(nm + ': every table is given back', None if not left else 'never freed: %s' % ', '.join(sorted({'%s:%s' % (os.path.basename(o.loc[0]), o.loc[1]) for o in left})), loc=left[0].loc if left else L)
    fault_free(ck, nm + ': destruction', w); n1 = len(w.events)
    lookups(ck, nm + ', after another one is destroyed', w, kind, a, b, L, q); fault_free(ck, nm + ': two processes', w)
    drop(w, q); fault_free(ck, nm + ': destruction of both', w); ck.absorb(w)
def shipped(ck):
    """the files in Tables/, read here with the index functions the loads were compared with"""
    D = {}
    for f in sorted({x for v in USED.values() for x in v}):
        p = os.path.join(irgen.REPO, 'Tables', f)
        if not os.path.isfile(p): ck.obligation('%s is shipped' % f, 'is missing', loc='Tables/' + f); continue
        ts = open(p).read().split(); xs = []
        for t in ts:
            try: xs.append(float(t))
            except ValueError: xs.append(float('nan'))
        bad = [t for t, x in zip(ts, xs) if not math.isfinite(x)]
        ck.obligation('%s: every entry is a finite number' % f, None if not bad else bad[0], loc='Tables/' + f); D[f] = xs
    if len(D) < 7: return
    v = lambda f, k: D[f][k]
    n = {k: D[f][i] for k, f, i in (('h', H, 0), ('eta', K, 0), ('chi', K, 1), ('t', T, 0), ('split', SP, 0))}
    for k, x in n.items(): ck.obligation('number of points of %s is a number of at least 2' % k, None if x == int(x) and x >= 2 else repr(x), loc='Tables')
    n = {k: int(x) for k, x in n.items()}
    for f, c in ((H, 1 + 2 * n['h']), (K, 4 + n['eta'] * n['chi']), (C, n['eta']), (T, 1 + 2 * n['t']), (SP, 1 + n['split'] ** 2), (EP, n['split']), (LC, n['split'])):
        ck.obligation('%s: has as many entries as are read' % f, None if len(D[f]) == c else '%d instead of %d' % (len(D[f]), c), loc='Tables/' + f)
        if len(D[f]) < c: return
    def up(nm, xs, strict=True):
        bad = [i for i in range(len(xs) - 1) if not (xs[i] < xs[i + 1] if strict else xs[i] <= xs[i + 1])]
        ck.obligation(nm, None if not bad else 'entry %d is %g, entry %d is %g' % (bad[0], xs[bad[0]], bad[0] + 1, xs[bad[0] + 1]), loc='Tables')
    up('axis of the emission rate increases', [v(H, 1 + 2 * i) for i in range(n['h'])]); up('axis of the pair rate increases', [v(T, 1 + 2 * i) for i in range(n['t'])])
    up('chi axis of the energy split increases', D[LC]); up('fraction axis of the energy split increases', D[EP])
    e0, e1 = v(K, 2), v(K, 3); up('eta axis increases', [e0 + i * (e1 - e0) / (n['eta'] - 1) for i in range(n['eta'])])
    for i in range(n['eta']):
        eta = e0 + i * (e1 - e0) / (n['eta'] - 1); c = v(C, i)
        ck.obligation('chi axis %d increases' % i, None if c > 0 and math.log10(c) < eta - math.log10(2) else 'from %g to %g' % (c, 10 ** eta / 2), loc='Tables/' + C)
        up('energy spectrum %d is cumulative' % i, [v(K, 4 + n['chi'] * i + j) for j in range(n['chi'])], False)
    for i in range(n['split']): up('energy split %d is cumulative' % i, [v(SP, 1 + n['split'] * i + j) for j in range(n['split'])], False)
    for f, lo, k, c in ((K, 4, n['chi'], n['eta']), (SP, 1, n['split'], n['split'])):
        xs = D[f][lo:]; ck.obligation('%s: entries are between 0 and 1' % f, None if all(0 <= x <= 1 + 1e-9 for x in xs) else 'from %g to %g' % (min(xs), max(xs)), loc='Tables/' + f)
    ck.obligation('%s: fractions are between 0 and 1' % EP, None if all(0 <= x <= 1 + 1e-9 for x in D[EP]) else 'from %g to %g' % (min(D[EP]), max(D[EP])), loc='Tables/' + EP)
def C25(ck):
    for k in KINDS: missing(ck, k)
    for k in KINDS:
        for a, b in ((3, 5), (4, 2), (2, 3)) if not ck.thorough else [(a, b) for a in range(2, 7) for b in range(2, 7)]: load(ck, k, a, b)
    shipped(ck)
