"""Objects, observation and comparison used by the property drivers."""
import json, os, re, sys, time, traceback
from vals import *
import vals
from machine import *
import machine, stdmodel, irgen
from llir import F64, PTR

REPO = irgen.REPO
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Check:
    def __init__(self, pid, tier, seed):
        self.pid = pid; self.tier = tier; self.seed = seed
        self.ok = 0; self.viol = []; self.undecided = []; self.samples = []; self.names = []
        self.fns = {}; self.instrs = 0; self.machines = 0; self.files = set(); self.notes = []
        self.progs = {}; self.known = []; self.generic = False; self.nongeneric = 0
    @property
    def thorough(self): return self.tier == 'thorough'
    def prog(self, cfg='std', drivers=()):
        p = self.progs.get(cfg)
        if p is None:
            d, files = irgen.build(cfg, drivers=drivers)
            p = self.progs[cfg] = Program(d, cfg); self.files |= set(files)
        return p
    def obligation(self, name, bad, detail='', loc=None, key=None):
        """bad: falsy = discharged, else violation text"""
        self.names.append(name)
        if not bad:
            self.ok += 1
            return True
        self.viol.append((name, '%s%s' % (bad if isinstance(bad, str) else '', (' ' + detail) if detail else ''), fmtloc(loc) if isinstance(loc, tuple) else (loc or ''), key or name))
        return False
    last = None
    def crashed(self, e):
        """the analysis could not go on: because of a memory fault that every witness of its condition reaches, or else undecided"""
        w = self.last
        fs = [x for x in w.events if x.kind in FAULTS and possible(x.pc)] if w is not None else []
        if fs: self.obligation('memory', '%s %s' % (fs[0].kind, fs[0].data), loc=fs[0].loc)
        else: self.undec('analysis', '%s: %s' % (type(e).__name__, e))
    def undec(self, name, why): self.undecided.append((name, str(why)[:300])); self.names.append(name)
    def absorb(self, m):
        self.machines += 1; self.instrs += m.instrs
        for (mod, n), c in m.fn_seen.items():
            d = m.prog.dem.get(n, n)
            mm = m.prog.mods[mod]
            F = mm._pf.get(n)
            if F and F.scope is not None:
                l = mm.loc(F.scope)
                if l and l[0].startswith(irgen.REPO): self.fns[d] = self.fns.get(d, 0) + c
        for c in m.cuts[:3]: self.undec('loop at %s' % c[0], 'not closed after %d undecided iterations' % m.max_undecided)

    def parallel(self, jobs, width=6):
        """independent parts of a check, each in a process of its own; results in the order of the jobs"""
        import os, pickle, tempfile, traceback
        with tempfile.TemporaryDirectory(prefix='vchk') as d:
            run = {}; left = list(enumerate(jobs)); bad = {}
            def reap():
                pid, st = os.wait()
                if pid in run: bad[run.pop(pid)] = st
            while left:
                while len(run) >= width: reap()
                i, j = left.pop(0); pid = os.fork()
                if pid == 0:
                    c = Check(self.pid, self.tier, self.seed); c.progs = self.progs; c.generic = self.generic
                    try:
                        try: j(c)
                        except Exception as e: traceback.print_exc(limit=-3); c.crashed(e)
                        c.last = None; c.progs = {}
                        with open(os.path.join(d, str(i)), 'wb') as f: pickle.dump({k: v for k, v in c.__dict__.items()}, f)
                        sys.stdout.flush(); os._exit(0)
                    finally: os._exit(1)
                run[pid] = i
            while run: reap()
            for i in range(len(jobs)):
                p = os.path.join(d, str(i))
                if bad.get(i) or not os.path.exists(p): self.undec('analysis', 'part %d ended without a result' % i); continue
                r = pickle.load(open(p, 'rb'))
                self.ok += r['ok']; self.instrs += r['instrs']; self.machines += r['machines']; self.nongeneric += r['nongeneric']; self.files |= r['files']
                for k in ('viol', 'undecided', 'samples', 'names', 'notes', 'known'): getattr(self, k).extend(r[k])
                for k, v in r['fns'].items(): self.fns[k] = self.fns.get(k, 0) + v

# ---------------------------------------------------------------- comparison
def num_close(a, b):
    if a is b: return True
    for x, y in zip(a.v, b.v):
        if abs(x - y) > D('1e-9') * max(abs(x), abs(y)) : return False
    return True
def diff(got, want, under=1, tol=1e-6):
    """None if got == want wherever `under` holds; else (text, kind) with kind 'violation' or 'undecided'"""
    if isinstance(got, (list, tuple)):
        und = None
        for i, (g, w) in enumerate(zip(got, want)):
            d = diff(g, w, under, tol)
            if d and d[1] == 'violation': return ('[%d] %s' % (i, d[0]), d[1])
            if d and (und is None or 'no witness' in und[0]): und = ('[%d] %s' % (i, d[0]), d[1])
        if len(got) != len(want): return ('%d elements instead of %d' % (len(got), len(want)), 'violation')
        return und
    class Cand:
        __slots__ = ('a', 'b')
    def f(a, b):
        if a is b: return 0
        if type(a) is Num and type(b) is Num:
            if num_close(a, b): return 0
        elif type(a) is Num or type(b) is Num:
            x, y = (a, b) if type(a) is Num else (b, a)
            if type(y) is int and is_const(x) and x.v[0] == y: return 0
        elif type(a) is type(b) and a == b: return 0
        c = Tup((a, b)); return c
    t = amap(f, got, want)
    und = None
    for c, x in leaves(t, under):
        if type(x) is int: continue
        a, b = x.x
        m = mask(c)
        n = int(m.sum())
        if type(a) is Num or type(b) is Num:
            if n == 0 and refuted(c): continue
            if n == 0:
                env = seek(c); ex = None
                if env is not None and type(a) in (Num, int) and type(b) in (Num, int):
                    ex = differs_at(a, b, env, tol)
                    if ex: return ('is %s instead of %s when %s (e.g. %.6g instead of %.6g)' % (show(a), show(b), cond_text(c), ex[0], ex[1]), 'violation')
                elif env is not None: return ('is %s instead of %s when %s' % (show(a), show(b), cond_text(c)), 'violation')
                und = und or ('differs under a condition no witness satisfies: %s' % cond_text(c), 'undecided'); continue
            A = fval(a)[m]; B = fval(b)[m]
            if type(a) not in (Num, int) or type(b) not in (Num, int):
                if not witness(c): und = und or ('no witness confirmed', 'undecided'); continue
                return ('is %s instead of %s when %s' % (show(a), show(b), cond_text(c)), 'violation')
            fin = np.isfinite(A) & np.isfinite(B)
            if not fin.any():
                if (np.isfinite(A) != np.isfinite(B)).any() and witness(c):
                    return ('is %s instead of %s when %s' % (show(a), show(b), cond_text(c)), 'violation')
                und = ('not finite', 'undecided'); continue
            sc = np.maximum(np.abs(A), np.abs(B))
            bad = fin & (np.abs(A - B) > tol * sc)
            if bad.any():
                idx = np.flatnonzero(m); ok_ = [int(i) for i in idx[bad][:6]] + [int(i) for i in idx[fin & ~bad][:2]]
                k, nb, ex = confirm(c, a, b, tol, ok_)
                if nb and nb * 2 >= k:
                    return ('is %s instead of %s when %s (e.g. %.6g instead of %.6g)' % (show(a), show(b), cond_text(c), ex[1], ex[2]), 'violation')
            und = ('terms not proved equal', 'undecided')
        else:
            if n == 0 and refuted(c): continue
            if (n == 0 or not witness(c)) and seek(c) is None: und = und or ('differs under a condition no witness satisfies: %s' % cond_text(c), 'undecided'); continue
            return ('is %s instead of %s when %s' % (show(a), show(b), cond_text(c)), 'violation')
    return und
def same(ck, name, got, want, under=1, loc=None, key=None, tol=1e-6):
    d = diff(got, want, under, tol)
    if d is None: return ck.obligation(name, None)
    if d[1] == 'undecided':
        if ck.generic and 'no witness' in d[0]: ck.nongeneric += 1; return ck.obligation(name, None)
        ck.undec(name, d[0]); return True
    return ck.obligation(name, d[0], loc=loc, key=key)
def matches(got, want, under=1):
    d = diff(got, want, under)
    return d is None or d[1] == 'undecided'
def never(ck, name, cond, loc=None, why='reachable', key=None, under=1):
    c = AND(cond, under)
    if is0(c): return ck.obligation(name, None)
    ok = possible(c)
    if not ok and refuted(c): return ck.obligation(name, None)
    if not ok and ck.generic: ck.nongeneric += 1; return ck.obligation(name, None)
    if not ok: ck.undec(name, 'condition without witness: ' + cond_text(c)); return True
    return ck.obligation(name, '%s when %s' % (why, cond_text(c)), loc=loc, key=key)

# ---------------------------------------------------------------- vector spec helpers
def S(x): return x if isinstance(x, (Num, Ite)) else const(x)
def fa(op):
    return lambda a, b: fbin(op, S(a), S(b))
Add, Sub, Mul, Div = fa('fadd'), fa('fsub'), fa('fmul'), fa('fdiv')
def Fn1(name, *a): return amap(lambda *x: fn(name, *x), *[S(x) for x in a])
def Pow(a, b): return amap(power, S(a), S(b))
def Sum(*xs):
    r = S(xs[0])
    for x in xs[1:]: r = Add(r, x)
    return r
def Prod(*xs):
    r = S(xs[0])
    for x in xs[1:]: r = Mul(r, x)
    return r
def vadd(*vs): return [Sum(*c) for c in zip(*vs)]
def vsub(a, b): return [Sub(x, y) for x, y in zip(a, b)]
def vmul(s, a): return [Mul(s, x) for x in a]
def dot(a, b): return Sum(*[Mul(x, y) for x, y in zip(a, b)])
def cross(a, b):
    return [Sub(Mul(a[1], b[2]), Mul(a[2], b[1])), Sub(Mul(a[2], b[0]), Mul(a[0], b[2])), Sub(Mul(a[0], b[1]), Mul(a[1], b[0]))]
def Sqrt(x): return Fn1('sqrt', x)
def mag(a): return Sqrt(dot(a, a))
def unit(a): return [Div(x, mag(a)) for x in a]
def vsym(name, lo=-2.9, hi=2.9, wide=False): return [symbol(name + c, lo, hi, wide) for c in 'xyz']
def dsym(name):
    """a direction in general position: not close to antiparallel to z (where rotation onto z is defined only at the exact opposite)"""
    return [symbol(name + 'x', -1.9, 1.9), symbol(name + 'y', -1.9, 1.9), symbol(name + 'z', .4, 1.9)]
ALPHA = '0.0072973525693'

class W(Machine):
    """machine with helpers to build and observe the repository's objects"""
    def __init__(self, prog, ck=None, overrides=()):
        Machine.__init__(self, prog)
        self.ck = ck
        if ck is not None: ck.last = self
        self.override(r'\$field\d*', field_model)
        self.field_calls = []
        for p, h in overrides: self.override(p, h)
        self.init_globals()
    def init_globals(self):
        """static initialisers of the repository's translation units"""
        for m in self.prog.mods.values():
            for c in m.ctors:
                if c in m.funcs: self.call(c, [], mod=m)
        self.events.clear(); self.instrs = 0; self.fn_seen = {}
    def vec(self, xyz, name='vec'):
        o = self.alloc(name, 'stack', 24)
        for i, v in enumerate(xyz): o.cells[8 * i] = (8, S(v))
        return Ptr(o)
    def getvec(self, p): return [self.load(self.padd(p, 8 * i), F64) for i in range(3)]
    def string(self, s):
        o = self.alloc('str', 'stack', 32); o.cells[0] = (32, s if isinstance(s, Str) else Str(s)); return Ptr(o)
    def getstring(self, p): return stdmodel.getstr(self, p)
    def size_of(self, cls, ctor):
        m, nn = self.prog.resolve(ctor, None)
        r = re.search(r'dereferenceable\((\d+)\) %this', m.funcs[nn][2])
        n = int(r.group(1)) if r else None
        return (n + 7) // 8 * 8 if n else None
    def new(self, cls, *args, sig=None, kind='heap', nargs=None):
        c = self.prog.ctor(cls, nargs if nargs is not None else len(args), sig)
        o = self.alloc(cls, kind, self.size_of(cls, c), 'new' if kind == 'heap' else None)
        self.call(c, [Ptr(o)] + list(args))
        return Ptr(o)
    def is_sret(self, n):
        m, nn = self.prog.resolve(n, None)
        return m is not None and ' sret(' in m.funcs[nn][2]
    def sret_size(self, n):
        m, nn = self.prog.resolve(n, None)
        t = re.search(r'sret\(([^()]*)\)', m.funcs[nn][2]).group(1)
        return m.size(m.ptype(toks(t), 0)[0])
    def static(self, dem, *args, sig=None):
        """call a function by demangled name"""
        ns = [n for n in self.prog.bydem_base(dem) if (sig is None or sig in self.prog.dem[n])]
        if not ns: raise AnchorMissing('function ' + dem)
        ns2 = [n for n in ns if len(self.prog.resolve(n, None)[0].func(self.prog.resolve(n, None)[1]).params) == len(args) + (1 if self.is_sret(n) else 0)]
        if not ns2: raise AnchorMissing('function %s with %d arguments' % (dem, len(args)))
        return self.fcall(ns2[0], args)
    def fcall(self, n, args):
        if self.is_sret(n):
            o = self.alloc('result', 'stack', self.sret_size(n))
            self.call(n, [Ptr(o)] + list(args)); return Ptr(o)
        return self.call(n, list(args))
    def classes(self, p):
        """dynamic class of an object from its vtable, with bases guessed from the symbol table"""
        v = self.rd(p, 8, PTR)
        if type(v) is Ptr and v.obj.name.startswith('vtable for '): return v.obj.name[11:]
        return None
    def vslot(self, p, meth):
        v = self.rd(p, 8, PTR)
        v = restrict(v, self.pc)
        if type(v) is not Ptr: return None
        for off in sorted(o for o in v.obj.cells if type(o) is int and o >= 16):
            f = v.obj.cells[off][1]
            if type(f) is Fn:
                d = basename(self.prog.dem.get(f.name, ''))
                if d.split('::')[-1].split('[')[0] == meth: return f.name
        return None
    BASES = {'Lepton': ['Particle'], 'Photon': ['Particle']}
    def m(self, p, meth, *args, cls=None):
        """call a method, virtual dispatch first"""
        n = None if cls else self.vslot(p, meth)
        if n is None:
            c = cls or self.classes(p)
            for k in [c] + self.BASES.get(c, []):
                ns = [x for x in self.prog.bydem_base('%s::%s' % (k, meth))]
                ns = [x for x in ns if len(self.func(x).params) == len(args) + 1 + (1 if self.is_sret(x) else 0)]
                if ns: n = ns[0]; break
        if n is None: raise AnchorMissing('method %s of %s' % (meth, cls or self.classes(p)))
        if self.is_sret(n):
            o = self.alloc('result', 'stack', self.sret_size(n))
            self.call(n, [Ptr(o), p] + list(args)); return Ptr(o)
        return self.call(n, [p] + list(args))
    def func(self, n):
        m, nn = self.prog.resolve(n, None)
        return m.func(nn)
    def vm(self, p, meth, *args): return self.getvec(self.m(p, meth, *args))
    def field(self):
        """an object whose GetField is an uninterpreted function of time and position"""
        vt = Obj('vtable for $field', 'global', 800)
        vt.fills.append((0, 800, lambda o, off, sz, ty: Fn('$field%d' % off)))
        o = Obj('$field', 'heap', 8); o.cells[0] = (8, Ptr(vt, 16)); o.alloc = 'new'
        return Ptr(o)
    def lepton(self, charge=-1, pos=None, mom=None, weight=None, time=None, track=0, name='p', mass=None):
        pos = pos or vsym(name + '.x', -2.9, 2.9, wide=True); mom = mom or vsym(name + '.p', -2.9, 2.9, wide=True)
        return self.new('Lepton', S(mass if mass is not None else 1), S(charge), self.vec(pos), self.vec(mom), S(weight or symbol(name + '.w', wide=True)),
                        S(time or symbol(name + '.t', wide=True)), track, sig='(double, double, ThreeVector const&, ThreeVector const&')
    def photon(self, pos=None, mom=None, weight=None, time=None, track=0, name='g'):
        pos = pos or vsym(name + '.x', -2.9, 2.9, wide=True); mom = mom or vsym(name + '.p', -2.9, 2.9, wide=True)
        return self.new('Photon', self.vec(pos), self.vec(mom), S(weight or symbol(name + '.w', wide=True)), S(time or symbol(name + '.t', wide=True)), track,
                        sig='(ThreeVector const&, ThreeVector const&')
    def vsize(self, p, elt):
        """size of a std::vector object"""
        b = self.load(p, PTR); e = self.load(self.padd(p, 8), PTR)
        return amap(lambda x: x // elt if type(x) is int else x, self.ibin('sub', ('i', 64), e, b))
    def vdata(self, p): return self.load(p, PTR)
    def snap(self, p, hist=True):
        """every observable of a particle"""
        d = {}
        for k, g in (('position', 'GetPosition'), ('momentum', 'GetMomentum')): d[k] = self.vm(p, g)
        for k, g in (('time', 'GetTime'), ('weight', 'GetWeight'), ('optical depth', 'GetOpticalDepth'), ('mass', 'GetMass'),
                     ('charge', 'GetCharge'), ('alive', 'IsAlive'), ('tracking', 'GetTracking')): d[k] = self.m(p, g)
        for k, g in (('name', 'GetName'), ('type', 'GetType')): d[k] = self.getstring(self.m(p, g))
        if hist:
            for k, g, e in (('position history', 'GetPosHist', 24), ('momentum history', 'GetMomHist', 24), ('time history', 'GetTimeHist', 8), ('gamma history', 'GetGammaHist', 8)):
                v = self.m(p, g)
                n = self.vsize(v, e)
                items = []
                mx = max([x for _, x in leaves(n, self.pc) if type(x) is int] or [0])
                b = self.vdata(v) if mx else None
                for i in range(mx):
                    save = self.pc
                    self.pc = AND(save, NOT(self.icmp('ule', ('i', 64), n, i)))
                    bb = restrict(b, self.pc)
                    items.append([self.load(self.padd(bb, i * e + 8 * j), F64) for j in range(e // 8)])
                    self.pc = save
                d[k] = (n, items)
        return d
    def faults(self, kinds=('out-of-bounds', 'use-after-free', 'double-free', 'null-deref', 'bad-deref', 'uninit-read', 'bad-free', 'mismatched-free', 'uninit-branch')):
        return [e for e in self.events if e.kind in kinds and possible(e.pc)]

def field_model(m, name, args):
    """GetField(this, time, position, E&, B&): uninterpreted"""
    t = args[1]; pos = m.getvec(args[2])
    m.field_calls.append((m.pc, t, pos))
    m.event('field', time=t, pos=pos)
    for k, p in (('E', args[3]), ('B', args[4])):
        for i, c in enumerate('xyz'):
            v = amap(lambda *a: opaque(k + c, *a, lo=-1.9, hi=2.1), t, *pos)
            m.store(m.padd(p, 8 * i), F64, v)
def field_spec(t, pos):
    return [[amap(lambda *a: opaque(k + c, *a, lo=-1.9, hi=2.1), t, *pos) for c in 'xyz'] for k in 'EB']

def _bydem_base(self, base):
    ix = self.__dict__.get('_bb')
    if ix is None:
        ix = self._bb = {}
        for n, d in self.dem.items():
            b = basename(d).replace('[abi:cxx11]', '')
            if self.resolve(n, None)[0] is not None:
                ix.setdefault(b, []).append(n)
                if ' ' in b and not b.startswith('operator'): ix.setdefault(b.split(' ')[-1], []).append(n)
    r = sorted(set(ix.get(base, [])), key=lambda n: ('C1' in n, n))
    return r
Program.bydem_base = _bydem_base

# ---------------------------------------------------------------- tables as uninterpreted functions
def table_id(m, p, n=2):
    out = []
    for i in range(n):
        v = m.load(m.padd(p, 8 * i), F64)
        out.append(v)
    return out
def interp_model(m, name, args):
    x, y, n, q = args[:4]
    ids = table_id(m, x) + table_id(m, y)
    m.event('interp', x=x, y=y, n=n, q=q, ids=ids)
    return amap(lambda *a: opaque('interp', *a, lo=0.2, hi=0.9), *(ids + [q]))
def closest_model(m, name, args):
    ax, n, q, lo, fr = args[:5]
    ids = table_id(m, ax)
    m.event('closest', x=ax, n=n, q=q, ids=ids)
    m.store(lo, ('i', 32), 1)
    m.store(fr, F64, amap(lambda *a: opaque('frac', *a, lo=0.05, hi=0.95), *(ids + [q])))
TABLES = [(r'Numerics::Interpolate1D', interp_model), (r'Numerics::ClosestPoints', closest_model)]
COUNTS = {('hsokolov.table', 0): 3, ('pairprod.table', 0): 4, ('ksi_sokolov.table', 0): 3, ('ksi_sokolov.table', 1): 5, ('e_split.table', 0): 3}
def small_tables(m):
    def tok(f, k, t):
        b = f.split('/')[-1]
        if t != 'double': return COUNTS.get((b, k), 3)
        m.tokmax = getattr(m, 'tokmax', {}); m.tokmax[b] = max(m.tokmax.get(b, 0), k)
        return symbol('%s#%d' % (b, k))
    m.token = tok

# ---------------------------------------------------------------- counters that cannot reach their bound
def narrow(ck, *files, cfg='std'):
    """no loop counter of fewer bits than the bound it is compared with: it would wrap around and never get there"""
    P = ck.progs.get(cfg) or ck.prog(cfg, drivers=('units',)); n = 0; m_done = 0
    for name, mod in sorted(P.sym.items()):
        if name not in mod.funcs: continue
        s = re.search(r'!dbg !(\d+)', mod.funcs[name][2])
        f = mod.loc(int(s.group(1)))[0] if s else ''
        if not any(f.endswith(x) for x in files): continue
        F = mod.func(name); m_done += 1
        ins = [i for b in F.order for i in F.blocks[b]]; d = {i[1]: i for i in ins if i[1] is not None}
        small = {('r', i[1]): i[3][1] for i in ins if i[0] == 'alloca' and i[3][0] == 'i' and i[3][1] in (8, 16)}
        def src(v):
            """the local a value was read from, through widening and narrowing"""
            while v[0] == 'r' and v[1] in d:
                i = d[v[1]]
                if i[0] == 'cast' and i[3] in ('zext', 'sext', 'trunc'): v = i[5]
                elif i[0] == 'load': return i[4]
                else: return v
            return v
        steps = {i[5] for i in ins if i[0] == 'store' and i[5] in small and (lambda v: v[0] == 'r' and v[1] in d and d[v[1]][0] in ('add', 'sub') and i[5] in (src(d[v[1]][4]), src(d[v[1]][5])))((lambda v: d[v[1]][5] if v[0] == 'r' and v[1] in d and d[v[1]][0] == 'cast' else v)(i[4]))}
        for i in ins:
            if i[0] != 'icmp': continue
            for a, b in ((i[5], i[6]), (i[6], i[5])):
                v = src(a)
                if v not in steps or i[4][0] != 'i' or i[4][1] <= small[v] or b[0] == 'k': continue
                if src(b) in small or (b[0] == 'r' and b[1] in d and d[b[1]][0] == 'cast' and d[b[1]][3] in ('zext', 'sext') and d[b[1]][4][1] <= small[v]): continue
                ck.obligation('%s: counters reach their bounds' % basename(P.dem[name]), 'counter %s has %d bits, its bound %d' % (v[1].split('.')[0], small[v], i[4][1]), loc=mod.loc(i[2])); n += 1
    ck.obligation('counters of the loops in %s reach their bounds (%d functions)' % (', '.join(f.split('/')[-1] for f in files), m_done), None if m_done else 'no function found')
