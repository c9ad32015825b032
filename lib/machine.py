"""Abstract interpreter over LLVM IR with gated values.

One abstract state per program point: every block is executed once per loop
unrolling under its path condition (a gate); stores are gated with it, so a
control flow join needs no path enumeration.  invoke follows the normal edge."""
import os, re, sys
from vals import *
import vals
from llir import *
sys.setrecursionlimit(200000)

class Unsupported(Exception): pass
class Faulted(Exception): pass
FAULTS = ('out-of-bounds', 'use-after-free', 'double-free', 'null-deref', 'bad-deref', 'uninit-read', 'bad-free', 'mismatched-free', 'uninit-branch', 'endless-loop')

class Obj:
    __slots__ = ('name', 'kind', 'size', 'cells', 'fills', 'birth', 'freed', 'loc', 'alloc', 'bytes', 'tid', 'model', 'seq', 'ro')
    cnt = 0
    def __init__(s, name, kind, size, birth=1, loc=None, alloc=None):
        s.name = name; s.kind = kind; s.size = size; s.cells = {}; s.fills = []; s.birth = birth
        s.freed = 0; s.loc = loc; s.alloc = alloc; s.bytes = None; s.tid = None; s.model = None; s.ro = False
        Obj.cnt += 1; s.seq = Obj.cnt
    def __repr__(s): return '<%s>' % s.name

class Agg:
    __slots__ = ('f',)
    def __init__(s, f): s.f = list(f)

class Event:
    __slots__ = ('kind', 'pc', 'loc', 'data', 'stack', 'tid', 'locks', 'seq')
    def __repr__(s): return '%s@%s %r' % (s.kind, fmtloc(s.loc), s.data)

def fmtloc(l):
    return '%s:%d' % (os.path.relpath(l[0], '/repo') if l[0].startswith('/repo') else os.path.basename(l[0]), l[1]) if l else '?'

class Program:
    def __init__(self, lldir, name=''):
        self.name = name
        self.mods = {}
        self.sym = {}      # function -> module
        self.gsym = {}
        for f in sorted(os.listdir(lldir)):
            if f.endswith('.ll'):
                m = Module(os.path.join(lldir, f), f[:-3]); self.mods[m.name] = m
        for m in self.mods.values():
            for g, (_, _, head) in m.funcs.items():
                if 'define internal' in head or 'define private' in head: continue
                self.sym.setdefault(g, m)
            for g, d in m.globals.items():
                if d.startswith(('private', 'internal')): continue
                if ' external ' in ' ' + d.split('=')[0] + ' ' and not re.search(r'\b(constant|global)\b.*\{', d) and d.startswith('external'): continue
                self.gsym.setdefault(g, m)
        names = set(self.sym)
        for m in self.mods.values(): names |= set(m.funcs) | m.decls | set(m.aliases)
        self.dem = demangle(sorted(names))
        self.bydem = {}
        for n, d in self.dem.items(): self.bydem.setdefault(d, []).append(n)
        self._noop = {}
    def resolve(self, name, mod):
        """module that defines the function, and its final name"""
        for _ in range(4):
            if mod and name in mod.funcs: return mod, name
            if name in self.sym: return self.sym[name], name
            a = None
            if mod and name in mod.aliases: a = mod.aliases[name]
            else:
                for m in self.mods.values():
                    if name in m.aliases: a = m.aliases[name]; mod = m; break
            if a is None:
                ms = [m for m in self.mods.values() if name in m.funcs] if not mod else []
                return (ms[0], name) if len(ms) == 1 else (None, name)
            name = a
        return None, name
    def find(self, pat, defined=True):
        """mangled names of functions whose demangled name matches (fullmatch on the part before the argument list, or whole)"""
        r = re.compile(pat)
        out = []
        for n, d in self.dem.items():
            if r.fullmatch(d) or r.fullmatch(d.split('(')[0]):
                if not defined or self.resolve(n, None)[0]: out.append(n)
        return sorted(out)
    def ctor(self, cls, nargs=None, sig=None):
        for n, d in sorted(self.dem.items()):
            if d.startswith(cls + '::' + cls.split('::')[-1] + '(') and 'C2' in n or d.startswith(cls + '::' + cls.split('::')[-1] + '(') and 'C1' in n:
                mod, nn = self.resolve(n, None)
                if mod is None: continue
                if sig and sig not in d: continue
                F = mod.func(nn)
                if nargs is not None and len(F.params) != nargs + 1: continue
                if nargs == 1 and re.search(r'\((%s const&|%s&&)\)' % (cls, cls), d): continue
                return n
        raise AnchorMissing('constructor %s/%s' % (cls, nargs))
    def noop(self, name, mod, depth=0):
        """function with no effect at all (empty destructors and the like)"""
        m, n = self.resolve(name, mod)
        if m is None: return False
        k = (m.name, n)
        r = self._noop.get(k)
        if r is None:
            self._noop[k] = False
            F = m.func(n)
            r = len(F.blocks) == 1 and depth < 30
            if r:
                al = set()
                for x in F.blocks[F.entry]:
                    if x[0] == 'alloca': al.add(x[1])
                    elif x[0] == 'store':
                        if not (x[5][0] == 'r' and x[5][1] in al): r = False; break
                    elif x[0] in ('load', 'nop', 'cast'): pass
                    elif x[0] == 'ret': r = r and x[4] is None
                    elif x[0] == 'call':
                        if x[4][0] != 'g' or not self.noop(x[4][1], m, depth + 1): r = False; break
                    else: r = False; break
            self._noop[k] = r
        return r

class AnchorMissing(Exception): pass

def sx(v, n): return v - (1 << n) if v >> (n - 1) & 1 else v

class Machine:
    def __init__(self, prog, overrides=()):
        self.prog = prog
        self.pc = 1
        self.events = []
        self.globs = {}
        self.stack = []
        self.overrides = []      # (regex, handler)
        self._disp = {}
        self.tid = 0; self.nthreads = 1; self.locks = ()
        self.rec = None           # access recorder
        self.int_range = None
        self.max_undecided = 24
        self.loop_bound = 30000
        self.cuts = []
        self.seq = 0
        self.counter = 0
        self.loc = None
        self.fn_seen = {}
        self.instrs = 0
        self.files = {}
        self.allocs = []
        self.parallel = 0
        self.interleave = None
        import stdmodel
        stdmodel.install(self)
        for p, h in overrides: self.override(p, h)
    # ---- overrides
    def override(self, pat, handler):
        self.overrides.insert(0, (re.compile(pat), handler)); self._disp.clear()
    def event(self, kind, pc=None, **data):
        e = Event(); e.kind = kind; e.pc = self.pc if pc is None else pc
        e.loc = self.where(); e.data = data; e.stack = [f[0] for f in self.stack]; e.tid = self.tid; e.locks = self.locks
        self.seq += 1; e.seq = self.seq
        self.events.append(e)
        if self.stop_on_fault and kind in FAULTS and is1(e.pc): raise Faulted(kind)
        return e
    stop_on_fault = False
    watching = False; mut = 0               # once a loop is long: counts everything that may change the state
    def where(self):
        """innermost location inside the repository"""
        for name, F, get in reversed(self.stack):
            n = get[0]
            if n is None: n = F.scope
            l = F.mod.loc(n)
            if l and '/usr/' not in l[0]: return l
        return None
    def fresh(self, name): 
        self.counter += 1
        return '%s#%d' % (name, self.counter)
    # ---- memory
    def alloc(self, name, kind, size, alloc=None):
        o = Obj(name, kind, size, self.pc, self.where(), alloc); o.tid = self.tid
        if kind == 'heap': self.allocs.append(o)
        return o
    chars = setchar = None      # the characters of a std::string: set by stdmodel
    def access(self, p, sz, rw):
        """checks common to all accesses through a pointer leaf; returns False if it must be dropped"""
        if type(p) is not Ptr:
            self.event('null-deref' if p == 0 and type(p) is int else 'bad-deref', ptr=p)
            return False
        o = p.obj
        if o.freed != 0 or type(o.freed) is not int:
            c = AND(self.pc, o.freed)
            if not is0(c): self.event('use-after-free', pc=c, obj=o)
        if type(p.off) is int and type(o.size) is int and o.kind != 'ext':
            if p.off < 0 or p.off + sz > o.size:
                self.event('out-of-bounds', obj=o, off=p.off, size=sz, rw=rw)
                return False
        if self.rec is not None: self.rec(self, o, p.off, sz, rw)
        return True
    def rd(self, p, sz, ty=None, quiet=False):
        """load from one pointer leaf"""
        o = p.obj
        c = o.cells.get(p.off)
        if c is not None:
            if c[0] == sz or isinstance(c[1], (Str,)) and c[0] >= sz: v = c[1]
            else: v = self.partial(o, p.off, sz, c)
            return v
        if o.bytes is not None and type(p.off) is int:
            b = o.bytes[p.off:p.off + sz]
            if len(b) == sz:
                if ty == F64:
                    import struct
                    return const(struct.unpack('<d', b)[0])
                return int.from_bytes(b, 'little')
        if type(o.model) is tuple and o.model[0] == 'view': return self.chars(o.model[1], p.off)
        for lo, hi, f in reversed(o.fills):
            if type(p.off) is int and lo <= p.off and p.off + sz <= hi:
                v = f(o, p.off, sz, ty) if callable(f) else f
                return v
            if type(p.off) is not int and (type(lo) is int and lo == 0 or lo is ZERO): 
                return f(o, p.off, sz, ty) if callable(f) else f
        if type(p.off) is int:
            # wider cell containing the byte range
            for k in range(1, 8):
                c = o.cells.get(p.off - k)
                if c is not None:
                    if c[0] >= k + sz and type(c[1]) is int: return (c[1] >> (8 * k)) & ((1 << (8 * sz)) - 1)
                    if c[0] > k and isinstance(c[1], Str): return c[1]
                    break
            # composed of smaller cells
            out = 0; k = 0
            while k < sz:
                c = o.cells.get(p.off + k)
                if c is None or c[0] > sz - k or type(c[1]) is not int: out = None; break
                out |= c[1] << (8 * k); k += c[0]
            if out is not None: return out
        if o.kind == 'ext':
            v = self.extval(o, p.off, sz, ty)
            o.cells[p.off] = (sz, v)
            return v
        return UNDEF
    def extval(self, o, off, sz, ty):
        if ty == F64: return symbol('%s[%s]' % (o.name, off))
        if ty == PTR: return Ptr(Obj('%s[%s]' % (o.name, off), 'ext', None))
        if ty and ty[0] == 'i' and ty[1] == 8: return 0
        return symbol('%s[%s]' % (o.name, off))
    def partial(self, o, off, sz, c):
        if type(c[1]) is int and c[0] > sz: return c[1] & ((1 << (8 * sz)) - 1)
        if type(c[1]) is int and c[0] < sz:
            out = 0; k = 0
            while k < sz:
                d = o.cells.get(off + k)
                if d is None or type(d[1]) is not int or d[0] > sz - k: return UNDEF
                out |= d[1] << (8 * k); k += d[0]
            return out
        if isinstance(c[1], (Num, Ite)) and sz > c[0]: return c[1]
        if isinstance(c[1], (Num, Ite)) and sz < c[0]: return amap(lambda x: x & ((1 << (8 * sz)) - 1) if type(x) is int else x, c[1])
        return UNDEF
    def load(self, ptr, ty, mod=None):
        if ty[0] in 'sna' and ty[0] != 'a' or ty[0] == 'a':
            fs = []
            for off, ft in mod.fields(ty): fs.append(self.load(self.padd(ptr, off), ft, mod))
            return Agg(fs)
        sz = 8 if ty == PTR else (mod.size(ty) if mod else (ty[1] if ty[0] == 'f' else (ty[1] + 7) // 8))
        if type(ptr) is Ptr:
            if not self.access(ptr, sz, 'r'): return UNDEF
            v = self.rd(ptr, sz, ty)
            if type(v) is Ite: v = restrict(v, self.pc)
        else:
            ls = leaves(ptr, self.pc)
            v = None; save = self.pc
            for c, p in ls:
                self.pc = c
                w = self.rd(p, sz, ty) if self.access(p, sz, 'r') else UNDEF
                w = restrict(w, c)
                v = w if v is None else ite(c, w, v)
            self.pc = save
            v = restrict(v, save)
        if v is UNDEF or type(v) is Ite:
            if v is UNDEF: self.event('uninit-read', ptr=ptr)
            else:
                u = amap(lambda x: 1 if x is UNDEF else 0, v)
                u = AND(u, self.pc)
                if not is0(u): self.event('uninit-read', pc=u, ptr=ptr)
        if ty[0] == 'i':
            if ty[1] == 1 and type(v) is int: v &= 1
        elif ty == F64 and type(v) is int: v = const(0) if v == 0 else opaque('bits', const(v))
        elif ty == F64 and type(v) is Ite: v = amap(lambda x: const(x) if type(x) is int and x == 0 else x, v)
        return v
    def wr(self, p, sz, v, pc):
        o = p.obj
        off = p.off
        if type(o.model) is tuple and o.model[0] == 'view': return self.setchar(o.model[1], off, v, pc)
        old = o.cells.get(off)
        if type(off) is int:
            if old is None:
                if o.fills or o.bytes is not None:
                    old = (sz, self.rd(p, sz, None))
                    if old[1] is UNDEF: old = None
                elif type(pc) is Ite:
                    for k in range(1, 8):
                        if o.cells.get(off - k) is not None:
                            ov = self.rd(p, sz, None)
                            if ov is not UNDEF: old = (sz, ov)
                            break
            elif old[0] != sz: old = (sz, self.rd(p, sz, None))
            for k in range(1, min(sz, 32)):
                c = o.cells.get(off + k)
                if c is not None: del o.cells[off + k]
            for k in range(1, 32):
                c = o.cells.get(off - k)
                if c is not None:
                    if c[0] > k:
                        if type(c[1]) is int and c[0] <= 8:     # split the wider integer cell
                            w = c[1]; del o.cells[off - k]
                            for b in range(c[0]):
                                if not (k <= b < k + sz): o.cells[off - k + b] = (1, (w >> (8 * b)) & 255)
                        else: o.cells[off - k] = (k, UNDEF)
                    break
        if pc is o.birth or (type(pc) is int and pc == 1) or old is None and self.implies_birth(o, pc):
            o.cells[off] = (sz, v); return
        ov = old[1] if old is not None else UNDEF
        if old is None and type(off) is not int and o.fills: ov = self.rd(p, sz, None)
        o.cells[off] = (sz, ite(pc, v, ov))
    def implies_birth(self, o, pc):
        # the object did not exist outside birth, so the gate only has to hold relative to it
        return type(o.birth) is not int and is0(AND(o.birth, NOT(pc)))
    def store(self, ptr, ty, v, mod=None):
        if isinstance(v, Agg):
            for (off, ft), x in zip(mod.fields(ty), v.f): self.store(self.padd(ptr, off), ft, x, mod)
            return
        sz = 8 if ty == PTR else (mod.size(ty) if mod else (ty[1] if ty[0] == 'f' else (ty[1] + 7) // 8))
        if type(v) is Ite: v = restrict(v, self.pc)
        if self.watching and (type(ptr) is not Ptr or ptr.obj.cells.get(ptr.off) != (sz, v)): self.mut += 1
        if type(ptr) is Ptr:
            if self.access(ptr, sz, 'w'): self.wr(ptr, sz, v, self.pc)
            return
        save = self.pc
        for c, p in leaves(ptr, self.pc):
            self.pc = c
            if self.access(p, sz, 'w'): self.wr(p, sz, restrict(v, c), c)
        self.pc = save
    def padd(self, p, off):
        if type(off) is int and off == 0: return p
        def f(a, o):
            if type(a) is Ptr:
                if type(o) is int and type(a.off) is int: return Ptr(a.obj, a.off + o)
                x = a.off if isinstance(a.off, Num) else const(a.off)
                if x is UNDEF or o is UNDEF: return UNDEF
                y = o if isinstance(o, Num) else const(o)
                s = add(x, y)
                if is_const(s) and s.v[0] == int(s.v[0]): s = int(s.v[0])
                return Ptr(a.obj, s)
            if type(a) is int and type(o) is int: return (a + o) % (1 << 64)
            if a is UNDEF: return UNDEF
            return UNDEF
        return amap(f, p, off)
    def each(self, *vals):
        """iterate over leaf combinations with self.pc restricted; restores pc afterwards"""
        save = self.pc
        t = amap(lambda *xs: Tup(xs), *vals)
        for c, x in leaves(t, save):
            self.pc = c
            yield (x.x if len(vals) > 1 else x.x[0])
        self.pc = save
    def memcpy(self, dst, src, n):
        self.mut += 1
        for d, s, k in self.each(dst, src, n):
            if type(k) is int and k == 0: continue
            if type(d) is not Ptr or type(s) is not Ptr:
                self.event('null-deref', ptr=(d, s)); continue
            if type(k) is not int or type(d.off) is not int or type(s.off) is not int:
                k = k if type(k) is int else None
                if type(d.off) is not int or type(s.off) is not int: raise Unsupported('memcpy with symbolic offset')
            if k is None:
                self.event('sym-memcpy', n=n); continue
            if not (self.access(d, k, 'w') & self.access(s, k, 'r')): continue
            if s.obj.bytes is not None:
                b = s.obj.bytes[s.off:s.off + k]
                if not d.obj.cells and d.obj.size == k and d.off == 0 and not s.obj.cells: d.obj.bytes = b; continue
                for i, x in enumerate(b):
                    if s.off + i not in s.obj.cells: self.wr(Ptr(d.obj, d.off + i), 1, x, self.pc)
            cells = [(o, c) for o, c in s.obj.cells.items() if type(o) is int and s.off <= o < s.off + k]
            fills = [(max(lo, s.off), min(hi, s.off + k), f) for lo, hi, f in s.obj.fills if lo < s.off + k and hi > s.off]
            # destination cells overwritten
            stale = [o for o in d.obj.cells if type(o) is int and d.off <= o < d.off + k]
            have = {o - s.off for o, _ in cells}
            for o in stale:
                if o - d.off not in have:
                    sz = d.obj.cells[o][0]
                    if d.obj is s.obj: v = UNDEF
                    v = self.rd(Ptr(s.obj, o - d.off + s.off), sz, None)
                    self.wr(Ptr(d.obj, o), sz, v, self.pc)
            for lo, hi, f in fills:
                d.obj.fills.append((lo - s.off + d.off, hi - s.off + d.off, f))
            for o, (sz, v) in sorted(cells): self.wr(Ptr(d.obj, o - s.off + d.off), sz, restrict(v, self.pc), self.pc)
    def memset(self, dst, val, n):
        for d, b, k in self.each(dst, val, n):
            if type(k) is int and k == 0: continue
            if type(d) is not Ptr: self.event('null-deref', ptr=d); continue
            if type(k) is not int:
                if type(d.off) is int: d.obj.fills.append((d.off, 1 << 60, lambda o, off, sz, ty: 0)); 
                continue
            if not self.access(d, k, 'w'): continue
            if b != 0:
                if k <= 4096:
                    for i in range(k): self.wr(Ptr(d.obj, d.off + i), 1, b, self.pc)
                    continue
                f = lambda o, off, sz, ty, b=b: int.from_bytes(bytes([b]) * sz, 'little')
            else: f = lambda o, off, sz, ty: 0
            self.fill(d.obj, d.off, d.off + k, f)
    def fill(self, o, lo, hi, f):
        for off in [x for x in o.cells if type(x) is int and lo <= x < hi]:
            sz, v = o.cells[off]
            nv = f(o, off, sz, F64 if isinstance(v, Num) else None) if callable(f) else f
            if isinstance(v, Num) and type(nv) is int: nv = const(0) if nv == 0 else nv
            o.cells[off] = (sz, ite(self.pc, nv, v)) if not is1(self.pc) else (sz, nv)
            if is1(self.pc): del o.cells[off]
        o.fills.append((lo, hi, f))
    def free(self, ptr, how):
        for p in self.each(ptr):
            if type(p) is int and p == 0: continue
            if type(p) is not Ptr:
                self.event('bad-free', ptr=p); continue
            o = p.obj
            c = AND(o.freed, self.pc)
            if not is0(c): self.event('double-free', pc=c, obj=o)
            if o.kind not in ('heap', 'ext'): self.event('bad-free', obj=o)
            elif p.off != 0: self.event('bad-free', obj=o, off=p.off)
            elif o.alloc and o.alloc != how: self.event('mismatched-free', obj=o, how=how)
            o.freed = OR(o.freed, self.pc)
            if self.rec is not None: self.rec(self, o, 0, o.size if type(o.size) is int else 1, 'f')
            self.event('free', obj=o)
    # ---- globals
    def glob(self, name, mod):
        f, nm = self.prog.resolve(name, mod) if (name in self.prog.dem) else (None, name)
        if f is not None: return Fn(nm)
        d = mod.globals.get(name); owner = mod
        if d is None or d.startswith(('external', 'available_externally')) or not d.startswith(('private', 'internal')):
            o2 = self.prog.gsym.get(name)
            if o2 is not None and not o2.globals[name].startswith('external'): owner = o2; d = o2.globals[name]
        if d is not None and d.startswith(('private', 'internal')): key = (mod.name, name)
        else: key = name
        if d and re.match(r'.*?\bthread_local\b', d.split(' global ')[0] if ' global ' in d else d[:200]): key = (key, 'tls', self.tid)
        o = self.globs.get(key)
        if o is None:
            if name in self.prog.dem and d is None: return Fn(name)
            short = name if not name.startswith('_Z') else demangle([name])[name]
            if d is None or d.startswith('external'):
                o = Obj(short, 'ext', None)
                self.globs[key] = o
            else:
                m = re.search(r'\b(constant|global) (.*)', d)
                t = toks(m.group(2))
                ty, i = owner.ptype(t, 0)
                o = Obj(short, 'global', owner.size(ty))
                if 'tls' in key: o.tid = self.tid; o.kind = 'tls'
                self.globs[key] = o
                o.ro = m.group(1) == 'constant'
                try: v, i = owner.pval(ty, t, i)
                except (SyntaxError, IndexError): v = ('u',)
                self.init(o, 0, ty, v, owner)
        return Ptr(o)
    def init(self, o, off, ty, v, mod):
        k = v[0]
        if k == 'str':
            if off == 0 and o.size == len(v[1]): o.bytes = v[1]
            else:
                for i, b in enumerate(v[1]): o.cells[off + i] = (1, b)
        elif k == 'z': o.fills.append((off, off + mod.size(ty), lambda o, f, s, t: 0))
        elif k == 'agg':
            for (fo, ft), (_, fv) in zip(mod.fields(ty), v[1]): self.init(o, off + fo, ft, fv, mod)
        elif k == 'u': pass
        else: o.cells[off] = (mod.size(ty), self.cv(v, mod))
    def cv(self, v, mod):
        k = v[0]
        if k == 'k': return v[1]
        if k == 'kf': return const(v[1])
        if k == 'g': return self.glob(v[1], mod)
        if k == 'gep': return self.padd(self.cv(v[1], mod), v[2])
        if k == 'u': return UNDEF
        if k == 'z':
            t = v[1]
            if t == F64: return const(0)
            if t[0] in 'sna': return Agg([self.cv(('z', ft), mod) for _, ft in mod.fields(t)])
            return 0
        if k == 'agg': return Agg([self.cv(x, mod) for _, x in v[1]])
        raise Unsupported('constant ' + k)
    # ---- calls
    def call(self, name, args, argtys=None, rt=None, mod=None):
        h = self._disp.get((name, mod.name if mod else None))
        if h is None:
            h = self.dispatch(name, mod); self._disp[(name, mod.name if mod else None)] = h
        k, f = h
        if k == 'noop': return None
        if k != 'body': self.mut += 1
        if k == 'native':
            self.rt = rt
            if UNDEF in args: args = [symbol(self.fresh('undef')) if x is UNDEF else x for x in args]
            return f(self, name, args)
        if k == 'body':
            m, nn = f
            return self.run(m.func(nn), args)
        # unknown external
        d = self.prog.dem.get(name, name)
        self.event('extern', fn=d, args=args)
        if rt is None or rt == VOID: return None
        if rt == F64: return amap(lambda *a: opaque(d, *[x if isinstance(x, Num) else str(x) for x in a]), *[a for a in args if not isinstance(a, Agg)]) if args else symbol(self.fresh(d))
        if rt == PTR: return Ptr(Obj(self.fresh(d.split('(')[0]), 'ext', None))
        return symbol(self.fresh(d.split('(')[0]))
    def dispatch(self, name, mod):
        d = self.prog.dem.get(name, name)
        d0 = basename(d)
        for p, h in self.overrides:
            if p.fullmatch(d) or p.fullmatch(d0): return ('native', h)
        m, nn = self.prog.resolve(name, mod)
        if m is not None:
            if self.prog.noop(name, mod): return ('noop', None)
            return ('body', (m, nn))
        return ('ext', None)
    def callv(self, target, args, argtys=None, rt=None, mod=None):
        """call through a (gated) function value"""
        if type(target) is Fn: return self.call(target.name, args, argtys, rt, mod)
        out = None; save = self.pc; pcs = 0
        for c, t in leaves(target, save):
            self.pc = c
            if type(t) is not Fn:
                self.event('bad-call', target=t); continue
            r = self.call(t.name, [restrict(a, c) if type(a) is Ite else a for a in args], argtys, rt, mod)
            if r is not None and not is0(self.pc): out = r if out is None else self.merge(c, r, out)
            pcs = OR(pcs, self.pc)
        self.pc = pcs
        return out
    def merge(self, c, a, b):
        if isinstance(a, Agg) or isinstance(b, Agg): return Agg([self.merge(c, x, y) for x, y in zip(a.f, b.f)])
        return ite(c, a, b)
    def invoke(self, name, *args):
        """entry point for drivers: call by mangled name at top level"""
        return self.call(name, list(args))
    # ---- interpreter
    def run(self, F, args):
        regs = {}
        mod = F.mod
        for (ty, nm), by, a in zip(F.params, F.byval, args):
            if by is not None:
                o = self.alloc(nm, 'stack', mod.size(by)); self.memcpy(Ptr(o), a, mod.size(by)); a = Ptr(o)
            regs[nm] = a
        if len(args) < len(F.params): raise Unsupported('arity of %s: %d args' % (self.prog.dem.get(F.name), len(args)))
        cur = [None]
        if len(self.stack) > 220: raise Unsupported('recursion ' + F.name)
        self.stack.append((F.name, F, cur))
        self.fn_seen[(mod.name, F.name)] = self.fn_seen.get((mod.name, F.name), 0) + 1
        pend = {F.entry: [(None, self.pc)]}
        ret = None; retpc = 0
        counts = {}
        pos = F.pos; entry_pc = self.pc
        blocks = F.blocks; loopof = F.loopof; heads = F.heads
        def go(t, c, b):
            if is0(c): return
            l = pend.get(t)
            if l is None: pend[t] = [(b, c)]
            else: l.append((b, c))
        while pend:
            b = min(pend, key=pos.__getitem__) if len(pend) > 1 else next(iter(pend))
            edges = pend.pop(b)
            pc = edges[0][1]
            for _, c in edges[1:]: pc = OR(pc, c)
            if b in heads:
                if all(e[0] is not None and b in loopof.get(e[0], ()) for e in edges):
                    cnt = counts[b]; cnt[0] += 1
                    if type(pc) is Ite and pc is not cnt[1]:
                        cnt[2] += 1
                        if cnt[2] > self.max_undecided:
                            self.cuts.append((fmtloc(self.where()), F.name, pc)); continue
                    if cnt[3] is not None and cnt[3] == self.mut and pc is cnt[1]:
                        self.pc = pc; self.event('endless-loop', fn=self.prog.dem.get(F.name)); continue
                    cnt[3] = None
                    if cnt[0] % 1000 == 0: self.watching = True; cnt[3] = self.mut
                    if cnt[0] > self.loop_bound: raise Unsupported('loop bound in %s' % self.prog.dem.get(F.name))
                    cnt[1] = pc
                else: counts[b] = [0, pc, 0, None]
            inloop = bool(loopof[b])
            self.pc = pc
            for ins in blocks[b]:
                op = ins[0]
                if ins[2] is not None: cur[0] = ins[2]
                self.instrs += 1
                if op == 'load': v = self.load(self.val(ins[4], regs, mod), ins[3], mod)
                elif op == 'store':
                    self.store(self.val(ins[5], regs, mod), ins[3], self.val(ins[4], regs, mod), mod); continue
                elif op == 'nop': continue
                elif op == 'alloca':
                    n = self.val(ins[4], regs, mod)
                    sz = mod.size(ins[3])
                    sz = sz * n if type(n) is int else None
                    v = Ptr(self.alloc('%s' % ins[1], 'stack', sz))
                elif op == 'gep':
                    v = self.padd(self.val(ins[3], regs, mod), ins[4])
                    for d, s, bits in ins[5]:
                        i = self.val(d, regs, mod)
                        i = amap(lambda x: sx(x, bits) * s if type(x) is int else (mul(x, const(s)) if isinstance(x, Num) else UNDEF), i)
                        v = self.padd(v, i)
                elif op == 'call':
                    t = self.val(ins[4], regs, mod)
                    a = [self.val(x[1], regs, mod) for x in ins[5]]
                    pc0 = self.pc
                    v = self.callv(t, a, ins[5], ins[3], mod)
                    if is0(self.pc): break
                    if type(self.pc) is Ite or type(pc0) is Ite: pc = self.pc
                    if ins[6]:
                        if ins[1]: self.setreg(regs, ins[1], v, inloop)
                        go(ins[6], self.pc, b); break
                    if ins[1] is None: continue
                elif op == 'br':
                    c = self.val(ins[3], regs, mod)
                    c = self.cond(c)
                    if type(c) is int:
                        go(ins[4] if c else ins[5], self.pc, b)
                    else:
                        go(ins[4], AND(self.pc, c), b); go(ins[5], AND(self.pc, NOT(c)), b)
                    break
                elif op == 'jmp': go(ins[3], self.pc, b); break
                elif op == 'ret':
                    if ins[4] is not None:
                        v = self.val(ins[4], regs, mod)
                        ret = v if ret is None else self.merge(self.pc, v, ret)
                    retpc = OR(retpc, self.pc); break
                elif op == 'cast': v = self.cast(ins[3], ins[4], self.val(ins[5], regs, mod), ins[6])
                elif op == 'icmp': v = self.icmp(ins[3], ins[4], self.val(ins[5], regs, mod), self.val(ins[6], regs, mod))
                elif op == 'fcmp': v = self.fcmp(ins[3], self.val(ins[5], regs, mod), self.val(ins[6], regs, mod))
                elif op in FBIN: v = fbin(op, self.val(ins[4], regs, mod), self.val(ins[5], regs, mod))
                elif op in BIN: v = self.ibin(op, ins[3], self.val(ins[4], regs, mod), self.val(ins[5], regs, mod))
                elif op == 'fneg': v = amap(lambda x: neg(x) if isinstance(x, Num) else UNDEF, self.val(ins[3], regs, mod))
                elif op == 'phi':
                    v = None
                    for x, src in ins[4]:
                        for eb, ec in edges:
                            if eb == src:
                                y = self.val(x, regs, mod)
                                v = y if v is None else self.merge(ec, y, v)
                elif op == 'select':
                    c = self.cond(self.val(ins[3], regs, mod))
                    v = self.merge(c, self.val(ins[4], regs, mod), self.val(ins[5], regs, mod)) if type(c) is Ite else self.val(ins[4] if c else ins[5], regs, mod)
                elif op == 'switch':
                    c = self.val(ins[3], regs, mod)
                    rest = self.pc
                    by = {}
                    for k, t in ins[5]:
                        e = self.icmp('eq', ('i', 32), c, k)
                        e = restrict(e, self.pc) if type(e) is Ite else e
                        by[t] = OR(by.get(t, 0), AND(rest, e)); rest = AND(rest, NOT(e))
                    by[ins[4]] = OR(by.get(ins[4], 0), rest)
                    for t, e in by.items(): go(t, e, b)
                    break
                elif op == 'extractvalue':
                    v = self.val(ins[4], regs, mod)
                    for i in ins[6]: v = v.f[i] if isinstance(v, Agg) else UNDEF
                elif op == 'insertvalue':
                    a = self.val(ins[4], regs, mod); x = self.val(ins[5], regs, mod)
                    a = Agg(a.f) if isinstance(a, Agg) else Agg([UNDEF] * len(mod.fields(ins[3])))
                    if len(ins[6]) > 1: raise Unsupported('nested insertvalue')
                    a.f[ins[6][0]] = x; v = a
                elif op == 'unreachable': break
                elif op == 'aload' or op == 'astore':
                    lk = self.locks; self.locks = lk + ('atomic',)
                    if op == 'aload': v = self.load(self.val(ins[4], regs, mod), ins[3], mod); self.locks = lk
                    else: self.store(self.val(ins[5], regs, mod), ins[3], self.val(ins[4], regs, mod), mod); self.locks = lk; continue
                elif op == 'cmpxchg':
                    # no other thread intervenes in the sequential analysis of a thread
                    p = self.val(ins[4], regs, mod); lk = self.locks; self.locks = lk + ('atomic',)
                    v = self.load(p, ins[3], mod); ok = self.icmp('eq', ins[3], v, self.val(ins[5], regs, mod))
                    self.store(p, ins[3], ite(ok, self.val(ins[6], regs, mod), v), mod); self.locks = lk
                    v = Agg([v, ok])
                elif op == 'atomicrmw':
                    p = self.val(ins[4], regs, mod)
                    lk = self.locks; self.locks = lk + ('atomic',)
                    v = self.load(p, ins[5], mod); x = self.val(ins[6], regs, mod)
                    k = ins[3]
                    if k in ('add', 'sub', 'or', 'and'): w = self.ibin(k, ins[5], v, x)
                    elif k in ('fadd', 'fsub'): w = fbin(k, v, x)
                    elif k == 'xchg': w = x
                    else: raise Unsupported('atomicrmw ' + k)
                    self.store(p, ins[5], w, mod)
                    self.locks = lk
                elif op in ('landingpad', 'resume'): break
                else: raise Unsupported('%s in %s' % (ins[3] if op == 'unsupported' else op, self.prog.dem.get(F.name)))
                if ins[1] is not None: self.setreg(regs, ins[1], v, inloop)
        self.stack.pop()
        self.pc = retpc
        return ret
    def setreg(self, regs, r, v, inloop):
        if inloop and type(self.pc) is Ite and r in regs and not isinstance(v, Agg) and not isinstance(regs[r], Agg):
            v = ite(self.pc, v, regs[r])
        regs[r] = v
    def val(self, x, regs, mod):
        k = x[0]
        if k == 'r':
            v = regs[x[1]]
            return restrict(v, self.pc) if type(v) is Ite else v
        if k == 'k': return x[1]
        if k == 'kf': return const(x[1])
        return self.cv(x, mod)
    def cond(self, c):
        if type(c) is Ite:
            c = restrict(c, self.pc)
            if type(c) is Ite:
                c = amap(self._cleaf, c)
                return c
        if type(c) is int: return c & 1
        return self._cleaf(c)
    def _cleaf(self, c):
        if type(c) is int: return c & 1
        if c is UNDEF:
            self.event('uninit-branch'); return boolatom(self.fresh('undef'))
        if isinstance(c, Num): return NOT(eq0(c))
        raise Unsupported('condition %r' % (c,))
    def cast(self, op, ty, v, to):
        if op == 'freeze' or op in ('bitcast', 'ptrtoint', 'inttoptr'): return v
        if type(v) is Agg: return v
        def f(x):
            if x is UNDEF: return UNDEF
            if op == 'zext': return x
            if op == 'trunc':
                return x & ((1 << to[1]) - 1) if type(x) is int else (NOT(eq0(x)) if to[1] == 1 and isinstance(x, Num) else x)
            if op == 'sext': return sx(x, ty[1]) % (1 << to[1]) if type(x) is int else x
            if op == 'sitofp': return const(sx(x, ty[1])) if type(x) is int else x
            if op == 'uitofp': return const(x) if type(x) is int else x
            if op == 'fptrunc' and to == F32 and isinstance(x, Num):
                if is_const(x):
                    import struct
                    try:
                        if struct.unpack('f', struct.pack('f', float(x.v[0])))[0] == float(x.v[0]): return x
                    except OverflowError: pass
                return fn('f32', x)
            if op in ('fpext', 'fptrunc'): return x
            if op in ('fptosi', 'fptoui'): return self.toint(x, to[1])
            raise Unsupported(op)
        return amap(f, v)
    def toint(self, x, bits):
        if not isinstance(x, Num): return x
        if is_const(x): return int(x.v[0]) % (1 << bits)
        if x.op in ('sym', 'fn') and str(x.args[0]).startswith('int:'): return x
        if x.op == 'fn' and x.args[0] in ('floor', 'ceil', 'round', 'trunc'):
            pass
        if self.int_range:
            lo, hi = self.int_range
            v = hi % (1 << bits)
            for k in range(hi - 1, lo - 1, -1):      # trunc(x) <= k
                bound = k + 1 if k >= 0 else k
                c = lt0(sub(x, const(bound))) if k >= 0 else NOT(lt0(neg(sub(x, const(k)))))
                v = ite(c, k % (1 << bits), v)
            return v
        return opaque('trunc', x)
    def icmp(self, p, ty, a, b):
        n = 64 if ty == PTR else (ty[1] if ty[0] == 'i' else 64)
        def f(x, y):
            if x is UNDEF or y is UNDEF: return UNDEF
            if type(x) is int and type(y) is int:
                if p == 'eq': return int(x == y)
                if p == 'ne': return int(x != y)
                if p[0] == 's': x = sx(x, n); y = sx(y, n)
                return int({'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[p[1:]])
            if isinstance(x, Num) or isinstance(y, Num):
                if not isinstance(x, Num):
                    if type(x) is not int: return 1 if p == 'ne' else 0
                    x = const(sx(x, n) if p[0] == 's' or p in ('eq', 'ne') else x)
                if not isinstance(y, Num):
                    if type(y) is not int: return 1 if p == 'ne' else 0
                    y = const(sx(y, n) if p[0] == 's' or p in ('eq', 'ne') else y)
                d = sub(x, y)
                if p == 'eq': return eq0(d)
                if p == 'ne': return NOT(eq0(d))
                if p[1:] == 'lt': return lt0(d)
                if p[1:] == 'ge': return NOT(lt0(d))
                d = sub(y, x)
                return lt0(d) if p[1:] == 'gt' else NOT(lt0(d))
            if p in ('eq', 'ne'):
                e = x == y if type(x) is type(y) else False
                return int(e == (p == 'eq'))
            if type(x) is Ptr and type(y) is Ptr:
                if x.obj is y.obj:
                    if type(x.off) is int and type(y.off) is int:
                        return int({'gt': x.off > y.off, 'ge': x.off >= y.off, 'lt': x.off < y.off, 'le': x.off <= y.off}[p[1:]])
                    return self.icmp(p, ('i', 64), x.off, y.off)
                return int({'gt': x.obj.seq > y.obj.seq, 'ge': x.obj.seq > y.obj.seq}.get(p[1:], x.obj.seq < y.obj.seq))
            if p[1:] in ('gt', 'ge'): return int(type(x) is not int)
            return int(type(y) is not int)
        return amap(f, a, b)
    def fcmp(self, p, a, b):
        def f(x, y):
            if not isinstance(x, Num) or not isinstance(y, Num): return UNDEF
            q = p[1:]
            if p in ('uno', 'ord'): return int(p == 'ord')
            if q == 'eq': return eq0(sub(x, y))
            if q == 'ne': return NOT(eq0(sub(x, y)))
            if q == 'lt': return lt0(sub(x, y))
            if q == 'gt': return lt0(sub(y, x))
            if q == 'le': return NOT(lt0(sub(y, x)))
            if q == 'ge': return NOT(lt0(sub(x, y)))
            raise Unsupported('fcmp ' + p)
        return amap(f, a, b)
    def ibin(self, op, ty, a, b):
        n = ty[1] if ty[0] == 'i' else 64
        mask_ = (1 << n) - 1
        def f(x, y):
            if type(x) is int and type(y) is int:
                if op == 'add': return (x + y) & mask_
                if op == 'sub': return (x - y) & mask_
                if op == 'mul': return (x * y) & mask_
                if op == 'and': return x & y
                if op == 'or': return x | y
                if op == 'xor': return x ^ y
                if op == 'shl': return (x << y) & mask_
                if op == 'lshr': return x >> y
                if op == 'ashr': return (sx(x, n) >> y) & mask_
                if y == 0: self.event('div-by-zero'); return UNDEF
                if op == 'udiv': return x // y
                if op == 'urem': return x % y
                X, Y = sx(x, n), sx(y, n)
                q = abs(X) // abs(Y) * (1 if (X < 0) == (Y < 0) else -1)
                return (q if op == 'sdiv' else X - q * Y) & mask_
            if x is UNDEF or y is UNDEF:
                if op == 'and' and (type(x) is int or type(y) is int) and 0 in (x, y): return 0
                return UNDEF
            if type(x) is Ptr or type(y) is Ptr:
                if op == 'sub':
                    if type(x) is Ptr and type(y) is Ptr:
                        if x.obj is y.obj:
                            if type(x.off) is int and type(y.off) is int: return (x.off - y.off) & mask_
                            return sub(x.off if isinstance(x.off, Num) else const(x.off), y.off if isinstance(y.off, Num) else const(y.off))
                        return UNDEF
                    if type(x) is Ptr: return self.padd(x, -sx(y, 64) if type(y) is int else neg(y))
                    return UNDEF if y != 0 else x
                if op == 'add': return self.padd(x, sx(y, 64) if type(y) is int else y) if type(x) is Ptr else self.padd(y, sx(x, 64) if type(x) is int else x)
                if op == 'and': return 0       # alignment tests
                return UNDEF
            if type(x) is Fn or type(y) is Fn:
                return 0 if op == 'and' else x     # member function pointer tag bits
            if not isinstance(x, Num): x = const(sx(x, n)) if type(x) is int else None
            if not isinstance(y, Num): y = const(sx(y, n)) if type(y) is int else None
            if x is None or y is None: return UNDEF
            if op == 'add': return self.nint(add(x, y), n)
            if op == 'sub': return self.nint(sub(x, y), n)
            if op == 'mul': return self.nint(mul(x, y), n)
            if op == 'shl' and is_const(y): return mul(x, const(1 << int(y.v[0])))
            if op in ('sdiv', 'udiv') and y is ONE: return x
            if op in ('sdiv', 'udiv'):
                q = div(x, y)
                if x.op == '*' and (x.args[0] is y or x.args[1] is y): return q
                return opaque('int:' + op, x, y)
            return opaque('int:' + op, x, y, lo=0.4 if op not in ('and', 'or') else 0.4)
        if type(a) is Agg or type(b) is Agg: raise Unsupported('agg arith')
        if op in ('and', 'or', 'xor') and n == 1 and (type(a) is Ite or type(b) is Ite):
            if not self._hasnum(a) and not self._hasnum(b):
                if op == 'and': return AND(a, b)
                if op == 'or': return OR(a, b)
                return ite(a, NOT(b), b)
        return amap(f, a, b)
    def _hasnum(self, x):
        return any(type(l) is not int for _, l in leaves(x)) if type(x) is Ite else type(x) is not int
    def nint(self, v, n):
        if is_const(v) and v.v[0] == int(v.v[0]): return int(v.v[0]) % (1 << n)
        return v

class Tup:
    __slots__ = ('x',)
    def __init__(s, x): s.x = tuple(x)
    def __eq__(s, o): return type(o) is Tup and all(_same(a, b) for a, b in zip(s.x, o.x))
    def __hash__(s): return hash(tuple(id(a) if isinstance(a, Num) else hash(a) if not isinstance(a, (Undef,)) else 0 for a in s.x))
def _same(a, b): return a is b or (type(a) is type(b) and not isinstance(a, Num) and a == b)

def fbin(op, a, b):
    def f(x, y):
        if not isinstance(x, Num) or not isinstance(y, Num): return UNDEF
        if op == 'fadd': return add(x, y)
        if op == 'fsub': return sub(x, y)
        if op == 'fmul': return mul(x, y)
        if op == 'fdiv': return div(x, y)
        return opaque('fmod', x, y)
    if isinstance(a, Num) and isinstance(b, Num): return f(a, b)
    return amap(f, a, b)

def basename(d):
    """demangled name without argument list (templates kept)"""
    depth = 0
    for i, ch in enumerate(d):
        if ch == '<': depth += 1
        elif ch == '>': depth -= 1
        elif ch == '(' and depth <= 0:
            if d.startswith('operator()', i - 8) : continue
            if d[i:i + 2] == '()' and d[:i].endswith('operator'): continue
            if d[i:i + 11] == '(anonymous ': continue
            return d[:i]
    return d
