"""Models of what lies outside the repository: C and C++ runtime, iostream, random, OpenMP."""
import re
from vals import *
from llir import F64, PTR, VOID
import machine as M

I64 = ('i', 64); I32 = ('i', 32); I8 = ('i', 8)
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'

def nums(f):
    def h(m, name, args):
        return amap(lambda *a: f(*a) if all(isinstance(x, Num) for x in a) else UNDEF, *args)
    return h
def rnd(kind):
    import math
    def f(x):
        if is_const(x):
            v = x.v[0]
            r = {'floor': math.floor, 'ceil': math.ceil, 'trunc': int, 'round': lambda d: math.floor(d + D('0.5')) if d >= 0 else -math.floor(-d + D('0.5'))}[kind](v)
            return const(int(r))
        return opaque(kind, x)
    def h(m, name, args):
        def g(x):
            if not isinstance(x, Num): return UNDEF
            if is_const(x) or not m.int_range: return f(x)
            lo, hi = m.int_range
            if kind == 'round':      # floor(x+.5) up to ties
                x = add(x, const('0.5'))
            if kind == 'ceil':
                v = const(hi)
                for k in range(hi - 1, lo - 1, -1): v = ite(NOT(lt0(sub(const(k), x))), const(k), v)   # x <= k
                return v
            v = const(hi)
            for k in range(hi - 1, lo - 1, -1):
                if kind == 'trunc' and k < 0: c = NOT(lt0(sub(const(k), x)))
                else: c = lt0(sub(x, const(k + 1)))
                v = ite(c, const(k), v)
            return v
        return amap(g, args[0])
    return h
def fabs(m, name, args):
    return amap(lambda x: ite(lt0(x), neg(x), x) if isinstance(x, Num) else x, args[0])
def fmax(m, name, args):
    return amap(lambda x, y: ite(lt0(sub(x, y)), y, x), args[0], args[1])
def fmin(m, name, args):
    return amap(lambda x, y: ite(lt0(sub(x, y)), x, y), args[0], args[1])

# ------------------------------------------------------------------ strings
def getstr(m, p):
    out = None
    for q in m.each(p):
        if type(q) is not Ptr:
            m.event('null-deref', ptr=q); v = Str('')
        else:
            o = q.obj
            if not m.access(q, 32, 'r'): v = Str('')
            else:
                c = o.cells.get(q.off)
                v = restrict(c[1], m.pc) if c is not None else UNDEF
                if o.kind == 'ext' and c is None:
                    v = Str(symbol('str:%s+%s' % (o.name, q.off)))
                if v is UNDEF: v = Str(symbol(m.fresh('undef-string'))); m.event('uninit-read', ptr=q)
                v = amap(lambda x: x if isinstance(x, Str) else Str('<?>'), v)
        out = v if out is None else ite(m.pc, v, out)
    return restrict(out, m.pc)
def setstr(m, p, v):
    for q in m.each(p):
        if type(q) is not Ptr: m.event('null-deref', ptr=q); continue
        if m.access(q, 32, 'w'): m.wr(q, 32, restrict(v, m.pc), m.pc)
_cs = {}
def cstr_ptr(m, v):
    def f(s):
        k = s
        o = m.__dict__.setdefault('_cstr', {}).get(k)
        if o is None:
            o = M.Obj('c_str:' + s.disp(), 'const', None); o.model = ('cstr', s)
            t = s.text()
            if t is not None: o.bytes = t.encode('latin1') + b'\0'; o.size = len(o.bytes)
            m._cstr[k] = o
        return Ptr(o)
    return amap(f, v)
def cstr(m, p):
    """contents of a C string"""
    def f(q):
        if type(q) is not Ptr: return Str('<null>')
        o = q.obj
        if o.model and o.model[0] == 'cstr' and q.off == 0: return o.model[1]
        if o.bytes is not None and type(q.off) is int:
            b = bytearray(o.bytes[q.off:])
            for i in range(len(b)):
                c = o.cells.get(q.off + i)
                if c and type(c[1]) is int: b[i] = c[1]
            return Str(bytes(b).split(b'\0')[0].decode('latin1'))
        if type(q.off) is int:
            out = b''; i = q.off
            while True:
                v = m.rd(Ptr(o, i), 1, I8) if (o.cells or o.fills) else UNDEF
                if type(v) is int and v and len(out) < 5000: out += bytes([v]); i += 1; continue
                if v == 0 and type(v) is int: return Str(out.decode('latin1'))
                break
        return Str(symbol('chars:%s+%s' % (o.name, q.off)))
    return amap(f, p)
CMP = None
def streq(a, b):
    def f(x, y):
        if not isinstance(x, Str) or not isinstance(y, Str): return 0
        if x == y: return 1
        if x.text() is not None and y.text() is not None: return 0
        if CMP is not None: CMP.append((x, y))
        return boolatom('%s == %s' % (x.disp(), y.disp()))
    return amap(f, a, b)
def strlen_(s):
    t = s.text()
    if t is not None: return len(t)
    return opaque('int:len', *[x if isinstance(x, Num) else str(x) for x in s.p], lo=2.5, hi=30)
def concat(a, b): return amap(lambda x, y: Str(x, y), a, b)
def char_at(s, i):
    t = s.text()
    if t is not None and type(i) is int: return ord(t[i]) if i < len(t) else 0
    return opaque('int:char', *[x if isinstance(x, Num) else str(x) for x in (s.p + (i,))], lo=32, hi=126)

def view(m, q):
    """the characters of the string at q, as an array"""
    o = m.__dict__.setdefault('_views', {}).get((id(q.obj), q.off))
    if o is None:
        o = M.Obj('chars of ' + q.obj.name, 'view', None); o.model = ('view', q)
        m._views[(id(q.obj), q.off)] = o
    return o
def chars(m, q, i):
    s = restrict(getstr(m, q), m.pc)
    far = amap(lambda x, k: int(x.text() is not None and type(k) is int and k > len(x.text())), s, i)
    if not is0(AND(m.pc, far)): m.event('out-of-bounds', pc=AND(m.pc, far), obj=q.obj, off=i, size=1, rw='r')
    return amap(char_at, s, i)
def setchar(m, q, i, v, pc):
    s = restrict(getstr(m, q), pc)
    far = amap(lambda x, k: int(x.text() is not None and type(k) is int and k >= len(x.text())), s, i)
    if not is0(AND(pc, far)): m.event('out-of-bounds', pc=AND(pc, far), obj=q.obj, off=i, size=1, rw='w')
    def put(x, k, c):
        t = x.text()
        if t is not None and type(k) is int and type(c) is int: return Str(t[:k] + chr(c & 255) + t[k + 1:])
        return Str(opaque('str:changed', x.disp(), k if isinstance(k, Num) else str(k), c if isinstance(c, Num) else str(c)))
    save = m.pc; m.pc = pc; setstr(m, q, amap(put, s, i, v)); m.pc = save
M.Machine.chars = chars; M.Machine.setchar = setchar
def string_method(m, name, args):
    d = m.prog.dem[name]
    r = re.search(r'(?:basic_string<char, std::char_traits<char>, std::allocator<char> ?>)::(.*)', d).group(1)
    meth = r.split('(')[0] if not r.startswith('operator') else re.match(r'operator[^(]+', r).group(0) if not r.startswith('operator()') else r
    meth = re.sub(r'\[abi:cxx11\]', '', meth)
    sig = r[len(meth):]
    this = args[0]
    isS = 'basic_string' in sig
    if meth.startswith('basic_string'):
        if sig.startswith('()') or sig.startswith('(std::allocator<char> const&)'): setstr(m, this, Str(''))
        elif sig.startswith('(char const*, unsigned long') :
            setstr(m, this, amap(lambda s, n: Str(s.text()[:n]) if s.text() is not None and type(n) is int else Str(opaque('prefix', s.disp(), n if isinstance(n, Num) else str(n))), cstr(m, args[1]), args[2]))
        elif sig.startswith('(char const*'): 
            for q in m.each(args[1]):
                if type(q) is int and q == 0: m.event('null-string')
            setstr(m, this, cstr(m, args[1]))
        elif sig.startswith('(unsigned long, char'):
            setstr(m, this, amap(lambda n, c: Str(chr(c) * n), args[1], args[2]))
        elif isS and ', unsigned long' in sig:
            setstr(m, this, substr(getstr(m, args[1]), args[2], args[3] if len(args) > 3 else (1 << 64) - 1))
        elif isS or 'const&)' in sig or '&&)' in sig: setstr(m, this, getstr(m, args[1]))
        elif 'char*' in sig or '<char' in sig: setstr(m, this, cstr(m, args[1]))
        else: raise M.Unsupported('string ctor ' + sig)
        return None
    if meth.startswith('~'): return None
    if meth == 'operator=' or meth == 'assign':
        if isS: setstr(m, this, getstr(m, args[1]))
        elif sig.startswith('(char const*'): setstr(m, this, cstr(m, args[1]))
        elif sig.startswith('(char)'): setstr(m, this, amap(lambda c: Str(chr(c)), args[1]))
        else: raise M.Unsupported('string assign ' + sig)
        return this
    if meth in ('operator+=', 'append', 'push_back'):
        a = getstr(m, this)
        if isS: b = getstr(m, args[1])
        elif 'char const*' in sig and 'unsigned long' not in sig: b = cstr(m, args[1])
        elif sig.startswith('(char)'): b = amap(lambda c: Str(chr(c)) if type(c) is int else Str(c), args[1])
        elif sig.startswith('(unsigned long, char)'): b = amap(lambda n, c: Str(chr(c) * n), args[1], args[2])
        else: raise M.Unsupported('string append ' + sig)
        setstr(m, this, concat(a, b))
        return this
    if meth in ('size', 'length'): return amap(strlen_, getstr(m, this))
    if meth == 'empty': return amap(lambda s: int(not s.p) if s.text() is not None else 0, getstr(m, this))
    if meth in ('c_str', 'data', '_M_data'): return cstr_ptr(m, getstr(m, this))
    if meth == 'substr':
        far = amap(lambda x, q: int(x.text() is not None and type(q) is int and q > len(x.text())), getstr(m, args[1]), args[2])
        if not is0(far):
            if not is0(AND(m.pc, far)): m.event('throw', pc=AND(m.pc, far), what='std::out_of_range')
            m.pc = AND(m.pc, NOT(far))
            if is0(m.pc): return None
        setstr(m, args[0], substr(getstr(m, args[1]), args[2], args[3])); return None
    if meth == 'compare':
        o = getstr(m, args[1]) if isS else cstr(m, args[1])
        a = getstr(m, this)
        return amap(lambda x: 0 if x == 1 else 1, streq(a, o))
    if meth == 'clear': setstr(m, this, Str('')); return None
    if meth in ('reserve', 'shrink_to_fit'): return None
    if meth in ('operator[]', 'at', 'front', 'back'):
        out = None; cut = 0
        for q in m.each(this):
            s = getstr(m, q)
            k = args[1] if len(args) > 1 else 0 if meth == 'front' else amap(lambda x: strlen_(x) - 1 if x.text() is not None else opaque('int:last', *[y if isinstance(y, Num) else str(y) for y in x.p]), s)
            if meth == 'at':
                far = amap(lambda x, i: int(type(i) is int and x.text() is not None and i >= len(x.text())), s, k)
                if not is0(AND(m.pc, far)): m.event('throw', pc=AND(m.pc, far), what='std::out_of_range'); cut = OR(cut, AND(m.pc, far))
            v = m.padd(Ptr(view(m, q)), k)
            out = v if out is None else ite(m.pc, v, out)
        m.pc = AND(m.pc, NOT(cut))
        return out
    if meth in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
        a = getstr(m, this)
        def f(x, y, start):
            if x.text() is None or y.text() is None: return opaque('int:' + meth, x.disp(), y.disp())
            t = x.text(); k = y.text()
            if meth == 'find': r = t.find(k, start)
            elif meth == 'rfind': r = t.rfind(k)
            else:
                idx = [i for i, c in enumerate(t) if (c in k) == ('not' not in meth)]
                idx = [i for i in idx if i >= start] if 'first' in meth else [i for i in idx if i <= start]
                r = (idx[0] if 'first' in meth else idx[-1]) if idx else -1
            return r % (1 << 64)
        b = getstr(m, args[1]) if isS else (cstr(m, args[1]) if 'char const*' in sig else amap(lambda c: Str(chr(c)), args[1]))
        return amap(f, a, b, args[2])
    if meth == 'erase' and sig.startswith('(unsigned long'):
        def f(x, p, n):
            t = x.text(); n = min(n, len(t))
            return Str(t[:p] + t[p + n:])
        setstr(m, this, amap(f, getstr(m, this), args[1], args[2])); return this
    if meth in ('begin', 'end', 'cbegin', 'cend'):
        out = None
        for q in m.each(this):
            s = getstr(m, q); o = view(m, q)
            v = amap(lambda x: Ptr(o, 0 if meth.endswith('begin') else strlen_(x)), s)
            out = v if out is None else ite(m.pc, v, out)
        return out
    if meth == 'swap':
        a = getstr(m, this); b = getstr(m, args[1]); setstr(m, this, b); setstr(m, args[1], a); return None
    raise M.Unsupported('string::' + meth + sig)
def substr(s, p, n):
    def f(x, p, n):
        if x.text() is None or type(p) is not int or type(n) is not int:
            return Str(opaque('substr', x.disp(), str(p), str(n)))
        return Str(x.text()[p:p + n])
    return amap(f, s, p, n)
def string_op(m, name, args):
    """free operators on std::string"""
    d = m.prog.dem[name]
    op = re.search(r'std::operator(==|!=|\+|<)', d).group(1)
    al = d[M.basename(d).__len__():]
    parts = split_args(al)
    def v(i, a):
        p = parts[i]
        if 'basic_string' in p or ('char_traits' in p): return getstr(m, a)
        if '*' in p: return cstr(m, a)
        return amap(lambda c: Str(chr(c)), a)
    off = 1 if op == '+' else 0
    a = v(0, args[off]); b = v(1, args[off + 1])
    if op == '+':
        setstr(m, args[0], concat(a, b)); return None
    if op == '<': return amap(lambda x, y: int(x.text() < y.text()), a, b)
    e = streq(a, b)
    return e if op == '==' else NOT(e)
def split_args(al):
    al = al[1:al.rindex(')')]
    out = []; d = 0; cur = ''
    for ch in al:
        if ch in '<(': d += 1
        if ch in '>)': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
def to_string(m, name, args):
    d = m.prog.dem[name]
    t = split_args(d[d.index('('):])[0]
    def f(x):
        if type(x) is int:
            bits = 64 if 'long' in t else 32
            return Str(str(M.sx(x, bits) if 'unsigned' not in t else x))
        return Str(x)
    setstr(m, args[0], amap(f, args[1])); return None

# ------------------------------------------------------------------ iostream
def ostream_op(m, name, args):
    d = m.prog.dem[name]
    v = args[1] if len(args) > 1 else None
    if v is not None:
        if 'basic_string' in d and 'basic_string<char, std::char_traits<char>, std::allocator<char> > const&)' in d: v = getstr(m, v)
        elif 'char const*' in d: v = cstr(m, v)
    if v is not None and not (isinstance(v, Ptr) or isinstance(v, M.Fn)): m.event('print', val=v, to=args[0])
    if m.rec is not None and type(args[0]) is Ptr and args[0].obj.kind != 'ext': touch(m, args[0], 8, 'w')
    return args[0]
def retarg0(m, name, args): return args[0] if args else None
def retnone(m, name, args): return None
def ret0(m, name, args): return 0
def ret1(m, name, args): return 1
def stream_of(m, p, create=None):
    st = m.__dict__.setdefault('_streams', {})
    q = p
    if type(p) is not Ptr: raise M.Unsupported('stream pointer')
    k = (id(q.obj),)
    if create is not None: st[k] = create; create['keep'] = q.obj
    return st.get(k)
def fstream_ctor(m, name, args):
    d = m.prog.dem[name]
    out = 'ofstream' in d
    s = {'name': None, 'pos': 0, 'open': 0, 'out': out, 'checked': 0}
    stream_of(m, args[0], s)
    vt = M.Obj('vtable for stream', 'global', 4096); vt.fills.append((0, 4096, lambda o, f, z, t: 0))
    m.wr(args[0], 8, Ptr(vt, 2048), m.pc)
    if '()' in d[-3:]: return None
    fopen_(m, s, d, args[1]); return None
def fopen_(m, s, d, a):
    nm = getstr(m, a) if 'basic_string<char, std::char_traits<char>, std::allocator<char> > const&' in d else cstr(m, a)
    s['name'] = nm; s['pos'] = 0
    s['open'] = 1 if s['out'] else m.file_open(nm)
    m.event('open', name=nm, out=s['out'])
def fstream_open(m, name, args):
    s = stream_of(m, args[0])
    if s is None: s = {'pos': 0, 'out': 'ofstream' in m.prog.dem[name], 'checked': 0}; stream_of(m, args[0], s)
    fopen_(m, s, m.prog.dem[name], args[1]); return None
def stream_state(m, name, args):
    s = stream_of(m, args[0])
    d = M.basename(m.prog.dem[name])
    if s is None: ok = 1
    else: ok = s['open']; s['checked'] = 1
    return NOT(ok) if d.endswith('operator!') or d.endswith('fail') or d.endswith('bad') else (0 if d.endswith('eof') else ok)
def istream_read(m, name, args):
    d = m.prog.dem[name]
    s = stream_of(m, args[0])
    t = re.search(r'operator>>\((.*)&\)', d).group(1)
    if s is None: v = symbol(m.fresh('input'))
    else:
        bad = AND(m.pc, NOT(s['open']))
        if not is0(bad): m.event('read-closed', pc=bad, name=s['name'])
        v = amap(lambda n, k: m.token(n.text() or n.disp(), k, t), s['name'], s['pos'])
        s['pos'] = ite(m.pc, amap(lambda k: k + 1, s['pos']), s['pos'])
    ty = F64 if t == 'double' else (I32 if 'int' in t and 'long' not in t else (I64 if 'long' in t else None))
    if ty is None: raise M.Unsupported('>> ' + t)
    m.store(args[1], ty, v)
    return args[0]
def default_open(nm): return 1
def default_token(f, k, t):
    if t == 'double': return symbol('file:%s[%d]' % (f.split('/')[-1], k))
    return 3

# ------------------------------------------------------------------ memory
def new(kind):
    def h(m, name, args):
        def f(n):
            if type(n) is int and n > 1 << 45: m.event('huge-alloc', size=n)
            return Ptr(m.alloc(m.fresh('heap'), 'heap', n if type(n) is int else n, kind))
        if type(args[0]) is Ite:
            out = None
            for n in m.each(args[0]):
                v = f(n); out = v if out is None else ite(m.pc, v, out)
            return out
        return f(args[0])
    return h
def delete(kind):
    def h(m, name, args): m.free(args[0], kind)
    return h
def memcpy(m, name, args): m.memcpy(args[0], args[1], args[2]); return args[0]
def memset(m, name, args): m.memset(args[0], args[1], args[2]); return args[0]
def exit_(m, name, args):
    m.event('exit', code=args[0] if args else None); m.pc = 0
def throw(m, name, args):
    m.event('throw', fn=m.prog.dem.get(name, name), args=args); m.pc = 0
def fill_a1(m, name, args):
    d = m.prog.dem[name]
    t = re.search(r'__fill_a1<(.*?)\*, ', d).group(1)
    first, last, vp = args
    if t == 'double': ty, sz = F64, 8
    elif t.endswith('*'): ty, sz = PTR, 8
    elif 'int' in t and 'long' not in t: ty, sz = I32, 4
    elif 'long' in t: ty, sz = I64, 8
    elif t in ('char', 'bool', 'unsigned char'): ty, sz = I8, 1
    else: raise M.Unsupported('fill ' + d)
    v = m.load(vp, ty) if type(vp) is not Num else vp
    for a, b in m.each(first, last):
        if type(a) is not Ptr or type(b) is not Ptr: continue
        if type(a.off) is int and type(b.off) is int:
            if b.off <= a.off: continue
            if (b.off - a.off) // sz <= 64:
                for o in range(a.off, b.off, sz): m.store(Ptr(a.obj, o), ty, v)
            else:
                m.access(a, b.off - a.off, 'w'); m.fill(a.obj, a.off, b.off, lambda o, f, s, t, v=v: v)
        else: m.fill(a.obj, 0, 1 << 60, lambda o, f, s, t, v=v: v)
    return None

# ------------------------------------------------------------------ random
def dist_draw(m, name, args):
    d = m.prog.dem[name]
    kind = re.search(r'std::(?:\w+::)*(\w+)_distribution', d).group(1)
    this = args[0]; eng = args[1]
    par = this if len(args) < 3 else args[2]
    touch(m, eng, 8, 'w'); touch(m, this, 16, 'w' if kind == 'normal' else 'r')
    if kind in ('uniform_real', 'normal'):
        a = m.load(par, F64); b = m.load(m.padd(par, 8), F64)
        if kind == 'uniform_real':
            u = symbol(m.fresh('U'), 0.02, 0.98, wide='down'); val = amap(lambda x, y: add(x, mul(sub(y, x), u)), a, b)
        else:
            u = symbol(m.fresh('G'), -2.0, 2.0); val = amap(lambda x, y: add(x, mul(y, u)), a, b)
        m.event('draw', dist=kind, a=a, b=b, sym=u, val=val, engine=eng)
        return val
    a = m.load(par, F64) if kind in ('poisson', 'exponential', 'bernoulli') else None
    if kind == 'uniform_int': a = m.load(par, I32); 
    u = symbol(m.fresh('int:D' if kind in ('poisson', 'uniform_int', 'discrete', 'binomial') else 'X'))
    m.event('draw', dist=kind, a=a, b=None, sym=u, val=u, engine=eng)
    return u
def touch(m, p, size, rw):
    """an access made inside a library call"""
    if m.rec is not None:
        for q in m.each(p):
            if type(q) is Ptr: m.rec(m, q.obj, q.off, size, rw)
def engine_draw(m, name, args):
    touch(m, args[0], 8, 'w')
    u = symbol(m.fresh('int:R'))
    m.event('engine-draw', engine=args[0])
    return u

def seed_draw(m, name, args):
    m.event('seed-draw'); return symbol(m.fresh('int:R'))
# ------------------------------------------------------------------ OpenMP
def kmpc_fork(m, name, args):
    fn = args[2]; rest = args[3:]
    if m.parallel: raise M.Unsupported('nested parallel region')
    n = m.__dict__.pop('pushed', None) or m.omp_threads
    if type(n) is not int: n = m.omp_threads
    m.parallel += 1; m.region = m.__dict__.get('region', 0) + 1; m.phases = {}
    m.event('fork', fn=fn, n=n)
    pcs = []
    pc0 = m.pc
    for t in range(n):
        m.tid = t; m.nthreads = n; m.pc = pc0
        g = M.Obj('gtid', 'stack', 4); g.cells[0] = (4, t); g.tid = t
        b = M.Obj('btid', 'stack', 4); b.cells[0] = (4, t); b.tid = t
        m.callv(fn, [Ptr(g), Ptr(b)] + list(rest))
        if m.locks and not is0(m.pc): m.event('lock-held', locks=m.locks); m.locks = ()
        pcs.append(m.pc)
    m.tid = 0; m.nthreads = 1; m.parallel -= 1
    m.event('join', fn=fn)
    pc = pcs[0]
    for p in pcs[1:]: pc = AND(pc, p)
    m.pc = pc
def set_threads(m, name, args):
    n = restrict(args[0], m.pc); m.event('set-threads', n=n)
    if type(n) is int: m.omp_threads = M.sx(n, 32)
    if type(n) is not int or m.omp_threads < 1: m.event('bad-threads', n=n); m.omp_threads = 1
def kmpc_push(m, name, args):
    m.pushed = restrict(args[2], m.pc); m.event('set-threads', n=m.pushed)
def kmpc_barrier(m, name, args): d = m.__dict__.setdefault('phases', {}); d[m.tid] = d.get(m.tid, 0) + 1; m.event('barrier')
def kmpc_static(w, signed):
    ty = ('i', w)
    def h(m, name, args):
        # ident, gtid, sched, plast, plower, pupper, pstride, incr, chunk
        lo = m.load(args[4], ty); hi = m.load(args[5], ty)
        n = m.nthreads; t = m.tid
        m.event('worksharing', lo=lo, hi=hi)
        def part(l, h_):
            cnt = h_ - l + 1
            per = -(-cnt // n)
            return l + t * per, min(h_, l + (t + 1) * per - 1)
        def fl(l, h_): return part(M.sx(l, w) if signed else l, M.sx(h_, w) if signed else h_)[0] % (1 << w)
        def fh(l, h_): return part(M.sx(l, w) if signed else l, M.sx(h_, w) if signed else h_)[1] % (1 << w)
        m.store(args[4], ty, amap(fl, lo, hi)); 
        h2 = amap(fh, lo, hi)
        m.store(args[5], ty, h2)
        m.store(args[3], I32, 1 if t == n - 1 else 0)
        m.store(args[6], ty, 1 << 20)
    return h
def kmpc_dispatch_init(w):
    ty = ('i', w)
    def h(m, name, args):
        lo, hi, st = args[3], args[4], args[5]
        m.__dict__.setdefault('_disp_state', {})[m.tid] = [lo, hi, False]
        m.event('worksharing', lo=lo, hi=hi)
    return h
def kmpc_dispatch_next(w):
    ty = ('i', w)
    def h(m, name, args):
        lo, hi, done = m._disp_state[m.tid]
        if done: return 0
        m._disp_state[m.tid][2] = True
        n = m.nthreads; t = m.tid
        cnt = hi - lo + 1; per = -(-cnt // n)
        a = lo + t * per; b = min(hi, a + per - 1)
        if a > b: return 0
        m.store(args[3], ty, a); m.store(args[4], ty, b); m.store(args[2], I32, int(t == n - 1)); m.store(args[5], ty, 1)
        return 1
    return h
def lockname(m, p):
    return amap(lambda q: q.obj.name + str(q.off) if type(q) is Ptr else 'lock?', p)
def kmpc_critical(m, name, args): m.locks = m.locks + (lockname(m, args[2]),); m.event('lock', name=m.locks[-1])
def kmpc_end_critical(m, name, args):
    l = lockname(m, args[2]); ls = list(m.locks)
    if l in ls: ls.remove(l)
    m.locks = tuple(ls); m.event('unlock', name=l)
def omp_set_lock(m, name, args): m.locks = m.locks + (lockname(m, args[-1]),)
def omp_unset_lock(m, name, args):
    l = lockname(m, args[-1]); ls = list(m.locks)
    if l in ls: ls.remove(l)
    m.locks = tuple(ls)
def kmpc_reduce(m, name, args): m.locks = m.locks + ('reduction',); return 1
def kmpc_end_reduce(m, name, args): m.locks = tuple(x for x in m.locks if x != 'reduction')
def guard_acquire(m, name, args):
    lk = m.locks; m.locks = lk + ('once',); v = m.load(args[0], I8)
    if v != 0: m.locks = lk
    return amap(lambda x: int(x == 0) if type(x) is int else 1, v)
def guard_release(m, name, args):
    m.store(args[0], I8, 1); m.locks = tuple(x for x in m.locks if x != 'once')

def install(m):
    m.file_open = default_open; m.token = default_token
    m.omp_threads = 2
    m.env = {}
    R = []
    def a(p, h): R.append((re.compile(p), h))
    a(r'.*' + STR.replace('<char, std::char_traits<char>, std::allocator<char> ?>', r'<char, std::char_traits<char>, std::allocator<char> ?>') + r'::(?:.*)', string_guard)
    a(r'.*std::operator(==|!=|\+|<)<char, std::char_traits<char>, std::allocator<char> ?>\(.*', string_op)
    a(r'std::__cxx11::to_string\(.*', to_string)
    a(r'.*std::to_string\(.*', to_string)
    a(r'(.* )?std::(basic_ostream<char, std::char_traits<char> ?>::)?operator<<.*', ostream_op)
    a(r'std::basic_ostream<char.*>::operator<<.*', ostream_op)
    a(r'std::ostream::operator<<.*', ostream_op)
    a(r'std::basic_[io]?fstream<.*>::basic_[io]?fstream\(.*', fstream_ctor)
    a(r'std::basic_[io]?fstream<.*>::~.*', retnone)
    a(r'std::basic_[io]?fstream<.*>::open\(.*', fstream_open)
    a(r'std::basic_[io]?fstream<.*>::is_open\(.*', stream_state)
    a(r'std::basic_[io]?fstream<.*>::close\(.*', retnone)
    a(r'std::basic_ios<.*>::(operator!|operator bool|good|fail|eof|bad)\(.*', stream_state)
    a(r'std::basic_istream<.*>::operator>>\(.*', istream_read)
    a(r'std::istream::operator>>\(.*', istream_read)
    a(r'std::basic_ios<.*>::(clear|setstate|exceptions|precision)\(.*', ret0)
    a(r'std::ios_base::.*', ret0)
    a(r'std::(operator\||setprecision|setw).*', ret0)
    a(r'.*__cxx_global_var_init.*ios.*', retnone)
    a(r'operator new\[\]\(.*', new('new[]')); a(r'operator new\(.*', new('new')); a(r'malloc', new('malloc'))
    a(r'operator delete\[\]\(.*', delete('new[]')); a(r'operator delete\(.*', delete('new')); a(r'free', delete('malloc'))
    a(r'calloc', lambda m, n, x: calloc(m, x))
    a(r'llvm\.mem(cpy|move)\..*|memcpy|memmove', memcpy)
    a(r'llvm\.memset\..*|memset', memset)
    for f in ('sqrt', 'exp', 'log', 'log10', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'cbrt', 'sinh', 'cosh', 'tanh', 'log1p', 'expm1', 'exp2', 'log2', 'exp10'):
        a(r'%s|llvm\.%s\.f64' % (f, f), nums(lambda *x, f=f: fn(f, *x)))
    a(r'pow|llvm\.pow\.f64', nums(power))
    a(r'hypot', nums(lambda x, y: fn('sqrt', add(mul(x, x), mul(y, y)))))
    a(r'fmod', nums(lambda x, y: opaque('fmod', x, y)))
    for k in ('floor', 'ceil', 'round', 'trunc'): a(r'%s|llvm\.%s\.f64' % (k, k), rnd(k))
    a(r'lround|llround|rint|nearbyint|llvm\.rint\.f64|llvm\.nearbyint\.f64', rnd('round'))
    a(r'fabs|llvm\.fabs\.f64', fabs)
    a(r'fmax|llvm\.maxnum\.f64', fmax); a(r'fmin|llvm\.minnum\.f64', fmin)
    a(r'isnan|isinf|llvm\.is\.fpclass\..*', ret0)
    a(r'llvm\.fmuladd\.f64|llvm\.fma\.f64|fma', nums(lambda x, y, z: add(mul(x, y), z)))
    a(r'llvm\.copysign\.f64|copysign', nums(lambda x, y: ite(lt0(y), neg(absn(x)), absn(x)) if type(absn(x)) is Num else amap(lambda q: ite(lt0(y), neg(q), q), absn(x))))
    a(r'llvm\.umul\.with\.overflow\.i64', lambda m, n, x: M.Agg([m.ibin('mul', I64, x[0], x[1]), amap(lambda p, q: int(p * q >= 1 << 64) if type(p) is int and type(q) is int else 0, x[0], x[1])]))
    a(r'llvm\.uadd\.with\.overflow\.i64', lambda m, n, x: M.Agg([m.ibin('add', I64, x[0], x[1]), 0]))
    a(r'llvm\.threadlocal\.address\.p0', retarg0)
    a(r'llvm\.(stacksave|stackrestore)(\.p0)?', ret0)
    a(r'llvm\.is\.constant\..*', ret0); a(r'llvm\.eh\.typeid\.for.*', ret0); a(r'llvm\.expect\..*', retarg0)
    for k in ('smax', 'umax', 'smin', 'umin'):
        a(r'llvm\.%s\.i(32|64)' % k, lambda m, n, x, k=k: amap(lambda p, q: (max if 'max' in k else min)(p, q), x[0], x[1]))
    a(r'llvm\.abs\.i(32|64)', lambda m, n, x: amap(lambda p: p, x[0]))
    a(r'llvm\.trap|abort|__assert_fail|__clang_call_terminate|std::terminate\(\)|__cxa_throw|__cxa_rethrow|std::__throw_.*|__cxa_pure_virtual|__cxa_call_unexpected', throw)
    a(r'exit|_exit|quick_exit|std::exit.*', exit_)
    a(r'__cxa_guard_acquire', guard_acquire); a(r'__cxa_guard_release', guard_release)
    a(r'__cxa_atexit|__cxa_thread_atexit', ret0)
    a(r'__cxa_allocate_exception', lambda m, n, x: Ptr(M.Obj('exception', 'heap', None)))
    a(r'__cxa_begin_catch|__cxa_end_catch|__cxa_free_exception', ret0)
    a(r'getenv', getenv)
    a(r'srand|usleep|sleep|fflush', ret0)
    a(r'printf|puts|fprintf|putchar|fputs', printf_)
    a(r'time|clock|omp_get_wtime|std::chrono::.*', lambda m, n, x: symbol('wallclock'))
    a(r'strlen', lambda m, n, x: amap(strlen_, cstr(m, x[0])))
    a(r'strcmp', lambda m, n, x: amap(lambda e: 0 if e == 1 else 1, streq(cstr(m, x[0]), cstr(m, x[1]))))
    a(r'tolower', lambda m, n, x: amap(lambda c: (c + 32 if 65 <= c <= 90 else c) if type(c) is int else opaque('int:tolower', c), x[0]))
    a(r'toupper', lambda m, n, x: amap(lambda c: (c - 32 if 97 <= c <= 122 else c) if type(c) is int else opaque('int:toupper', c), x[0]))
    UP = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'; LOW = UP.lower()
    for nm, cs in (('isdigit', '0123456789'), ('isxdigit', '0123456789abcdefABCDEF'), ('isupper', UP), ('islower', LOW), ('isalpha', UP + LOW), ('isalnum', UP + LOW + '0123456789'), ('isblank', ' \t'),
                   ('ispunct', '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'), ('isprint', ''.join(map(chr, range(32, 127)))), ('iscntrl', ''.join(map(chr, range(32))) + chr(127))):
        a(nm, lambda m, n, x, cs=cs: amap(lambda c: int(0 <= c < 256 and chr(c) in cs) if type(c) is int else boolatom('%s(%s)' % (n, show(c))), x[0]))
    a(r'isspace', lambda m, n, x: amap(lambda c: int(c in (32, 9, 10, 11, 12, 13)) if type(c) is int else boolatom('isspace(%s)' % show(c)), x[0]))
    a(r'.*std::__fill_a1<.*\*, (double|int|unsigned int|char|unsigned long|long|[^<>]*\*)>\(.*', fill_a1)
    a(r'.*std::\w+_distribution<.*>::operator\(\)<.*', dist_draw)
    a(r'.*std::poisson_distribution<.*>::poisson_distribution\(.*', lambda m, n, x: m.store(x[0], F64, x[1]) if len(x) > 1 else None)
    a(r'std::mersenne_twister_engine<.*>::operator\(\)\(.*', engine_draw)
    a(r'std::mersenne_twister_engine<.*>::(?!operator).*', lambda m, n, x: m.event('engine-init', engine=x[0]) and None)
    a(r'std::linear_congruential_engine<.*>::operator\(\)\(.*', engine_draw)
    a(r'std::linear_congruential_engine<.*>::(?!operator).*', lambda m, n, x: m.event('engine-init', engine=x[0]) and None)
    a(r'std::random_device::operator\(\)\(\)', seed_draw)
    a(r'rand', lambda m, n, x: m.event('libc-rand') and symbol(m.fresh('int:rand')))
    a(r'std::random_device::.*', retnone)
    a(r'__kmpc_fork_call', kmpc_fork)
    a(r'__kmpc_for_static_init_4u', kmpc_static(32, False)); a(r'__kmpc_for_static_init_4', kmpc_static(32, True))
    a(r'__kmpc_for_static_init_8u', kmpc_static(64, False)); a(r'__kmpc_for_static_init_8', kmpc_static(64, True))
    a(r'__kmpc_dispatch_init_4u?', kmpc_dispatch_init(32)); a(r'__kmpc_dispatch_next_4u?', kmpc_dispatch_next(32))
    a(r'__kmpc_dispatch_init_8u?', kmpc_dispatch_init(64)); a(r'__kmpc_dispatch_next_8u?', kmpc_dispatch_next(64))
    a(r'__kmpc_critical(_with_hint)?', kmpc_critical); a(r'__kmpc_end_critical', kmpc_end_critical)
    a(r'__kmpc_reduce(_nowait)?', kmpc_reduce); a(r'__kmpc_end_reduce(_nowait)?', kmpc_end_reduce)
    a(r'omp_set_lock|omp_set_nest_lock|pthread_mutex_lock|std::mutex::lock.*', omp_set_lock)
    a(r'omp_unset_lock|omp_unset_nest_lock|pthread_mutex_unlock|std::mutex::unlock.*', omp_unset_lock)
    a(r'omp_(init|destroy)_(nest_)?lock', retnone)
    a(r'__kmpc_(master|single|masked)', lambda m, n, x: int(m.tid == 0)); a(r'__kmpc_end_(master|single|masked)', retnone)
    a(r'__kmpc_barrier', kmpc_barrier)
    a(r'__kmpc_(for_static_fini|dispatch_fini.*|flush|serialized_parallel|end_serialized_parallel)', lambda m, n, x: m.event('kmpc', fn=n, args=x) and None)
    a(r'__kmpc_push_num_threads', kmpc_push)
    a(r'__kmpc_global_thread_num|omp_get_thread_num', lambda m, n, x: m.tid)
    a(r'omp_get_num_threads', lambda m, n, x: m.nthreads)
    a(r'omp_get_max_threads', lambda m, n, x: m.omp_threads)
    a(r'omp_set_num_threads', set_threads)
    a(r'omp_in_parallel', lambda m, n, x: int(m.parallel > 0))
    a(r'omp_get_num_procs', lambda m, n, x: 8)
    a(r'std::allocator<.*>::(~?allocator)\(.*|std::__new_allocator<.*>::(~?__new_allocator)\(.*', retnone)
    a(r'.*std::transform<.*basic_string<char.*', transform_)
    a(r'.*std::replace_if<.*basic_string<char.*', replace_if_)
    m.overrides = R
def string_guard(m, name, args):
    d = m.prog.dem[name]
    return string_method(m, name, args)
def absn(x): return ite(lt0(x), neg(x), x)
def calloc(m, x):
    n = m.ibin('mul', I64, x[0], x[1])
    p = new('malloc')(m, '', [n]); m.memset(p, 0, n); return p
def getenv(m, name, args):
    s = cstr(m, args[0])
    m.event('getenv', name=s)
    def f(x):
        v = m.env.get(x.text(), 'default')
        if v is None: return 0
        if v == 'default': v = Str('$' + (x.text() or '?'))
        if isinstance(v, (Str,)): return cstr_ptr(m, v)
        return v
    return amap(f, s)
def printf_(m, name, args):
    for x in args:
        if type(x) is Ptr: m.event('print', val=cstr(m, x), to=None)
        elif isinstance(x, Num): m.event('print', val=x, to=None)
    return 0
def callable_of(m, name, args):
    """the function object handed to a standard algorithm: a function pointer, a functor or lambda by value (empty ones leave no argument)"""
    for x in args:
        if type(x) is M.Fn: return lambda c: m.call(x.name, [c])
    d = m.prog.dem[name]
    for x, e in m.prog.dem.items():
        k = e.find('::operator()(')
        if k > 0 and e[:k] in d and re.search(r'::operator\(\)\((char|int|unsigned char|signed char)\)( const)?$', e) and e.index('::operator()(', k) == k and m.prog.resolve(x, None)[0] is not None:
            if re.search(r'::operator\(\)\([^)]*\)( const)?$', e).start() != k: continue
            def f(c, x=x):
                this = next((a for a in args if type(a) is Ptr and a.obj.kind == 'stack' and not a.obj.model), None) or Ptr(M.Obj('functor', 'stack', 8))
                return m.call(x, [this, c])
            return f
    return None
def transform_(m, name, args):
    if len(args) < 4 or type(args[3]) is not M.Fn or not re.search('to(lower|upper)', m.prog.dem.get(args[3].name, args[3].name)):
        a, b, o = [restrict(x, m.pc) for x in args[:3]]
        f = callable_of(m, name, args[3:])
        if f is None or not (type(a) is Ptr and a.obj.model and a.obj.model[0] == 'view' and a.off == 0 and o.obj is a.obj and o.off == 0): raise M.Unsupported('transform')
        s = restrict(getstr(m, a.obj.model[1]), m.pc); t = s.text() if isinstance(s, Str) else None
        if t is None:
            r = [f(ord(c)) for c in 'aZ']
            if r == [97, 122]: s = Str(opaque('lower', s.disp()))
            elif r == [65, 90]: s = Str(opaque('upper', s.disp()))
            else: raise M.Unsupported('transform of an unknown text')
        else:
            r = [restrict(f(ord(c)), m.pc) for c in t]
            if not all(type(x) is int for x in r): raise M.Unsupported('transform')
            s = Str(''.join(chr(x & 255) for x in r))
        setstr(m, a.obj.model[1], s); return args[2]
    first, last, out, f = args[:4]
    r = None
    for a, b, o, g in m.each(first, last, out, f):
        if not (type(a) is Ptr and a.obj.model and a.obj.model[0] == 'view'): raise M.Unsupported('transform')
        fn_ = m.prog.dem.get(g.name, g.name) if type(g) is M.Fn else '?'
        s = getstr(m, a.obj.model[1])
        low = 'tolower' in fn_; up = 'toupper' in fn_
        full = type(a.off) is int and a.off == 0 and a.obj is b.obj and a.obj is o.obj and o.off == 0
        def app(x):
            if not (low or up) or not full: raise M.Unsupported('transform ' + fn_)
            if b.off != strlen_(x) and b.off is not strlen_(x): return x
            t = x.text()
            if t is not None: return Str(''.join(c.lower() if low and ord(c) < 128 else c.upper() if up and ord(c) < 128 else c for c in t))
            return Str(opaque('lower' if low else 'upper', x.disp()))
        setstr(m, a.obj.model[1], amap(app, s))
    return out
def replace_if_(m, name, args):
    """std::replace_if over a string with a predicate object: char by char for concrete strings"""
    raise M.Unsupported('replace_if')
