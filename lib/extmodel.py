"""HDF5, MPI and pybind11 by their documented contracts."""
from vals import *
import vals, stdmodel, re
from stdmodel import getstr, cstr, I64, I32, I8
from llir import F64, PTR, VOID
import machine as M

def fake_object(m, p, what):
    vt = M.Obj('vtable for $' + what, 'global', 4096); vt.fills.append((0, 4096, lambda o, f, z, t: M.Fn('$%s%d' % (what, f))))
    m.wr(p, 8, Ptr(vt, 1024), m.pc)
def text(m, v):
    v = restrict(v, m.pc)
    return v.text() if isinstance(v, Str) and v.text() is not None else show(v)

class File:
    def __init__(self): self.groups = {''}; self.sets = {}; self.order = []; self.errors = []; self.mode = None; self.name = None
def h5(w):
    """one output file, as the set of groups and datasets it holds"""
    f = w.h5 = File()
    def err(m, what): m.event('h5-error', what=what); f.errors.append((what, m.where()))
    def opened(m, n, a):
        if len(a) < 3: fake_object(m, a[0], 'h5'); return
        m.event('h5-open', name=cstr(m, a[1]), mode=a[2]); f.name = text(m, cstr(m, a[1])); f.mode = a[2]; fake_object(m, a[0], 'h5')
    def norm(p): return '/'.join(x for x in p.split('/') if x)
    def group(m, n, a):
        sret = len(a) == 4
        p = norm(text(m, cstr(m, a[-2] if len(a) > 2 else a[-1])))
        if p in f.groups or p in f.sets: err(m, 'group %s is created although it exists' % p)
        if '/'.join(p.split('/')[:-1]) not in f.groups: err(m, 'group %s is created before its parent' % p)
        f.groups.add(p); m.event('h5-group', path=p)
        fake_object(m, a[0], 'h5')
    def objinfo(m, n, a):
        p = norm(text(m, cstr(m, a[1])))
        return 0 if p in f.groups or p in f.sets else (1 << 32) - 1
    def exists(m, n, a):
        p = norm(text(m, cstr(m, a[1]) if 'char' in m.prog.dem.get(n, 'char') else getstr(m, a[1]))); return int(p in f.groups or p in f.sets)
    def space(m, n, a):
        fake_object(m, a[0], 'h5')
        if len(a) < 3: m.wr(m.padd(a[0], 8), 8, Ptr(M.Obj('space', 'h5', 8)), m.pc); return
        rank = a[1]; dims = []
        for i in range(rank if type(rank) is int else 0): dims.append(m.load(m.padd(a[2], 8 * i), I64))
        o = M.Obj('space', 'h5', 8); o.model = ('space', dims); m.spaces[id(a[0].obj), a[0].off] = o
    w.spaces = {}
    def dataset(m, n, a):
        d = m.prog.dem[n]
        i = next(k for k in range(len(a)) if k > 1 or (k == 1))
        # sret, this, name, type, space, ...
        nm = getstr(m, a[2]) if 'std::' in d.split('(')[1].split(',')[0] else cstr(m, a[2])
        p = norm(text(m, nm)); sp = m.spaces.get((id(a[4].obj), a[4].off))
        dims = sp.model[1] if sp is not None else None
        if p in f.groups or p in f.sets: err(m, 'dataset %s is created although it exists' % p)
        if '/'.join(p.split('/')[:-1]) not in f.groups: err(m, 'dataset %s is created before its group' % p)
        ty = a[3].obj.name if type(a[3]) is Ptr else '?'
        s = {'path': p, 'dims': dims, 'type': ty, 'values': None, 'loc': m.where(), 'mtype': None, 'pc': m.pc}
        f.sets[p] = s; f.order.append(p); fake_object(m, a[0], 'h5'); m.dsets[id(a[0].obj), a[0].off] = s; a[0].obj.model = ('dset', s)
        m.event('h5-dataset', path=p, dims=dims, type=ty)
    w.dsets = {}
    def write(m, n, a):
        s = a[0].obj.model[1] if a[0].obj.model and a[0].obj.model[0] == 'dset' else None
        if s is None: err(m, 'write to something that is not a dataset'); return
        s['mtype'] = a[2].obj.name if type(a[2]) is Ptr else '?'
        n_ = 1
        for x in s['dims'] or []: n_ = amap(lambda p, q: p * q if type(p) is int and type(q) is int else UNDEF, n_, x)
        if type(n_) is not int: s['values'] = 'symbolic'; m.event('h5-symbolic', path=s['path']); return
        s['values'] = [m.load(m.padd(a[1], 8 * i), F64) for i in range(n_)]; s['buffer'] = a[1]
    def copied(m, n, a):     # DataSet/Group copy or move constructors
        fake_object(m, a[0], 'h5')
        if type(a[1]) is Ptr and a[1].obj.model: a[0].obj.model = a[1].obj.model
    A = w.override
    A(r'H5::H5File::H5File\(.*', opened); A(r'H5::H5File::~H5File\(.*', lambda m, n, a: None)
    A(r'H5::(H5Location|Group|CommonFG|H5Object)::createGroup\(.*', group); A(r'H5Gget_objinfo|H5Oexists_by_name', objinfo)
    A(r'H5::\w+::(nameExists|exists)\(.*', exists); A(r'H5Lexists', exists)
    A(r'H5::\w+::openGroup\(.*', lambda m, n, a: fake_object(m, a[0], 'h5'))
    A(r'H5::DataSpace::DataSpace\(.*', space); A(r'H5::\w+::~\w+\(.*', lambda m, n, a: None)
    A(r'H5::\w+::createDataSet\(.*', dataset); A(r'H5::DataSet::write\(.*', write); A(r'H5::(DataSet|Group)::(DataSet|Group)\(H5::.*', copied)
    A(r'H5::(DataSet|Group)::(DataSet|Group)\(\)', lambda m, n, a: fake_object(m, a[0], 'h5'))
    A(r'H5::\w+::close\(.*', lambda m, n, a: None)
    A(r'H5E.*|H5open|H5check.*|H5dont.*', lambda m, n, a: 0)
    A(r'H5Eauto_is_v2', lambda m, n, a: m.store(a[1], I32, 1) or 0)
    A(r'H5Eget_auto[12]?', lambda m, n, a: m.store(a[-2], PTR, 0) or m.store(a[-1], PTR, 0) or 0)
    def virt(m, n, a):
        if m.rt is None or m.rt == VOID: m.free(a[0], 'new'); return None      # deleting destructor
        return 7
    A(r'\$h5\d+', virt)

class Net:
    def __init__(self, size): self.size = size; self.pending = []; self.errors = []; self.trace = {}; self.n = 0
class Msg: pass
def tname(p): return p.obj.name.replace('ompi_mpi_', '') if type(p) is Ptr else show(p)
TY = {'double': (F64, 8), 'int': (I32, 4), 'unsigned': (I32, 4), 'long': (I64, 8), 'unsigned_long': (I64, 8)}
def mpi(w, rank, net):
    """one rank of a communicator; messages are kept in net. Workers are analysed first"""
    w.rank = rank; w.epoch = 0; w.net = net; tr = net.trace.setdefault(rank, [])
    def err(m, what): m.event('mpi-error', what=what); net.errors.append((what, m.where(), m.pc))
    A = w.override
    A(r'MPI_Init|MPI_Init_thread', lambda m, n, a: tr.append(('init', m.pc)) or 0); A(r'MPI_Finalize', lambda m, n, a: tr.append(('finalize', m.pc)) or 0)
    A(r'MPI_Comm_rank', lambda m, n, a: m.store(a[1], I32, rank) or 0); A(r'MPI_Comm_size', lambda m, n, a: m.store(a[1], I32, net.size) or 0)
    def barrier(m, n, a): w.epoch += 1; tr.append(('barrier', m.pc)); return 0
    A(r'MPI_Barrier', barrier)
    def conc(m, *xs): return [restrict(x, m.pc) for x in xs]
    def send(m, n, a):
        c, dst, tag = conc(m, a[1], a[3], a[4]); t = tname(a[2])
        if not all(type(x) is int for x in (c, dst, tag)): err(m, 'a message of symbolic size, destination or tag'); return 0
        g = Msg(); g.src = rank; g.dst = dst; g.tag = tag; g.type = t; g.count = c; g.epoch = w.epoch; g.loc = m.where(); g.pc = m.pc; net.n += 1; g.n = net.n
        ty, sz = TY.get(t, (None, 1))
        if ty is None: err(m, 'a message of type %s' % t); return 0
        g.data = [m.load(m.padd(a[0], sz * i), ty) for i in range(c)]
        if dst == rank or not 0 <= dst < net.size: err(m, 'rank %d sends to rank %d of %d' % (rank, dst, net.size))
        net.pending.append(g); tr.append(('send', dst, tag)); return 0
    A(r'MPI_Send|MPI_Ssend|MPI_Bsend', send)
    def find(m, src, tag, what, count=None):
        src = src - (1 << 32) if src >> 31 else src; tag = tag - (1 << 32) if tag >> 31 else tag
        c = [g for g in net.pending if g.dst == rank and (src == -1 or g.src == src) and (tag == -1 or g.tag == tag) and g.epoch <= w.epoch]
        if src == -1:
            for s in {g.src for g in c}:
                k = [g for g in c if g.src == s]
                if len(k) > 1: err(m, 'a receive from any source can take a message of another exchange: rank %d may have sent tag %d %d times by then' % (s, k[0].tag, len(k)))
            # any of the senders may come first: the last of them does, and each must fit
            first = {}
            for g in c: first.setdefault(g.src, g)
            c = [first[s] for s in sorted(first, reverse=True)]
            if count is not None and any(g.count != count for g in c): err(m, 'a receive of %d elements from any source can take a message of %s' % (count, [g.count for g in c if g.count != count][0]))
        # messages of one source and tag are taken in order
        if not c: err(m, '%s from rank %s with tag %s but no such message is sent' % (what, 'any' if src == -1 else src, tag)); return None
        return c[0]
    def probe(m, n, a):
        s, t = conc(m, a[0], a[1]); g = find(m, s, t, 'rank %d probes for a message' % rank)
        if g is None: m.pc = 0; return 0
        a[3].obj.model = ('status', g)
        m.store(a[3], I32, g.src); m.store(m.padd(a[3], 4), I32, g.tag)
        return 0
    A(r'MPI_Probe', probe)
    def get_count(m, n, a):
        g = a[0].obj.model[1] if type(a[0]) is Ptr and a[0].obj.model and a[0].obj.model[0] == 'status' else None
        if g is None: err(m, 'MPI_Get_count on a status that no call has set'); return 0
        if tname(a[1]) != g.type: err(m, 'MPI_Get_count with %s for a message of %s' % (tname(a[1]), g.type))
        m.store(a[2], I32, g.count); return 0
    A(r'MPI_Get_count', get_count)
    def recv(m, n, a):
        c, s, t = conc(m, a[1], a[3], a[4])
        if not all(type(x) is int for x in (c, s, t)): err(m, 'a receive of symbolic size, source or tag'); return 0
        g = find(m, s, t, 'rank %d receives' % rank, c)
        tr.append(('recv', g.src if g else None, t))
        if g is None: m.pc = 0; return 0
        net.pending.remove(g); g.taken = m.where()
        ty = tname(a[2])
        if ty != g.type: err(m, 'a message sent as %s is received as %s' % (g.type, ty))
        if c != g.count: err(m, 'a message of %d elements is received as %d' % (g.count, c))
        T, sz = TY.get(ty, (F64, 8))
        for i, v in enumerate(g.data[:c if c < 1 << 31 else 0]): m.store(m.padd(a[0], sz * i), T, v)
        if type(a[6]) is Ptr: a[6].obj.model = ('status', g); m.store(a[6], I32, g.src); m.store(m.padd(a[6], 4), I32, g.tag)
        return 0
    A(r'MPI_Recv', recv)
    def reduce_(m, n, a): err(m, 'collective %s is not modelled' % n); return 0
    A(r'MPI_(Reduce|Allreduce|Gather|Gatherv|Bcast|Allgather)', reduce_)

def pybind(w):
    """arrays handed to Python: the elements and the shape"""
    w.arrays = {}
    def cast(m, n, a):
        o = M.Obj('python object', 'py', 8)
        b = m.load(a[1], PTR); e = m.load(m.padd(a[1], 8), PTR)
        n_ = amap(lambda x: x // 8 if type(x) is int else UNDEF, m.ibin('sub', I64, e, b))
        o.model = ('array', {'n': n_, 'values': [m.load(m.padd(b, 8 * i), F64) for i in range(n_)] if type(n_) is int else None, 'shape': None})
        m.store(a[0], PTR, Ptr(o))
    def move(m, n, a): m.store(a[0], PTR, m.load(a[1], PTR))
    def resize(m, n, a):
        p = m.load(a[0], PTR)
        v = a[1]; b = m.load(v, PTR); e = m.load(m.padd(v, 8), PTR)
        k = m.ibin('sub', I64, e, b)
        dims = [m.load(m.padd(b, 8 * i), I64) for i in range(k // 8)] if type(k) is int else None
        if type(p) is Ptr and p.obj.model: p.obj.model[1]['shape'] = dims
    A = w.override
    A(r'_ZN8pybind114castI.*St6vectorIdSaIdEE.*|pybind11::object pybind11::cast<std::vector<double.*', cast)
    A(r'pybind11::array_t<double, \d+>::array_t\(pybind11::(object|array_t).*', move); A(r'pybind11::(object|array|array_t<double, \d+>)::(object|array|array_t)\(pybind11::(object|array|array_t<double, \d+>).*', move)
    A(r'pybind11::array::resize\(.*', resize)
    A(r'pybind11::(handle|object|array|array_t<double, \d+>)::~.*', lambda m, n, a: None)

# ---------------------------------------------------------------- C files, conversions and std::map<string, string>
NUMCH = '0123456789.+-eE'
# numerals of odd shapes, which together use every character of decimal text, each stand for the text of an arbitrary number:
# read as they are they give that number, mangled in any way they give another
def numeral(i): return ('7%02d.3', '-8%02d.6', '+9%02de-3', '6%02dE+2', '.4%02d9', '5%02d.e7')[i % 6] % i
NUMERALS = {numeral(i): i for i in range(100)}
REAL = r'[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)'
def parse_prefix(t, rx):
    k = re.match(r'[ \t\n\r\f\v]*', t).end(); g = re.compile(rx).match(t, k)
    return (g.group(0), g.end()) if g else (None, 0)
def deckio(w, files):
    """files: path -> text. Reading lines, conversions of C strings and the map of values by their documented contracts"""
    w.files_open = []; w.numbers = getattr(w, 'numbers', [])
    def path(m, p): return text(m, cstr(m, p))
    A = w.override
    A(r'stat|__xstat|stat64|access', lambda m, n, a: 0 if path(m, a[0] if n != '__xstat' else a[1]) in files else (1 << 32) - 1)
    def fopen(m, n, a):
        p = path(m, a[0]); m.event('fopen', path=p)
        if p not in files: return 0
        o = M.Obj('FILE', 'heap', 8); o.alloc = 'file'; o.model = ['file', files[p], 0]; w.files_open.append(o); return Ptr(o)
    A(r'fopen|fopen64', fopen)
    def fclose(m, n, a):
        for p in m.each(a[0]):
            if type(p) is Ptr: m.free(p, 'file')
            else: m.event('null-deref', ptr=p)
        return 0
    A(r'fclose', fclose)
    def fgets(m, n, a):
        b, k, f = [restrict(x, m.pc) for x in a[:3]]
        if type(f) is not Ptr or f.obj.freed != 0: m.event('use-after-free' if type(f) is Ptr else 'null-deref', obj=f.obj if type(f) is Ptr else None, ptr=f); return 0
        t, i = f.obj.model[1:3]
        if type(k) is not int: raise M.Unsupported('fgets of symbolic size')
        if i >= len(t): return 0
        e = t.find('\n', i); e = len(t) if e < 0 else e + 1
        e = min(e, i + k - 1); f.obj.model[2] = e
        m.access(b, k, 'w')      # the buffer must hold what may be read
        for j, ch in enumerate(t[i:e] + '\0'): m.wr(m.padd(b, j), 1, ord(ch), m.pc)
        return b
    A(r'fgets', fgets)
    def strchr(m, n, a):
        s, c = text(m, cstr(m, a[0])), restrict(a[1], m.pc)
        if type(c) is not int: raise M.Unsupported('strchr')
        k = (s + '\0').find(chr(c & 255)); return m.padd(a[0], k) if k >= 0 else 0
    A(r'strchr', strchr)
    def strncpy(m, n, a):
        k = restrict(a[2], m.pc); s = text(m, cstr(m, a[1]))
        if type(k) is not int: raise M.Unsupported('strncpy')
        if m.access(a[0], k, 'w'):
            for j in range(k): m.wr(m.padd(a[0], j), 1, ord(s[j]) if j < len(s) else 0, m.pc)
        else: m.pc = 0
        return a[0]
    A(r'strncpy', strncpy)
    def strcpy(m, n, a):
        s = text(m, cstr(m, a[1])); o = a[0]
        if n == 'strcat': o = m.padd(a[0], len(text(m, cstr(m, a[0]))))
        if m.access(o, len(s) + 1, 'w'):
            for j, ch in enumerate(s + '\0'): m.wr(m.padd(o, j), 1, ord(ch), m.pc)
        else: m.pc = 0
        return a[0]
    A(r'strcpy|stpcpy|strcat', strcpy)
    A(r'strrchr', lambda m, n, a: (lambda k: m.padd(a[0], k) if k >= 0 else 0)((text(m, cstr(m, a[0])) + '\0').rfind(chr(restrict(a[1], m.pc) & 255))))
    A(r'strstr', lambda m, n, a: (lambda k: m.padd(a[0], k) if k >= 0 else 0)(text(m, cstr(m, a[0])).find(text(m, cstr(m, a[1])))))
    def spn(m, n, a):
        s, c = text(m, cstr(m, a[0])), text(m, cstr(m, a[1])); k = 0
        while k < len(s) and (s[k] in c) == (n == 'strspn'): k += 1
        return (m.padd(a[0], k) if k < len(s) else 0) if n == 'strpbrk' else k
    A(r'strspn|strcspn|strpbrk', spn)
    def cmpn(m, n, a):
        s, t = text(m, cstr(m, a[0])), text(m, cstr(m, a[1]))
        if 'case' in n: s, t = s.lower(), t.lower()
        if len(a) > 2: k = restrict(a[2], m.pc); s, t = s[:k], t[:k]
        return 0 if s == t else (1 if s > t else (1 << 32) - 1)
    A(r'strncmp|strcasecmp|strncasecmp', cmpn)
    def number(rx, conv, ty):
        def h(m, n, a):
            s = restrict(cstr(m, a[0]), m.pc); end = a[1]
            if s.text() is None and len(s.p) == 1 and isinstance(s.p[0], Num):      # the decimal text of a number
                if type(end) is Ptr: m.store(end, PTR, m.padd(a[0], 1))
                return s.p[0]
            t = text(m, s); k = re.match(r'[ \t]*', t).end()
            g, e = parse_prefix(t, REAL)
            if g in NUMERALS and NUMERALS[g] < len(w.numbers):
                if type(end) is Ptr: m.store(end, PTR, m.padd(a[0], e))
                v = w.numbers[NUMERALS[g]]
                return v if ty == F64 else (v if type(v) is int else opaque('int:text', v))
            base = restrict(a[2], m.pc) if len(a) > 2 else None
            g, e = parse_prefix(t, rx if base in (None, 0) else r'[+-]?\d+')
            if base not in (None, 0, 10): raise M.Unsupported('base %s' % base)
            if base == 10 and g: g = re.sub(r'^([+-]?)0+(?=\d)', r'\1', g)
            if type(end) is Ptr: m.store(end, PTR, m.padd(a[0], e if g else 0))
            if len(a) > 2: m.event('base', base=a[2])
            return (conv(g) if g else conv('0'))
        return h
    A(r'strtod|atof', number(REAL, lambda g: const(str(D_(g))), F64))
    def toint(g): return int(g, 0) % (1 << 64) if re.match(r'[+-]?0[xX]', g) else (int(g, 8) if re.match(r'[+-]?0\d', g) else int(g)) % (1 << 64)
    A(r'(__isoc23_)?strto(l|ll|ul|ull)|atol|atoi|atoll', number(r'[+-]?(0[xX][0-9a-fA-F]+|\d+)', toint, I64))
    # std::map<std::string, std::string>
    def mp(m, p):
        if p.obj.model is None or not isinstance(p.obj.model, dict): p.obj.model = {}
        return p.obj.model.setdefault(p.off, {})
    def key(m, p):
        v = restrict(getstr(m, p), m.pc)
        return v
    def lookup(m, d, k):
        for q, o in d.items():
            if q == k: return o
        return None
    def end(m, p): return m.padd(p, 8)
    def find(m, n, a): o = lookup(m, mp(m, a[0]), key(m, a[1])); return Ptr(o) if o is not None else end(m, a[0])
    def count(m, n, a): return int(lookup(m, mp(m, a[0]), key(m, a[1])) is not None)
    def index(m, n, a):
        d = mp(m, a[0]); k = key(m, a[1]); o = lookup(m, d, k)
        if o is None:
            o = M.Obj('map node', 'mapnode', 96); o.cells[32] = (32, k); o.cells[64] = (32, Str('')); d[k] = o
        return Ptr(o, 64)
    def at(m, n, a):
        o = lookup(m, mp(m, a[0]), key(m, a[1]))
        if o is None: m.event('throw'); m.pc = 0; return Ptr(M.Obj('nothing', 'ext', None))
        return Ptr(o, 64)
    MAP = r'(?:.* )?std::map<std::__cxx11::basic_string<.*::'
    A(MAP + r'(map|~map)\(.*', lambda m, n, a: None); A(MAP + r'(find|lower_bound)\(.*', find); A(MAP + r'(count|contains)\(.*', count); A(MAP + r'operator\[\]\(.*', index); A(MAP + r'at\(.*', at)
    A(MAP + r'(end|cend)\(.*', lambda m, n, a: end(m, a[0])); A(MAP + r'size\(.*', lambda m, n, a: len(mp(m, a[0]))); A(MAP + r'empty\(.*', lambda m, n, a: int(not mp(m, a[0])))
    # std::replace_if on a string: the predicate is analysed on each character
    def replace_if(m, n, a):
        b = a[0]
        if not (type(b) is Ptr and b.obj.model and b.obj.model[0] == 'view' and b.off == 0): raise M.Unsupported('replace_if')
        new = chr((restrict(m.load(a[-1], I8), m.pc) if type(a[-1]) is Ptr else a[-1]) & 255); f = stdmodel.callable_of(m, n, a[2:-1])
        if f is None: raise M.Unsupported('predicate of replace_if')
        seen = {}
        def hit(ch):
            if ch not in seen: seen[ch] = restrict(f(ord(ch) if ord(ch) < 128 else ord(ch) - 256), m.pc)
            return seen[ch]
        s = restrict(getstr(m, b.obj.model[1]), m.pc); out = []
        for p in s.p:
            if isinstance(p, str): out.append(''.join(new if hit(c) else c for c in p))
            else: out.append(p if not any(hit(c) for c in NUMCH) else opaque('mangled', p))
        stdmodel.setstr(m, b.obj.model[1], Str(*out))
    A(r'.*std::replace_if<.*', replace_if)
    # std::stringstream as a sequence of numbers
    def ss_ctor(m, n, a):
        d = m.prog.dem[n]; v = Str('')
        for x in a[1:3]:
            if type(x) is Ptr and x.obj.cells.get(x.off) and isinstance(x.obj.cells[x.off][1], Str): v = restrict(getstr(m, x), m.pc); break
        m.streams = getattr(m, 'streams', {}); m.streams[a[0].obj.seq] = [list(v.p), False]
        vt = M.Obj('vtable for stream', 'global', 4096); vt.fills.append((0, 4096, lambda o, f, z, t: 0)); m.wr(a[0], 8, Ptr(vt, 2048), m.pc)
    A(r'std::(__cxx11::)?basic_i?stringstream<.*>::basic_i?stringstream\(.*', ss_ctor); A(r'std::(__cxx11::)?basic_i?stringstream<.*>::~.*', lambda m, n, a: None)
    def extract(m, n, a):
        st = getattr(m, 'streams', {}).get(a[0].obj.seq if type(a[0]) is Ptr else None)
        if st is None: return old(m, n, a)
        parts = st[0]
        while parts and isinstance(parts[0], str) and not parts[0].strip(): parts.pop(0)
        if st[1] or not parts: st[1] = True; m.store(a[1], F64, const(0)); return a[0]
        if isinstance(parts[0], Num):
            v = parts.pop(0)
            if parts and isinstance(parts[0], str) and not parts[0][0].isspace(): v = opaque('glued', v, parts[0])
            m.store(a[1], F64, v); return a[0]
        g, e = parse_prefix(parts[0], REAL)
        if not g: st[1] = True; m.store(a[1], F64, const(0)); return a[0]
        parts[0] = parts[0][e:]
        v = w.numbers[NUMERALS[g]] if g in NUMERALS and NUMERALS[g] < len(w.numbers) else const(str(D_(g)))
        if not parts[0]:
            parts.pop(0)
            if parts and isinstance(parts[0], Num): v = opaque('glued', v, parts.pop(0))
        m.store(a[1], F64, v); return a[0]
    old = next((h for p, h in w.overrides if p.pattern == r'std::istream::operator>>\(.*'), None)
    A(r'std::basic_istream<.*>::operator>>\(.*', extract); A(r'std::istream::operator>>\(.*', extract)
    olds = next((h for p, h in w.overrides if 'basic_ios' in p.pattern and 'operator!' in p.pattern), None)
    def state(m, n, a):
        p = restrict(a[0], m.pc); st = getattr(m, 'streams', {}).get(p.obj.seq if type(p) is Ptr else None)
        if st is None: return olds(m, n, a)
        d = m.prog.dem[n]; bad = int(st[1])
        return bad if re.search(r'operator!|fail|eof|bad\(', d) else 1 - bad
    A(r'std::basic_ios<.*>::(operator!|operator bool|good|fail|eof|bad)\(.*', state)
def D_(g):
    from decimal import Decimal
    return Decimal(g)
