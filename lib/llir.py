"""Reader for textual LLVM IR (clang 18, -O0): types, globals, functions."""
import re, struct, subprocess
from functools import lru_cache
TOK = re.compile(r'''c"[^"]*"|%"[^"]*"|%[-\w.$]+|@"[^"]*"|@[-\w.$]+|![\w.]*|"[^"]*"|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|[A-Za-z_][\w.]*|\.\.\.|#\d+|[()\[\]{}<>,=*|:]''')
def toks(s): return TOK.findall(s)
PTR = ('ptr',); VOID = ('void',); F64 = ('f', 8); F32 = ('f', 4); LABEL = ('label',); META = ('meta',)
ATTRW = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'writable', 'dead_on_unwind', 'inreg', 'returned',
         'readonly', 'readnone', 'writeonly', 'nocapture', 'immarg', 'allocptr', 'allocalign', 'nofree', 'nest', 'noext',
         'swiftself', 'returns_twice', 'captures', 'initializes'}
PATTR = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'allocsize', 'elementtype', 'byref', 'inalloca', 'preallocated', 'range', 'nofpclass'}

class Module:
    def __init__(self, path, name):
        self.name = name; self.path = path
        self.types = {}; self.globals = {}; self.funcs = {}; self.aliases = {}; self.decls = set()
        self.meta = {}; self.ctors = []
        self._lay = {}
        txt = open(path).read().split('\n')
        i = 0; n = len(txt)
        while i < n:
            l = txt[i]
            if l.startswith('define'):
                j = i + 1
                while txt[j] != '}': j += 1
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                nm = m.group(1).strip('"')
                self.funcs[nm] = (i, j, l)
                i = j
            elif l.startswith('%'):
                m = re.match(r'%("[^"]*"|[-\w.$]+) = type (.*)', l)
                if m: self.types[m.group(1).strip('"')] = m.group(2)
            elif l.startswith('@'):
                m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)', l)
                nm = m.group(1).strip('"'); r = m.group(2)
                if re.search(r'\balias\b', r.split('@')[0]):
                    self.aliases[nm] = re.search(r'@("[^"]*"|[-\w.$]+)', r).group(1).strip('"')
                else: self.globals[nm] = r
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                self.decls.add(m.group(1).strip('"'))
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (.*)', l)
                if m: self.meta[int(m.group(1))] = m.group(2)
            i += 1
        self.txt = txt
        g = self.globals.get('llvm.global_ctors')
        if g: self.ctors = re.findall(r'ptr @([\w.]+), ptr', g)
        self._pf = {}
        self._loc = {}

    # ---- types
    def ptype(self, t, i):
        x = t[i]
        if x == 'ptr': r = PTR; i += 1
        elif x[0] == 'i' and x[1:].isdigit(): r = ('i', int(x[1:])); i += 1
        elif x == 'double': r = F64; i += 1
        elif x == 'float': r = F32; i += 1
        elif x == 'x86_fp80': r = ('f', 16); i += 1
        elif x == 'void': r = VOID; i += 1
        elif x == 'label': r = LABEL; i += 1
        elif x == 'metadata': r = META; i += 1
        elif x[0] == '%': r = ('n', x[1:].strip('"')); i += 1
        elif x == '[':
            n = int(t[i + 1]); assert t[i + 2] == 'x'
            e, i = self.ptype(t, i + 3); assert t[i] == ']'; i += 1
            r = ('a', n, e)
        elif x == '{':
            fs = []; i += 1
            while t[i] != '}':
                e, i = self.ptype(t, i); fs.append(e)
                if t[i] == ',': i += 1
            i += 1; r = ('s', tuple(fs), False)
        elif x == '<':
            if t[i + 1] == '{':
                s, i = self.ptype(t, i + 1); i += 1; r = ('s', s[1], True)
            else:
                n = int(t[i + 1]); e, i = self.ptype(t, i + 3); i += 1; r = ('v', n, e)
        elif x == 'opaque': r = ('opaque',); i += 1
        else: raise SyntaxError('type %r in %r' % (x, t[max(0, i - 8):i + 8]))
        if i < len(t) and t[i] == '(':           # function type
            d = 0
            while True:
                if t[i] == '(': d += 1
                if t[i] == ')':
                    d -= 1
                    if d == 0: break
                i += 1
            i += 1
            r = ('fn', r)
        return r, i
    def body(self, name):
        b = self.types.get(name)
        if isinstance(b, str):
            b = self.ptype(toks(b), 0)[0]
            self.types[name] = b
        return b
    def lay(self, t):
        """(size, align, offsets)"""
        r = self._lay.get(t)
        if r: return r
        k = t[0]
        if k == 'i':
            s = 1
            while s * 8 < t[1]: s *= 2
            r = (s, min(s, 16), None)
        elif k == 'f': r = (t[1], t[1], None)
        elif k == 'ptr': r = (8, 8, None)
        elif k in 'av':
            s, a, _ = self.lay(t[2]); r = (s * t[1], a, None)
        elif k == 's':
            off = 0; al = 1; offs = []
            for f in t[1]:
                s, a, _ = self.lay(f)
                if t[2]: a = 1
                off = (off + a - 1) // a * a
                offs.append(off); off += s; al = max(al, a)
            r = ((off + al - 1) // al * al, al, offs)
        elif k == 'n':
            b = self.body(t[1])
            r = self.lay(b) if b and b[0] != 'opaque' else (0, 1, [])
        else: r = (0, 1, None)
        self._lay[t] = r
        return r
    def size(self, t): return self.lay(t)[0]
    def field(self, t, idx):
        if t[0] == 'n': t = self.body(t[1])
        if t[0] == 's': return self.lay(t)[2][idx], t[1][idx]
        return self.size(t[2]) * idx, t[2]
    def fields(self, t):
        """[(offset, type)] of an aggregate"""
        if t[0] == 'n': t = self.body(t[1])
        if t[0] == 's': return list(zip(self.lay(t)[2], t[1]))
        return [(i * self.size(t[2]), t[2]) for i in range(t[1])]

    # ---- values. ('r',reg) ('k',python constant) ('g',global) ('u',) ('z',type) ('gep',base,offset) ('agg',[(type,val)]) ('str',bytes)
    def pval(self, ty, t, i):
        x = t[i]
        if x[0] == '%': return ('r', x[1:].strip('"')), i + 1
        if x[0] == '@': return ('g', x[1:].strip('"')), i + 1
        if x in ('undef', 'poison'): return ('u',), i + 1
        if x == 'zeroinitializer': return ('z', ty), i + 1
        if x == 'null': return ('k', 0), i + 1
        if x == 'true': return ('k', 1), i + 1
        if x == 'false': return ('k', 0), i + 1
        if x == 'none': return ('u',), i + 1
        if x.startswith('c"'):
            b = x[2:-1]
            bs = re.sub(rb'\\([0-9A-Fa-f]{2})', lambda m: bytes([int(m.group(1), 16)]), b.encode('latin1'))
            return ('str', bs), i + 1
        if ty[0] == 'f':
            if x.startswith('0x'):
                if x[2] in 'KLM': return ('kf', float('nan')), i + 1
                v = struct.unpack('>d', bytes.fromhex(x[2:].zfill(16)))[0]
            else: v = float(x)
            return ('kf', v), i + 1
        if ty[0] == 'i' and re.match(r'-?\d+$', x):
            v = int(x)
            return ('k', v % (1 << ty[1])), i + 1
        if x == 'getelementptr':
            i += 1
            while t[i] != '(': i += 1
            i += 1
            while t[i] in ('inrange',): i += 1
            bt, i = self.ptype(t, i); i += 1
            pt, i = self.ptype(t, i); base, i = self.pval(pt, t, i)
            off = 0; cur = bt; first = True
            while t[i] == ',':
                i += 1
                if t[i] == 'inrange': i += 1
                it, i = self.ptype(t, i)
                v, i = self.pval(it, t, i)
                n = self._sx(v[1], it[1])
                if first: off += n * self.size(bt); first = False
                else:
                    o, cur = self.field(cur, n); off += o
            return ('gep', base, off), i + 1
        if x in ('inttoptr', 'ptrtoint', 'bitcast', 'addrspacecast', 'trunc', 'zext', 'sext'):
            i += 2
            st, i = self.ptype(t, i); v, i = self.pval(st, t, i)
            assert t[i] == 'to'; _, i = self.ptype(t, i + 1)
            return v, i + 1
        if x in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[x]
            i += 1
            if x == '<' and t[i] == '{': i += 1
            out = []
            while t[i] not in (']', '}', '>'):
                et, i = self.ptype(t, i); v, i = self.pval(et, t, i); out.append((et, v))
                if t[i] == ',': i += 1
            i += 1
            if x == '<' and i < len(t) and t[i - 1] == '}' and t[i] == '>': i += 1
            return ('agg', out), i
        if x in ('sub', 'add', 'icmp', 'select'):
            d = 0
            while True:
                if t[i] == '(': d += 1
                if t[i] == ')':
                    d -= 1
                    if d == 0: break
                i += 1
            return ('u',), i + 1
        raise SyntaxError('value %r (%r) in %s' % (x, ty, ' '.join(t[max(0, i - 10):i + 10])))
    @staticmethod
    def _sx(v, n): return v - (1 << n) if v >> (n - 1) & 1 else v
    def skip_attrs(self, t, i):
        by = None
        while i < len(t):
            x = t[i]
            if x in ATTRW: i += 1
            elif x in PATTR:
                i += 1
                if x == 'align' and t[i] != '(':
                    i += 1; continue
                if t[i] == '(':
                    st = i; d = 0
                    while True:
                        if t[i] == '(': d += 1
                        if t[i] == ')':
                            d -= 1
                            if d == 0: break
                        i += 1
                    i += 1
                    if x == 'byval': by = self.ptype(t, st + 1)[0]
            elif x[0] == '"': i += 1
            else: break
        return i, by

    # ---- functions
    def func(self, name):
        f = self._pf.get(name)
        if f is None:
            a, b, head = self.funcs[name]
            f = self._pf[name] = Function(self, name, head, self.txt[a + 1:b])
        return f
    def loc(self, n):
        """(file, line) of a debug location number"""
        if n is None: return None
        r = self._loc.get(n)
        if r is None:
            m = self.meta.get(n, '')
            ln = re.search(r'line: (\d+)', m)
            r = (self._file(n), int(ln.group(1)) if ln else 0)
            self._loc[n] = r
        return r
    def _file(self, n, depth=0):
        m = self.meta.get(n, '')
        if depth > 12: return '?'
        if m.startswith('!DIFile') or '!DIFile(' in m:
            return re.search(r'filename: "([^"]*)"', m).group(1)
        f = re.search(r'file: !(\d+)', m)
        if f: return self._file(int(f.group(1)), depth + 1)
        s = re.search(r'scope: !(\d+)', m)
        if s: return self._file(int(s.group(1)), depth + 1)
        return '?'


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze_'}
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg', 'volatile', 'atomic', 'tail', 'notail', 'musttail', 'samesign', 'nusw'}
class Function:
    """Decoded body. blocks: name -> list of instruction tuples (op, dst, dbg, ...)"""
    def __init__(self, mod, name, head, lines):
        self.mod = mod; self.name = name
        m = re.search(r'!dbg !(\d+)', head)
        self.scope = int(m.group(1)) if m else None
        t = toks(head)
        i = next(k for k, x in enumerate(t) if x[0] == '@') + 2
        self.params = []; self.byval = []
        while t[i] != ')':
            if t[i] == '...': i += 1; continue
            ty, i = mod.ptype(t, i)
            i, by = mod.skip_attrs(t, i)
            if t[i][0] == '%': nm = t[i][1:].strip('"'); i += 1
            else: nm = str(len(self.params))
            self.params.append((ty, nm)); self.byval.append(by)
            if t[i] == ',': i += 1
        self.blocks = {}; self.order = []
        cur = None; k = 0
        while k < len(lines):
            l = lines[k]; k += 1
            if not l.strip() or l.lstrip().startswith(';'): continue
            if l[0] not in ' \t':
                m = re.match(r'("[^"]*"|[-\w.$]+):', l)
                if m:
                    cur = m.group(1).strip('"'); self.blocks[cur] = []; self.order.append(cur); continue
            if cur is None:
                cur = 'entry'; self.blocks[cur] = []; self.order.append(cur)
            s = l.strip()
            if s.startswith('switch ') and s.endswith('['):
                while ']' not in lines[k]: s += ' ' + lines[k].strip(); k += 1
                s += ' ' + lines[k].strip(); k += 1
            elif re.match(r'(%[^=]* = )?invoke ', s):
                s += ' ' + lines[k].strip(); k += 1
            elif ' = landingpad ' in s:
                while lines[k].strip().startswith(('catch', 'cleanup', 'filter')): k += 1
            self.blocks[cur].append(self.decode(s))
        self.entry = self.order[0]
        self._wto()
    def decode(self, s):
        M = self.mod
        dbg = None
        m = re.search(r', !dbg !(\d+)', s)
        if m: dbg = int(m.group(1))
        s = re.sub(r', ![a-zA-Z_.]+ !\d+', '', s)
        t = toks(s)
        dst = None; i = 0
        if len(t) > 1 and t[1] == '=': dst = t[0][1:].strip('"'); i = 2
        op = t[i]; i += 1
        while i < len(t) and t[i] in FLAGS: i += 1
        if op in ('tail', 'notail', 'musttail'): op = 'call'; i += 1 if t[i] == 'call' else 0
        if op in BIN or op in FBIN:
            ty, i = M.ptype(t, i); a, i = M.pval(ty, t, i); b, i = M.pval(ty, t, i + 1)
            return (op, dst, dbg, ty, a, b)
        if op == 'fneg':
            ty, i = M.ptype(t, i); a, i = M.pval(ty, t, i); return (op, dst, dbg, a)
        if op in ('icmp', 'fcmp'):
            while t[i] in FLAGS: i += 1
            pred = t[i]; i += 1
            ty, i = M.ptype(t, i); a, i = M.pval(ty, t, i); b, i = M.pval(ty, t, i + 1)
            return (op, dst, dbg, pred, ty, a, b)
        if op in CAST or op == 'freeze':
            ty, i = M.ptype(t, i); a, i = M.pval(ty, t, i)
            to = ty
            if op != 'freeze': to, i = M.ptype(t, i + 1)
            return ('cast', dst, dbg, op, ty, a, to)
        if op == 'alloca':
            ty, i = M.ptype(t, i); n = ('k', 1)
            if i < len(t) and t[i] == ',' and t[i + 1] not in ('align',):
                nt, i = M.ptype(t, i + 1); n, i = M.pval(nt, t, i)
            return (op, dst, dbg, ty, n)
        if op == 'load':
            ty, i = M.ptype(t, i); _, i = M.ptype(t, i + 1); a, i = M.pval(PTR, t, i)
            return ('aload' if 'atomic' in t[:5] else op, dst, dbg, ty, a)
        if op == 'store':
            ty, i = M.ptype(t, i); v, i = M.pval(ty, t, i); _, i = M.ptype(t, i + 1); a, i = M.pval(PTR, t, i)
            return ('astore' if 'atomic' in t[:4] else op, None, dbg, ty, v, a)
        if op == 'getelementptr':
            ty, i = M.ptype(t, i); _, i = M.ptype(t, i + 1); base, i = M.pval(PTR, t, i)
            off = 0; dyn = []; cur = ty; first = True
            while i < len(t) and t[i] == ',':
                it, i = M.ptype(t, i + 1); v, i = M.pval(it, t, i)
                if first: sz, nxt = M.size(ty), ty
                else:
                    ct = M.body(cur[1]) if cur[0] == 'n' else cur
                    if ct[0] == 's':
                        o, nxt = M.field(ct, v[1]); off += o; cur = nxt; continue
                    sz, nxt = M.size(ct[2]), ct[2]
                if v[0] == 'k': off += M._sx(v[1], it[1]) * sz
                else: dyn.append((v, sz, it[1]))
                first = False; cur = nxt
            return ('gep', dst, dbg, base, off, dyn)
        if op in ('call', 'invoke'):
            while t[i] in ATTRW or t[i] in ('fastcc', 'coldcc', 'addrspace') or t[i] in PATTR:
                if t[i] in PATTR: i, _ = M.skip_attrs(t, i)
                else: i += 1
            i, _ = M.skip_attrs(t, i)
            rt, i = M.ptype(t, i)
            if rt[0] == 'fn': rt = rt[1]
            if t[i] == 'asm': return ('nop', dst, dbg)
            callee, i = M.pval(PTR, t, i)
            assert t[i] == '('; i += 1
            args = []
            while t[i] != ')':
                ty, i = M.ptype(t, i); i, by = M.skip_attrs(t, i)
                if ty == META:
                    while t[i] not in (',', ')'):
                        if t[i] == '(':
                            d = 0
                            while True:
                                if t[i] == '(': d += 1
                                if t[i] == ')':
                                    d -= 1
                                    if d == 0: break
                                i += 1
                        i += 1
                    v = ('u',)
                else: v, i = M.pval(ty, t, i)
                args.append((ty, v))
                if t[i] == ',': i += 1
            nxt = None
            if op == 'invoke':
                m = re.search(r'to label %("[^"]*"|[-\w.$]+)', s); nxt = m.group(1).strip('"')
            if callee[0] == 'g' and callee[1].startswith(('llvm.dbg.', 'llvm.lifetime', 'llvm.assume', 'llvm.experimental.noalias')):
                return ('nop', dst, dbg)
            return ('call', dst, dbg, rt, callee, args, nxt)
        if op == 'br':
            if t[i] == 'label': return ('jmp', None, dbg, t[i + 1][1:].strip('"'))
            ty, i = M.ptype(t, i); c, i = M.pval(ty, t, i)
            a = t[i + 2][1:].strip('"'); b = t[i + 5][1:].strip('"')
            return ('br', None, dbg, c, a, b)
        if op == 'switch':
            ty, i = M.ptype(t, i); c, i = M.pval(ty, t, i)
            d = t[i + 2][1:].strip('"'); i += 3
            cs = []
            i += 1
            while t[i] != ']':
                ct, i = M.ptype(t, i); v, i = M.pval(ct, t, i)
                cs.append((v[1], t[i + 2][1:].strip('"'))); i += 3
            return ('switch', None, dbg, c, d, cs)
        if op == 'ret':
            ty, i = M.ptype(t, i)
            if ty == VOID: return ('ret', None, dbg, None, None)
            v, i = M.pval(ty, t, i)
            return ('ret', None, dbg, ty, v)
        if op == 'phi':
            ty, i = M.ptype(t, i); inc = []
            while True:
                v, i = M.pval(ty, t, i + 1)
                inc.append((v, t[i + 1][1:].strip('"'))); i += 3
                if i >= len(t) or t[i] != ',': break
                i += 1
            return ('phi', dst, dbg, ty, inc)
        if op == 'select':
            ty, i = M.ptype(t, i); c, i = M.pval(ty, t, i)
            ta, i = M.ptype(t, i + 1); a, i = M.pval(ta, t, i)
            tb, i = M.ptype(t, i + 1); b, i = M.pval(tb, t, i)
            return ('select', dst, dbg, c, a, b)
        if op in ('extractvalue', 'insertvalue'):
            ty, i = M.ptype(t, i); a, i = M.pval(ty, t, i)
            v = None
            if op == 'insertvalue':
                vt, i = M.ptype(t, i + 1); v, i = M.pval(vt, t, i)
            idx = []
            while i < len(t) and t[i] == ',': idx.append(int(t[i + 1])); i += 2
            return (op, dst, dbg, ty, a, v, idx)
        if op in ('unreachable', 'landingpad', 'resume', 'fence'): return (op if op != 'fence' else 'nop', dst, dbg)
        if op == 'atomicrmw':
            while t[i] in FLAGS: i += 1
            k = t[i]; i += 1
            _, i = M.ptype(t, i); a, i = M.pval(PTR, t, i)
            ty, i = M.ptype(t, i + 1); v, i = M.pval(ty, t, i)
            return ('atomicrmw', dst, dbg, k, a, ty, v)
        if op == 'cmpxchg':
            while t[i] in FLAGS or t[i] == 'weak': i += 1
            _, i = M.ptype(t, i); a, i = M.pval(PTR, t, i)
            ty, i = M.ptype(t, i + 1); o, i = M.pval(ty, t, i); _, i = M.ptype(t, i + 1); v, i = M.pval(ty, t, i)
            return ('cmpxchg', dst, dbg, ty, a, o, v)
        return ('unsupported', dst, dbg, op)
    def succs(self, b):
        x = self.blocks[b][-1]
        if x[0] == 'jmp': return [x[3]]
        if x[0] == 'br': return [x[4], x[5]]
        if x[0] == 'switch': return [x[4]] + [c[1] for c in x[5]]
        if x[0] == 'call' and x[6]: return [x[6]]
        return []
    def _wto(self):
        """weak topological order (Bourdoncle): position of each block, loop heads, loop membership"""
        num = {b: 0 for b in self.order}
        stack = []; self.pos = {}; cnt = [0]; part = []
        import sys
        heads = set()
        def visit(v, partition):
            stack.append(v); cnt[0] += 1; num[v] = cnt[0]; head = cnt[0]; loop = False
            for s in self.succs(v):
                mn = visit(s, partition) if num[s] == 0 else num[s]
                if mn <= head: head = mn; loop = True
            if head == num[v]:
                num[v] = 1 << 60
                e = stack.pop()
                if loop:
                    while e != v:
                        num[e] = 0; e = stack.pop()
                    comp = []
                    for s in self.succs(v):
                        if num[s] == 0: visit(s, comp)
                    heads.add(v)
                    partition.insert(0, (v, comp))
                else: partition.insert(0, v)
            return head
        visit(self.entry, part)
        self.heads = heads
        self.loopof = {}
        def flat(p, inside):
            for x in p:
                if isinstance(x, tuple):
                    self.pos[x[0]] = len(self.pos); self.loopof[x[0]] = inside + (x[0],)
                    flat(x[1], inside + (x[0],))
                else: self.pos[x] = len(self.pos); self.loopof[x] = inside
        flat(part, ())

def demangle(names):
    names = list(names)
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
    return dict(zip(names, r))
