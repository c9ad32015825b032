"""C17: input decks are read faithfully and malformed input is contained."""
from names import *
INI = 'Source/IO/Input/ini.cpp'; IR = 'Source/IO/Input/INIReader.cpp'
NUMS = [symbol('number%d' % i, -2.9, 2.9, True) for i in range(40)]
num = extmodel.numeral
def world(ck, text, cfg='std', name='run.ini'):
    w = W(ck.prog(cfg, drivers=('units',)), ck); w.numbers = NUMS; extmodel.deckio(w, {name: text} if text is not None else {}); w.events.clear(); return w
def read(ck, text):
    w = world(ck, text); w.broken = False
    try: w.r = w.new('INIReader', w.string('run.ini'))
    except extmodel.M.Unsupported as e:
        fs = [e for e in w.faults(('out-of-bounds', 'use-after-free', 'double-free'))]
        for x in fs[:1]: ck.obligation('reading a deck: memory', '%s %s' % (x.kind, x.data), loc=x.loc)
        ck.undec('reading a deck', e); w.broken = True; w.pc = 0; w.events.clear()
    return w
def sections(w):
    v = w.m(w.r, 'GetSections', cls='INIReader'); n = w.vsize(v, 32); b = w.vdata(v)
    if type(n) is not int: return None
    return [w.getstring(w.padd(b, 32 * i)) for i in range(n)]
def get(w, meth, s, k, d):
    a = w.string(d) if meth in ('Get', 'GetString') else w.vec(d) if meth == 'GetThreeVector' else d
    r = w.m(w.r, meth, w.string(s), w.string(k), a, cls='INIReader')
    return w.getstring(r) if meth in ('Get', 'GetString') else w.getvec(r) if meth == 'GetThreeVector' else r
def closed(ck, nm, w):
    op = [o for o in w.files_open if o.freed == 0]
    ck.obligation(nm + ': the file is closed', 'never closed' if op and not is0(w.pc) else None, loc=INI)
# ---------------------------------------------------------------- reference reader: the ini dialect of the documentation
def reference(text):
    """[section], key = value or key: value, # and ; comment lines, " ;" comments, indented continuation lines; names without case"""
    out = {}; secs = []; s = ''; prev = None
    for i, l in enumerate(text.split('\n')):
        if i == 0 and l.startswith('\xef\xbb\xbf'): l = l[3:]
        t = l.strip()
        if not t or t[0] in '#;': continue
        if prev and l[0].isspace(): v = t
        elif t[0] == '[':
            m = re.match(r'\[((?:(?!\s;)[^\]])*)\]', t)
            if m: s, prev = m.group(1), None
            continue
        else:
            m = re.match(r'((?:(?!\s;)[^=:])*)[=:](.*)', t)
            if not m: continue
            prev, v = m.group(1).strip(), re.sub(r'\s;.*', '', m.group(2)).strip()
        k = (s.lower(), prev.lower()); out[k] = out[k] + '\n' + v if out.get(k) else v
        if s not in secs: secs.append(s)
    return out, secs
TEXTS = {
 'plain': '[General]\nunits = SI\ntime_step = %s\n\n[Field]\nfield_type = static\n' % num(0),
 'no blanks': '[A]\nx=1\ny=two\n[B]\nx=3',
 'many blanks': '  [A]  \nx   =    1   \ny\t=\ttwo words \t\n\n\n[B]\n x = 3\n',
 'colons': '[A]\nx: 1\ny : two\nz = a:b=c\nw: a=b\n',
 'comments': '# first\n; second\n[A] ; third\nx = 1 ; one\n#x = 2\n;x = 3\ny = a;b\nz = c # d\n[B] # more\n# end\nx = 4',
 'empty values': '[A]\nx =\ny = \nz = 1\n[B]\nx = ; nothing\ny = 2\n',
 'letter case': '[GENERAL]\nUnits = SI\nTIME_STEP = 1\n[general]\ntime_end = 2\n',
 'mark': '\xef\xbb\xbf[A]\nx = 1\n', 'carriage returns': '[A]\r\nx = 1\r\ny = two\r\n[B]\r\nx = 3\r\n',
 'continued': '[A]\nx = 1\n  2\n  3\ny = 4\n[B]\n  x = 5\n', 'repeated': '[A]\nx = 1\n[B]\nx = 2\n[A]\ny = 3\nx = 4\n', 'no section': 'x = 1\n[A]\nx = 2\n',
 'no end of line': '[A]\nx = 1\n[B]\ny = 2', 'blank file': '', 'only blanks': '\n\n  \n\t\n', 'brackets in values': '[A]\nx = [1 2 3]\ny = [a]\n[B]\nz = (1, 2, 3)\n'}
MALFORMED = {'no closing bracket': '[B', 'lone bracket': '[', 'empty brackets': '[]', 'no separator': 'word', 'two words': 'some words', 'lone separator': '=', 'no key': '= 3', 'colon': ':', 'closing bracket': ']',
  'comment before the bracket': '[B ;]', 'comment before the separator': 'x ; = 3', 'nested': '[[B]]', 'tail': '[B] x = 4', 'control characters': '\x01\x02\x7f', 'signed characters': '\x9f\xdf = \xdf', 'percent': '%s%n = %n%s'}
def faults_of(ck, nm, w):
    fault_free(ck, nm, w)
    bad = [e for e in w.events if e.kind in ('exit', 'throw')]
    return bad
def agree(ck, nm, text, w, extra=()):
    want, secs = reference(text)
    got = sections(w)
    # a section counts once it holds a value
    ck.obligation(nm + ': sections', None if got is not None and [x.text() for x in got] == secs else 'are %s instead of %s' % (got, secs), loc=IR)
    for (s, k), v in list(want.items()) + [(x, None) for x in extra]:
        g = get(w, 'Get', s, k, 'the default')
        e = 'the default' if v is None else v
        ck.obligation('%s: %s/%s' % (nm, s, k), None if restrict(g, w.pc) == Str(e) else 'reads "%s" instead of "%s"' % (show(g), e), loc=INI)
def texts(ck):
    for n, t in sorted(TEXTS.items()):
        w = read(ck, t)
        if w.broken: continue
        nm = 'deck text, %s' % n
        ck.obligation(nm + ': is read', 'the program stops' if is0(w.pc) else None, loc=IR)
        if not is0(w.pc): agree(ck, nm, t, w, [('A', 'absent'), ('Absent', 'x')]); closed(ck, nm, w)
        fault_free(ck, nm, w); ck.absorb(w)
    for n, l in sorted(MALFORMED.items()):
        t = '[A]\nx = 1\n%s\ny = 2\n[C]\nz = 3\n' % l
        w = read(ck, t); nm = 'malformed line, %s' % n
        if w.broken: continue
        if not is0(w.pc):
            s = reference(t)[0]
            for (a, k), v in s.items():
                if k in 'yz' and len(k) == 1 or (a, k) == ('a', 'x'):
                    g = get(w, 'Get', a, k, 'the default'); ck.obligation('%s: %s/%s is still read' % (nm, a, k), None if restrict(g, w.pc) == Str(v) else 'reads "%s"' % show(g), loc=INI)
            closed(ck, nm, w)
        else: ck.obligation(nm + ': stops with a message', None if said(w) else 'no message', loc=INI)
        ck.obligation(nm + ': no exception', 'exception' if [e for e in w.events if e.kind == 'throw'] else None, loc=IR)
        fault_free(ck, nm, w); ck.absorb(w)
def lengths(ck):
    """names and lines at and around the sizes of the buffers, and far beyond"""
    caps = sorted({o for m in ck.prog('std', drivers=('units',)).mods.values() for o in array_sizes(m)})
    ls = sorted({x for c in caps if 8 <= c <= 4096 for x in (c - 1, c, c + 1)} | {1, 120, 190, 1000})
    ck.notes.append('buffer sizes of the reader: %s' % caps)
    for what, f in (('section name', lambda n: '[%s]\nx = 1\n' % ('s' * n)), ('key', lambda n: '[A]\n%s = 1\n' % ('k' * n)), ('value', lambda n: '[A]\nx = %s\n' % ('v' * n)), ('comment', lambda n: '#' + 'c' * n + '\n'),
                    ('continuation', lambda n: '[A]\nx = 1\n ' + 'v' * n + '\n'), ('line without separator', lambda n: 'w' * n + '\n'), ('section without bracket', lambda n: '[' + 's' * n + '\n'), ('blanks', lambda n: ' ' * n + '\n'),
                    ('blanks around', lambda n: '[A]\nx' + ' ' * n + '= 1\n')):
        for n in ls:
            t = f(n) + '\n[Z]\ny = 2\n'; w = read(ck, t); nm = '%s of %d characters' % (what, n)
            if w.broken: continue
            fault_free(ck, nm, w)
            if not is0(w.pc):
                g = get(w, 'Get', 'Z', 'y', 'the default'); ck.obligation(nm + ': what follows is read', None if restrict(g, w.pc) == Str('2') else 'Z/y reads "%s"' % show(g), loc=INI)
                if what in ('key', 'section name') and n < 50 or what == 'value' and n < 190:      # the documented limits
                    a, k, v = ('s' * n, 'x', '1') if what == 'section name' else ('A', 'k' * n, '1') if what == 'key' else ('A', 'x', 'v' * n)
                    g = get(w, 'Get', a, k, 'the default'); ck.obligation(nm + ': is read', None if restrict(g, w.pc) == Str(v) else 'reads "%s"' % show(g)[:60], loc=INI)
                closed(ck, nm, w)
            ck.absorb(w)
def array_sizes(m):
    """lengths of the character arrays of the functions that read decks"""
    out = set(); t = None
    for f, (i, j, _) in m.funcs.items():
        if re.search(r'ini_|strncpy0|INIReader|rstrip|lskip|find_chars', f):
            t = t or open(m.path).read().split('\n')
            for l in t[i:j]: out |= {int(x) for x in re.findall(r'alloca \[(\d+) x i8\]', l)}
    return out
def conversions(ck):
    a, b, c, d = [num(i) for i in range(4)]; N = NUMS
    dv = [symbol('dflt' + x) for x in 'xyz']
    for n, v in (('brackets', '[%s %s %s]'), ('brackets and commas', '[%s, %s, %s]'), ('round brackets', '(%s,%s,%s)'), ('commas', '%s,%s,%s'), ('commas and blanks', '%s , %s , %s'), ('blanks', '%s %s %s'),
                 ('tabs', '%s\t%s\t%s'), ('braces', '{%s; %s; %s}'), ('blanks inside the brackets', '[ %s %s %s ]'), ('trailing comma', '%s, %s, %s,')):
        t = '[A]\nv = %s\n' % (v % (a, b, c)); w = read(ck, t); nm = 'vector with ' + n
        same(ck, nm, get(w, 'GetThreeVector', 'A', 'v', dv), N[:3], loc=IR); fault_free(ck, nm, w); ck.absorb(w)
    for n, v, e in (('signs and exponents', '[-1.5e-3 +2.5E+2 .5]', ['-0.0015', '250', '0.5']), ('integers', '[1 -2 3]', ['1', '-2', '3']), ('zeros', '0 0 0', ['0', '0', '0']), ('no blanks', '[0,-1,1]', ['0', '-1', '1'])):
        w = read(ck, '[A]\nv = %s\n' % v); nm = 'vector with ' + n
        same(ck, nm, get(w, 'GetThreeVector', 'A', 'v', dv), [const(x) for x in e], loc=IR); fault_free(ck, nm, w); ck.absorb(w)
    for n, v in (('four values', '[%s %s %s %s]' % (a, b, c, d)), ('five values', '%s,%s,%s,%s,%s' % (a, b, c, d, a)), ('many values', ' '.join([a, b, c, d] * 6)), ('continued values', '%s %s %s\n  %s' % (a, b, c, d)), ('repeated values', '[1 2 3]\nv = [4 5 6]')):
        w = read(ck, '[A]\nv = %s\n' % v); r = w.m(w.r, 'GetThreeVector', w.string('A'), w.string('v'), w.vec(dv), cls='INIReader'); nm = 'vector of ' + n
        fault_free(ck, nm, w); ck.obligation(nm + ': stops the program', None if is0(w.pc) else 'goes on when %s' % cond_text(w.pc), loc=IR)
        ck.obligation(nm + ': is reported', None if said(w) else 'no message', loc=IR)
        ck.obligation(nm + ': no exception', 'exception' if [e for e in w.events if e.kind == 'throw'] else None, loc=IR); ck.absorb(w)
    for n, v in (('one value', a), ('two values', a + ' ' + b), ('no values', '[]'), ('words', 'north'), ('nothing', ''), ('only signs', '- - -'), ('only points', '. . .')):
        w = read(ck, '[A]\nv = %s\n' % v); r = get(w, 'GetThreeVector', 'A', 'v', dv) if not is0(w.pc) else None; nm = 'vector of ' + n; fault_free(ck, nm, w)
        ck.obligation(nm + ': no exception', 'exception' if [e for e in w.events if e.kind == 'throw'] else None, loc=IR); ck.absorb(w)
    w = read(ck, '[A]\nx = 1\n'); nm = 'absent key'
    same(ck, nm + ': vector', get(w, 'GetThreeVector', 'A', 'v', dv), dv, loc=IR); same(ck, nm + ': number', get(w, 'GetReal', 'A', 'v', dv[0]), dv[0], loc=IR); same(ck, nm + ': integer', get(w, 'GetInteger', 'A', 'v', 7), 7, loc=IR)
    for x in (0, 1): same(ck, nm + ': switch', get(w, 'GetBoolean', 'A', 'v', x), x, loc=IR)
    same(ck, nm + ': word', get(w, 'GetString', 'A', 'v', Str(symbol('a word'))), Str(symbol('a word')), loc=IR)
    for s, k, e in (('A', 'x', 1), ('a', 'X', 1), ('A', 'y', 0), ('B', 'x', 0), ('', 'x', 0), ('x', 'A', 0)):
        g = w.m(w.r, 'HasValue', w.string(s), w.string(k), cls='INIReader'); same(ck, 'presence of %s/%s' % (s, k), g, e, loc=IR)
    fault_free(ck, nm, w); ck.absorb(w)
    def one(nm, v, meth, d, e):
        w = read(ck, '[A]\nv = %s\n' % v); same(ck, nm, get(w, meth, 'A', 'v', d), e, loc=IR); fault_free(ck, nm, w); ck.absorb(w)
    for n, v, e in (('number', a, N[0]), ('number and unit', a + ' fs', N[0]), ('integer', '12', '12'), ('negative', '-3.5', '-3.5'), ('exponent', '1.5e-15', '1.5e-15'), ('capital exponent', '2E+3', '2000'), ('zero', '0', '0'), ('point', '.25', '0.25')):
        one('number from a ' + n, v, 'GetReal', dv[0], S(e) if isinstance(e, Num) else const(e))
    for n, v in (('word', 'fast'), ('nothing', ''), ('sign', '-'), ('bracket', '[3]')): one('number from a %s: the default' % n, v, 'GetReal', dv[0], dv[0]); one('integer from a %s: the default' % n, v, 'GetInteger', 7, 7)
    for v, e in (('12', 12), ('100', 100), ('0', 0), ('-3', (1 << 64) - 3), ('100000', 100000), ('3000000000', 3000000000), ('0x10', 16)): one('integer from %s' % v, v, 'GetInteger', 7, e)
    for d in (0, 1):
        for v in ('true', 'yes', 'on', '1'):
            for x in (v, v.capitalize(), v.upper()): one('switch from %s, default %d' % (x, d), x, 'GetBoolean', d, 1)
        for v in ('false', 'no', 'off', '0'):
            for x in (v, v.capitalize(), v.upper()): one('switch from %s, default %d' % (x, d), x, 'GetBoolean', d, 0)
        for v in ('', '2', 'maybe', 'tru', 'truely', 'o', 'of', 'none'): one('switch from "%s": the default %d' % (v, d), v, 'GetBoolean', d, d)
    for v in ('SI', 'a b', '[x]', 'x.h5', '12', 'Gaussian', 'a=b', 'a:b'): one('word "%s"' % v, v, 'GetString', 'dflt', Str(v))
    one('empty word: the default', '', 'GetString', Str(symbol('a word')), Str(symbol('a word')))
# ---------------------------------------------------------------- defaults
DEFAULTS = {('General', 'file_name'): 'out.h5', ('General', 'tracking'): False,
  ('Physics', 'min_energy'): 0, ('Physics', 'sample_fraction'): 1, ('Physics', 'pair_production'): False,
  'Field': {'e_field': [0, 0, 0], 'b_field': [0, 0, 0], 'e_max': 0, 'wavelength': 1, 'duration': 1, 'waist': 1, 'polerisation': 0, 'direction': [0, 0, 1], 'start': [0, 0, 0], 'focus': [0, 0, 0]},
  'Particle': {'number_particles': 1, 'particle_type': 'Electron', 'energy_distribution': 'mono', 'position': [0, 0, 0], 'direction': [0, 0, 1], 'energy_mean': 0, 'energy_sig': 0, 'radius': 0, 'divergence': 0, 'duration': 0},
  'Histogram': {'particle': '', 'type': '', 'time': 0, 'bins': 1, 'min_bin': 0, 'max_bin': 1}}
def cst(v): return [cst(x) for x in v] if isinstance(v, list) else Str(v) if isinstance(v, str) else v if isinstance(v, bool) else const(str(v))
def want(v, dim, R):
    if isinstance(v, str): return Str(v)
    if isinstance(v, int) and not isinstance(v, bool) and dim == 'count': return v
    c = cst(v)
    if dim is None or dim == 'w': return c
    return [Div(x, R[dim]) for x in c] if isinstance(c, list) else Div(c, R[dim])
def constructor(w, cls): return next((r for r in w.made if r.cls == cls), None)
def timed(d):
    d['General', 'time_step'] = const('1e-16'); d['General', 'time_end'] = const('0.5e-16'); return d
def parsed(ck, deck, R, nm):
    """the run of a deck, and what each object got from the deck"""
    w = run_main(ck, timed(deck)); ck.absorb(w); return w
def defaults(ck, R):
    for field, cls in sorted(FIELDS.items()):
        d0 = base_deck(field, 'Quantum', 1, 0)
        keys = [k for k, _ in PARAMS[cls]]
        for drop in [[k] for k in keys] + [keys]:
            d = base_deck(field, 'Quantum', 1, 0)
            for k in drop: d.pop(('Field', k), None)
            nm = '%s field without %s' % (field, drop[0] if len(drop) == 1 else 'any parameter')
            w = parsed(ck, d, R, nm); r = constructor(w, cls)
            if not r: ck.obligation(nm, 'no field is made', loc=FP); continue
            for i, (k, dim) in enumerate(PARAMS[cls]):
                v = d.get(('Field', k)); e = want(DEFAULTS['Field'][k], dim, R) if v is None else scaled(v, R[dim]) if dim else plain(v)
                if len(drop) == 1 and k not in drop: continue      # C13 and C16
                same(ck, '%s: %s is the default' % (nm, k), r.args[i], e, loc=FP)
    pk = [k for k, _ in PARAMS['SourceGenerator']]
    for drop in [[k] for k in pk] + [pk + ['name']]:
        d = base_deck('static', 'Quantum', 1, 0)
        for k in drop: d.pop(('Particle1', k), None)
        if len(drop) > 1: d.pop(('Particle1', 'output'))
        d['Particle1', 'present'] = 1
        nm = 'source without %s' % (drop[0] if len(drop) == 1 else 'any parameter'); w = parsed(ck, d, R, nm); r = constructor(w, 'SourceGenerator')
        if not r: ck.obligation(nm, 'no source is made', loc=FP); continue
        for i, (k, dim) in enumerate(PARAMS['SourceGenerator']):
            if k in drop: same(ck, '%s: %s is the default' % (nm, k), r.args[i], want(DEFAULTS['Particle'][k], 'count' if k == 'number_particles' else dim, R), loc=FP)
    hk = [k for k, _ in PARAMS['Histogram']]
    for drop in [[k] for k in hk] + [hk]:
        d = base_deck('static', 'Quantum', 1, 1)
        for k in drop: d.pop(('Histogram1', k), None)
        d['Histogram1', 'present'] = 1
        nm = 'histogram without %s' % (drop[0] if len(drop) == 1 else 'any parameter'); w = parsed(ck, d, R, nm); r = constructor(w, 'Histogram')
        if not r: ck.obligation(nm, 'no histogram is made', loc=FP); continue
        for i, (k, dim) in enumerate(PARAMS['Histogram']):
            if k in drop: same(ck, '%s: %s is the default' % (nm, k), r.args[i], Str('Histogram1') if k == 'name' else want(DEFAULTS['Histogram'][k], 'count' if k == 'bins' else dim, R), loc=FP)
    for drop in (['min_energy'], ['sample_fraction'], ['pair_production'], ['min_energy', 'sample_fraction', 'pair_production']):
        for model in ('Quantum', 'Classical'):
            d = base_deck('static', model, 1, 0)
            for k in drop: d.pop(('Physics', k))
            nm = '%s without %s' % (model, ', '.join(drop)); w = parsed(ck, d, R, nm)
            em = of(w, *EMITTERS); ck.obligation(nm + ': emission is made', None if len(em) == 1 else 'made %d' % len(em), loc=FP)
            for r in em:
                o = 2 + (r.cls == 'ContinuousEmission')
                if 'sample_fraction' in drop: same(ck, nm + ': sample_fraction is the default', r.args[o], const('1'), loc=FP)
                if 'min_energy' in drop: same(ck, nm + ': min_energy is the default', r.args[o + 1], const('0'), loc=FP)
            bw = of(w, 'NonLinearBreitWheeler'); on = 'pair_production' not in drop
            ck.obligation(nm + ': pair production is %s' % ('as asked' if on else 'off'), None if bool(bw) == on else 'it is %s' % ('on' if bw else 'off'), loc=FP)
    d = base_deck('static', 'Quantum', 1, 0); d.pop(('General', 'file_name')); d.pop(('General', 'tracking')); d.pop(('Particle1', 'output')); d.pop(('Particle1', 'name'))
    w = parsed(ck, d, R, 'no names'); nm = 'deck without file name, tracking, output and source name'
    o = [r for r in w.made if r.cls == 'OutputManager']
    ck.obligation(nm + ': an output file is made', None if len(o) == 1 else 'made %d' % len(o), loc=EXEC)
    for r in o: same(ck, nm + ': file name is the default', r.args[0], Str('out.h5'), loc=FP)
    ck.obligation(nm + ': no tracks', 'tracks are stored' if [l for l in w.loop if l[0] == 'track'] else None, loc=FP); ck.obligation(nm + ': no event tables', 'stored' if [l for l in w.loop if l[0] in ('init', 'store')] else None, loc=FP)
    d['General', 'tracking'] = True; d['Particle1', 'output'] = True; w = parsed(ck, d, R, '')
    nm = 'source without a name'
    ini = [l for l in w.loop if l[0] in ('init', 'store', 'track')]
    ck.obligation(nm + ': tables and tracks are stored', None if {l[0] for l in ini} == {'init', 'store', 'track'} else 'only %s' % sorted({l[0] for l in ini}), loc=EXEC)
    for l in ini:
        for x in l[2]:
            if isinstance(x, (Str,)) : same(ck, nm + ': %s uses the section name' % l[0], x, Str('Particle1'), loc=FP)
# ---------------------------------------------------------------- whole decks as text
def as_text(deck, style=0):
    """a deck written as text; every number is a numeral standing for the text of that number"""
    nums = []; out = []
    def tok(x):
        if not isinstance(x, (Num, Ite)): return str(x)
        for i, y in enumerate(nums):
            if y is x: return num(i)
        nums.append(x); return num(len(nums) - 1)
    for s in deck.sections():
        out.append('[%s]' % s)
        for (t, k), v in deck.items():
            if t != s: continue
            if isinstance(v, list): x = ['[%s %s %s]', '%s, %s, %s', '(%s,%s,%s)'][style] % tuple(tok(y) for y in v)
            elif isinstance(v, bool): x = [['false', 'true'], ['no', 'Yes'], ['0', 'ON']][style][v]
            else: x = tok(v)
            out.append([k + ' = ' + x, k.upper() + ':' + x + ' ; a comment', '  # a comment\n' + k + '=' + x][style])
        out.append('')
    return '\n'.join(out) + '\n', nums
def from_text(text, nums, name='run.ini'):
    def setup(w):
        w.overrides = [x for x in w.overrides if 'INIReader' not in x[0].pattern]; w._disp.clear(); w.numbers = nums
        extmodel.deckio(w, {name: text} if text is not None else {})
    return setup
def whole(ck, R):
    for style in range(3):
        for field in sorted(FIELDS):
            d = timed(base_deck(field, 'Quantum', 1 + (style == 0), int(style == 0)))
            if style: d['General', 'units'] = 'SI'
            t, nums = as_text(d, style)
            nm = 'text deck, style %d, %s field' % (style + 1, field)
            if len(nums) > 99: ck.undec(nm, 'too many numbers'); continue
            w = run_main(ck, d, setup=from_text(t, nums)); fault_free(ck, nm, w)
            ck.obligation(nm + ': runs', None if not is0(w.pc) and w.ret == 0 else 'the program stops (%s)' % [show(e.data.get('val', '')) for e in said(w)][-2:], loc=FP)
            v = run_main(ck, d)
            a, b = [[(r.cls, r.args) for r in x.made if r.cls in list(FIELDS.values()) + ['SourceGenerator', 'Histogram', 'OutputManager'] + list(EMITTERS) + list(PUSHERS) + ['NonLinearBreitWheeler']] for x in (w, v)]
            ck.obligation(nm + ': objects', None if [x[0] for x in a] == [x[0] for x in b] else 'are %s instead of %s' % ([x[0] for x in a], [x[0] for x in b]), loc=FP)
            for (c, x), (e, y) in zip(a, b):
                for i, (p, q) in enumerate(zip(x, y)):
                    if type(p) is Ptr or type(q) is Ptr: continue
                    same(ck, '%s: argument %d of %s is the number of its key' % (nm, i, c), p, q, loc=FP)
            ck.absorb(w); ck.absorb(v)
def stops(ck, nm, w, loc, runs=('push', 'generate')):
    fault_free(ck, nm, w)
    ck.obligation(nm + ': stops', None if is0(w.pc) or w.ret not in (0, None) else 'the run goes on', loc=loc)
    ck.obligation(nm + ': is reported', None if said(w) else 'no message', loc=loc)
    ck.obligation(nm + ': nothing is simulated', None if not [l for l in w.loop if l[0] in runs] else 'events are run', loc=loc)
    ck.obligation(nm + ': no exception', 'exception' if [e for e in w.events if e.kind == 'throw'] else None, loc=loc)
    ck.absorb(w)
def vitals(ck):
    def run(nm, drop, stop=True, **kw):
        d = timed(base_deck('static', 'Quantum', 1, 0))
        for k in list(d):
            if k[0] in drop or k in drop: d.pop(k)
        t, nums = as_text(d); w = run_main(ck, d, setup=from_text(t, nums))
        stops(ck, nm, w, FP)
    run('no General section', ['General']); run('no time step', [('General', 'time_step')]); run('no end time', [('General', 'time_end')]); run('no unit system', [('General', 'units')])
    run('nothing in General but units', [('General', k) for k in ('time_step', 'time_end', 'file_name', 'tracking')]); run('no field', ['Field']); run('no field type', [('Field', 'field_type')]); run('no physics', ['Physics'])
    run('no radiation model', [('Physics', 'radiation_model')]); run('empty deck', ['General', 'Field', 'Physics', 'Particle1'])
    d = timed(base_deck('static', 'Quantum', 1, 0)); w = run_main(ck, d, setup=from_text(None, [])); stops(ck, 'no such file', w, IR)
    w = run_main(ck, d, setup=from_text('', [])); stops(ck, 'empty file', w, FP)
def commands(ck):
    d = timed(base_deck('static', 'Quantum', 1, 0)); t, nums = as_text(d)
    for a in ([], ['run.ini', 'run.ini'], ['run.ini', '-h'], ['a', 'b', 'c'], [''], ['x'], ['in'], ['ini'], ['.in'], ['run'], ['run.in'], ['run.inix'], ['run.txt'], ['run.INI'], ['-h'], ['-help'], ['--help'], ['-'], ['a' * 300], ['.ini.bak']):
        w = run_main(ck, d, args=['qedcasc'] + a, setup=from_text(t, nums)); stops(ck, 'command line %s' % (' '.join(a)[:20] or ('(empty word)' if a else '(none)')), w, EXEC)
        ck.obligation('command line %s: no file is read' % ' '.join(a)[:20], 'opens %s' % [e.data.get('path') for e in w.events if e.kind == 'fopen'] if [e for e in w.events if e.kind == 'fopen'] else None, loc=EXEC)
    for a in ('run.ini', './run.ini', '/tmp/a b.ini', 'x.ini', '.ini', 'deck.v2.ini'):
        w = run_main(ck, d, args=['qedcasc', a], setup=from_text(t, nums, a)); nm = 'command line ' + a; fault_free(ck, nm, w)
        ck.obligation(nm + ': that deck is run', None if not is0(w.pc) and w.ret == 0 and [e.data['path'] for e in w.events if e.kind == 'fopen'] == [a] else 'opens %s, returns %s' % ([e.data['path'] for e in w.events if e.kind == 'fopen'], show(w.ret)), loc=EXEC)
        ck.absorb(w)
def C17(ck):
    R = refs(ck)
    texts(ck); lengths(ck); conversions(ck); vitals(ck); commands(ck); defaults(ck, R); whole(ck, R)
