#!/usr/bin/env python3
"""campaign.py OUT N SEED [FILE...]: random one-line mutants of /repo's sources, N per file, judged by the checks of that file (development aid)"""
import os, random, re, subprocess, sys, shutil, json
from concurrent.futures import ThreadPoolExecutor
import threading
M = {'GaussianEMField.cpp': 'C11 C12', 'FocusingField.cpp': 'C11 C12', 'PlaneEMField.cpp': 'C11 C12', 'StaticEMField.cpp': 'C11', 'ParticlePusher.cpp': 'C01 C03 C09 C10', 'LandauPusher.cpp': 'C10 C08', 'ModifiedLandauPusher.cpp': 'C10 C08', 'LorentzPusher.cpp': 'C10',
     'PhotonEmission.cpp': 'C08 C25 C07', 'StochasticEmission.cpp': 'C05 C06 C07 C02 C08 C01', 'ContinuousEmission.cpp': 'C05 C06 C08 C02 C01 C16', 'NonLinearBreitWheeler.cpp': 'C04 C07 C08 C02 C03 C25 C01', 'Particle.cpp': 'C29 C01', 'Particle.hh': 'C29 C01 C07', 'Lepton.cpp': 'C29 C03 C07',
     'Photon.cpp': 'C29 C03 C07', 'ParticleList.cpp': 'C34 C18 C24', 'ParticleList.hh': 'C34 C18 C24', 'SourceGenerator.cpp': 'C30 C18', 'Histogram.cpp': 'C23', 'HDF5Output.cpp': 'C20', 'OutputManager.cpp': 'C19 C20 C21 C18', 'OutputManager.hh': 'C19 C20 C21', 'Numerics.cpp': 'C26 C32 C35', 'MCTools.cpp': 'C31 C22', 'MCTools.hh': 'C31 C22',
     'ThreeVector.hh': 'C28', 'ThreeMatrix.hh': 'C28', 'UnitsSystem.cpp': 'C14', 'UnitsSystem.hh': 'C14', 'FileParser.cpp': 'C17 C13 C15', 'INIReader.cpp': 'C17', 'ini.cpp': 'C17', 'QEDCASC.cpp': 'C16 C13 C15 C23 C18 C22 C21', 'RunManager.cpp': 'C16 C13 C15 C24 C27 C18 C22', 'QEDCascPy-Bindings.cpp': 'C16 C13', 'RunManager.hh': 'C27 C24'}
SWAP = [('electron', 'positron'), ('positron', 'photon'), ('photon', 'electron'), ('Electron', 'Positron'), ('Positron', 'Photon'), ('waist', 'tau'), ('RefLength', 'RefTime'), ('RefTime', 'RefLength'), ('RefEnergy', 'RefMomentum'), ('RefEField', 'RefBField'), ('GetMomentum', 'GetPosition'), ('GetPosition', 'GetMomentum'),
        ('eField', 'bField'), ('bField', 'eField'), ('low', 'high'), ('high', 'low'), ('energy1', 'energy2'), ('deltaPos', 'deltaTau'), ('min', 'max'), ('true', 'false'), ('false', 'true'), ('sin', 'cos'), ('cos', 'sin'), ('log10', 'log'), ('mono', 'gaussian'), ('GetEnergy', 'GetGamma'), ('GetGamma', 'GetEnergy'), ('xPos', 'yPos'), ('Length', 'Size'),
        ('m_sampleFrac', 'm_eMin'), ('m_dt', 'm_sampleFrac'), ('i', 'j'), ('j', 'i'), ('j', 'k'), ('k', 'j'), ('break', 'continue'), ('chiLength', 'etaLength'), ('etaLength', 'chiLength'), ('Events', 'Threads'), ('delete', 'delete[]'), ('Kill()', 'IsAlive()'), ('startPos', 'focusPos'), ('wavelength', 'waist'), ('GetWeight', 'GetTime'), ('GetTime', 'GetWeight')]
def muts(path):
    out = []; skip = 0
    for n, l in enumerate(open(path).read().split('\n')):
        t = l.strip()
        if t.startswith('#if') and 'GEANT' in t: skip = 1
        if t.startswith('#endif') or t.startswith('#else'): skip = 0
        if skip or not t or t.startswith(('#', '//', '*', '/*')): continue
        c = l.split('//')[0]
        def sub(a, b):
            k = 0
            while True:
                k = c.find(a, k)
                if k < 0: break
                out.append((n, l, l[:k] + b + l[k + len(a):])); k += len(a)
        for a, b in ((' + ', ' - '), (' - ', ' + '), (' * ', ' / '), (' / ', ' * '), ('+=', '-='), (' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '), ('&&', '||'), ('||', '&&'), ('[0]', '[1]'), ('[1]', '[2]'), ('[2]', '[0]'), ('++', '--'), ('+1', ''), ('-1', ''), ('!', '')): sub(a, b)
        for m in re.finditer(r'(?<![\w.\"])(\d+\.?\d*(?:e-?\d+)?)(?![\w.])', c):
            v = m.group(1); nv = {'0': '1', '1': '2', '0.0': '1.0', '1.0': '0.5', '2': '3', '2.0': '1.0'}.get(v, v + '1' if '.' in v else str(int(float(v)) + 1))
            out.append((n, l, l[:m.start()] + nv + l[m.end():]))
        for a, b in SWAP:
            for m in re.finditer(r'\b' + re.escape(a) + r'\b', c): out.append((n, l, l[:m.start()] + b + l[m.end():]))
        if re.match(r'^[\w\[\]\.\->:()\*, +\-/&]+( [\+\-\*/]?= .*)?;$', t) and not t.startswith(('return', 'delete x')) and not re.match(r'^(const |static |unsigned |int |double |bool |std::\w+|\w+\*? \w+( =|;|\())', t): out.append((n, l, re.sub(r'\S.*', ';', l)))
        if re.match(r'^else\b', t) is None and re.search(r'\bif ?\((.*)\)$', t): out.append((n, l, re.sub(r'\bif ?\((.*)\)(.*)$', r'if (!(\1))\2', l)))
    return out
R = '/repo'; out, N, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); only = sys.argv[4:]
todo = []
fs = subprocess.run(['git', '-C', R, 'ls-files', 'Source'], capture_output=True, text=True).stdout.split()
for f in fs:
    b = os.path.basename(f)
    if b not in M or (only and b not in only): continue
    ms = muts(os.path.join(R, f)); random.Random('%s%d' % (b, seed)).shuffle(ms); seen = set(); k = 0
    for m in ms:
        if m[2] in seen: continue
        seen.add(m[2]); todo.append((f, M[b].split(), m)); k += 1
        if k >= N: break
random.Random(seed).shuffle(todo)
pool = [i for i in range(7)]; lock = threading.Lock(); log = open(out, 'w')
def run(t):
    f, checks, (n, a, b) = t
    with lock: i = pool.pop()
    d = '/tmp/camp%d' % i
    try:
        if not os.path.exists(d): subprocess.check_call(['git', 'clone', '-q', R, d])
        p = os.path.join(d, f); ls = open(os.path.join(R, f)).read().split('\n'); orig = '\n'.join(ls); ls[n] = b; open(p, 'w').write('\n'.join(ls))
        res = 'SURVIVED'; rcs = []
        for q in checks:
            r = subprocess.run('ulimit -v 9000000; timeout 400 /verif/run.py ' + q, shell=True, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d)); rcs.append(r.returncode)
            if r.returncode == 1: res = 'caught ' + q; break
            if 'does not compile' in r.stdout: res = 'nocompile'; break
            if r.returncode: res = 'rc %d %s' % (r.returncode, q)
        with lock: log.write('%s | %s:%d | %s -> %s\n' % (res, os.path.basename(f), n + 1, a.strip(), b.strip())); log.flush()
        open(p, 'w').write(orig)
    finally:
        with lock: pool.append(i)
with ThreadPoolExecutor(7) as ex: list(ex.map(run, todo))
