"""Compile /repo's current sources to LLVM IR, one configuration at a time."""
import json, os, shlex, subprocess, shutil, tempfile, atexit, sys
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CFG = {'std': [], 'mpi': ['-DBUILD_MPI=ON', '-DBUILD_OPENMP=ON'],
       'py': ['-DBUILD_PYTHON=ON', '-DBUILD_OPENMP=OFF', '-DPYTHON_EXECUTABLE=/usr/bin/python3'],
       'pyomp': ['-DBUILD_PYTHON=ON', '-DBUILD_OPENMP=ON', '-DPYTHON_EXECUTABLE=/usr/bin/python3'],
       'omp': ['-DBUILD_OPENMP=ON']}
_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='verif-ir-')
        d = _scratch
        pid = os.getpid()
        atexit.register(lambda: shutil.rmtree(d, ignore_errors=True) if os.getpid() == pid else None)
    return _scratch
class BuildError(Exception): pass
def build(cfg, only=None, drivers=()):
    """IR directory of a configuration. only: predicate on source path"""
    d = os.path.join(scratch(), cfg); ll = os.path.join(scratch(), 'll-' + cfg)
    os.makedirs(ll, exist_ok=True)
    r = subprocess.run(['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_CXX_COMPILER=g++', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON', *CFG[cfg]],
                       capture_output=True, text=True)
    if r.returncode: raise BuildError('cmake %s: %s' % (cfg, r.stderr[-800:]))
    ents = json.load(open(os.path.join(d, 'compile_commands.json')))
    seen = set(); js = []
    for e in ents:
        if e['file'] in seen or (only and not only(e['file'])): continue
        if '/Tests/' in e['file'] or os.path.basename(e['file']) == 'test.cpp': continue
        seen.add(e['file']); js.append(e)
    base = next((e for e in js if os.path.basename(e['file']) == 'QEDCASC.cpp'), js[0])
    for x in drivers:
        f = os.path.join(HERE, 'drivers', x + '.cpp')
        js.append({'directory': base['directory'], 'file': f, 'driver': x, 'command': base['command'].replace(base['file'], f)})
    def go(e):
        a = shlex.split(e['command']); fl = []; skip = False
        for x in a[1:]:
            if skip: skip = False; continue
            if x == '-o': skip = True; continue
            if x in ('-c', e['file']) or x.startswith(('-O', '-flto', '-fno-fat', '-W', '-march', '-mtune')): continue
            fl.append(x)
        o = os.path.join(ll, os.path.basename(e['file']).rsplit('.', 1)[0] + '.ll')
        if e.get('driver'): o = os.path.join(ll, 'driver_' + os.path.basename(e['driver']) + '.ll')
        r = subprocess.run(['clang++-18', '-w', '-I' + HERE + '/inc', '-O0', '-g1', '-fno-discard-value-names', '-S', '-emit-llvm', *fl, e['file'], '-o', o],
                           cwd=e['directory'], capture_output=True, text=True)
        if r.returncode: raise BuildError('%s: %s' % (e['file'], r.stderr[:1500]))
    with ThreadPoolExecutor(8) as ex: list(ex.map(go, js))
    return ll, [e['file'] for e in js if not e.get('driver')]
