#!/usr/bin/env python3
"""seed.py ID: build /verif/seeded/ID from dev/seeds/ID.py (dict S), confirm it, and run the property's check.
S = dict(property, needs, breaks, edits=[(file, old, new[, k])], demo='c++ source' or py='python source' , sh='shell script')"""
import sys, os, json, subprocess, runpy
R='/repo'
SH='''#!/bin/bash
# cwd: /repo, after the build
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export QED_TABLES_PATH=$PWD/Tables OMP_NUM_THREADS=4
inc=""
for d in $(find "$PWD/Source" -type d); do inc="$inc -I$d"; done
B=$PWD/_build/repo/Source
libs="$B/IO/libIO.so $B/Particles/libParticles.so $B/Physics/libPhysicsQED.so $B/Tools/libTools.so"
ld=""
for l in $libs; do ld="$ld $l -Wl,-rpath,$(dirname $l)"; done
hdf=$(ls -d /usr/include/hdf5/serial 2>/dev/null)
g++ -std=c++14 -w $inc -I$hdf "$here/demo.cpp" -o "$T/demo" $ld %s || exit 3
cd "$T"
timeout 200 ./demo
'''
PY='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export QED_TABLES_PATH=$PWD/Tables PYTHONPATH=$PWD/_build_py/pkg PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=4
cp "$here"/demo.py "$T/demo.py"
cd "$T"
timeout 200 /opt/vp/pyenv/bin/python demo.py
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def mk(i, full=True):
    S=runpy.run_path('/verif/dev/seeds/%s.py'%i)['S']
    d='/verif/seeded/%s'%i; os.makedirs(d, exist_ok=True)
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    try:
        for e in S['edits']:
            f=os.path.join(R,e[0]); t=open(f).read(); k=e[3] if len(e)>3 else None
            n=t.count(e[1])
            if k is None: assert n==1, (i,e[0],e[1],n); t=t.replace(e[1],e[2])
            else:
                p=-1
                for _ in range(k): p=t.index(e[1],p+1)
                t=t[:p]+e[2]+t[p+len(e[1]):]
            # only original lines
            open(f,'w').write(t)
        df=sh('git -C /repo diff').stdout
        open(d+'/patch.diff','w').write(df)
        json.dump({'property':S['property'],'needs':S['needs'],'what_it_breaks':S['breaks']},open(d+'/meta.json','w'),indent=1)
        if 'demo' in S: open(d+'/demo.cpp','w').write(S['demo']); open(d+'/demo.sh','w').write(SH%S.get('ld',''))
        elif 'py' in S: open(d+'/demo.py','w').write(S['py']); open(d+'/demo.sh','w').write(PY)
        else: open(d+'/demo.sh','w').write(S['sh'])
        for n,c in S.get('files',{}).items(): open(d+'/'+n,'w').write(c)
        os.chmod(d+'/demo.sh',0o755)
        # removed lines must be original
        bad=sh(r"""git -C /repo diff -U0 | python3 -c '
import sys,re,subprocess
f=None
for l in sys.stdin:
    if l.startswith("--- a/"): f=l[6:].strip()
    m=re.match(r"@@ -(\d+)(?:,(\d+))?",l)
    if m:
        a=int(m[1]); n=int(m[2] or 1)
        if n:
            o=subprocess.run(["git","-C","/repo","blame","-s","-L","%d,+%d"%(a,n),"HEAD","--",f],capture_output=True,text=True).stdout
            for x in o.splitlines():
                if not x.startswith("^"): print("FIXLINE",f,x)
'""").stdout
        if bad: print(i,bad)
        r=sh('bash /opt/vp/build.sh')
        if r.returncode: print(i,'BUILD FAIL',r.stdout[-800:],r.stderr[-500:]); return
        b=sh('bash %s/demo.sh'%d,cwd=R); print(i,'demo with patch rc',b.returncode,(b.stdout+b.stderr)[-200:].strip())
        if full:
            sh('bash /opt/vp/test.sh /tmp/t.json'); t=json.load(open('/tmp/t.json')); print(i,'tests passed',len([x for x in t['passed'] if 'example.ini' not in x]),t['failed'])
        c=sh('VERIF_TIER=quick /opt/veriftools/pyvenv/bin/python3 /verif/run.py %s'%S['property']); print(i,'check rc',c.returncode,c.stdout[-400:] if c.returncode!=1 else c.stdout.splitlines()[-2][:250])
    finally:
        sh('git -C /repo checkout -- .')
    r=sh('bash /opt/vp/build.sh')
    b=sh('bash %s/demo.sh'%d,cwd=R); print(i,'demo clean rc',b.returncode,(b.stdout+b.stderr)[-200:].strip() if b.returncode else '')
full=True
for i in sys.argv[1:]: mk(i)
