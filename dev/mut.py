#!/usr/bin/env python3
"""mut.py FILE OLD NEW PROP...: run checks on a scratch copy with one replacement (development aid)"""
import os, subprocess, sys
f, old, new = sys.argv[1:4]; props = sys.argv[4:]
M = os.environ.get('MREPO', '/tmp/mrepo')
if not os.path.exists(M): subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune']); subprocess.check_call(['cp', '-a', '/repo', M])
subprocess.check_call(['git', '-C', M, 'fetch', '-q', '/repo', 'HEAD']); subprocess.check_call(['git', '-C', M, 'checkout', '-q', '-f', 'FETCH_HEAD'])
if f != '-':
    fs = subprocess.run(['git', '-C', M, 'ls-files', '*' + f], capture_output=True, text=True).stdout.split()
    fs = [x for x in fs if os.path.basename(x) == os.path.basename(f)]
    p = os.path.join(M, fs[0]); s = open(p).read()
    if '##' in old: old, k = old.split('##'); k = int(k)
    else: k = 0
    parts = s.split(old)
    if len(parts) < 2 + k: sys.exit('text not found')
    open(p, 'w').write(old.join(parts[:k + 1]) + new + old.join(parts[k + 1:]))
for q in props:
    r = subprocess.run(['/verif/run.py', q], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=M))
    out = [l[:260] for l in (r.stdout + r.stderr).split('\n') if l and not l.startswith('UNDEC')]
    print('%s rc=%d %s' % (q, r.returncode, '\n   '.join(out[-4:])))
