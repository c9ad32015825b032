#!/opt/veriftools/pyvenv/bin/python3
"""run.py <property>: decide one property on /repo's current source."""
import importlib, json, os, sys, time, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'checks')]
WHERE = json.load(open(os.path.join(V, 'checks', 'index.json')))
def known(pid):
    out = {}
    p = os.path.join(V, 'known_findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if l.startswith('finding: property=%s ' % pid):
            key, _, txt = l.split(' ', 2)[2].partition(' :: ')
            out[key.strip()] = txt.strip()
    return out
def main():
    import threading, resource
    try: resource.setrlimit(resource.RLIMIT_AS, (20 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (ValueError, OSError): pass
    # a runaway analysis ends undecided instead of exhausting the machine
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--thorough' in sys.argv: tier = 'thorough'
    if tier not in ('quick', 'thorough'): tier = 'quick'
    import common, vals, irgen
    from machine import AnchorMissing, Unsupported
    vals.set_seed(seed)
    t0 = time.time()
    ck = common.Check(pid, tier, seed)
    err = None
    mod = importlib.import_module(WHERE[pid])
    try: getattr(mod, pid)(ck)
    except irgen.BuildError as e:
        print('ERROR: /repo does not compile: %s' % e); err = e
    except AnchorMissing as e:
        err = e; traceback.print_exc(limit=-3)
        ck.undec('analysis', '%s: %s' % (type(e).__name__, e))
    except Exception as e:
        err = e; traceback.print_exc(limit=None if not isinstance(e, Unsupported) else -3)
        ck.crashed(e)
    kn = known(pid); viol = []; found = []
    for v in ck.viol:
        hit = next((k for k in kn if k == v[3]), None)
        (found if hit else viol).append(v)
    obligations = ck.ok + len(ck.viol) + len(ck.undecided)
    evd = os.path.join(V, 'evidence'); os.makedirs(evd, exist_ok=True)
    replay = os.path.join(evd, pid + '.violation.txt')
    expl = ('Abstract interpretation of the LLVM IR of /repo (no execution, no solver, no path enumeration): every obligation compares the gated '
            'value numbers the analysis computed for a program observable with those of the specification, for all inputs at once. '
            'Counts below are obligations of this run.')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(time.time() - t0, 2),
          'coverage': {'explanation': expl, 'obligations': obligations, 'discharged': ck.ok, 'violated': len(ck.viol), 'known_findings': len(found),
                       'undecided': len(ck.undecided), 'discharged_for_generic_inputs_only': ck.nongeneric, 'undecided_list': ['%s: %s' % u for u in ck.undecided[:30]],
                       'functions_analysed': len(ck.fns), 'functions': sorted(ck.fns)[:200], 'function_visits': sum(ck.fns.values()),
                       'ir_instructions_interpreted': ck.instrs, 'analysis_contexts': ck.machines, 'translation_units': sorted(os.path.relpath(f, irgen.REPO) for f in ck.files),
                       'configurations': sorted(ck.progs), 'notes': sorted(set(ck.notes))[:20],
                       'samples': ck.names[:12]}}
    tmp = os.path.join(evd, '%s.%d.tmp' % (pid, os.getpid()))
    json.dump(ev, open(tmp, 'w'), indent=1); os.replace(tmp, os.path.join(evd, pid + '.json'))
    for v in found: print('KNOWN-FINDING: property=%s %s' % (pid, kn[v[3]] or v[0]))
    for u in ck.undecided[:10]: print('UNDECIDED: %s: %s' % u)
    print('%s: %d obligations, %d discharged, %d undecided, %d functions, %d IR instructions, %.1fs' % (pid, obligations, ck.ok, len(ck.undecided), len(ck.fns), ck.instrs, time.time() - t0))
    if viol:
        with open(replay, 'w') as f:
            for n, d, l, k in viol: f.write('%s\n  at %s\n  %s\n  key: %s\n' % (n, l, d, k))
        for n, d, l, k in viol[:8]: print('  %s [%s]: %s' % (n, l, d[:400]))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if os.path.exists(replay): os.remove(replay)
    if ck.ok == 0 or isinstance(err, irgen.BuildError):
        print('ERROR: nothing was decided'); return 2
    return 0
if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]
    def t(): rc[0] = main()
    th = threading.Thread(target=t); th.start(); th.join()
    sys.stdout.flush()
    import shutil, irgen
    if irgen._scratch: shutil.rmtree(irgen._scratch, ignore_errors=True)
    os._exit(rc[0])
