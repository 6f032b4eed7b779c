"""The check of one property.

1. The sources of /repo are parsed (by the interpreter that runs them) and
   the contracts of the property are verified on those ASTs: every obligation
   must be discharged.
2. A companion harness runs the real code under Jython with the executable
   form of the same specification, to turn a failed obligation into a
   concrete failing input (and to cross-check the verifier).

exit 0: all obligations discharged and no failing input found
exit 1: VIOLATION line (with or without failing input)
"""
import importlib
import json
import multiprocessing
import os
import resource
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.setrecursionlimit(20000)


def tasks_of(prop):
    """names of the verification tasks of a property"""
    from contracts import AREAS
    mod = importlib.import_module('contracts.' + AREAS[prop])
    return mod.TASKS.get(prop, [])


def run_one(args):
    prop, index, astfile = args
    import threading
    out = {}

    def go():
        try:
            from .run import run_task
            with open(astfile) as f:
                asts = json.load(f)
            task = tasks_of(prop)[index]
            res = run_task(asts, task)
            d = res.todict()
            d['ok'] = bool(res.ok())
            d['trace'] = getattr(res, 'trace', None)
            out.update(d)
        except Exception:
            out.update({'task': '%s[%d]' % (prop, index), 'ok': False,
                        'undecided': 'verifier error', 'obligations': [],
                        'trace': traceback.format_exc(), 'functions': [],
                        'contracts': [], 'externals': [], 'assumptions': [],
                        'invariants': [], 'secs': 0, 'solver_secs': 0,
                        'queries': 0, 'paths': 0})
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(100000)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return out


def companion(prop, seed, tier, models, tmp):
    """run the companion harness; returns (report, error text)"""
    script = os.path.join(VERIF, 'companion', 'run.py')
    out = os.path.join(tmp, 'companion.json')
    mfile = os.path.join(tmp, 'models.json')
    with open(mfile, 'w') as f:
        json.dump(models, f)
    env = dict(os.environ)
    env['JYTHONPATH'] = ':'.join([
        '/opt/jylib', REPO, os.path.join(VERIF, 'standins')])
    env['LC_ALL'] = 'C.UTF-8'
    env['VERIF_REPO'] = REPO
    scratch = os.path.join(tmp, 'scratch')
    os.mkdir(scratch)
    budget = 500 if tier == 'thorough' else 170
    try:
        p = subprocess.run(
            ['jython', '-B', script, prop, str(seed), tier, mfile, out],
            env=env, cwd=scratch, timeout=budget, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        if os.path.exists(out):
            with open(out) as f:
                d = json.load(f)
            return d, 'companion timed out'
        return None, 'companion timed out'
    if not os.path.exists(out):
        return None, p.stdout.decode('utf8', 'replace')[-3000:]
    try:
        with open(out) as f:
            return json.load(f), None
    except ValueError:
        return None, 'unreadable companion report'


def known_findings():
    path = os.path.join(VERIF, 'known-findings.json')
    with open(path) as f:
        return json.load(f)


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get(
        'VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    sys.path.insert(0, VERIF)
    evdir = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
    repdir = os.path.join(VERIF, 'replay')
    for d in (evdir, repdir):
        if not os.path.isdir(d):
            os.makedirs(d)
    from .frontend import dump
    with tempfile.TemporaryDirectory() as tmp:
        pool = multiprocessing.get_context('fork').Pool(7)
        comp = None
        try:
            comp = pool.apply_async(companion, (prop, seed, tier, [], tmp))
            results, dump_error = [], None
            try:
                asts = dump()
            except Exception as e:
                dump_error = 'the sources cannot be parsed: %s %s' % (
                    e, getattr(e, 'stderr', b'') or b'')
            if dump_error is None:
                astfile = os.path.join(tmp, 'asts.json')
                with open(astfile, 'w') as f:
                    json.dump(asts, f)
                n = len(tasks_of(prop))
                results = pool.map(run_one, [(prop, i, astfile)
                                             for i in range(n)], 1)
            report, comp_error = comp.get()
        finally:
            pool.terminate()
            pool.join()
    return conclude(prop, tier, seed, t0, results, dump_error, report,
                    comp_error, evdir, repdir)


def conclude(prop, tier, seed, t0, results, dump_error, report, comp_error,
             evdir, repdir):
    from contracts import META
    obls = [dict(o, task=r['task']) for r in results
            for o in r['obligations']]
    bad = [o for o in obls if o['status'] != 'proved']
    undecided = [{'task': r['task'], 'reason': r['undecided'],
                  'trace': r.get('trace')}
                 for r in results if r['undecided']]
    for r in results:
        if not r['obligations'] and not r['undecided']:
            undecided.append({'task': r['task'],
                              'reason': 'no obligation was generated'})
    if dump_error:
        undecided.append({'task': '-', 'reason': dump_error})
    if not results and not dump_error and META.get(prop, {}).get(
            'level', 'proof') == 'proof':
        undecided.append({'task': '-', 'reason': 'no contract'})
    failures = list((report or {}).get('failures', []))
    kf = [k for k in known_findings() if k.get('status') == 'open'
          and k['property'] == prop]
    seen = []
    real = []
    for f in failures:
        for k in kf:
            if k.get('key') and k['key'] == f.get('key'):
                if k not in seen:
                    seen.append(k)
                break
        else:
            real.append(f)
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    ok_proof = not bad and not undecided
    violation = None
    path = os.path.join(repdir, prop + '.json')
    if os.path.exists(path):
        os.unlink(path)
    if real:
        violation = 'VIOLATION property=%s replay=%s' % (prop, path)
    elif not ok_proof:
        violation = ('VIOLATION property=%s replay=%s '
                     'no-failing-input-found' % (prop, path))
    elif report is None and META.get(prop, {}).get('level') != 'proof':
        violation = ('VIOLATION property=%s replay=%s '
                     'no-failing-input-found' % (prop, path))
    if violation:
        with open(path, 'w') as f:
            json.dump({
                'property': prop, 'seed': seed, 'tier': tier,
                'failing_inputs': real[:20],
                'replay_cmd': 'VERIF_SEED=%d JYTHONPATH=/opt/jylib:/repo:'
                '/verif/standins jython -B /verif/companion/run.py %s %d %s '
                '/dev/null out.json' % (seed, prop, seed, tier),
                'failed_obligations': bad[:50],
                'undecided': undecided[:20],
                'companion_error': comp_error,
            }, f, indent=1)
    meta = META.get(prop, {})
    backs = {}
    for o in obls:
        if o['status'] == 'proved':
            backs[o['solver']] = backs.get(o['solver'], 0) + 1

    def union(k):
        return sorted(set(x for r in results for x in r[k]))
    trusted = ['pydv verifier (verification-condition generator over the '
               'parsed source; /verif/pydv)', 'z3 4.x (python3-vt)',
               'jython 2.7.3 parser (_ast) as front end']
    trusted += ['external (uninterpreted or specified): ' + x
                for x in union('externals')]
    trusted += ['assumed contract: ' + x for x in union('contracts')]
    cov = {
        'obligations': len(obls),
        'discharged': len(obls) - len(bad),
        'checker_cmd': '/verif/bin/check %s' % prop,
        'trusted_base': trusted,
        'back_ends': backs,
        'undecided_tasks': len(undecided),
        'solver_seconds': round(sum(r['solver_secs'] for r in results), 2),
        'solver_queries': sum(r['queries'] for r in results),
        'paths': sum(r['paths'] for r in results),
        'functions_under_contract': union('functions'),
        'tasks': [{'task': r['task'], 'obligations': len(r['obligations']),
                   'discharged': len([o for o in r['obligations']
                                      if o['status'] == 'proved']),
                   'secs': r['secs'], 'undecided': r['undecided'],
                   'loop_invariants': r['invariants'][:12]}
                  for r in results],
        'obligation_names': sorted(set(
            '%s: %s' % (o['task'], o['name']) for o in obls))[:200],
        'companion': {
            'label': 'bounded run-time cross-check of the real code, not '
                     'counted as proved',
            'evaluations': (report or {}).get('cases', 0),
            'distinct_nontrivial': (report or {}).get('distinct', 0),
            'rule': (report or {}).get('rule', ''),
            'samples': (report or {}).get('samples', [])[:5],
            'by_clause': (report or {}).get('clauses', {}),
            'error': comp_error,
        },
    }
    if meta.get('level', 'proof') != 'proof':
        cov['evaluations'] = (report or {}).get('cases', 0)
        cov['distinct_nontrivial'] = (report or {}).get('distinct', 0)
        cov['rule'] = (report or {}).get('rule', '')
        cov['samples'] = (report or {}).get('samples', [])[:5]
    if meta.get('bounded'):
        cov['bounded_stand_ins'] = meta['bounded']
    ev = {'property': prop, 'tier': tier, 'seed': seed,
          'level': meta.get('level', 'proof'), 'coverage': cov,
          'assumptions': sorted(set(union('assumptions') +
                                    meta.get('assumptions', []))),
          'wall_s': round(time.time() - t0, 2),
          'violations': 1 if violation else 0}
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d undecided tasks; companion '
          '%s cases%s; %.1f s' % (
              prop, len(obls), len(obls) - len(bad), len(undecided),
              (report or {}).get('cases', 0),
              ' (%s)' % comp_error[-300:] if comp_error else '',
              time.time() - t0))
    if violation:
        for o in bad[:5]:
            print('  failed obligation [%s] %s: %s' % (
                o['task'], o['name'], o['status']))
        for u in undecided[:5]:
            print('  undecided [%s]: %s' % (u['task'], u['reason']))
        for f in real[:3]:
            print('  failing input: %s' % json.dumps(f)[:600])
        print(violation)
        return 1
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
    sys.exit(rc)
