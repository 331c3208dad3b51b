#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only SUBSTR] [-v]

Decides one property by symbolic execution of /repo's current source.
Exit 0: held on everything explored; exit 1 with a VIOLATION line otherwise.
"""
from __future__ import annotations

import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import resource
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python'

try:
    import z3  # noqa: F401
except ImportError:
    exe = VT if os.path.exists(VT) else shutil.which('python3-vt')
    if not exe or os.environ.get('SX_REEXEC'):
        print('no interpreter with z3 found', file=sys.stderr)
        sys.exit(2)
    os.environ['SX_REEXEC'] = '1'
    os.execv(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:])

sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.unraisablehook = lambda *a: None

from symx import loader, env as symenv  # noqa: E402

REPO = os.environ.get('SX_REPO', '/repo')
STOPPED = 'stopped: a violation was found elsewhere'
HARD_LIMIT = {'quick': 700, 'thorough': 840}


def worker(conn):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except (ValueError, OSError):
        pass
    while True:
        task = conn.recv()
        if task is None:
            break
        try:
            r = symenv.run_scenario(task)
        except MemoryError:
            r = {'error': 'out of memory'}
        except BaseException as e:      # noqa: BLE001
            import traceback
            r = {'error': '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])}
        conn.send(r)
        if 'error' in r:
            break
    conn.close()
    os._exit(0)


def run_tasks(tasks, limit, jobs, is_new=None):
    """Runs tasks in worker processes; a lost task gives an 'error' result.

    Once a result has a confirmed violation (is_new) the others are stopped."""
    start = time.time()
    todo = sorted(range(len(tasks)), key=lambda i: -tasks[i].get('weight', 1))
    results = [None] * len(tasks)
    found = False
    workers = []        # [process, connection, task index or None, start]

    def spawn():
        a, b = mp.Pipe()
        p = mp.Process(target=worker, args=(b,))
        p.start()
        b.close()
        return [p, a, None, 0.0, 0]

    def stop(w):
        w[0].kill()
        w[0].join(5)
        w[1].close()
        workers.remove(w)

    while todo or any(w[2] is not None for w in workers):
        out_of_time = time.time() - start > limit
        found = bool(is_new) and any(is_new(tasks[i], r) for i, r in enumerate(results) if r)
        out_of_time = out_of_time or found
        if out_of_time:
            for i in todo:
                results[i] = {'error': STOPPED if found else 'not started: time limit'}
            todo = []
        while todo and len(workers) < jobs:
            workers.append(spawn())
        for w in workers:
            if w[2] is None and todo:
                w[2], w[3] = todo.pop(0), time.time()
                w[4] += 1
                w[1].send(tasks[w[2]])
        busy = [w for w in workers if w[2] is not None]
        done = mp.connection.wait([w[1] for w in busy], timeout=1.0)
        for w in busy:
            i = w[2]
            if w[1] in done:
                try:
                    results[i] = w[1].recv()
                except (EOFError, OSError):
                    results[i] = {'error': 'worker died'}
            elif not w[0].is_alive():
                results[i] = {'error': 'worker died'}
            elif out_of_time or time.time() - w[3] > tasks[i].get('time', 60) * 3 + 120:
                results[i] = {'error': STOPPED if found else 'time limit'}
            else:
                continue
            w[2] = None
            if 'error' in results[i] or w[4] >= 40:
                stop(w)
    for w in list(workers):
        stop(w)
    return results


def load_known(pid):
    """Active entries: lines 'known: property=<id> func=<name> label=<re> -- what fails'."""
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            m = re.match(r'known: property=(\S+) func=(\S+) match=(\S+) -- (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--only', default=None)
    ap.add_argument('-v', '--verbose', action='store_true')
    ap.add_argument('-j', type=int, default=int(os.environ.get('SX_JOBS', '8')))
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    loader.install({'gostcrypto': REPO, 'scen': HERE, 'spec': HERE})
    modname = 'scen.' + pid.lower()
    mod = importlib.import_module(modname)
    facts = tempfile.mkdtemp(prefix='sxfacts')
    tasks = []
    for ent in mod.scenarios(tier):
        func, params = ent[0], ent[1]
        opts = ent[2] if len(ent) > 2 else {}
        if a.only and a.only not in func + json.dumps(params):
            continue
        t = {'module': modname, 'func': func, 'params': params, 'seed': seed,
             'time': 120 if tier == 'quick' else 420, 'validate': 2, 'facts': facts}
        t.update(opts)
        tasks.append(t)
    known = load_known(pid)

    def listed(t, name, v):
        text = '%s|%s|%s' % (name, v['label'], v['detail'])
        for kf, kr, what in known:
            if kf == t['func'] and kr.search(text):
                return what
        return None

    def name_of(t):
        return '%s%s' % (t['func'], json.dumps(t['params'], sort_keys=True))

    try:
        results = run_tasks(
            tasks, HARD_LIMIT[tier], a.j,
            lambda t, r: any(listed(t, name_of(t), v) is None for v in r.get('violations', ())))
        names = os.listdir(facts)
        proved = sum(n.endswith('.proved') for n in names)
        claimed = len({n.split('.')[0] for n in names})
    finally:
        shutil.rmtree(facts, ignore_errors=True)

    viol, knowns, errors = [], {}, []
    agg = {'paths': 0, 'decisions': 0, 'transitions': 0, 'obligations': 0, 'closed': 0,
           'validated': 0, 'validation_mismatch': 0, 'atoms': 0}
    qs, st, lem = {}, {}, {'unsat': 0, 'failed': 0, 'skipped': 0}
    incomplete, notes, samples, unconf, vacuous = [], [], [], [], []
    for t, r in zip(tasks, results):
        name = name_of(t)
        if 'error' in r:
            errors.append('%s: %s' % (name, r['error'].strip().splitlines()[0]
                                      if not a.verbose else r['error']))
            incomplete.append(name)
            continue
        for k in agg:
            agg[k] += r[k]
        for k, v in r['queries'].items():
            qs[k] = qs.get(k, 0) + v
        for k, v in r['stats'].items():
            st[k] = st.get(k, 0) + v
        for k, v in r['lemmas'].items():
            lem[k] += v
        if not r['complete']:
            incomplete.append(name)
        if not r['obligations']:
            vacuous.append(name)
        for n in r['notes']:
            notes.append('%s: %s' % (name, n))
        for u in r['unconfirmed']:
            unconf.append('%s: %s (%s)' % (name, u['label'], u['detail']))
        if len(samples) < 6:
            samples.extend(r['samples'])
        for v in r['violations']:
            what = listed(t, name, v)
            if what is None:
                viol.append((name, v))
            else:
                knowns[what] = knowns.get(what, 0) + 1
        if a.verbose:
            print('%-70s paths=%d oblig=%d closed=%d valid=%d/%d atoms=%d q=%d st=%.1f wall=%.1f%s' % (
                name[:70], r['paths'], r['obligations'], r['closed'], r['validated'],
                r['validation_mismatch'], r['atoms'], r['queries']['queries'],
                r['queries']['solver_time'], r['wall'], '' if r['complete'] else ' INCOMPLETE'))
    # a scenario the encoder lost entirely is still tried on the real code
    lost = [t for t, r in zip(tasks, results) if 'error' in r and r['error'] != STOPPED]
    if viol:
        lost = []
    if lost:
        jobs = [{'module': t['module'], 'func': t['func'], 'params': t['params'],
                 'inputs': {}, 'timeout': 10} for t in lost[:20]]
        try:
            for t, j, o in zip(lost, jobs, symenv.run_concrete(jobs, 200)):
                if o['violations']:
                    v = o['violations'][0]
                    viol.append((t['func'], {'label': v[0], 'detail': v[1], 'job': j}))
        except Exception as e:      # noqa: BLE001
            notes.append('fallback run failed: %s' % e)
    wall = time.time() - t0
    evdir = os.path.join(HERE, 'evidence')
    rdir = os.path.join(evdir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + '-'):
            os.unlink(os.path.join(rdir, f))
    loaded = sorted(k for k in loader.LOADED if k.startswith('gostcrypto'))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': agg['paths'] + agg['decisions'],
            'transitions': agg['transitions'],
            'traces_validated_against_impl': agg['validated'],
            'samples': samples or [t['func'] for t in tasks[:3]],
            'scenarios': len(tasks),
            'scenarios_incomplete': incomplete,
            'scenarios_without_obligations': vacuous,
            'paths': agg['paths'],
            'obligations_checked': agg['obligations'],
            'obligations_closed_by_normal_form': agg['closed'],
            'solver_queries': qs.get('queries', 0),
            'solver_unsat': qs.get('unsat', 0), 'solver_sat': qs.get('sat', 0),
            'solver_unknown': qs.get('unknown', 0),
            'solver_time_s': round(qs.get('solver_time', 0.0), 3),
            'table_facts_certified_by_z3': proved,
            'table_facts_not_certified': max(claimed - proved, 0) + lem['skipped'],
            'symbolic_table_lookups': st.get('lookups', 0),
            'boolean_atoms': agg['atoms'],
            'validation_mismatches': agg['validation_mismatch'],
            'unconfirmed_candidates': unconf[:20],
            'bounds': getattr(mod, 'BOUNDS', {}).get(tier, ''),
            'encoded_modules': loaded,
            'encoded_functions': getattr(mod, 'ENCODED', ''),
            'notes': notes[:20], 'errors': errors[:20],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', ())),
        'wall_s': round(wall, 2),
        'violations': len(viol),
    }
    with open(os.path.join(evdir, pid + '.json'), 'w', encoding='utf-8') as fh:
        json.dump(ev, fh, indent=1)
    if a.verbose:
        for n in notes + unconf + errors:
            print('note:', n)
    for what in sorted(knowns):
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    print('%s %s: %d scenarios, %d paths, %d obligations (%d closed), %d queries, '
          '%d/%d table facts certified, %d traces validated, %d incomplete, %.1f s' % (
              pid, tier, len(tasks), agg['paths'], agg['obligations'], agg['closed'],
              qs.get('queries', 0), proved, max(claimed, proved) + lem['skipped'], agg['validated'],
              len(incomplete), wall))
    if viol:
        for i, (name, v) in enumerate(viol[:10]):
            path = os.path.join(rdir, '%s-%d.json' % (pid, i))
            with open(path, 'w', encoding='utf-8') as fh:
                json.dump({'property': pid, 'scenario': name, 'label': v['label'],
                           'detail': v['detail'], 'job': v['job'],
                           'how': 'python3 /verif/replay.py ' + path}, fh, indent=1)
            print('  %s: %s: %s' % (name[:150], v['label'], v['detail'][:300]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    import multiprocessing.connection  # noqa: F401
    main()
