#!/usr/bin/env python3-vt
"""Runs the check of one property:  run.py P01 [--tier quick|thorough] [--only FN] [--jobs N]
                                     run.py --replay FILE"""
import argparse
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import re
import resource
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

LIMITS = {'quick': dict(seconds=60.0, max_paths=400, total=420.0), 'thorough': dict(seconds=300.0, max_paths=6000, total=820.0)}


def known_ids(prop):
    out = {}
    fn = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r'known: property=(\w+) id=(\w+) (.*)', line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def worker(conn, modname, seed, known, repo):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    from symx import symcx
    mod = importlib.import_module(modname)
    rp = symcx.Replayer(repo)
    while True:
        try:
            task = conn.recv()
        except EOFError:
            break
        if task is None:
            break
        fname, params, lim = task
        try:
            r = symcx.explore(mod, fname, params, rp, seed=seed, known=known, **lim)
        except MemoryError:
            r = {'fn': fname, 'params': params, 'error': 'memory limit'}
        except BaseException as x:
            import traceback
            r = {'fn': fname, 'params': params, 'error': '%s: %s' % (type(x).__name__, x), 'tb': traceback.format_exc()[-3000:]}
        conn.send(r)
    rp.close()


def run_tasks(tasks, modname, jobs, seed, known, repo, total):
    """Distributes the instances over worker processes; a worker that dies or hangs costs one instance."""
    ctx = mp.get_context('fork')
    t0 = time.time()
    todo = list(enumerate(tasks))[::-1]
    results = [None] * len(tasks)
    active = {}

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b, modname, seed, known, repo), daemon=False)
        p.start()
        b.close()
        return [p, a, None, 0, 0]
    ws = [spawn() for _ in range(min(jobs, len(tasks)))]

    def give(w):
        if todo and time.time() - t0 < total:
            i, t = todo.pop()
            f, params, lim = t
            lim = dict(lim)
            lim['seconds'] = max(2.0, min(lim['seconds'], total - (time.time() - t0)))
            w[1].send((f, params, lim))
            w[2], w[3], w[4] = i, time.time(), lim['seconds']
        else:
            w[2] = None
            try:
                w[1].send(None)
            except Exception:
                pass
    for w in ws:
        give(w)
    while any(w[2] is not None for w in ws):
        busy = [w for w in ws if w[2] is not None]
        ready = mp.connection.wait([w[1] for w in busy], timeout=1.0)
        for w in busy:
            if w[1] in ready:
                i = w[2]
                try:
                    results[i] = w[1].recv()
                except (EOFError, OSError):
                    results[i] = {'fn': tasks[i][0], 'params': tasks[i][1], 'error': 'worker process ended'}
                    w[0].join(1)
                    w[:] = spawn()
                give(w)
            elif time.time() - w[3] > w[4] + 60:
                i = w[2]
                w[0].kill()
                results[i] = {'fn': tasks[i][0], 'params': tasks[i][1], 'error': 'no answer within %.0fs' % (w[4] + 60)}
                w[:] = spawn()
                give(w)
    for w in ws:
        w[0].join(5)
        if w[0].is_alive():
            w[0].kill()
    for i, r in enumerate(results):
        if r is None:
            results[i] = {'fn': tasks[i][0], 'params': tasks[i][1], 'error': 'not started within the total time'}
    return results


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')) or (os.cpu_count() or 4))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    repo = os.environ.get('VERIF_REPO', '/repo')
    if a.replay:
        rec = json.load(open(a.replay))
        from symx import symcx
        rp = symcx.Replayer(repo)
        r = rp(rec['module'], rec['fn'], rec['params'], rec['inputs'])
        rp.close()
        print(json.dumps(r, indent=1))
        return 1 if r['failures'] else 0
    t0 = time.time()
    prop = a.prop
    modname = 'checks.%s' % prop.lower()
    from symx import instrument, symcx
    mod = importlib.import_module(modname)
    try:
        instrument.load(repo)
    except BaseException as x:
        print('cannot load the package: %s: %s' % (type(x).__name__, x))
        return 2
    known = known_ids(prop)
    base = LIMITS[a.tier]
    tasks = []
    for inst in mod.instances(a.tier):
        fn, params = inst[0], inst[1]
        lim = {'seconds': base['seconds'], 'max_paths': base['max_paths']}
        if len(inst) > 2:
            lim.update(inst[2])
        if a.only and not re.search(a.only, '%s %s' % (fn, params)):
            continue
        tasks.append((fn, params, lim))
    res = run_tasks(tasks, modname, a.jobs, a.seed, tuple(known), repo, base['total'])
    return report(prop, a, mod, res, known, t0)


def report(prop, a, mod, res, known, t0):
    evd = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
    rdir = os.path.join(evd, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '_'):
            os.remove(os.path.join(rdir, f))
    tot = dict(paths=0, infeasible=0, checks=0, static_checks=0, witnesses=0, unwitnessed=0, narrowed=0, nonmarker=0)
    st = {}
    viol, kn, inconc, incomplete, funcs, samples = [], [], [], [], set(), []
    for r in res:
        name = '%s %s' % (r['fn'], json.dumps(r['params'], sort_keys=True))
        if 'error' in r:
            inconc.append('%s: %s' % (name, r['error']))
            if a.v and 'tb' in r:
                print(r['tb'])
            continue
        for k in tot:
            tot[k] += r[k]
        for k, v in r['stats'].items():
            st[k] = st.get(k, 0) + v
        viol.extend(r['violations'])
        kn.extend(r['known'])
        for x in sorted(set(r['inconclusive'])):
            inconc.append('%s: %s' % (name, x))
        for x in sorted(set(r['spurious'])):
            inconc.append('%s: counterexample not reproduced by the real code: %s' % (name, x))
        if r['incomplete']:
            incomplete.append('%s: %s' % (name, r['incomplete']))
        funcs.update(r['functions'])
        for s in r['samples'][:1]:
            if len(samples) < 40:
                samples.append({'harness': name, 'inputs': s})
        if a.v:
            print('%-70s paths %4d checks %5d (static %5d) wit %4d/%d q %5d %.1fs %s %s' % (
                name[:70], r['paths'], r['checks'], r['static_checks'], r['witnesses'], r['unwitnessed'],
                r['stats']['queries'], r['seconds'], r['incomplete'] or '', 'narrowed %d' % r['narrowed'] if r['narrowed'] else ''))
    viols = []
    for i, v in enumerate(viol[:12]):
        fn = os.path.join(rdir, '%s_%d.json' % (prop, i))
        with open(fn, 'w') as f:
            json.dump(v, f, indent=1)
        viols.append({'label': v['label'], 'harness': v['fn'], 'params': v['params'], 'replay': fn, 'observed': v['observed'][:5]})
        print('VIOLATION property=%s replay=%s' % (prop, fn))
        print('  %s%s: %s' % (v['fn'], json.dumps(v['params']), v['label'][:300]))
        print('  real code: %s' % '; '.join(v['observed'][:3])[:400])
    shown = set()
    for v in kn:
        for k in v['known']:
            if k not in shown:
                shown.add(k)
                print('KNOWN-FINDING: property=%s %s %s' % (prop, k, known[k]))
    for x in inconc[:30]:
        print('inconclusive: %s' % x[:300])
    for x in incomplete[:30]:
        print('incomplete: %s' % x[:200])
    ev = {
        'property': prop, 'tier': a.tier, 'seed': a.seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'], 'transitions': st.get('decisions', 0) + st.get('static', 0),
            'bounds': getattr(mod, 'BOUNDS', {}).get(a.tier, '') if isinstance(getattr(mod, 'BOUNDS', ''), dict) else getattr(mod, 'BOUNDS', ''),
            'traces_validated_against_impl': tot['witnesses'],
            'samples': samples or [{'harness': 'none', 'inputs': {}}],
            'functions_encoded': sorted(funcs),
            'instances': len(res), 'paths': tot['paths'], 'assumption_cut_paths': tot['infeasible'],
            'assertions': tot['checks'], 'assertions_discharged_by_simplification': tot['static_checks'],
            'queries': st.get('queries', 0), 'queries_cached': st.get('cached', 0), 'solver_s': round(st.get('solver_s', 0), 2),
            'solver_unknown': st.get('unknown', 0), 'branch_forks': st.get('forks', 0),
            'paths_narrowed_to_concrete_values': tot['narrowed'], 'paths_without_replayed_witness': tot['unwitnessed'],
            'known_findings_seen': sorted(shown), 'inconclusive': inconc[:60], 'incomplete': incomplete[:60],
            'exhausted_within_bounds': not incomplete and not inconc and not tot['narrowed'],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    if viols:
        ev['coverage']['violations_found'] = viols
    with open(os.path.join(evd, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d instances, %d paths, %d assertions, %d queries (%.1fs solver), %d witnesses replayed, %d violations, %.1fs' % (
        prop, a.tier, len(res), tot['paths'], tot['checks'], st.get('queries', 0), st.get('solver_s', 0), tot['witnesses'],
        len(viol), time.time() - t0))
    if viol:
        return 1
    if tot['checks'] == 0:
        print('nothing was explored')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
