#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--seed N] [--runs N] [--seconds S] [--workers N]
   check.py <ID> --replay FILE          re-run one recorded schedule and fault trace
   check.py <ID> --trace-hashes         print the trace hash of every run (determinism audit)
Exit 0: held on everything explored.  Exit 1: a VIOLATION line was printed.  Exit 2: harness error."""
import argparse
import hashlib
import json
import os
import shutil
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


def package_hash():
    h = hashlib.sha256()
    pkg = os.path.join(REPO, 'pipedream_solver')
    for root, dirs, files in os.walk(pkg):
        dirs.sort()
        for f in sorted(files):
            if f.endswith('.py'):
                p = os.path.join(root, f)
                st = os.stat(p)
                h.update(os.path.relpath(p, pkg).encode())
                h.update(('%d' % st.st_mtime_ns).encode())
                h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


def reexec():
    want = {'PYTHONPATH': REPO, 'PYTHONHASHSEED': os.environ.get('VERIF_HASHSEED', '0'),
            'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
            'NUMBA_NUM_THREADS': '1', 'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg',
            'PYTHONNOUSERSITE': '1', 'VERIF_CHILD': '1',
            'NUMBA_CACHE_DIR': os.path.join(os.environ.get('VERIF_CACHE') or os.path.join(VERIF, '.cache'), 'nb-' + package_hash())}
    env = dict(os.environ, **want)
    for k in [k for k in env if k.startswith('NUMBA_') and k not in want]:
        del env[k]
    py = PY if os.path.exists(PY) else sys.executable
    os.chdir(VERIF)
    os.execve(py, [py, '-u', os.path.abspath(__file__)] + sys.argv[1:], env)


def prepare():
    """Compile the kernels of the tree under test (in parallel), then import it."""
    sys.path.insert(0, VERIF)
    cache = os.environ['NUMBA_CACHE_DIR']
    from sim import warm
    if not os.path.exists(os.path.join(cache, 'ready')):
        parent = os.path.dirname(cache)
        if os.path.isdir(parent):
            old = sorted((os.path.getmtime(os.path.join(parent, d)), d) for d in os.listdir(parent)
                         if d.startswith('nb-'))
            for _, d in old[:-3]:
                shutil.rmtree(os.path.join(parent, d), ignore_errors=True)
        os.makedirs(cache, exist_ok=True)
        env = {k: v for k, v in os.environ.items()}
        warm.warm(env, os.cpu_count() or 4)
        open(os.path.join(cache, 'ready'), 'w').close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--seconds', type=float)
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--workers', type=int, default=os.cpu_count() or 4)
    ap.add_argument('--replay')
    ap.add_argument('--trace-hashes', action='store_true')
    ap.add_argument('--no-minimise', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    t_start = time.monotonic()
    prepare()
    import importlib
    from sim import core, warm
    warm.import_package()
    try:
        mod = importlib.import_module('checks.' + a.id.lower())
    except BaseException as e:
        # a package that no longer imports breaks every property; anything else is our own error
        if core.in_package(e.__traceback__):
            print('package under test does not import: %r' % e)
        raise
    warmed = core.in_child(lambda: warmup(core, mod), 240)
    if warmed.get('status') == 'ok':
        warmup(core, mod)
    import gc
    gc.collect()
    gc.freeze()

    if a.replay:
        rec = json.load(open(a.replay))
        res = core.as_violation(core.in_child(lambda: core.execute(mod, rec['scenario'], verbose=True),
                                              2 * getattr(mod, 'RUN_TIMEOUT', core.RUN_TIMEOUT)))
        print('status=%s kind=%s trace=%s' % (res['status'], res.get('kind'), res.get('trace')))
        print(res.get('msg', ''))
        if res['status'] == 'violation':
            print('same as recorded: %s' % (res.get('kind') == rec.get('kind')
                                            and res.get('trace') == rec.get('trace')))
            print('VIOLATION property=%s replay=%s' % (a.id, a.replay))
            return 1
        return 0 if res['status'] in ('ok', 'discard') else 2

    nruns = a.runs or mod.RUNS[a.tier]
    seconds = a.seconds or getattr(mod, 'SECONDS', {'quick': 45, 'thorough': 1500})[a.tier]
    print('property=%s tier=%s seed=%d runs=%d workers=%d setup=%.1fs' % (
        a.id, a.tier, a.seed, nruns, a.workers, time.monotonic() - t_start))
    results, wall = core.search(mod, a.seed, a.tier, nruns, seconds, a.workers, a.start)
    if a.trace_hashes:
        for i in sorted(results):
            print(i, results[i].get('trace'), results[i]['status'])

    # classify
    findings = core.known_findings(a.id)
    bad, errors, known = [], [], {}
    for i in sorted(results):
        r = core.as_violation(results[i])
        if r['status'] == 'violation':
            if 'scn' not in r:
                r['scn'] = core.normal(mod.generate(core.rng_for(a.seed, mod.ID, i), a.tier))
            if r['kind'] in ('no-progress', 'interpreter-crash'):
                # the machine may only have been slow: believe it when it happens again, alone
                again = core.as_violation(core.in_child(lambda: core.execute(mod, r['scn']),
                                                        2 * getattr(mod, 'RUN_TIMEOUT', core.RUN_TIMEOUT)))
                if again['status'] != 'violation':
                    results[i] = again
                    if again['status'] == 'error':
                        errors.append((i, again))
                    continue
                r.update(again)
            d = core.digest(r['scn'])[:16]
            hit = [f for f in findings if f[0] == r['kind'] and f[1] in ('*', d)]
            if hit:
                known[hit[0]] = known.get(hit[0], 0) + 1
            else:
                bad.append((i, r))
        elif r['status'] == 'error':
            errors.append((i, r))
    for f in findings:
        print('KNOWN-FINDING: property=%s %s' % (a.id, f[2]))

    rc = 0
    if bad:
        i, r = bad[0]
        print('run %d (seed string %s:%s:%d): %s: %s' % (i, a.seed, mod.ID, i, r['kind'], r['msg']))
        scn, tried = r['scn'], 0
        if not a.no_minimise:
            scn, tried = core.minimise(mod, scn, r['kind'], 40 if a.tier == 'quick' else 180)
        limit = 2 * getattr(mod, 'RUN_TIMEOUT', core.RUN_TIMEOUT)
        final = core.as_violation(core.in_child(lambda: core.execute(mod, scn), limit))
        path = os.path.join(VERIF, 'replays', '%s-%s-%d-%d.json' % (a.id, a.tier, a.seed, i))
        core.write_json(path, {'property': a.id, 'seed': '%s:%s:%d' % (a.seed, mod.ID, i), 'kind': final.get('kind', r['kind']),
                               'msg': final.get('msg', r['msg']), 'trace': final.get('trace'),
                               'minimisation_runs': tried, 'original_ops': len(r['scn'].get('ops', [])),
                               'scenario': scn})
        print('minimised to %d ops in %d runs: %s' % (len(scn.get('ops', [])), tried, final.get('msg', r['msg'])))
        print('VIOLATION property=%s replay=%s' % (a.id, path))
        rc = 1
    elif errors:
        i, r = errors[0]
        print('harness error in run %d:\n%s' % (i, r['msg']))
        rc = 2
    elif not any(r['status'] == 'ok' for r in results.values()):
        print('harness error: no run reached a verdict')
        rc = 2
    ev = evidence(core, mod, a, results, wall, time.monotonic() - t_start, len(bad))
    if not a.no_evidence:
        core.write_json(os.path.join(VERIF, 'evidence', a.id + '.json'), ev)
    c = ev['coverage']
    print('runs=%d ok=%d discarded=%d distinct_nontrivial=%d faults=%s sim_time=%.0fs states=%d wall=%.1fs' % (
        c['evaluations'], c['ok'], c['discarded'], c['distinct_nontrivial'], json.dumps(c['faults_injected']),
        c['simulated_time_s'], c['distinct_states'], ev['wall_s']))
    print('probes=%s worst=%s' % (json.dumps(c['probes']), json.dumps(c['worst_tolerance_ratio'])))
    sys.stdout.flush()
    return rc


def warmup(core, mod):
    """Compile what is compiled lazily, once, before forking.  Always the same scenarios."""
    for i in range(getattr(mod, 'WARMUP', 3)):
        try:
            core.execute(mod, core.normal(mod.generate(core.rng_for('warm', mod.ID, i), 'quick')))
        except Exception:
            pass
    return {'status': 'ok'}


def evidence(core, mod, a, results, wall, total, nbad):
    import collections
    faults, probes, worst = collections.Counter(), collections.Counter(), {}
    states, scheds, traces = set(), set(), set()
    ok = disc = simtime = steps = checks = events = 0
    for i in sorted(results):
        r = results[i]
        ok += r['status'] == 'ok'
        disc += r['status'] == 'discard'
        if 'faults' not in r:
            continue
        faults.update(r['faults'])
        probes.update(r['probes'])
        simtime += r['simtime']
        steps += r['steps']
        checks += r['checks']
        events += r['events']
        states.update(r['states'])
        scheds.update(r['schedules'])
        for k, v in r['worst'].items():
            worst[k] = max(worst.get(k, 0.), v)
        if r['status'] == 'ok' and r['steps'] >= getattr(mod, 'MIN_STEPS', 2) and r['checks'] > 0:
            traces.add(r['trace'])
    samples = [{'run': i, 'seed': '%s:%s:%d' % (a.seed, mod.ID, i), 'trace': results[i].get('trace'),
                'scenario': results[i]['scn']} for i in sorted(results) if 'scn' in results[i]][:2]
    n = len(results)
    return {'property': a.id, 'tier': a.tier, 'seed': a.seed, 'level': mod.LEVEL,
            'coverage': {
                'evaluations': n, 'distinct_nontrivial': len(traces),
                'rule': mod.RULE + ' Counted: runs that reached a verdict after at least %d completed steps and at least '
                        'one oracle check, with distinct event-log hashes.' % getattr(mod, 'MIN_STEPS', 2),
                'samples': samples, 'ok': ok, 'discarded': disc, 'seeds': n,
                'runs_per_hour': int(3600 * n / max(wall, 1e-9)), 'seeds_per_hour': int(3600 * n / max(wall, 1e-9)),
                'simulated_time_s': round(simtime, 3), 'simulated_steps': steps, 'oracle_checks': checks,
                'events_logged': events, 'faults_injected': dict(faults), 'probes': dict(probes),
                'distinct_states': len(states), 'distinct_schedules': len(scheds),
                'state_measure': 'distinct hashes of the full reported hydraulic (or component) state after a step',
                'worst_tolerance_ratio': {k: float('%.3g' % v) for k, v in worst.items()},
                'real_components': mod.REAL, 'stub_components': mod.STUB},
            'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(total, 2), 'violations': nbad}


if __name__ == '__main__':
    if os.environ.get('VERIF_CHILD') != '1':
        reexec()
    rc = main()
    sys.stdout.flush()
    os._exit(rc if rc is not None else 0)
