"""C01: executions are repeatable and independent: neither other models, nor threads, nor earlier work
in the process, nor the caller's tables are coupled to a run."""
import copy
import json

from sim import drive, netgen
from sim.core import Scheduler, digest, in_child

ID = 'C01'
LEVEL = 'exploration'
RUNS = {'quick': 600, 'thorough': 20000}
RULE = ('Two to four caller tasks (a model, a simulation with adaptive steps, an infiltration column) are run alone, each in a fresh process, then together in one process '
        'under a seeded schedule that switches between them at any line of the package, then once more alone; some '
        'share the very same input tables, and forcing tables are overwritten by their owner mid-run.')
REAL = ['network model', 'simulation driver', 'infiltration', 'compiled kernels', 'Python threads (parked and released one at a time)']
STUB = ['the thread scheduler']
ASSUMPTIONS = ['switches happen between lines of the package; compiled kernels and single lines are atomic']


def generate(rng, tier):
    big = tier == 'thorough'
    worlds = [netgen.gen_world(rng, n_max=5, controls=0.5, tabular=0.3, transects=0.5, mobile=0.4, bc=0.4)
              for _ in range(2)]
    if rng.random() < .5:
        worlds[1] = sibling(rng, worlds[0])
    tag = '%06x' % rng.randrange(1 << 24)       # names no earlier work in the process has used
    for w in worlds:
        for key, col in (('transects', 'transect'), ('storages', 'table')):
            w[key] = {k + tag: v for k, v in (w.get(key) or {}).items()}
        for l in w['superlinks']:
            if l.get('transect'):
                l['transect'] += tag
        for j in w['superjunctions']:
            if j.get('table'):
                j['table'] += tag
    nt = rng.randint(2, 4)
    tasks = []
    for k in range(nt):
        wi = rng.randrange(2)
        kind = rng.choice(['model', 'model', 'sim', 'soil'])
        t = {'kind': kind, 'world': wi, 'n': rng.randint(2, 8 if big else 4), 'clobber': rng.random() < 0.4}
        if kind == 'soil':
            t['rain'] = [round(rng.choice([0, 1e-6, 1e-5, 5e-5]) * rng.random(), 9) for _ in range(t['n'] * 3)]
            t['soil'] = [round(rng.uniform(0.02, 0.3), 3), rng.choice([1e-7, 1e-6, 1e-5])]
        else:
            t['ops'] = drive.gen_ops(rng, worlds[wi], t['n'])
            t['subdivisions'] = rng.choice([1, 2, 3])
        tasks.append(t)
    slices = []
    mean = rng.choice([1, 3, 10, 40, 200])
    for _ in range(rng.randint(5, 400)):
        slices.append([rng.randrange(nt), 1 + int(rng.expovariate(1.0 / mean))])
    return {'worlds': worlds, 'tasks': tasks, 'slices': slices, 'share': rng.random() < 0.6}


def sibling(rng, w):
    """The same network by name, with other dimensions: whatever is remembered by name is wrong for it."""
    w = copy.deepcopy(w)
    for l in w['superlinks']:
        for p in [l] + l.get('parts', []):
            for k in ('g1', 'g2', 'n', 'dx', 'C'):
                if isinstance(p.get(k), float):
                    p[k] = round(p[k] * rng.uniform(.6, 1.6), 4)
    for v in (w.get('transects') or {}).values():
        f = rng.uniform(.5, 2.)
        v['x'] = [round(x * f, 4) for x in v['x']]
    for v in (w.get('storages') or {}).values():
        f = rng.uniform(.5, 2.)
        v['A'] = [round(x * f, 4) for x in v['A']]
    return w


def frames_digest(tabs):
    out = []
    for k in sorted(tabs):
        v = tabs[k]
        if hasattr(v, 'to_dict'):
            out.append([k, [str(c) for c in v.columns], [str(i) for i in v.index], [list(map(repr, v[c].tolist())) for c in v.columns]])
        elif isinstance(v, dict):
            out.append([k, {a: {b: (c if not hasattr(c, 'tolist') else c.tolist()) for b, c in d.items()} for a, d in v.items()}])
    return digest(out)


def make(task, world, tabs, log, ctx):
    """One caller's program.  Returns a callable that yields what it observed."""
    import numpy as np
    import pandas as pd

    def soil():
        from pipedream_solver.hydrology import GreenAmpt
        df = pd.DataFrame({'psi_f': [task['soil'][0]] * 2, 'Ks': [task['soil'][1]] * 2, 'theta_s': [.45, .4],
                           'theta_i': [.2, .1], 'A_s': [100., 50.]})
        ga = GreenAmpt(df)
        out = []
        for r in task['rain']:
            i = np.array([r, 2 * r])
            ga.step(dt=60., i=i)
            out.append([ga.f.copy(), ga.F.copy(), ga.Q.copy(), i.tolist() == [r, 2 * r]])
        return out

    def model():
        rig = drive.Rig.__new__(drive.Rig)
        rig.world = world
        rig.m = netgen.build(world, tabs=tabs)
        m = rig.m
        rig.names = [str(n) for n in m.superjunction_names]
        rig.row = {n: i for i, n in enumerate(rig.names)}
        rig.lrow = {str(n): i for i, n in enumerate(m.superlink_names)}
        out = []
        for op in task['ops']:
            kw = rig.kwargs(op)
            before = digest({k: v for k, v in kw.items()})
            m.step(**kw)
            assert_unchanged = digest({k: v for k, v in kw.items()}) == before
            out.append([drive.report(m), assert_unchanged])
        return out

    def sim():
        from pipedream_solver.simulation import Simulation
        m = netgen.build(world, tabs=tabs)
        js = [j['name'] for j in world['superjunctions']]
        ops = task['ops']
        t = np.cumsum([0.] + [o['dt'] for o in ops])
        Q = pd.DataFrame([[(o.get('q') or {}).get(n, 0.) for n in js] for o in [ops[0]] + ops], index=t, columns=js)
        h0 = {j['name']: j['z_inv'] + j['h_0'] for j in world['superjunctions']}
        H = pd.DataFrame([[(o.get('h') or {}).get(n, h0[n]) for n in js] for o in [ops[0]] + ops], index=t, columns=js)
        before = (digest(Q.values, Q.index.values), digest(H.values, H.index.values))
        out = []
        with Simulation(m, Q_in=Q, H_bc=H, dt=5.) as s:
            unchanged = before == (digest(Q.values, Q.index.values), digest(H.values, H.index.values))
            for k, op in enumerate(ops):
                if task['clobber'] and k == len(ops) // 2:
                    Q.iloc[:, :] = 1e3
                    H.iloc[:, :] = -50.
                s.step(dt=op['dt'], subdivisions=task['subdivisions'])
                s.record_state()
                out.append([drive.report(m), s.err])
        rec = {k: [list(map(float, v.index)), v.values] for k, v in vars(s.states).items()}
        return [out, rec, unchanged]
    return {'soil': soil, 'model': model, 'sim': sim}[task['kind']]


def guarded(fn):
    """A task's own failure (e.g. the driver's finiteness assertion) is part of what it observed."""
    def body():
        try:
            return fn()
        except AssertionError as e:
            return ['AssertionError']
    return body


def run(scn, ctx):
    tasks, worlds = scn['tasks'], scn['worlds']

    def fresh():
        return [netgen.tables(w) for w in worlds]
    # each alone, with its own tables
    alone = []
    for t in tasks:
        tabs = netgen.tables(worlds[t['world']])
        body = guarded(make(t, worlds[t['world']], tabs, None, ctx))
        got = in_child(lambda: {'status': 'ok', 'v': body()}, 60)      # in a process that has run nothing else
        alone.append(got['v'] if got['status'] == 'ok' else ctx.sut(body))
        ctx.state(digest(alone[-1]))
        for op in t.get('ops', []):
            ctx.advance(op['dt'])
        if t['kind'] == 'model':
            ctx.check(all(x[1] for x in alone[-1]), 'step-input-modified', 'a step wrote into the vectors it was given')
        elif t['kind'] == 'soil':
            ctx.check(all(x[3] for x in alone[-1]), 'step-input-modified', 'a step wrote into the rainfall it was given')
        elif len(alone[-1]) == 3:
            ctx.check(alone[-1][2], 'forcing-modified', 'building a simulation changed the forcing tables')
    # together
    shared = fresh()
    marks = [frames_digest(t) for t in shared]
    bodies = []
    for t in tasks:
        tabs = shared[t['world']] if scn['share'] else netgen.tables(worlds[t['world']])
        bodies.append(guarded(make(t, worlds[t['world']], tabs, None, ctx)))
    s = Scheduler(bodies, scn['slices'])
    res, err = s.run()
    ctx.fault('preemption', s.switches)
    ctx.schedule(scn['slices'])
    ctx.log('switches', s.switches)
    for k, t in enumerate(tasks):
        if err[k] is not None:
            def again(e=err[k]):
                raise e
            ctx.sut(again)
        ctx.same('interleaving-changes-result', res[k], alone[k], 'task %d (%s) next to %s' % (
            k, t['kind'], [x['kind'] for x in tasks]))
        ctx.log('task', k, digest(res[k]))
        if t.get('clobber') and t['kind'] == 'sim':
            ctx.fault('forcing_overwritten')
    for k, (tb, mk) in enumerate(zip(shared, marks)):
        ctx.check(frames_digest(tb) == mk, 'tables-modified', 'the input tables of world %d were changed' % k)
    # alone again, after everything else happened in this process
    t = tasks[0]
    again = ctx.sut(guarded(make(t, worlds[t['world']], shared[t['world']], None, ctx)))
    ctx.same('not-repeatable', again, alone[0], 'the same run, later in the same process')


def shrink(scn):
    for k in range(len(scn['tasks'])):
        if len(scn['tasks']) > 1:
            c = copy.deepcopy(scn)
            del c['tasks'][k]
            yield c
    for k, t in enumerate(scn['tasks']):
        for key in ('ops', 'rain'):
            if len(t.get(key, [])) > 1:
                for cut in (len(t[key]) // 2, len(t[key]) - 1):
                    c = copy.deepcopy(scn)
                    c['tasks'][k][key] = t[key][:cut]
                    yield c
        if t.get('clobber'):
            c = copy.deepcopy(scn)
            c['tasks'][k]['clobber'] = False
            yield c
    for k, w in enumerate(scn['worlds']):
        for v in netgen.shrink_world(w):
            c = copy.deepcopy(scn)
            c['worlds'][k] = v
            yield c
