"""C09: each step is driven by the forcing record as it stands at that step's end, at the node it belongs to."""
import numpy as np

from sim import drive, netgen
from sim.core import Discard, digest

ID = 'C09'
LEVEL = 'exploration'
RUNS = {'quick': 2500, 'thorough': 80000}
RULE = ('Seeded irregular forcing tables (gaps, single rows, integer and offset time stamps, records ending early) drive a seeded network '
        'through the simulation driver under irregular and subdivided steps, clock jumps, roll-backs and per-call overrides; a twin model, '
        're-synchronised before each step, is driven by our own evaluation of the tables.')
REAL = ['simulation driver', 'interpolation', 'network model', 'compiled kernels']
STUB = ['telemetry feed (seeded tables with gaps)']
ASSUMPTIONS = ['times half-way between two records are not sampled with the nearest-record method']


def table(rng, w, kind, tmax):
    n = rng.choice([1, 2, 2, 3, 5, 9, 20])
    t0 = rng.choice([0., 0., round(rng.uniform(0, tmax), 1), -50.])
    ts, t = [], t0
    for _ in range(n):
        ts.append(round(t, 2))
        t += rng.choice([rng.uniform(0.5, 5), rng.uniform(5, 60), rng.uniform(60, tmax)])
    if rng.random() < 0.3:
        ts = sorted(set(int(x) for x in ts))
    rows = []
    for _ in ts:
        if kind == 'h':
            rows.append([round(j['z_inv'] + max(0.02, j['h_0'] + rng.uniform(0, .8)), 4) for j in w['superjunctions']])
        elif kind == 'q':
            rows.append([round(rng.uniform(-.02, 0.2), 4) if rng.random() < .6 else 0.0 for _ in w['superjunctions']])
        else:
            rows.append(None)
    return {'t': ts, 'rows': rows}


def generate(rng, tier):
    big = tier == 'thorough'
    w = netgen.gen_world(rng, n_max=7 if big else 5, controls=rng.choice([0., 0.5]), tabular=0.2, transects=0.0,
                         bc=rng.choice([0.3, 0.8]), methods=('b',), banded=0.5, wet=rng.choice([0.3, 1.0, 2.0]), min_depths=(1e-5,))
    for k in ('orifices', 'weirs', 'pumps'):
        w[k] = w[k] if rng.random() < 0.5 else []
    ops = []
    for op in drive.gen_ops(rng, w, rng.randint(4, 60 if big else 20), dts=[1, 2.5, 5, 10, 17, 30, 60]):
        op['sub'] = rng.choice([1, 1, 1, 2, 3])
        op['internal'] = [round(rng.random(), 3), round(rng.uniform(0, 0.05), 4)]
        for k in ('q', 'h'):
            op['override_' + k] = rng.random() < 0.08
        op.pop('banded', None)
        ops.append(op)
        x = rng.random()
        if x < 0.06:
            ops.append({'op': 'jump', 't': round(rng.uniform(-100, 1500), 1)})
        elif x < 0.12:
            ops.append({'op': 'undo'})
    tmax = 600
    return {'world': w, 'ops': ops, 'method': rng.choice(['linear', 'linear', 'Linear', 'nearest']),
            'q': table(rng, w, 'q', tmax) if rng.random() < .85 else None, 'h': table(rng, w, 'h', tmax) if rng.random() < .7 else None,
            'qi': dict(table(rng, w, 'i', tmax), seed=rng.randint(0, 10 ** 6)) if rng.random() < .5 else None,
            't_start': rng.choice([None, 0.0, 100.5])}


def evaluate(tab, rows, t, method):
    ts = tab['t']
    if method == 'nearest':
        d = [abs(x - t) for x in ts]
        i = int(np.argmin(d))
        if len([x for x in d if abs(x - d[i]) < 1e-6]) > 1:
            raise Discard('half-way between two records')
        return np.array(rows[i], float)
    r = np.array(rows, float)
    return np.array([np.interp(t, ts, r[:, c]) for c in range(r.shape[1])])


def run(scn, ctx):
    import pandas as pd
    from pipedream_solver.simulation import Simulation
    w = scn['world']
    rig, twin, probe = drive.Rig(w), drive.Rig(w), drive.Rig(w)
    m = rig.m
    names = [j['name'] for j in w['superjunctions']]
    method = scn['method'].lower()
    tabs = {}
    for k, arg in (('q', 'Q_in'), ('h', 'H_bc')):
        if scn[k] and (k == 'q' or m.bc.any()):
            tabs[arg] = pd.DataFrame(scn[k]['rows'], index=scn[k]['t'], columns=names)
    qi = None
    if scn['qi']:
        g = np.random.default_rng(scn['qi']['seed'])
        qi = np.round(g.uniform(0, 0.02, (len(scn['qi']['t']), m._I.size)), 5)
        ends = np.concatenate([m._I_1k, m._I_Np1k])
        qi[:, ends] = 0.0
        tabs['Q_Ik'] = pd.DataFrame(qi, index=scn['qi']['t'])
    given = {k: (v.copy(deep=True), digest(v.values, list(v.index.values), [str(c) for c in v.columns])) for k, v in tabs.items()}
    sim = ctx.sut(Simulation, m, dt=10., interpolation_method=scn['method'], t_start=scn['t_start'], **tabs)
    starts = [t['t'][0] for t, a in ((scn['q'], 'Q_in'), (scn['h'], 'H_bc'), (scn['qi'], 'Q_Ik')) if a in tabs]
    want_t = scn['t_start'] if scn['t_start'] is not None else (min(starts) if starts else None)
    if want_t is not None:
        ctx.check(float(sim.t) == want_t, 'start-time', lambda: 'the simulation starts at %r, not %r' % (float(sim.t), want_t))
    permuted = w['options']['auto_permute']
    for n, op in enumerate(scn['ops']):
        if op['op'] == 'jump':
            snap = drive.snapshot(m)
            snap['t'] = op['t']
            ctx.sut(sim.load_state, snap)
            ctx.fault('clock_jump')
            continue
        if op['op'] == 'undo':
            if n and scn['ops'][n - 1]['op'] == 'step':
                ctx.sut(sim.load_state)
                ctx.fault('undo')
            continue
        if op['op'] != 'step':
            continue
        base = rig.kwargs(dict(op, dt=1))
        base.pop('dt')
        base.pop('Q_0Ik', None)
        call = {k: v for k, v in base.items() if k not in ('Q_in', 'H_bc')}
        over = {}
        if op['override_q'] or 'Q_in' not in tabs:
            over['Q_in'] = base['Q_in']
        if m.bc.any() and (op['override_h'] or 'H_bc' not in tabs):
            over['H_bc'] = base['H_bc']
        if op['override_q'] or op['override_h']:
            ctx.fault('override')
        snap = drive.snapshot(m)
        t = float(m.t)
        ctx.sut(sim.step, dt=op['dt'], subdivisions=op['sub'], allow=(AssertionError, np.linalg.LinAlgError, ValueError), **dict(call, **over))
        if not drive.sane(m, 1e5):
            ctx.probe('diverged')
            break
        sub = op['sub']
        finals = []
        for r, eps in ((twin, 0.0), (probe, 1e-11)):
            r.m.load_state(snap)
            ts = t
            for s in range(sub):
                kw = dict(call)
                kw['dt'] = op['dt'] / sub
                kw['banded'] = m.banded
                ts += kw['dt']
                kw.update(over)
                if 'Q_in' not in over:
                    kw['Q_in'] = rig.vec(dict(zip(names, evaluate(scn['q'], scn['q']['rows'], ts, method))))
                if 'H_bc' not in over and m.bc.any():
                    kw['H_bc'] = rig.vec(dict(zip(names, evaluate(scn['h'], scn['h']['rows'], ts, method))))
                if qi is not None:
                    kw['Q_0Ik'] = evaluate(scn['qi'], qi, ts, method) * (1 + eps)
                if eps:
                    for k in ('Q_in', 'H_bc'):
                        if kw.get(k) is not None:
                            kw[k] = kw[k] * (1 + eps)
                r.m.step(**kw)
            finals.append(drive.report(r.m))
        past = [scn[k]['t'][-1] < t + op['dt'] for k, a in (('q', 'Q_in'), ('h', 'H_bc')) if a in tabs]
        if any(past):
            ctx.fault('record_ended')
        if any(scn[k]['t'][0] > t for k, a in (('q', 'Q_in'), ('h', 'H_bc')) if a in tabs):
            ctx.fault('record_not_started')
        got = drive.report(m)
        skip = False
        for k in ('H_j', 'h_Ik', 'Q_uk', 'Q_dk', 'Q_ik'):
            a, b = finals
            tol = 1e-9 * (1 + np.abs(a[k])) + 20 * np.abs(a[k] - b[k]).max()
            if tol.max() > 1e-4:
                skip = True
                continue
            ctx.close('forcing-' + k, got[k], a[k], tol, lambda: 'step %d to t=%r (%s)' % (n, t + op['dt'], method))
        ctx.probe('ill_conditioned_steps' if skip else 'steps_compared')
        ctx.advance(op['dt'])
        ctx.log(n, t, got)
        ctx.state(got)
    for k, v in tabs.items():
        ctx.check(digest(v.values, list(v.index.values), [str(c) for c in v.columns]) == given[k][1], 'forcing-modified',
                  'the %s table of the caller was modified' % k)
