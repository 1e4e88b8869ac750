"""C15: the surface and volume of every storage follow its own curve, through the whole history."""
import copy

import numpy as np

from sim import drive, netgen, ref

ID = 'C15'
LEVEL = 'exploration'
RUNS = {'quick': 2500, 'thorough': 60000}
RULE = ('Seeded networks whose nodes mix area laws and depth-area tables (shared, unused, in any order of rows) are filled and drawn down by '
        'storms, tides, gauge corrections of single levels, roll-backs, warm-up runs and other models built in between; after every step the '
        'surface and volume of every node are recomputed from its own curve.')
REAL = ['network model', 'compiled kernels', 'state save and restore']
STUB = ['rain, tide and operator signals', 'gauge corrections of levels', 'caller that edits its tables after building the model']
ASSUMPTIONS = ['tables start at zero depth', 'surface and volume refer to the level at the start of the step, at least the minimum depth']


def generate(rng, tier):
    big = tier == 'thorough'
    w = netgen.gen_world(rng, n_max=9 if big else 6, controls=rng.choice([0., .5]), tabular=rng.choice([0., .5, .8, 1.]), bc=rng.choice([0., .3, .6]),
                         wet=rng.choice([0.05, .3, 1., 2., 4.]), methods=('b', 'b', 'f'), storage_b=rng.choice([.3, .9]), mobile=.1)
    js = w['superjunctions']
    tabs = list(w['storages'])
    # names in an order that is not the order of the nodes; some shared, some never used
    names = ['S%d' % i for i in range(12)] + ['pond', 'Basin', 'a']
    rng.shuffle(names)
    ren = {t: names.pop() for t in tabs}
    items = [(ren[t], w['storages'][t]) for t in tabs]
    for _ in range(rng.choice([0, 0, 1, 2])):
        n = rng.randint(2, 5)
        hs = [0.0]
        for _ in range(n - 1):
            hs.append(round(hs[-1] + rng.uniform(.3, 2), 3))
        items.append((names.pop(), {'h': hs, 'A': sorted(round(rng.uniform(2, 80), 2) for _ in hs)}))
    for _, t in items:
        if rng.random() < .3:       # a basin that narrows or a vertical wall
            t['A'] = t['A'][::-1] if rng.random() < .6 else [t['A'][0]] * len(t['A'])
    rng.shuffle(items)
    w['storages'] = dict(items)
    for j in js:
        if j['table']:
            j['table'] = ren[j['table']]
            if rng.random() < .35:
                j['table'] = rng.choice(items)[0]
    ops = []
    for op in drive.gen_ops(rng, w, rng.randint(4, 80 if big else 20), negative=.2, q_scale=rng.choice([.02, .2, 1.])):
        if rng.random() < .12:
            op['num_iter'] = rng.randint(2, 4)
        ops.append(op)
        x = rng.random()
        if x < .15:
            k = rng.choice(['exact', 'any', 'any', 'deep', 'dry'])
            ops.append({'op': 'gauge', 'node': rng.choice(js)['name'], 'kind': k, 'v': round(rng.random(), 4)})
        elif x < .2:
            ops.append({'op': 'save'})
        elif x < .25:
            ops.append({'op': 'load'})
        elif x < .3:
            ops.append({'op': 'edit'})
        elif x < .33:
            ops.append({'op': 'other', 'k': rng.random()})
        elif x < .38:
            ops.append({'op': 'ask'})
    return {'world': w, 'ops': ops, 'form': rng.choice(['array', 'frame', 'list'])}


def run(scn, ctx):
    import pandas as pd
    w = scn['world']
    tabs = netgen.tables(w)
    conv = {'array': lambda t: t, 'frame': pd.DataFrame, 'list': lambda t: {k: list(v) for k, v in t.items()}}[scn['form']]
    tabs['storages'] = {k: conv(v) for k, v in tabs['storages'].items()}
    rig = drive.Rig.__new__(drive.Rig)
    rig.world = w
    rig.m = m = ctx.sut(netgen.build, w, tabs)
    rig.names = [str(n) for n in m.superjunction_names]
    rig.row = {n: i for i, n in enumerate(rig.names)}
    rig.lrow = {str(n): i for i, n in enumerate(m.superlink_names)}
    net = ref.Network(w, m)
    used = [j['table'] for j in net.js if j['storage'] == 'tabular']
    ctx.probe('tables_shared', len(used) - len(set(used)))
    ctx.probe('tables_unused', len(set(w['storages']) - set(used)))
    saved = None

    def judge(H, what):
        A, V = net.area(H), net.volume(H)
        ctx.close('surface', np.array(m.A_sj, float), A, 1e-9 * A + 1e-12, what)
        ctx.close('volume', np.array(m.V_j, float), V, 1e-9 * V + 1e-10, what)
        for j, h in zip(net.js, H):
            if j['storage'] == 'tabular':
                t = w['storages'][j['table']]['h']
                d = h - j['z_inv']
                ctx.probe('above_table' if d > t[-1] else 'between_entries' if d > t[1] else 'first_entry')

    for n, op in enumerate(scn['ops']):
        if op['op'] == 'step':
            H0 = np.array(m.H_j, float)
            rig.step(ctx, op)
            if not drive.sane(m):
                ctx.probe('diverged')
                break
            if not op.get('num_iter'):
                judge(H0, 'step %d' % n)
            else:
                ctx.fault('fixed_point_iteration')
            if any(v < 0 for v in (op.get('q') or {}).values()):
                ctx.fault('abstraction')
            ctx.log(n, m.H_j, m.A_sj, m.V_j)
            ctx.state(m.H_j, m.A_sj)
        elif op['op'] == 'gauge':
            i = rig.row.get(op['node'])
            if i is None:
                continue
            j = net.js[i]
            t = w['storages'][j['table']]['h'] if j['storage'] == 'tabular' else [0., 1., 2.]
            top = min(t[-1] * 1.3, net.hmax[i])
            d = {'exact': min(t[int(op['v'] * len(t)) % len(t)], net.hmax[i]), 'any': op['v'] * top, 'deep': min(t[-1] + 3 * op['v'], net.hmax[i]), 'dry': 0.0}[op['kind']]
            s = drive.snapshot(m)
            s['H_j'] = np.array(s['H_j'], float)
            s['H_j'][i] = j['z_inv'] + d
            ctx.sut(m.load_state, s)
            ctx.fault('gauge_correction')
        elif op['op'] == 'ask':
            ctx.sut(m.compute_storage_areas)
            ctx.sut(m.compute_storage_volumes)
            judge(np.array(m.H_j, float), 'asked at %d' % n)
            ctx.probe('asked')
        elif op['op'] == 'save':
            saved = drive.snapshot(m)
        elif op['op'] == 'load' and saved:
            ctx.sut(m.load_state, copy.deepcopy(saved))
            ctx.fault('roll_back')
        elif op['op'] == 'edit':
            for t in tabs['storages'].values():
                if scn['form'] == 'frame':
                    t['A'] = t['A'] * 3 + 1
                    t.iloc[:, 0] = t.iloc[:, 0] + .5
                else:
                    for q in range(len(t['h'])):
                        t['h'][q] = t['h'][q] * 2 + 1
                        t['A'][q] = t['A'][q] * 3 + 1
            for k in ('a', 'b', 'c'):
                tabs['superjunctions'][k] = 7.0
            if tabs['storages']:
                tabs['storages'].pop(sorted(tabs['storages'])[0])
            ctx.fault('caller_edits_tables')
        elif op['op'] == 'other':
            o = copy.deepcopy(w)
            for t in o['storages'].values():
                t['A'] = [a * (1 + op['k']) for a in t['A']]
            drive.Rig(o).m.step(dt=5., Q_in=np.zeros(m.M), **({'H_bc': np.zeros(m.M)} if m.bc.any() else {}))
            ctx.fault('another_model_built')


def shrink(scn):
    for c in netgen.shrink_world(scn['world']):
        yield dict(scn, world=c)
    if scn['form'] != 'array':
        yield dict(scn, form='array')
