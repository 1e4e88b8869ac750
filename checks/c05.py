"""C05: water is neither created nor lost at the nodes, under any forcing, control and step history."""
import numpy as np

from sim import drive, netgen, ref
from sim.core import Discard

ID = 'C05'
LEVEL = 'exploration'
RUNS = {'quick': 2600, 'thorough': 60000}
RULE = ('A seeded network with every kind of element is driven through storms, tides, gate moves, irregular steps, fixed-point iterations and '
        'jumps of the operator; after each step the balance of every node (of every set of nodes tied by control structures) is '
        'recomputed from reported levels and flows with storage curves of our own.')
REAL = ['network model', 'compiled kernels', 'dense and banded head solvers']
STUB = ['rain, tide and operator signals']
ASSUMPTIONS = ['nodes held at a depth limit, or next to one, are outside the balance (the limit itself adds or removes water)',
               'runs whose state leaves 1e6 in magnitude are counted as out of the domain from there on']


def generate(rng, tier):
    big = tier == 'thorough'
    w = netgen.gen_world(rng, n_max=10 if big else 6, controls=rng.choice([0., 1.]), tabular=0.3, transects=0.15, mobile=0.2,
                         bc=rng.choice([0.0, 0.4, 0.8]), wet=rng.choice([0.3, 1.0, 2.0, 0.05]), damping=0.15, explicit=.3, reverse=.25)
    if w['options'].get('auto_permute') is False and rng.random() < 0.1:
        w['options']['sparse'] = False
    ops = drive.gen_ops(rng, w, rng.randint(5, 120 if big else 30), negative=0.15)
    for op in ops:
        if rng.random() < 0.08:
            op['num_iter'] = rng.randint(2, 5)
            op['head_tol'] = rng.choice([1e-2, 1e-4, 1e-7])
        if w['options']['auto_permute'] and rng.random() < 0.2:
            op['banded'] = False
    return {'world': w, 'ops': ops}


def run(scn, ctx):
    w = scn['world']
    rig = drive.Rig(w)
    m = rig.m
    net = ref.Network(w, m)
    comps = net.components()
    has_ctrl = any(len(c[0]) for c in net.ctrl.values())
    for n, op in enumerate(scn['ops']):
        if op['op'] != 'step':
            continue
        pre = ref.before(m)
        H0 = pre['H_j']
        kw = rig.step(ctx, op)
        H1 = np.array(m.H_j, float)
        if not drive.sane(m):
            ctx.probe('diverged')
            break
        if op.get('num_iter'):
            # the balance is closed with the storage area of the last iterate
            A = np.array(m.A_sj, float)
            ctx.probe('iterated', int(m.iter_elapsed > 1))
            ctx.fault('fixed_point_iteration')
        else:
            A = net.area(H0)
            ctx.close('storage-area', np.array(m.A_sj, float), A, 1e-9 * np.abs(A) + 1e-12, 'step %d' % n)
        if net.has_ends:
            if op.get('num_iter'):
                ctx.probe('end_cells_under_iteration')
                continue
            A = A + net.end_area(m, pre)
            ctx.probe('end_cells')
        inflow, mag = net.net_flow(m, kw['Q_in'])
        stored = A * (H1 - H0) / op['dt']
        cl = net.clamped(H1)
        scale = mag + A * (np.abs(H0) + np.abs(H1)) / op['dt'] + 1e-6
        if cl.any():
            ctx.probe('nodes_at_limit', int(cl.sum()))
        # a limit imposed on one node changes the flows of its neighbours after the solve
        near = cl.copy()
        pairs = [(net.uk, net.dk)] + list(net.ctrl.values())
        for u, d in pairs:
            near[u[cl[d]]] = True
            near[d[cl[u]]] = True
        for c in comps:
            c = np.array(c)
            if near[c].any() or net.bc[c].any():
                continue
            ctx.close('node-balance', stored[c].sum(), inflow[c].sum(), 2e-7 * scale[c].sum(),
                      lambda: 'step %d nodes %s' % (n, [net.js[i]['name'] for i in c]))
            ctx.probe('balances_checked')
            if len(c) > 1:
                ctx.probe('control_groups_checked')
        ctx.log(n, H1, m.Q_uk, m.Q_dk)
        ctx.state(H1, m.h_Ik, m.Q_ik)
        if op.get('qi'):
            ctx.fault('lateral_inflow')
        if any(v < 0 for v in (op.get('q') or {}).values()):
            ctx.fault('abstraction')
        if any(op.get(k) for k in ('u_o', 'u_w', 'u_p')) and n and any(
                op.get(k) != scn['ops'][n - 1].get(k) for k in ('u_o', 'u_w', 'u_p')):
            ctx.fault('gate_move')
        if n and op['dt'] != scn['ops'][n - 1]['dt']:
            ctx.fault('step_size_change')
