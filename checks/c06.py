"""C06: inside every conduit the reported depths and flows satisfy continuity and momentum."""
import numpy as np

from sim import drive, netgen, ref

ID = 'C06'
LEVEL = 'exploration'
RUNS = {'quick': 2000, 'thorough': 50000}
RULE = ('A seeded network (all section shapes, friction laws, end offsets and lengths, in-line control sections, inertial damping, three internal solvers) is '
        'driven through storms, tides, surges that reverse the flow and irregular steps; after each step the discretised continuity, '
        'momentum and end-head equations of every conduit are recomputed with geometry and coefficients of our own.')
REAL = ['network model', 'compiled kernels']
STUB = ['rain, tide and operator signals']
ASSUMPTIONS = ['conduits with a depth held at a limit are outside the relation', 'parabolic, irregular sections and the top width and perimeter of ellipses use the reported geometry',
               'the least-squares internal solver is held to 5% per equation and 1e-3 per conduit only']


def generate(rng, tier):
    big = tier == 'thorough'
    shapes = None if rng.random() < 0.6 else [rng.choice(netgen.SHAPES)]
    w = netgen.gen_world(rng, n_max=8 if big else 5, shapes=shapes, controls=0.2, tabular=0.2, transects=0.1, bc=rng.choice([0.2, 0.8]),
                         wet=rng.choice([0.3, 1.0, 2.0]), methods=('b', 'b', 'f', 'f', 'lsq'), ctrl=0.25, damping=0.2,
                         frictions=0.4,
                         bc_methods=('z', 'z', 'b'), ends=.4, explicit=.3, reverse=.25)
    return {'world': w, 'ops': drive.gen_ops(rng, w, rng.randint(5, 100 if big else 25), negative=0.1, bc_amp=rng.choice([0.3, 1.5]))}


def run(scn, ctx):
    w = scn['world']
    rig = drive.Rig(w)
    m = rig.m
    net = ref.Network(w, m)
    links = ref.Links(net, m)
    for n, op in enumerate(scn['ops']):
        pre = ref.before(m)
        kw = rig.step(ctx, op)
        if not drive.sane(m, 1e4):
            ctx.probe('diverged')
            break
        links.check(ctx, m, pre, kw, lsq=w['options']['method'] == 'lsq')
        ctx.log(n, m.h_Ik, m.Q_ik, m.Q_uk, m.Q_dk)
        ctx.state(m.H_j, m.h_Ik, m.Q_ik)
        if (np.array(m.Q_ik) < -1e-6).any():
            ctx.probe('reverse_flow')
        if op.get('qi'):
            ctx.fault('lateral_inflow')
        if n and op['dt'] != scn['ops'][n - 1]['dt']:
            ctx.fault('step_size_change')
        if n and op.get('h') != scn['ops'][n - 1].get('h'):
            ctx.fault('tide_change')
