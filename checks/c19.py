"""C19: the linear system a model hands out is the step it made."""
import copy

import numpy as np

from sim import drive, netgen, ref
from sim.core import FAULT_EXC, Injected, Lines

ID = 'C19'
LEVEL = 'exploration'
RUNS = {'quick': 2200, 'thorough': 60000}
RULE = ('Seeded networks with structures, storages and movable junctions run through storms, tides, gate moves, fixed-point iterations, failed and undone steps and gauge '
        'corrections; after every step the exported system must be the balance the step solved, and a planner that solves it for other inflows and boundary levels must '
        'find the levels a twin reaches when stepped with them from the same checkpoint.')
REAL = ['network model', 'compiled kernels', 'dense, sparse and banded head solvers', 'state save and restore']
STUB = ['rain, tide and operator signals', 'gauge corrections of levels', 'the planner', 'the failing call: an exception raised at the chosen line of the package']
ASSUMPTIONS = ['the caller passes the step size it used', 'systems with a condition number above 1e9 are not compared']


def generate(rng, tier):
    big = tier == 'thorough'
    w = netgen.gen_world(rng, n_max=9 if big else 6, controls=rng.choice([0., .5, .9]), tabular=.3, bc=rng.choice([.2, .6]), mobile=.15, transects=.1, reverse=.2,
                         methods=('b', 'b', 'f'), wet=rng.choice([1e-5, .05, .3, 1., 2.]), explicit=.15)
    ops = []
    for op in drive.gen_ops(rng, w, rng.randint(3, 60 if big else 14), negative=.15, q_scale=rng.choice([0., .02, .2, 1.])):
        if rng.random() < .1:
            op['num_iter'] = rng.randint(2, 4)
        if rng.random() < .1:
            op['banded'] = False
        if rng.random() < .1:
            op['dry'] = True        # no inflow argument at all
        if w['options']['mobile_elements'] and rng.random() < .3:
            op['reposition'] = True
        x = rng.random()
        if x < .1:
            ops.append({'op': 'undo'})
        elif x < .2:
            ops.append({'op': 'gauge', 'node': rng.choice(w['superjunctions'])['name'], 'd': round(rng.uniform(.01, 3.), 4)})
        elif x < .3:
            op['fault'] = [rng.choice(sorted(FAULT_EXC)), round(rng.random(), 4)]
        if rng.random() < .6:
            op['plan'] = {'q': {j['name']: round(rng.uniform(-.1, 1) * rng.choice([.01, .2, 2.]), 5) for j in w['superjunctions'] if rng.random() < .7},
                          'h': {j['name']: round(j['z_inv'] + rng.uniform(.05, 2.), 4) for j in w['superjunctions'] if j['bc']}}
        ops.append(op)
    return {'world': w, 'ops': ops}


def run(scn, ctx):
    w = scn['world']
    rig = drive.Rig(w)
    m = rig.m
    net = ref.Network(w, m)
    bc, free = net.bc, ~net.bc
    low, high = net.z, net.z + net.hmax
    twin = None
    lines = 400
    for n, op in enumerate(scn['ops']):
        if op['op'] == 'undo':
            ctx.sut(m.load_state)
            ctx.fault('undo')
            continue
        if op['op'] == 'gauge':
            s = drive.snapshot(m)
            i = rig.row.get(op['node'])
            if i is not None:
                s['H_j'] = np.array(s['H_j'], float)
                s['H_j'][i] = min(net.z[i] + op['d'], high[i])
                ctx.sut(m.load_state, s)
                ctx.fault('gauge_correction')
            continue
        snap = drive.snapshot(m)
        kw = rig.kwargs(op)
        if op.get('dry'):
            kw.pop('Q_in')
        H0 = np.array(m.H_j, float)
        if op.get('fault'):
            kind, frac = op['fault']
            l = Lines(at=max(1, int(frac * lines)), exc=FAULT_EXC[kind])
            try:
                with l:
                    ctx.sut(m.step, **kw)
            except BaseException as e:
                if not isinstance(e, Injected):
                    raise
            if l.fired:
                ctx.fault(kind)
            ctx.sut(m.load_state, copy.deepcopy(snap))
        with Lines() as l:
            ctx.sut(m.step, **kw)
        lines = l.n
        ctx.advance(op['dt'])
        if not drive.sane(m):
            ctx.probe('diverged')
            break
        H1 = np.array(m.H_j, float)
        before = drive.report(m)
        sysm = ctx.sut(m.state_space_system, _dt=op['dt'])
        A1, A2, D, Hn, Hp, Q = [None if x is None else np.array(x.todense() if hasattr(x, 'todense') else x, float) for x in sysm]
        after = drive.report(m)
        for key in before:
            ctx.same('asking-changes-nothing', after[key], before[key], key)
        where = lambda: 'step %d' % n
        ctx.same('levels-after', Hn, H1, 'step %d' % n)
        ctx.same('levels-before', Hp, H0, 'step %d' % n)
        if 'Q_in' in kw:
            ctx.same('inflow', Q, np.array(kw['Q_in'], float), 'step %d' % n)
        else:
            ctx.check(Q is None or not np.any(Q), 'inflow', 'step %d had no inflow' % n)
            Q = np.zeros(net.M)
            ctx.probe('no_inflow')
        # shape: what enters the balance of a boundary node is its level alone
        ctx.same('boundary-rows', A1[bc], np.eye(net.M)[bc], 'step %d' % n)
        ctx.check(not A2[bc].any() and np.array_equal(A2, np.diag(np.diag(A2))), 'storage-matrix', 'step %d' % n)
        # a closed system: what one node gives through a link or structure its neighbour gets, so free columns hold their own storage only
        cond = np.linalg.cond(A1)
        ctx.log(n, H1, A1, D)
        ctx.state(H1)
        if not cond < 1e9:
            ctx.probe('ill_conditioned')
            continue

        def solve(Hp, Q, Hbc):
            b = A2 @ Hp + D + Q
            b[bc] = Hbc[bc]
            x = np.linalg.solve(A1, b)
            return np.clip(x, low, high), 1e-9 + 4e-15 * cond * (np.abs(x).max() + np.abs(np.where(free, b, 0.) / np.diag(A1)).max())
        Hbc = kw.get('H_bc', H0)
        want, tol = solve(H0, Q, Hbc)
        ctx.close('exported-balance', H1, want, tol, where)
        ctx.probe('balances')
        if hasattr(m, '_semi_implicit_system'):
            B1, B2, b = m._semi_implicit_system(_dt=op['dt'])
            ctx.same('two-exports-agree', [np.asarray(B1), np.asarray(B2)], [A1, A2], 'step %d' % n)
            full = np.where(bc, Hbc, A2 @ H0 + D + Q)
            ctx.close('right-hand-side', np.array(b, float), full, 1e-9 * (np.abs(A2 @ H0) + np.abs(D) + np.abs(Q) + np.abs(full)) + 1e-12, where)
        p = op.get('plan')
        if p and not op.get('num_iter'):
            if twin is None:
                twin = drive.Rig(w)
            ctx.sut(twin.m.load_state, copy.deepcopy(snap))
            k2 = dict(kw, Q_in=rig.vec(p['q']))
            if 'H_bc' in kw:
                k2['H_bc'] = rig.bc_vec(p['h'])
            ctx.sut(twin.m.step, **k2)
            want, tol = solve(H0, k2['Q_in'], k2.get('H_bc', H0))
            if np.abs(want).max() < 1e6:
                ctx.close('planned-levels', np.array(twin.m.H_j, float), want, tol + 1e-9 * np.abs(want), where)
                ctx.probe('plans')
                ctx.fault('what_if')
        if op.get('num_iter'):
            ctx.fault('fixed_point_iteration')
        if op.get('reposition'):
            ctx.sut(m.reposition_junctions)
            ctx.fault('junctions_moved')


def shrink(scn):
    for c in netgen.shrink_world(scn['world']):
        yield dict(scn, world=c)
