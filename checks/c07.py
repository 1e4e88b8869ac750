"""C07: levels respect their limits and boundaries, and still water stays still."""
import math

import numpy as np

from sim import drive, netgen, ref
from sim.core import Discard

ID = 'C07'
LEVEL = 'exploration'
RUNS = {'quick': 2400, 'thorough': 60000}
RULE = ('Seeded networks with low depth limits, boundaries and control structures are driven through storms far beyond their capacity, '
        'draw-down, boundary levels outside the limits, irregular steps and jumps of the operator, checking limits after each step; seeded pools '
        'of still water are loaded as a checkpoint, and left alone under irregular steps, must stay still.')
REAL = ['network model', 'compiled kernels']
STUB = ['rain, tide and operator signals']
ASSUMPTIONS = ['a still pool covers every invert and lies below every depth limit']


def generate(rng, tier):
    big = tier == 'thorough'
    pool = rng.random() < 0.5
    if pool:
        w = netgen.gen_world(rng, n_max=7 if big else 5, controls=0.0, tabular=0.3, transects=0.15, mobile=0.0, bc=rng.choice([0., .5]),
                             wet=1.0, max_depth=0.0, methods=('b', 'f'), slopes=(0.0, 0.004), lengths=(20., 120.), damping=.1, ends=0.0)
        top = max(j['z_inv'] for j in w['superjunctions']) + max(l[k] for l in w['superlinks'] for k in ('in_offset', 'out_offset'))
        top += max(n['bump'] for l in w['superlinks'] for n in l.get('nodes', [{'bump': 0.}]))
        level = round(top + rng.uniform(0.05, 1.0), 4)
        for l in w['superlinks']:
            for p in [l] + l.get('parts', []):
                p['n'] = {'cm': .02, 'hw': 110., 'dw': 5e-4}[l['friction_method']]
        ops = [{'op': 'step', 'dt': rng.choice([0.5, 1, 5, 10, 30, 60, 300])} for _ in range(rng.randint(2, 60 if big else 14))]
        return {'pool': level, 'world': w, 'ops': ops}
    w = netgen.gen_world(rng, n_max=8 if big else 6, controls=rng.choice([0., 1.]), tabular=0.3, transects=0.1, mobile=0.15,
                         bc=rng.choice([0.2, 0.8]), wet=rng.choice([None, 0.3, 1.0, 2.0]), max_depth=rng.choice([.2, .8, 1.]), damping=0.1,
                         min_depths=(1e-5, 1e-5, 1e-3, 1e-2))
    if rng.random() < .5:
        for l in w['superlinks']:
            if rng.random() < .5:
                l['max_depth'] = round(rng.uniform(1.5, 4), 2)
            else:
                l['max_depth'] = None
        if all(l.get('max_depth') is None for l in w['superlinks']):
            for l in w['superlinks']:
                l.pop('max_depth')
    ops = drive.gen_ops(rng, w, rng.randint(5, 120 if big else 30), q_scale=rng.choice([0., .05, .5, 3.0]), negative=rng.choice([.1, .5]),
                        bc_amp=rng.choice([.6, 5.0]), dts=[1, 5, 10, 30, 60, 300])
    for op in ops:
        if rng.random() < .1:
            op['num_iter'] = rng.randint(2, 4)
            op['head_tol'] = 1e-4
    return {'pool': None, 'world': w, 'ops': ops}


def still(scn, ctx, rig):
    m, w = rig.m, scn['world']
    H = scn['pool']
    net = ref.Network(w, m)
    s = drive.snapshot(m)
    h = np.array(s['h_Ik'], float).copy()
    for k, L in enumerate(net.links):
        a, b = int(m._I_1k[k]), int(m._I_Np1k[k])
        h[a:b + 1] = H - L['z']
    s['h_Ik'] = h
    s['H_j'] = np.full(m.M, H)
    for k in ('Q_ik', 'Q_uk', 'Q_dk', 'Q_o', 'Q_w', 'Q_p'):
        if k in s:
            s[k] = np.zeros_like(np.array(s[k], float))
    ctx.sut(m.load_state, s)
    return s


def run(scn, ctx):
    w = scn['world']
    rig = drive.Rig(w)
    m = rig.m
    net = ref.Network(w, m)

    def magnification(dt):
        worst = 1.0
        A, B = np.array(m.A_ik, float), np.array(m.B_ik, float)
        for k, L in enumerate(net.links):
            n = int(m.nk[k])
            s = slice(int(m._i_1k[k]), int(m._i_1k[k]) + n)
            dx = L['pdx']
            E = L['S'].copy()
            E[:-1] += B[s] * dx / 2
            E[1:] += B[s] * dx / 2
            worst = max(worst, ref.amplification(np.zeros(n), dx / dt, np.zeros(n), E / dt, A[s]))
        return worst
    if scn['pool'] is not None:
        still(scn, ctx, rig)
        h0 = np.array(m.h_Ik, float).copy()
        ctx.fault('restart_from_prepared_state')
        scale = None
        for n, op in enumerate(scn['ops']):
            kw = rig.kwargs(op)
            if 'H_bc' in kw:
                kw['H_bc'] = np.full(m.M, scn['pool'])
            ctx.sut(m.step, allow=(np.linalg.LinAlgError,) if w['options']['method'] == 'lsq' else (), **kw)
            ctx.advance(op['dt'])
            if magnification(op['dt']) > 1e5:
                # a long step in a nearly closed conduit: rounding errors grow along the sweep
                ctx.probe('pool_ill_conditioned')
                raise Discard('ill-conditioned pool')
            # rounding of gravity terms against the inertia of the link
            A = np.array(m.A_ik, float)
            B = np.array(m.B_ik, float)
            lsq = w['options']['method'] == 'lsq'
            ctx.close('still-level', m.H_j, np.full(m.M, scn['pool']), 1e-7, 'step %d' % n)
            ctx.close('still-depth', m.h_Ik, h0, 1e-7, 'step %d' % n)
            q = np.concatenate([np.array(m.Q_ik, float), np.array(m.Q_uk, float), np.array(m.Q_dk, float)])
            ctx.close('still-flow', q, np.zeros(q.size), 1e-6 * max(1.0, A.max()), 'step %d' % n)
            ctx.log(n, m.H_j, q)
            ctx.probe('still_steps')
            if n and op['dt'] != scn['ops'][n - 1]['dt']:
                ctx.fault('step_size_change')
        ctx.state(m.H_j, m.h_Ik)
        return
    lo = net.z
    hi = net.z + net.hmax
    by = [L.get('max_depth') for L in net.links]
    hk = np.array([math.inf if x is None else x for x in by])
    for n, op in enumerate(scn['ops']):
        if op['op'] != 'step':
            continue
        kw = rig.step(ctx, op)
        H, h = np.array(m.H_j, float), np.array(m.h_Ik, float)
        ctx.advance(0)
        e = 1e-9 * (1 + np.abs(H))
        if not np.isfinite(H).all():
            ctx.probe('diverged')
            break
        ctx.check((H >= lo - e).all(), 'below-minimum', lambda: 'step %d: %s below %s' % (n, H, lo))
        ctx.check((H <= hi + e).all(), 'above-maximum', lambda: 'step %d: %s above %s' % (n, H, hi))
        ctx.probe('at_upper_limit', int((H >= hi - e).sum()))
        ctx.probe('at_lower_limit', int((H <= lo + e).sum()))
        if np.isfinite(h).all():
            ctx.check((h >= net.hmin * (1 - 1e-9)).all(), 'depth-below-minimum', lambda: 'step %d: %r' % (n, h.min()))
            for k in range(len(net.links)):
                # the two end depths follow the node levels, which have limits of their own
                hh = h[int(m._I_1k[k]) + 1:int(m._I_Np1k[k])]
                if w['options']['method'] == 'lsq' or not hh.size:
                    continue
                ctx.check((hh <= hk[k] * (1 + 1e-9)).all(), 'depth-above-maximum', lambda: 'step %d superlink %d: %r > %r' % (n, k, hh.max(), hk[k]))
        if net.bc.any():
            want = np.clip(kw['H_bc'], lo, hi)
            ctx.close('boundary-level', H[net.bc], want[net.bc], 1e-7 * (1 + np.abs(want[net.bc])), 'step %d' % n)
            if (np.abs(want - kw['H_bc'])[net.bc] > 1e-9).any():
                ctx.fault('boundary_beyond_limit')
            else:
                ctx.fault('boundary_move')
        if any(v < 0 for v in (op.get('q') or {}).values()):
            ctx.fault('abstraction')
        if any(v > .3 for v in (op.get('q') or {}).values()):
            ctx.fault('storm')
        ctx.log(n, H, h)
        ctx.state(H, h)
        if not drive.sane(m):
            ctx.probe('diverged')
            break
