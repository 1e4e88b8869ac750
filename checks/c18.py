"""C18: the concentration filter is the Kalman filter of the transport model, whatever telemetry does."""
import copy

import numpy as np

from checks import c12
from sim import drive, netgen, ref, wq
from sim.core import FAULT_EXC, Injected, Lines

ID = 'C18'
LEVEL = 'exploration'
RUNS = {'quick': 1500, 'thorough': 60000}
WARMUP = 12
RULE = ('Seeded networks carry a contaminant whose concentration at one node is reported by simulated telemetry that loses, repeats, delays, freezes and '
        'corrupts readings; each filter call is compared with the textbook update computed from a node-to-node reduction of the balances of all cells.')
REAL = ['water quality model and its three filter entry points', 'network model', 'compiled kernels']
STUB = ['telemetry link', 'rain, tide and loads', 'the failing call: an exception raised at the chosen line of the package', 'noise source of the synthetic-measurement filter (seeded)']
ASSUMPTIONS = ['same conduits as C12', 'covariance is advanced once per filter call, also after steps without a reading']


def generate(rng, tier):
    big = tier == 'thorough'
    w = c12.world(rng, big, controls=rng.choice([0., .3]), internal=rng.choice([1, 2, 3, 4, 6]), wet=rng.choice([1., 2.]))
    ops = wq.gen_forcing(rng, w, drive.gen_ops(rng, w, rng.randint(4, 50 if big else 14)), None)
    par = wq.gen_params(rng, w, None)
    par['kf'] = True
    par['c_max'] = None
    par['obs'] = rng.randrange(len(w['superjunctions']))
    par['q'], par['r'] = rng.choice([.01, .1, 1., 10.]), rng.choice([.01, .1, 1., 10.])
    mode = rng.choice(['fuse', 'fuse', 'fuse', 'synthetic', 'multi'])
    for op in ops:
        x = rng.random()
        op['tele'] = ('lost' if x < .15 else 'repeat' if x < .22 else 'late' if x < .29 else 'frozen' if x < .34 else 'outlier' if x < .42 else
                      'twice' if x < .46 else '')
        op['noise'] = round(rng.gauss(0, 1), 4)
        op['out'] = rng.choice([-1e3, 1e3, 1e5, 0.])
        op['corr'] = 0
        y = rng.random()
        op['then'] = 'roll_back' if y < .06 else 'interrupt' if y < .12 else ''
        op['frac'] = round(rng.random(), 4)
        op['exc'] = rng.choice(sorted(FAULT_EXC))
    corr = rng.random() < .4
    switch = rng.choice([0., 0., .3])
    for op in ops:
        corr = corr != (rng.random() < switch)
        op['corr'] = int(corr)
    return {'world': w, 'ops': ops, 'par': par, 'mode': mode}


def run(scn, ctx):
    from pipedream_solver.nquality import QualityBuilder
    w, par = scn['world'], scn['par']
    rig = drive.Rig(w)
    m = rig.m
    net = ref.Network(w, m)
    par = dict(par, obs=par['obs'] % m.M)
    tab = wq.Tables(par, rig)
    try:
        q = ctx.sut(QualityBuilder, m, tab.nodes.copy(), tab.links.copy(), allow=(AssertionError,), **tab.kw)
    except AssertionError:
        ctx.probe('diverged')
        return
    S = wq.System(net, m, tab)
    M, o, sq, sr = m.M, par['obs'], par['q'], par['r']
    c_prev = np.array([w_['c_0'] for w_ in (par['nodes'][n] for n in rig.names)])
    first = True
    x = c_prev.copy()
    P = np.zeros((M, M))
    readings = [0.]
    H = np.zeros((1, M))
    H[0, o] = 1.
    for n, op in enumerate(scn['ops']):
        at = 'op %d' % n
        pre = ref.before(m)
        kw = rig.step(ctx, op)
        if not drive.sane(m, 1e4):
            ctx.probe('diverged')
            return
        before = c12.state(q)
        c0, ci = rig.vec(op['c0']), np.array([op['ci'].get(net.links[k]['name'], 0.) for k in m._kI])
        a = {'dt': op['dt'], 'c_0j': c0, 'c_0Ik': ci}
        if op['cb'] is not None:
            a['c_bc'] = rig.vec(op['cb'])
        try:
            ctx.sut(q.step, allow=(AssertionError,), **a)
        except AssertionError:
            ctx.probe('not_finite')
            return
        L, R, water = S.build(pre, op['dt'], before, kw['Q_in'], c0, kw.get('Q_0Ik', np.zeros(m._I.size)), ci, a.get('c_bc', before['c_j']),
                              c12.flows_of(net, m))
        # node-to-node system: eliminate everything inside the conduits
        try:
            # nearly dry cells lose digits in the elimination
            spread = np.abs(np.diag(L)).max() / np.abs(np.diag(L)[:M]).min()
            if spread > 1e10 or np.linalg.cond(L / np.abs(np.diag(L))[:, None]) > 1e7:
                ctx.probe('ill_conditioned')
                return
            inner = np.linalg.solve(L[M:, M:], np.column_stack([L[M:, :M], R[M:]]))
            A_L = L[:M, :M] - L[:M, M:] @ inner[:, :M]
            rhs = R[:M] - L[:M, M:] @ inner[:, M]
            if np.linalg.cond(A_L / np.abs(np.diag(L)[:M, None])) > 1e6:
                ctx.probe('ill_conditioned')
                return
        except np.linalg.LinAlgError:
            ctx.probe('singular')
            return
        plain = np.linalg.solve(A_L, rhs)
        eps = 1e-6 + 1e-15 * spread
        limited = joined_min(S, L, R) < -1e-7 * max(np.abs(plain).max(), 1e-3)
        scale = max(np.abs(plain).max(), 1e-3)
        now = np.array(q.c_j, float)
        if not limited:
            ctx.close('model', now, plain, eps * scale, at)
        area = net.area(pre['H_j'])
        A1 = np.diag(np.where(tab.bc, 0., area * (np.array(m.H_j, float) - net.z) / op['dt']))
        A = np.linalg.solve(A_L, A1)
        ctx.probe(scn['mode'])

        if scn['mode'] == 'multi':
            Ak, Bk = ctx.sut(q.KF_Multi_WQ, op['dt'])
            ctx.close('transition', Ak, A, eps * max(1, np.abs(A).max()), at)
            bs = eps * max(scale, np.abs(A).max() * np.abs(c_prev).max(), np.abs(plain).max())
            want = plain - A @ c_prev
            if first:
                bs += np.abs(A @ (c_prev - before['c_j'])).max()
            ctx.close('input', Bk, want, bs, at)
            c_prev, first = now, False
            ctx.log(n, Ak, Bk)
            ctx.state(Ak)
            continue

        if scn['mode'] == 'synthetic':
            np.random.seed(n)
            keep = now.copy()
            xp = A @ x + plain - A @ c_prev
            slack = np.abs(A @ (c_prev - before['c_j'])).max() if first else 0.
            ctx.sut(q.Kalman_Filter_WQ1, op['dt'])
            z = float(np.asarray(q.Z).ravel()[0])
            ctx.close('no-feedback', q.c_j, keep, 0., at)
            ctx.check(abs(z - keep[o]) <= 10 * sr, 'synthetic-reading', lambda: '%s: reading %r of %r with noise %r' % (at, z, keep[o], sr))
            x, P = update(ctx, q, A, xp, P, H, sq ** 2 * np.eye(M), sr ** 2, z, scale, at, slack, eps)
            c_prev, first = keep, False
            ctx.log(n, q.x_hat, q.P_k)
            ctx.state(q.x_hat)
            continue

        # telemetry: reading of a truth that differs from the model
        true = now[o] + sr * op['noise']
        tele = op['tele']
        if tele == 'lost':
            ctx.fault('reading_lost')
            ctx.log(n, q.c_j)
            continue
        z = {'repeat': readings[-1], 'late': readings[max(0, len(readings) - 3)], 'frozen': readings[0], 'outlier': op['out']}.get(tele, true)
        if tele and tele != 'twice':
            ctx.fault('reading_' + tele)
        readings.append(true)
        keepP, keepx = np.array(q.P_k, float), np.array(q.x_hat, float)
        ctx.close('estimate-kept', keepP, P, 1e-9 * max(np.abs(P).max(), 1e-300), at)
        args = (z, op['dt'], op['corr'])
        if op['then'] == 'interrupt':
            l = Lines(at=max(1, int(op['frac'] * 20)), exc=FAULT_EXC[op['exc']])
            try:
                with l:
                    ctx.sut(q.Kalman_Filter_WQ2, *args)
            except BaseException as e:
                if not isinstance(e, Injected):
                    raise
                ctx.fault(op['exc'])
                if np.array_equal(np.array(q.x_hat, float), keepx):
                    ctx.sut(q.Kalman_Filter_WQ2, *args)
                else:
                    return
        else:
            ctx.sut(q.Kalman_Filter_WQ2, *args)
        # the prediction starts from the last estimate, which is what the model started this step from
        x, P = update(ctx, q, A, plain, P, H, sq ** 2 * (np.ones((M, M)) if op['corr'] else np.eye(M)), sr ** 2, z, scale, at, 0., eps)
        ctx.close('feedback', q.c_j, q.x_hat, 0., at)
        for k in ('c_Ik', 'c_ik'):
            ctx.check(bool(np.isfinite(getattr(q, k)).all()), 'not-finite', at)
        ctx.sut(q.solve_boundary_states)
        ctx.sut(q.solve_internals_backwards)
        if not limited and np.array(q.x_hat).min() > 0:
            # the conduits follow the corrected nodes
            cj = np.array(q.c_j, float)
            v = np.concatenate([cj, inner[:, M] - inner[:, :M] @ cj])
            if v.min() > 0:
                r = S.split(v)
                loose = S.loose(L, 1e-12 * max(scale, np.abs(v).max()))
                for k in ('c_uk', 'c_dk', 'c_Ik', 'c_ik'):
                    ctx.close('conduits-' + k, getattr(q, k), r[k], 10 * eps * max(scale, np.abs(v).max()) + loose.get(k, 0.), at)
        ctx.log(n, q.x_hat, q.P_k)
        ctx.state(q.x_hat, q.P_k)


def joined_min(S, L, R):
    return float(np.linalg.solve(L, R).min())


def update(ctx, q, A, xp, P, H, Q, r, z, scale, at, slack, eps):
    Pp = A @ P @ A.T + Q
    s = float((H @ Pp @ H.T)[0, 0]) + r
    K = (Pp @ H.T)[:, 0] / s
    x = xp + K * (z - float((H @ xp)[0]))
    Pn = Pp - np.outer(K, (H @ Pp)[0])
    x = np.maximum(x, 0.)
    sx = max(scale, abs(z), np.abs(x).max())
    ctx.close('estimate', q.x_hat, x, eps * sx + slack * (1 + np.abs(K).max()), at)
    ctx.close('covariance', q.P_k, Pn, .01 * eps * max(np.abs(Pp).max(), 1e-300), at)
    d = np.diag(np.array(q.P_k, float))
    ctx.check(bool((d >= -1e-9 * np.abs(Pp).max()).all()), 'negative-variance', at)
    ctx.probe('updates')
    return np.array(q.x_hat, float), np.array(q.P_k, float)


def shrink(scn):
    for x in netgen.shrink_world(scn['world']):
        if x['superlinks']:
            yield dict(scn, world=x)
