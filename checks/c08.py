"""C08: fusing gauge readings gives the best linear estimate, whatever the telemetry link does to the readings."""
import numpy as np

from sim import drive, netgen, ref
from sim.core import Discard, digest

ID = 'C08'
LEVEL = 'exploration'
RUNS = {'quick': 2200, 'thorough': 60000}
RULE = ('A hidden truth run of a seeded network is observed through seeded gauges whose telemetry loses, delays, duplicates, reorders and '
        'corrupts readings; the estimating model steps through the driver and fuses what arrives, and every fusion is compared with the '
        'textbook posterior mean and covariance computed from the covariance the driver held before.')
REAL = ['simulation driver (Kalman filter, both forms)', 'network model', 'compiled kernels']
STUB = ['gauges and telemetry link (loss, delay, duplication, reordering, outliers)']
ASSUMPTIONS = ['one fusion refers to the step just taken with that same step size',
               'the transition is the linear system of that step, published by the driver']


def generate(rng, tier):
    big = tier == 'thorough'
    w = netgen.gen_world(rng, n_max=7 if big else 5, controls=rng.choice([0., 0.6]), tabular=0.2, bc=rng.choice([0., .5]), methods=('b', 'b', 'f'),
                         wet=rng.choice([0.3, 1.0, 2.0]), ends=0.0, max_depth=0.1, banded=.4)
    ops = drive.gen_ops(rng, w, rng.randint(3, 50 if big else 14), dts=[5, 10, 30, 60])
    names = [j['name'] for j in w['superjunctions']]
    gauges = rng.sample(names, rng.randint(1, len(names)))
    for op in ops:
        op['arrivals'] = []
        if rng.random() < 0.75:
            for _ in range(rng.choice([1, 1, 1, 2])):
                op['arrivals'].append({'age': rng.choice([0, 0, 0, 1, 2, 5]), 'heard': sorted(rng.sample(gauges, rng.choice([len(gauges), rng.randint(1, len(gauges))]))),
                                       'err': [round(rng.gauss(0, rng.choice([.002, .02, .3])), 4) for _ in gauges],
                                       'sr': rng.random() < .35, 'scale': rng.choice([None, None, None, None, 1e-10, 1e12, 'bad'])})
                # parameters given for this one update only
                op['arrivals'][-1]['own'] = sorted(rng.sample(['q', 'c', 'p', 'h', 'r'], rng.randint(1, 3))) if rng.random() < .25 else []
                op['arrivals'][-1]['factor'] = round(10 ** rng.uniform(-2, 2), 4)
                if op['arrivals'][-1]['scale'] == 'bad' and rng.random() < .8:
                    op['arrivals'][-1]['scale'] = None
    return {'world': w, 'ops': ops, 'gauges': gauges, 'q': round(10 ** rng.uniform(-7, -2), 9), 'r': round(10 ** rng.uniform(-6, -2), 9),
            'form': rng.choice(['full', 'full', 'scalar', 'vector', 'mixed']), 'seed': rng.randint(0, 10 ** 6), 'p0': rng.random() < .6,
            'pert': round(rng.uniform(0.5, 1.5), 3)}


def spd(g, n, s):
    a = g.normal(size=(n, n)) * 0.3
    return s * (a @ a.T + np.eye(n))


def run(scn, ctx):
    from pipedream_solver.simulation import Simulation
    w = scn['world']
    truth, rig = drive.Rig(w), drive.Rig(w)
    m = rig.m
    net = ref.Network(w, m)
    lay = ref.Links(net, m)
    M = m.M
    g = np.random.default_rng(scn['seed'])
    Q = {'scalar': scn['q'], 'vector': scn['q'] * g.uniform(.5, 2, M)}.get(scn['form'], spd(g, M, scn['q']))
    Rf = {'scalar': scn['r'], 'vector': scn['r'] * g.uniform(.5, 2, M)}.get(scn['form'], spd(g, M, scn['r']))
    C = np.eye(M) if scn['form'] != 'mixed' else np.eye(M) + 0.2 * g.normal(size=(M, M))
    full = lambda x: x * np.eye(M) if np.isscalar(x) else (np.diag(x) if x.ndim == 1 else x)
    P0 = spd(g, M, 1e-4) if scn['p0'] else None
    given = digest(Q, Rf, C, P0)
    kw = {} if scn['form'] != 'mixed' else {'C': C}
    if P0 is not None:
        kw['Pxx'] = P0
    sim = ctx.sut(Simulation, m, dt=10., Qcov=Q, Rcov=Rf, **kw)
    Qm, Rm = full(Q), full(Rf)
    P = P0.copy() if P0 is not None else C @ Qm @ C.T
    ctx.close('initial-covariance', sim.P_x_k_k, P, 1e-12 * np.abs(P).max() + 1e-300, '')
    record = []
    for n, op in enumerate(scn['ops']):
        if op['op'] != 'step':
            continue
        truth.step(ctx, op)
        if not drive.sane(truth.m, 1e4):
            break
        record.append(np.array(truth.m.H_j, float))
        pre = ref.before(m)
        a = rig.kwargs(op)
        a['Q_in'] = a['Q_in'] * scn['pert']
        b = dict(a)
        b.pop('dt')
        if 'Q_0Ik' in b:
            b['Q_Ik'] = b.pop('Q_0Ik')
        ctx.sut(sim.step, dt=op['dt'], **b)
        if not drive.sane(m, 1e4):
            ctx.probe('diverged')
            break
        if not op.get('arrivals'):
            ctx.fault('reading_lost')
        for s, ar in enumerate(op.get('arrivals', [])):
            if not ar['heard']:
                continue
            t0, it0 = float(m.t), int(m.iter_count)
            prior = np.array(m.H_j, float)
            if net.clamped(prior)[~net.bc].any() or (net.bc.any() and np.abs(prior - np.clip(a['H_bc'], net.z, net.z + net.hmax))[net.bc].max() > 1e-6 and s == 0):
                ctx.probe('prior_at_limit')
                return
            if net.bc.any() and s == 0 and (np.abs(prior - a['H_bc'])[net.bc] > 1e-6).any():
                ctx.probe('prior_at_limit')
                return
            rows = [rig.row[x] for x in ar['heard']]
            old = record[max(0, len(record) - 1 - ar['age'])]
            z = old[rows] + np.array(ar['err'][:len(rows)])
            bad = ar['scale'] == 'bad'
            scale = 1.0 if ar['scale'] in (None, 'bad') else ar['scale']
            R = Rm[np.ix_(rows, rows)] * scale
            if bad:
                z[0] = np.nan
            H = np.zeros((len(rows), M))
            H[np.arange(len(rows)), rows] = 1.0
            whole = len(rows) == M and scale == 1.0 and rows == list(range(M))
            sr = ar['sr']
            call = {'Z': z, 'SR': sr, 'dt': op['dt']}
            own = ar.get('own', [])
            if not whole or 'h' in own:
                call['H'] = H
            if not whole or 'r' in own:
                call['Rcov'] = R
            Qn, Cn = Qm, C
            if 'q' in own:
                Qn = call['Qcov'] = Qm * ar['factor']
            if 'c' in own:
                Cn = call['C'] = C * np.sqrt(ar['factor'])
            if 'p' in own:
                P = call['P_x_k_k'] = P * ar['factor'] + 1e-3 * np.abs(P).max() * np.eye(M)
            if own:
                ctx.fault('update_with_own_parameters')
            call.update({k: v for k, v in a.items() if k in ('u_o', 'u_w', 'u_p')})
            if sim.dt == op['dt'] and scn['seed'] % 2:
                call.pop('dt')
            ar_given = digest(z, H, R, Qn, Cn, P)
            try:
                if sr:
                    np.linalg.cholesky(P)
                    np.linalg.cholesky(Qn)
                ctx.sut(sim.kalman_filter, allow=(ValueError, AssertionError, np.linalg.LinAlgError) if bad else (), **call)
            except (ValueError, AssertionError, np.linalg.LinAlgError):
                ctx.fault('bad_reading_refused' if bad else 'prior_not_definite')
                return
            if bad:
                ctx.check(not np.isfinite(m.H_j).all() or False, 'bad-reading-absorbed', 'a reading that is not a number left a finite state')
                return
            ctx.check(digest(z, H, R, Qn, Cn, P) == ar_given, 'caller-array-modified', 'the filter changed an argument')
            # textbook posterior
            A1 = np.array(sim.A_1, float)
            A2 = np.diag(np.where(net.bc, 0.0, np.array(m.A_sj, float) / op['dt']))
            Phi = np.linalg.solve(A1, A2)
            Pp = Phi @ P @ Phi.T + Cn @ Qn @ Cn.T
            S = H @ Pp @ H.T + R
            cond = np.linalg.cond(A1) * np.linalg.cond(S)
            if cond > 1e10:
                ctx.probe('ill_conditioned')
                return
            K = np.linalg.solve(S, H @ Pp).T
            want = prior + K @ (z - H @ prior)
            Pn = (np.eye(M) - K @ H) @ Pp
            lim = np.clip(want, net.z, net.z + net.hmax)
            unc = 1e-7 * (1 + np.abs(prior)) + 1e-13 * cond * (1 + np.abs(prior).max() + np.abs(z).max())
            ctx.close('posterior-mean', m.H_j, lim, unc, lambda: 'step %d reading %d%s' % (n, s, ' square root' if sr else ''))
            ctx.close('posterior-covariance', sim.P_x_k_k, Pn, 1e-6 * np.abs(Pp).max() + 1e-13 * cond * np.abs(Pp).max(), 'step %d reading %d%s' % (n, s, ' square root' if sr else ''))
            ctx.close('innovation-covariance', sim.P_zz, S, 1e-6 * np.abs(S).max(), 'step %d' % n)
            P = np.array(sim.P_x_k_k, float)
            ctx.check(np.linalg.eigvalsh((P + P.T) / 2).min() >= -1e-9 * np.abs(Pp).max() - 1e-13 * cond * np.abs(Pp).max(), 'covariance-not-positive', 'step %d' % n)
            ctx.check((np.diag(P) <= np.diag(Pp) * (1 + 1e-6) + 1e-12 * np.abs(Pp).max()).all(), 'uncertainty-grew', 'step %d' % n)
            ctx.check(float(m.t) == t0 or abs(float(m.t) - t0) < 1e-9 * (1 + abs(t0)), 'clock', 'fusing a reading moved the clock by %r' % (float(m.t) - t0))
            ctx.check(int(m.iter_count) == it0, 'step-count', 'fusing a reading counted as a step')
            if (lim != want).any():
                ctx.probe('posterior_at_limit')
                return
            # the flows and depths reported afterwards belong to the fused levels
            if s == 0:
                kw2 = {'dt': op['dt'], 'Q_in': a['Q_in'], 'Q_0Ik': a.get('Q_0Ik')}
                lay.check(ctx, m, pre, kw2)
            ctx.fault('square_root_form' if sr else 'standard_form')
            if ar['age']:
                ctx.fault('reading_delayed')
            if s:
                ctx.fault('reading_duplicated')
            if len(rows) < len(scn['gauges']):
                ctx.fault('reading_partly_lost')
            if scale != 1.0:
                ctx.fault('gauge_trusted' if scale < 1 else 'gauge_ignored')
                if scale > 1:
                    ctx.close('ignored-gauge', m.H_j, prior, unc + 2 * np.abs(K) @ np.abs(z - H @ prior), 'step %d' % n)
            if max(abs(x) for x in ar['err'][:len(rows)]) > .1:
                ctx.fault('outlier')
            ctx.log(n, m.H_j, P)
            ctx.state(m.H_j, P)
            if not drive.sane(m, 1e4):
                return
    ctx.check(digest(Q, Rf, C, P0) == given, 'caller-array-modified', 'a covariance of the caller was changed in place')
