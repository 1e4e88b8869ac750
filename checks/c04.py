"""C04: a driver step is exactly the sub-steps it stands for; retries halve the step until it is accurate enough."""
import math

import numpy as np

from sim import drive, netgen
from sim.core import Discard, FAULT_EXC, Injected, Lines

ID = 'C04'
LEVEL = 'exploration'
RUNS = {'quick': 1500, 'thorough': 60000}
RULE = ('A seeded network is advanced through the simulation driver with seeded step sizes, subdivisions, retry budgets, tolerances '
        'and norms, with interrupted steps and roll-backs in between; a second model is advanced by hand through the sub-steps '
        'each driver step stands for, and must end in the same state, bit for bit.')
REAL = ['simulation driver', 'network model', 'compiled kernels']
STUB = ['the failing call: an exception raised at the chosen line of the package']
ASSUMPTIONS = ['a decision within 1e-6 (relative) of its tolerance may go either way']
NORMS = (2, 2, 1, 0, -1)


def generate(rng, tier):
    big = tier == 'thorough'
    w = netgen.gen_world(rng, n_max=6 if big else 4, controls=rng.choice([0., 0.6]), tabular=0.2, transects=0.1, mobile=0.1,
                         bc=rng.choice([0., 0.5]), methods=('b', 'b', 'f'), wet=rng.choice([None, 0.3, 1.0]))
    source = rng.choice(['tables', 'tables', 'call'])
    ops = drive.gen_ops(rng, w, rng.randint(4, 60 if big else 18), dts=[1, 2, 4, 10, 30, 60, 100, 0.7])
    plan_adaptive = rng.random() < 0.4
    for op in ops:
        op['sub'] = rng.choice([1, 1, 2, 2, 3, 4, 7])
        op['retries'] = rng.choice([0, 0, 1, 2, 3, 6, 12])
        op['tol'] = rng.choice([1, 0.1, 0.01, 1e-3, 1e-5, 10, 0.5])
        op['norm'] = rng.choice(NORMS)
        op.pop('banded', None)
        if rng.random() < 0.1:
            op['dt'] = None
        if plan_adaptive and rng.random() < 0.6:
            op['next_dt'] = rng.choice(['compute', 'filter', 'filter'])
            op['coeffs'] = rng.choice([[1, 0, 0, 0, 0], [.5, .5, 0, .5, 0], [1 / 6, 1 / 6, 0, 0, 0], [.25, .5, .25, .75, .25],
                                       [1 / 18, 1 / 9, 1 / 18, 0, 0], [1.25, .5, -.75, -.25, -.75]])
            op['safety'] = rng.choice([1.0, 0.9, 0.5])
        if rng.random() < 0.08:
            op['fault'] = {'kind': rng.choice(sorted(FAULT_EXC)), 'frac': round(rng.random(), 4)}
    rows = sorted(set(round(rng.uniform(0, 600), 2) for _ in range(rng.randint(2, 9))))
    return {'world': w, 'source': source, 'ops': ops, 'min_dt': rng.choice([1, 0.5, 0.25, 5]),
            'max_dt': rng.choice([20, 60, 200]), 'rows': rows,
            'table': [{j['name']: round(rng.uniform(0, 0.1), 4) for j in w['superjunctions']} for _ in rows],
            'htable': [{j['name']: round(j['z_inv'] + max(0.02, j['h_0'] + rng.uniform(0, 0.6)), 4) for j in w['superjunctions']}
                       for _ in rows]}


def nearest(rows, t):
    d = [abs(t - r) for r in rows]
    i = int(np.argmin(d))
    if sum(1 for x in d if abs(x - d[i]) < 1e-6) > 1:
        raise Discard('forcing sampled half-way between two records')
    return i


class Hand:
    """The same model, advanced by hand."""

    def __init__(self, scn):
        self.scn = scn
        self.rig = drive.Rig(scn['world'])
        self.m = self.rig.m

    def one(self, op, dt):
        kw = dict(self.rig.kwargs(dict(op, dt=dt)))
        kw['banded'] = self.m.banded
        if self.scn['source'] == 'tables':
            i = nearest(self.scn['rows'], float(self.m.t) + dt)
            kw['Q_in'] = self.rig.vec(self.scn['table'][i])
            if 'H_bc' in kw:
                kw['H_bc'] = self.rig.vec(self.scn['htable'][i])
        self.m.step(**kw)

    def advance(self, ctx, op, dt, min_dt):
        """What one driver step has to do; returns (error estimates, accepted step, attempts)."""
        start = drive.snapshot(self.m)
        left = op['retries']
        attempts = 0
        while True:
            attempts += 1
            self.one(op, dt)
            err = None
            if op['sub'] > 1:
                coarse = np.array(self.m.H_j, float)
                self.m.load_state(start)
                for _ in range(op['sub']):
                    prev = np.array(self.m.H_j, float)
                    self.one(op, dt / op['sub'])
                fine = np.array(self.m.H_j, float)
                e = (coarse - fine) / (1e-6 + 1e-3 * np.maximum(fine, prev))
                n = e.size
                err = {0: (e > 0).sum() / n, 1: e.sum() / n, 2: math.sqrt((e ** 2).sum() / n), -1: np.abs(e).max()}[op['norm']]
                err = max(abs(float(err)), np.finfo(float).eps)
            if err is not None and left and dt / 2 > min_dt:
                if math.isfinite(err) and abs(err - op['tol']) < 1e-6 * op['tol']:
                    raise Discard('error estimate on its tolerance')
                if not err <= op['tol']:
                    self.m.load_state(start)
                    dt, left = dt / 2, left - 1
                    continue
            return err, dt, attempts


def run(scn, ctx):
    import pandas as pd
    from pipedream_solver.simulation import Simulation
    w = scn['world']
    rig, hand = drive.Rig(w), Hand(scn)
    names = [j['name'] for j in w['superjunctions']]
    args = {}
    if scn['source'] == 'tables':
        args['Q_in'] = pd.DataFrame([[r[n] for n in names] for r in scn['table']], index=scn['rows'], columns=names)
        if rig.m.bc.any():
            args['H_bc'] = pd.DataFrame([[r[n] for n in names] for r in scn['htable']], index=scn['rows'], columns=names)
    sim = Simulation(rig.m, dt=7.0, min_dt=scn['min_dt'], max_dt=scn['max_dt'], interpolation_method='nearest', t_start=0., t_end=1e4, **args)
    hand.m.t = 0.
    default = 7.0
    dts, errs = [], []
    lines = 500
    suggested = None
    for n, op in enumerate(scn['ops']):
        if op['op'] != 'step':
            continue
        dt = op['dt']
        if suggested is not None:
            dt, suggested = suggested, None
        if dt is not None:
            default = dt
        kw = rig.kwargs(dict(op, dt=1))
        kw.pop('dt')
        if 'Q_0Ik' in kw:
            kw['Q_Ik'] = kw.pop('Q_0Ik')
        if scn['source'] == 'tables':
            kw.pop('Q_in', None)
            kw.pop('H_bc', None)
        t0 = float(sim.t)
        call = lambda: sim.step(dt=dt, subdivisions=op['sub'], retries=op['retries'], tol=op['tol'], norm=op['norm'], **kw)
        if op.get('fault'):
            snap = drive.snapshot(rig.m)
            keep = default
            l = Lines(at=max(1, int(op['fault']['frac'] * lines)), exc=FAULT_EXC[op['fault']['kind']])
            try:
                with l:
                    ctx.sut(call, allow=(AssertionError,))
            except BaseException as e:
                if not isinstance(e, (Injected, AssertionError)):
                    raise
            if l.fired:
                ctx.fault(op['fault']['kind'])
            # what a step that was rolled back leaves in the driver's error history is not specified
            dts, errs = [], []
            sim.load_state(snap)
            default = keep
            if dt is None:
                dt = default
        try:
            with Lines() as l:
                ctx.sut(call, allow=(AssertionError, np.linalg.LinAlgError, ValueError))
            lines = l.n
        except (AssertionError, np.linalg.LinAlgError, ValueError) as e:
            ctx.check(not drive.sane(rig.m), 'step-refused', lambda: 'step %d: %r from a finite state' % (n, e))
            ctx.probe('diverged')
            break
        err, took, attempts = hand.advance(ctx, op, default, scn['min_dt'])
        ctx.advance(took)
        ctx.probe('attempts', attempts)
        if attempts > 1:
            ctx.probe('retried_steps')
            default = took
        if took < 2 * scn['min_dt'] and attempts > 1:
            ctx.probe('stopped_at_minimum_step')
        ctx.check(abs(float(sim.t) - t0 - took) <= 1e-9 * (1 + abs(t0) + took), 'clock',
                  lambda: 'step %d: clock moved by %r, accepted step %r' % (n, float(sim.t) - t0, took))
        got, want = drive.report(rig.m), drive.report(hand.m)
        ctx.same('driver-differs-from-substeps', got, want, 'step %d (%d sub-steps, attempt %d)' % (n, op['sub'], attempts))
        if err is not None:
            ctx.close('error-estimate', sim.err, err, 1e-6 * err, 'step %d norm %d' % (n, op['norm']))
        else:
            ctx.check(sim.err is None, 'stale-error', 'an error estimate is reported for a step that made none')
        dts.insert(0, took)
        errs.insert(0, err)
        ctx.log(n, got, took, err)
        ctx.state(got)
        ctx.schedule([op['sub'], attempts])
        if not drive.sane(rig.m):
            break
        if op.get('next_dt') == 'compute' and err is not None:
            tol = op['tol']
            s = ctx.sut(sim.compute_step_size, tol=tol)
            lo, hi = scn['min_dt'], scn['max_dt']
            want_s = 0.9 * took * math.sqrt(tol / 2 / err)
            check_size(ctx, s, want_s, lo, hi, n)
            suggested = float(s)
        elif op.get('next_dt') == 'filter' and len(dts) >= 3 and all(e is not None for e in errs[:3]):
            tol, c, sf = op['tol'], op['coeffs'], op['safety']
            s = ctx.sut(sim.filter_step_size, tol=tol, coeffs=c, safety_factor=sf)
            e, d = errs, dts
            f = ((tol / e[0]) ** (c[0] / 2) * (tol / e[1]) ** (c[1] / 2) * (tol / e[2]) ** (c[2] / 2)
                 * (d[0] / d[1]) ** -c[3] * (d[1] / d[2]) ** -c[4])
            check_size(ctx, s, sf * min(max(f, 1e-10), 1e10) * d[0], scn['min_dt'], scn['max_dt'], n)
            suggested = float(s)


def check_size(ctx, s, want, lo, hi, n):
    ctx.check(lo <= s <= hi, 'step-size-out-of-bounds', lambda: 'step %d: suggested %r outside [%r, %r]' % (n, s, lo, hi))
    want = min(max(want, lo), hi)
    ctx.close('step-size', s, want, 1e-6 * want, 'step %d' % n)
    ctx.probe('suggested_steps')
    ctx.fault('adaptive_step')
