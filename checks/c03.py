"""C03: a step that fails, anywhere inside, can be rolled back as if it had never been attempted."""
import copy

from sim import drive, netgen
from sim.core import FAULT_EXC, Injected, Lines, Violation, digest

ID = 'C03'
LEVEL = 'exploration'
RUNS = {'quick': 1400, 'thorough': 40000}
RULE = ('A seeded network and forcing history is run once undisturbed and once with faults: exceptions (interrupt, out of '
        'memory, I/O error, arithmetic error) raised at a seeded line of the package during a step, subdivided step '
        'or junction repositioning; steps poisoned by NaN, infinite or absurd inputs; each is followed by a roll-back to the snapshot '
        'taken before, in the same or in a rebuilt instance, and the rest of the history.')
REAL = ['network model', 'simulation driver', 'compiled kernels']
STUB = ['the failing call: an exception raised at the chosen line of the package']
ASSUMPTIONS = ['compiled kernels run atomically with respect to exceptions', 'the caller keeps the snapshot it took before the step']


def generate(rng, tier):
    big = tier == 'thorough'
    w = netgen.gen_world(rng, n_max=8 if big else 6, controls=0.5, tabular=0.3, transects=0.2, mobile=0.4, bc=0.4)
    driver = rng.random() < 0.5
    if driver:
        w['options']['auto_permute'] = w['options']['auto_permute'] and rng.random() < 0.5
    ops = []
    for op in drive.gen_ops(rng, w, rng.randint(4, 40 if big else 16)):
        if driver and rng.random() < 0.4:
            op['subdivisions'] = rng.randint(2, 4)
            op['retries'] = rng.choice([0, 0, 1, 3])
        elif not driver and rng.random() < 0.15:
            op['num_iter'] = 3
        if w['options']['mobile_elements'] and rng.random() < 0.5:
            op['reposition'] = True
        fs = []
        while rng.random() < 0.4 and len(fs) < 3:
            kind = rng.choice(['interrupt', 'nomem', 'ioerror', 'arith', 'interrupt', 'nan_input', 'inf_input', 'wild_step'])
            fs.append({'kind': kind, 'frac': round(rng.random(), 4), 'node': rng.choice(w['superjunctions'])['name'],
                       'recover': rng.choice(['same', 'same', 'fresh']), 'what': rng.choice(['q', 'h', 'qi'])})
        if fs:
            op['faults'] = fs
        ops.append(op)
    return {'world': w, 'driver': driver, 'ops': ops}


class Live:
    def __init__(self, scn):
        self.scn = scn
        self.rig = drive.Rig(scn['world'])
        self.m = self.rig.m
        self.sim = None
        if scn['driver']:
            from pipedream_solver.simulation import Simulation
            self.sim = Simulation(self.m, dt=10., min_dt=0.5)

    def do(self, op):
        kw = self.rig.kwargs(op)
        if self.sim is not None:
            kw.pop('num_iter', None)
            dt = kw.pop('dt')
            if 'Q_0Ik' in kw:
                kw['Q_Ik'] = kw.pop('Q_0Ik')
            self.sim.step(dt=dt, subdivisions=op.get('subdivisions', 1), retries=op.get('retries', 0), **kw)
        else:
            self.m.step(**kw)
        if op.get('reposition') and self.m.mobile_elements:
            self.m.reposition_junctions()


def run(scn, ctx):
    ref = Live(scn)
    want = []
    for op in scn['ops']:
        try:
            ctx.sut(ref.do, op, allow=(AssertionError,))
        except AssertionError:
            break              # the driver itself reports a non-finite state: the history ends there
        ctx.advance(op['dt'])
        want.append(drive.report(ref.m))
        ctx.state(want[-1])
    live = Live(scn)
    lines = 400
    for i, op in enumerate(scn['ops'][:len(want)]):
        snap = drive.snapshot(live.m)
        mark = digest(snap)
        for f in op.get('faults', []):
            bad = dict(op)
            raised = None
            l = None
            if f['kind'] in FAULT_EXC:
                l = Lines(at=max(1, int(f['frac'] * lines)), exc=FAULT_EXC[f['kind']])
                try:
                    with l:
                        ctx.sut(live.do, op)
                except BaseException as e:
                    if not isinstance(e, Injected):
                        raise
                    raised = e
                if l.fired:
                    ctx.fault(f['kind'])
                    ctx.probe('in_' + ('driver' if scn['driver'] else 'model'))
                    ctx.probe('at:' + l.fired)
                if raised is None:
                    # nothing reached the caller: then the step must simply have worked
                    ctx.same('silently-wrong', drive.report(live.m), want[i], 'step %d' % i)
            else:
                val = {'nan_input': float('nan'), 'inf_input': float('inf'), 'wild_step': 1e7}[f['kind']]
                if f['what'] == 'h' and op.get('h'):
                    bad['h'] = {k: val for k in op['h']}
                elif f['what'] == 'qi':
                    bad['qi'] = {scn['world']['superlinks'][0]['name']: [0.5, val]}
                else:
                    bad['q'] = dict(op.get('q') or {}, **{f['node']: val})
                if f['kind'] == 'wild_step':
                    bad['dt'] = 5000.0
                bad.pop('subdivisions', None)
                bad.pop('retries', None)
                import numpy as np
                try:
                    live.do(bad)
                    if scn['driver']:
                        ctx.check(np.isfinite(live.m.H_j).all(), 'non-finite-state-accepted',
                                  'the driver completed a step with non-finite heads')
                except Violation:
                    raise
                except Exception as e:
                    ctx.probe('rejected:' + type(e).__name__)
                ctx.fault(f['kind'])
            if f['recover'] == 'fresh':
                live = Live(scn)
            ctx.sut((live.sim or live.m).load_state, snap)
            ctx.check(digest(snap) == mark, 'snapshot-modified', 'a failed step changed the snapshot taken before it')
            ctx.log('rolled back', i, f['kind'])
        with Lines() as l:
            ctx.sut(live.do, op)
        lines = l.n
        got = drive.report(live.m)
        ctx.same('rolled-back-run-diverges', got, want[i], 'step %d' % i)
        ctx.check(digest(snap) == mark, 'snapshot-modified', 'a step changed the snapshot taken before it')
        ctx.log('step', i, got)
