"""C10: the recorded history is what happened, at the times it happened, however the run ends."""
import numpy as np

from sim import drive, netgen
from sim.core import FAULT_EXC, Injected, Lines, Violation

ID = 'C10'
LEVEL = 'exploration'
RUNS = {'quick': 2500, 'thorough': 80000}
RULE = ('A seeded network is driven and recorded under a seeded schedule of steps, records, repeated records, undos, roll-backs to '
        'earlier checkpoints, operator edits of the live state and faults inside step and record; the run leaves its block normally or by an '
        'exception, and the resulting tables are compared with a diary of the states that were live at each record.')
REAL = ['simulation driver (record, load, leaving the block)', 'network model', 'compiled kernels']
STUB = ['the failing call: an exception raised at the chosen line of the package']
ASSUMPTIONS = ['an interrupted record may have recorded any part of that one moment']
STATES = ('H_j', 'h_Ik', 'Q_ik', 'Q_uk', 'Q_dk', 'Q_o', 'Q_w', 'Q_p', 'x_Ik')


def generate(rng, tier):
    big = tier == 'thorough'
    w = netgen.gen_world(rng, n_max=7 if big else 5, controls=0.6, tabular=0.2, transects=0.0, mobile=0.4, bc=0.4, methods=('b', 'b', 'f'))
    ops = []
    for op in drive.gen_ops(rng, w, rng.randint(3, 60 if big else 18), dts=[0.1, 1, 2.5, 10, 30, 60, 1 / 3]):
        op['sub'] = rng.choice([1, 1, 2, 3])
        op.pop('banded', None)
        ops.append(op)
        if rng.random() < 0.15:
            op['fault'] = {'kind': rng.choice(sorted(FAULT_EXC)), 'frac': round(rng.random(), 4)}
        x = rng.random()
        if x < 0.75:
            ops.append({'op': 'record'})
            if rng.random() < 0.15:
                ops[-1]['fault'] = {'kind': rng.choice(sorted(FAULT_EXC)), 'frac': round(rng.random(), 4)}
        y = rng.random()
        if y < 0.06:
            ops.append({'op': 'record'})
        elif y < 0.14:
            ops.append({'op': 'undo'})
        elif y < 0.20:
            ops.append({'op': 'ckpt'})
        elif y < 0.26:
            ops.append({'op': 'rollback'})
        elif y < 0.32:
            ops.append({'op': 'edit', 'what': rng.choice(['H_j', 'Q_uk', 'h_Ik', 'Q_ik', 'Q_dk']), 'k': rng.randint(0, 9), 'by': round(rng.uniform(0, .3), 3)})
        elif y < 0.36 and w['options']['mobile_elements']:
            ops.append({'op': 'reposition'})
    return {'world': w, 'ops': ops, 'ending': rng.choice(['normal', 'normal', 'ValueError', 'KeyboardInterrupt']),
            't_start': rng.choice([None, None, 0., 1000., 12.25]), 'prelude': rng.randint(0, 3), 'table': rng.random() < .3}


class Boom(Exception):
    pass


def now(m):
    return {k: np.array(getattr(m, k), float).copy() for k in STATES if k in m.states and getattr(m, k, None) is not None}


def run(scn, ctx):
    import pandas as pd
    from pipedream_solver.simulation import Simulation
    w = scn['world']
    rig = drive.Rig(w)
    m = rig.m
    for i in range(scn['prelude']):
        op = [o for o in scn['ops'] if o['op'] == 'step'][:1]
        if op:
            rig.step(ctx, dict(op[0], dt=5))
    args = {}
    if scn['t_start'] is not None:
        args['t_start'] = scn['t_start']
    if scn['table']:
        names = [j['name'] for j in w['superjunctions']]
        args['Q_in'] = pd.DataFrame(np.zeros((2, len(names))), index=[50., 500.], columns=names)
    sim = ctx.sut(Simulation, m, dt=10., **args)
    want_t = scn['t_start'] if scn['t_start'] is not None else (50. if scn['table'] else None)
    if want_t is not None:
        ctx.check(float(m.t) == want_t, 'start-time', lambda: 'clock at %r, requested start %r' % (float(m.t), want_t))
    diary = {float(m.t): now(m)}
    partial = {}
    saved = None
    lines = {'step': 300, 'record': 60}
    clock = float(m.t)
    n_done = 0
    live_state = None
    ending = {'ValueError': Boom, 'KeyboardInterrupt': KeyboardInterrupt}.get(scn['ending'])

    def guarded(kind, fn, fault):
        """Run fn with a fault at a seeded line; True when the fault reached the caller."""
        if not fault:
            with Lines() as l:
                ctx.sut(fn, allow=(AssertionError, np.linalg.LinAlgError, ValueError))
            lines[kind] = l.n
            return False
        l = Lines(at=max(1, int(fault['frac'] * lines[kind])), exc=FAULT_EXC[fault['kind']])
        try:
            with l:
                ctx.sut(fn, allow=(AssertionError, np.linalg.LinAlgError, ValueError))
        except BaseException as e:
            if not isinstance(e, Injected):
                raise
            ctx.fault(fault['kind'])
            return True
        return False

    try:
        with sim:
            for n, op in enumerate(scn['ops']):
                k = op['op']
                if k == 'step':
                    kw = rig.kwargs(dict(op, dt=1))
                    kw.pop('dt')
                    if 'Q_0Ik' in kw:
                        kw['Q_Ik'] = kw.pop('Q_0Ik')
                    before = drive.snapshot(m)
                    t0 = float(m.t)
                    if guarded('step', lambda: sim.step(dt=op['dt'], subdivisions=op['sub'], **kw), op.get('fault')):
                        ctx.sut(sim.load_state, before)
                        ctx.check(float(m.t) == t0, 'clock', 'the clock did not return with the state')
                        continue
                    if not drive.sane(m):
                        ctx.probe('diverged')
                        break
                    ctx.advance(op['dt'])
                    n_done += 1
                    ctx.check(abs(float(m.t) - t0 - op['dt']) <= 1e-9 * (1 + abs(t0)), 'clock',
                              lambda: 'a step of %r moved the clock by %r' % (op['dt'], float(m.t) - t0))
                    ctx.check(float(sim.t) == float(m.t), 'clock', 'driver and model disagree about the time')
                elif k == 'record':
                    t = float(m.t)
                    snap = now(m)
                    if guarded('record', sim.record_state, op.get('fault')):
                        partial.setdefault(t, []).append(snap)
                    else:
                        diary[t] = snap
                        partial.pop(t, None)
                    ctx.probe('records')
                elif k == 'undo':
                    if n and scn['ops'][n - 1]['op'] in ('step', 'record'):
                        ctx.sut(sim.load_state)
                        ctx.fault('undo')
                elif k == 'ckpt':
                    saved = drive.snapshot(m)
                elif k == 'rollback' and saved is not None:
                    ctx.sut(sim.load_state, saved)
                    ctx.fault('rollback')
                elif k == 'edit':
                    a = getattr(m, op['what'])
                    if a.size:
                        a[op['k'] % a.size] += op['by']
                        ctx.fault('live_edit')
                elif k == 'reposition' and m.mobile_elements:
                    ctx.sut(m.reposition_junctions, allow=(AssertionError,))
            if ending:
                ctx.fault('exception_in_block')
                raise ending('end')
    except (Boom, KeyboardInterrupt) as e:
        if isinstance(e, Injected) or ending is None:
            raise
    else:
        ctx.check(ending is None, 'exception-swallowed', 'leaving the block hid the exception raised in it')
    labels = {'H_j': [str(x) for x in rig.names], 'Q_uk': [str(x) for x in m.superlink_names], 'Q_dk': [str(x) for x in m.superlink_names]}
    for s in STATES:
        if s not in next(iter(diary.values())):
            continue
        df = getattr(sim.states, s, None)
        ctx.check(isinstance(df, pd.DataFrame), 'no-table', lambda: '%s is not a table after the run' % s)
        times = [float(t) for t in df.index]
        ctx.check(set(diary) <= set(times) <= set(diary) | set(partial), 'record-times', lambda: '%s recorded at %s, expected %s' % (s, sorted(times), sorted(diary)))
        ctx.check(len(times) == len(set(times)), 'record-times', lambda: '%s has a time twice' % s)
        if s in labels:
            ctx.check([str(c) for c in df.columns] == labels[s], 'record-labels', lambda: '%s columns %s' % (s, list(df.columns)))
        for i, t in enumerate(times):
            row = df.values[i].astype(float)
            options = ([diary[t][s]] if t in diary else []) + [p[s] for p in partial.get(t, [])]
            ok = any(o.shape == row.shape and (o == row).all() for o in options)
            ctx.check(ok, 'record-differs', lambda: '%s recorded for t=%r is %s, the state then was %s' % (s, t, row, options[:1]))
    ctx.log(sorted(diary), diary)
    ctx.state(diary)
