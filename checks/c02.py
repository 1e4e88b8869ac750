"""C02: a checkpoint taken at any step resumes the run exactly, whatever happened in between."""
import copy

from sim import drive, netgen
from sim.core import Store, digest

ID = 'C02'
LEVEL = 'exploration'
RUNS = {'quick': 1400, 'thorough': 40000}
RULE = ('A seeded network (shape, loops, controls, tabular storage, transects, movable junctions, solver method) is '
        'driven through a seeded forcing history; a seeded fault trace takes checkpoints, loses, tears or corrupts '
        'their writes, crashes the process, restores into the same, a fresh or a differently used instance, and '
        'undoes steps.')
REAL = ['network model (set-up, step, save, load)', 'simulation driver (load)', 'compiled kernels']
STUB = ['durable checkpoint storage', 'process crash (all live objects dropped)']
ASSUMPTIONS = ['checkpoints are copies of the saved state dictionary, stored with a checksum by the caller',
               'the tables a model is rebuilt from are the ones it was first built from']


def generate(rng, tier):
    big = tier == 'thorough'
    w = netgen.gen_world(rng, n_max=8 if big else 6, controls=0.5, tabular=0.3, transects=0.3, mobile=0.4,
                         internal=None, bc=0.4)
    if rng.random() < 0.25:
        w['options']['inertial_damping'] = True
    n = rng.randint(6, 60 if big else 22)
    ops = []
    for op in drive.gen_ops(rng, w, n):
        if rng.random() < 0.1:
            op['num_iter'] = rng.randint(2, 4)
        if w['options']['mobile_elements'] and rng.random() < 0.6:
            op['reposition'] = True
        ops.append(op)
        x = rng.random()
        if x < 0.25:
            ops.append({'op': 'ckpt', 'fault': rng.choice([None, None, None, 'lost_write', 'torn_write', 'bit_flip'])})
        elif x < 0.35:
            ops.append({'op': 'crash'})
        elif x < 0.42:
            ops.append({'op': 'rollback'})
        elif x < 0.50:
            ops.append({'op': 'failover', 'used': rng.randint(0, 4)})
        elif x < 0.60:
            ops.append({'op': 'undo'})
        elif x < 0.63:
            ops.append({'op': 'reload_keep_clock', 't': round(rng.uniform(0, 1e4), 1)})
    return {'world': w, 'ops': ops}


def one(rig, op, ctx):
    rig.step(ctx, op)
    if op.get('reposition') and rig.m.mobile_elements:
        ctx.sut(rig.m.reposition_junctions)


def run(scn, ctx):
    w = scn['world']
    steps = [op for op in scn['ops'] if op['op'] == 'step']
    # the uninterrupted execution
    ref_rig = drive.Rig(w)
    ref = []
    for op in steps:
        one(ref_rig, op, ctx)
        r = drive.report(ref_rig.m)
        ref.append(r)
        ctx.state(r)
    # the same history with checkpoints, crashes and restores
    rig = drive.Rig(w)
    store = Store()
    pos = 0            # steps completed by the live instance
    scale = 0
    program = list(scn['ops'])
    done_total = 0

    def advance_to(target):
        nonlocal pos
        while pos < target:
            one(rig, steps[pos], ctx)
            got = drive.report(rig.m)
            ctx.same('resumed-run-diverges', got, ref[pos], 'step %d after restore' % pos)
            ctx.log('step', pos, got)
            pos += 1

    def restored(snap, p, how):
        """The state just loaded is the one that was saved."""
        if p:
            got = {k: v for k, v in drive.report(rig.m).items() if k in drive.STATE + ('Q_o', 'Q_w', 'Q_p', 't')}
            want = {k: v for k, v in ref[p - 1].items() if k in got}
            ctx.same('restore-loses-state', got, want, how)
        ctx.log('restored', how, p)

    target = 0
    for op in program:
        k = op['op']
        if k == 'step':
            target += 1
            advance_to(target)
        elif k == 'ckpt':
            snap = drive.snapshot(rig.m)
            store.put({'state': snap, 'pos': pos}, op.get('fault'))
            ctx.log('ckpt', pos, op.get('fault'))
            if op.get('fault'):
                ctx.fault(op['fault'])
        elif k in ('crash', 'rollback', 'failover'):
            rec = store.get()
            if k == 'rollback':
                if rec is None:
                    continue
            else:
                rig = drive.Rig(w)
                if k == 'failover':
                    # the stand-by has a life of its own before it takes over
                    for q in range(op['used']):
                        one(rig, dict(steps[-1 - q % len(steps)], dt=7), ctx)
            ctx.fault(k)
            if rec is None:
                if k == 'failover':
                    rig = drive.Rig(w)
                pos = 0
                ctx.probe('restart_from_scratch')
            else:
                before = digest(rec['state'])
                ctx.sut(rig.m.load_state, rec['state'])
                pos = rec['pos']
                ctx.probe('steps_replayed', target - pos)
                restored(rec['state'], pos, k)
                advance_to(min(target, pos + 1))
                ctx.check(digest(rec['state']) == before, 'checkpoint-modified',
                          'running on after a restore changed the checkpoint itself')
                # a checkpoint can be used twice
                if pos == rec['pos'] + 1:
                    ctx.sut(rig.m.load_state, rec['state'])
                    pos -= 1
                    restored(rec['state'], pos, k + ' again')
            advance_to(target)
        elif k == 'undo':
            if pos < 1 or steps[pos - 1].get('reposition'):
                continue
            ctx.fault('undo')
            ctx.sut(rig.m.load_state)
            pos -= 1
            restored(None, pos, 'undo')
            advance_to(target)
        elif k == 'reload_keep_clock':
            snap = drive.snapshot(rig.m)
            rig.m.t = op['t']
            ctx.sut(rig.m.load_state, snap, exclude_states={'t'})
            ctx.check(float(rig.m.t) == op['t'], 'excluded-state-loaded', 'the clock was to be left alone')
            rig.m.t = ref[pos - 1]['t'] if pos else snap['t']
            ctx.fault('clock_jump')
