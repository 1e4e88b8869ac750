"""C22: a copied system is the system: branches of a run never touch each other and each is the run it continues."""
import copy
import gc
import pickle

import numpy as np

from checks import c12
from sim import drive, netgen, wq
from sim.core import FAULT_EXC, Injected, Lines, digest

ID = 'C22'
LEVEL = 'exploration'
RUNS = {'quick': 1500, 'thorough': 50000}
WARMUP = 12
RULE = ('A running system (network model, with a simulation driver that fuses gauges, with a water-quality model riding on it, or an infiltration model) is copied at seeded moments, deep '
        'copy or pickle as process image, also right after a failed step; originals and copies run on in seeded alternation with their own weather, are undone, fail, are dropped and '
        'collected; every branch must be bit for bit the run that went through its history in one go.')
REAL = ['network model', 'simulation driver', 'Kalman filter', 'water-quality model', 'infiltration model', 'compiled kernels', 'copy and pickle']
STUB = ['rain, tide, loads and gauges', 'the failing call: an exception raised at the chosen line of the package', 'the process image: a pickle']
ASSUMPTIONS = ['objects that refer to one another are copied together']


def generate(rng, tier):
    big = tier == 'thorough'
    kind = rng.choice(['model', 'model', 'sim', 'sim', 'quality', 'soil'])
    par = None
    if kind == 'quality':
        w = c12.world(rng, big, controls=rng.choice([0., .4]), internal=rng.choice([1, 2, 4]), wet=rng.choice([1., 2.]))
        par = wq.gen_params(rng, w, None)
    else:
        w = netgen.gen_world(rng, n_max=6 if big else 4, controls=.5, tabular=.3, transects=.3, mobile=.25, bc=.4, methods=('b', 'b', 'f'), wet=rng.choice([1e-5, .3, 1., 2.]), damping=.1)
    ops = []
    n = 1
    for op in drive.gen_ops(rng, w, rng.randint(5, 60 if big else 18), negative=.1):
        x = rng.random()
        if n < 5 and x < .22:
            ops.append({'op': 'fork', 'on': rng.randrange(n), 'how': rng.choice(['copy', 'image'])})
            n += 1
        elif x < .3:
            ops.append({'op': 'undo', 'on': rng.randrange(n)})
        elif x < .36:
            ops.append({'op': 'drop', 'on': rng.randrange(n)})
        op['on'] = rng.randrange(n)
        if rng.random() < .12:
            op['fault'] = [rng.choice(sorted(FAULT_EXC)), round(rng.random(), 4), rng.random() < .4]
            n += op['fault'][2]
        op['sub'] = rng.choice([1, 1, 2, 3])
        op['retries'] = rng.choice([0, 0, 2])
        op['z'] = round(rng.uniform(.05, 2.), 4)
        op['fuse'] = rng.random() < .3
        op['move'] = rng.random() < .2
        op['rain'] = round(rng.choice([0, 1e-6, 1e-5, 5e-5]) * rng.random(), 9)
        ops.append(op)
    if kind == 'quality':
        wq.gen_forcing(rng, w, ops, None)
    return {'world': w, 'kind': kind, 'par': par, 'ops': ops, 'soil': [round(rng.uniform(.02, .3), 3), rng.choice([1e-7, 1e-6, 1e-5])]}


class System:
    def __init__(self, scn):
        import pandas as pd
        w, kind = scn['world'], scn['kind']
        self.scn, self.kind = scn, kind
        self.q = self.sim = self.soil = self.rig = None
        if kind == 'soil':
            from pipedream_solver.hydrology import GreenAmpt
            self.soil = GreenAmpt(pd.DataFrame({'psi_f': [scn['soil'][0]] * 2, 'Ks': [scn['soil'][1]] * 2, 'theta_s': [.45, .4], 'theta_i': [.2, .1], 'A_s': [100., 50.]}))
            return
        self.rig = drive.Rig(w)
        m = self.rig.m
        if kind == 'sim':
            from pipedream_solver.simulation import Simulation
            js = [j['name'] for j in w['superjunctions']]
            steps = [o for o in scn['ops'] if o['op'] == 'step']
            t = np.arange(len(steps) + 1) * 20.
            Q = pd.DataFrame([[(o.get('q') or {}).get(n, 0.) for n in js] for o in [steps[0]] + steps], index=t, columns=js)
            self.sim = Simulation(m, Q_in=Q, dt=5., min_dt=.5, t_start=0., t_end=1e5, Qcov=1e-4, Rcov=1e-4)
        elif kind == 'quality':
            from pipedream_solver.nquality import QualityBuilder
            tab = wq.Tables(scn['par'], self.rig)
            self.q = QualityBuilder(m, tab.nodes.copy(), tab.links.copy(), **tab.kw)

    def parts(self):
        return {'m': self.rig and self.rig.m, 'sim': self.sim, 'q': self.q, 'soil': self.soil}

    def with_parts(self, p):
        new = copy.copy(self)
        new.sim, new.q, new.soil = p['sim'], p['q'], p['soil']
        if self.rig:
            new.rig = copy.copy(self.rig)
            new.rig.m = p['m']
        return new

    def step(self, op):
        if self.soil is not None:
            self.soil.step(dt=60., i=np.array([op['rain'], 2 * op['rain']]))
            return
        kw = self.rig.kwargs(op)
        m = self.rig.m
        if self.sim is not None:
            args = {k: v for k, v in kw.items() if k in ('u_o', 'u_w', 'u_p', 'H_bc', 'Q_in')}
            if op['z'] < .8:
                args.pop('Q_in')
            self.sim.step(dt=op['dt'], subdivisions=op['sub'], retries=op['retries'], tol=.1, **args)
            if op['fuse']:
                self.sim.kalman_filter(Z=np.array(m.H_j) + .01 * op['z'], dt=op['dt'])
            self.sim.record_state()
        else:
            m.step(**kw)
        if self.q is not None:
            a = {'dt': op['dt'], 'c_0j': self.rig.vec(op['c0']), 'c_0Ik': np.array([op['ci'].get(str(m.superlink_names[k]), 0.) for k in m._kI])}
            if op['cb'] is not None:
                a['c_bc'] = self.rig.vec(op['cb'])
            self.q.step(**a)
        elif op['move'] and m.mobile_elements:
            m.reposition_junctions()

    def undo(self):
        if self.sim is not None:
            self.sim.load_state()
        elif self.soil is None:
            self.rig.m.load_state()

    def save(self):
        return drive.snapshot(self.rig.m)

    def look(self):
        if self.soil is not None:
            return [np.array(getattr(self.soil, k, 0.)) for k in ('f', 'F', 'Q')]
        out = [drive.report(self.rig.m)]
        if self.sim is not None:
            s = self.sim
            out += [s.err, [float(x) for x in s.dts], [x if x is None else float(x) for x in s.errs], float(s.dt), np.array(s.P_x_k_k), {k: v for k, v in sorted(s.states.H_j.items())}]
        if self.q is not None:
            out += [np.array(getattr(self.q, k), float) for k in ('c_j', 'c_Ik', 'c_ik', 'c_uk', 'c_dk')]
        return out


STOP = (AssertionError, np.linalg.LinAlgError, ValueError)


def play(s, op):
    """One operation of a branch's own history; what it left behind, or None once the branch cannot go on."""
    if op['op'] == 'undo':
        s.undo()
    else:
        try:
            s.step(op)
        except STOP:
            return None
    return digest(s.look())


def run(scn, ctx):
    try:
        branches = [[System(scn), [], [], True, False]]        # system, history, what it looked like after each, alive, can be undone
    except AssertionError:
        ctx.probe('diverged')
        return
    lines = 300

    def fork(b, how):
        s = b[0]
        p = ctx.sut(copy.deepcopy, s.parts()) if how == 'copy' else ctx.sut(lambda: pickle.loads(pickle.dumps(s.parts())))
        ctx.fault('fork_' + how)
        c = s.with_parts(p)
        ctx.same('copy-differs', c.look(), s.look(), 'right after the copy')
        branches.append([c, list(b[1]), list(b[2]), True, b[4]])

    for n, op in enumerate(scn['ops']):
        b = branches[op['on'] % len(branches)]
        if not b[3]:
            continue
        s = b[0]
        if op['op'] == 'fork':
            fork(b, op['how'])
            continue
        if op['op'] == 'drop':
            if sum(x[3] for x in branches) > 1:
                b[3], b[0] = False, None
                gc.collect()
                ctx.fault('dropped')
            continue
        if op['op'] == 'undo' and (not b[4] or s.q is not None):
            continue
        if op.get('fault') and op['op'] == 'step' and s.kind == 'model':
            snap = s.save()
            try:
                with Lines(at=max(1, int(op['fault'][1] * lines)), exc=FAULT_EXC[op['fault'][0]]):
                    s.step(op)
            except BaseException as e:
                if not isinstance(e, (Injected,) + STOP):
                    raise
            ctx.fault(op['fault'][0])
            if op['fault'][2] and len(branches) < 6:
                # the wreck is copied, both are recovered
                fork(b, 'copy')
                branches[-1][0].rig.m.load_state(snap)
                branches[-1][4] = False
            s.rig.m.load_state(snap)
        with Lines() as l:
            d = ctx.sut(play, s, op, allow=())
        lines = max(l.n, 1)
        b[1].append(op)
        b[2].append(d)
        b[4] = op['op'] == 'step'
        if d is None:
            ctx.probe('diverged')
            b[3], b[0] = False, None
            continue
        if op['op'] == 'step':
            ctx.advance(op['dt'])
        ctx.log(n, d)
        ctx.state(d)
        ctx.probe('steps_compared')
    for k, (s, history, seen, alive, _) in enumerate(branches):
        if not history:
            continue
        one = System(scn)
        for i, op in enumerate(history):
            d = play(one, op)
            ctx.check(d == seen[i], 'branch-differs', lambda: 'branch %d of %d (%s), its step %d (%s): not the run that went there in one go' % (k, len(branches), scn['kind'], i, op['op']))
            if d is None:
                break
    ctx.probe('branches', len(branches))
    ctx.schedule([o['on'] for o in scn['ops']])


def shrink(scn):
    for x in netgen.shrink_world(scn['world']):
        if x['superlinks']:
            yield dict(scn, world=x)
