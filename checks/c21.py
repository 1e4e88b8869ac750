"""C21: what a caller leaves out, abbreviates or asks to have repeated means what the interface says."""
import math

import numpy as np

from sim import drive, netgen
from sim.core import FAULT_EXC, Injected, Lines

ID = 'C21'
LEVEL = 'exploration'
RUNS = {'quick': 2200, 'thorough': 60000}
RULE = ('Two models of one seeded network: one is built from tables without their optional columns and stepped with as little as the interface asks for (no step size, no '
        'inflow, no boundary level, no gate settings, "up to k iterations", "warm up", the driver with its defaults), the other is told everything and does every iteration and '
        'warm-up step by hand; storms, tides, undo, and calls that fail half-way lie in between; both must be in the same state, bit for bit, and agree on clock and counters.')
REAL = ['network model', 'compiled kernels', 'simulation driver', 'state save and restore']
STUB = ['rain, tide and operator signals', 'the failing call: an exception raised at the chosen line of the package']
ASSUMPTIONS = ['a boundary node whose level is not given keeps it', 'gates whose setting is not given are closed', 'conduit end coefficients not given are 1 / 0.67^2 (as shipped)']


def generate(rng, tier):
    big = tier == 'thorough'
    w = netgen.gen_world(rng, n_max=7 if big else 5, controls=rng.choice([0., .7]), tabular=.2, transects=.15, mobile=.2, bc=rng.choice([.2, .7]), methods=('b', 'b', 'f'),
                         wet=rng.choice([1e-5, .05, .3, 1., 2.]), damping=.1, explicit=.15, ends=.2)
    less = sorted(x for x in ('friction', 'ends', 'maxdepth', 'coefficients', 'oneway', 'orifice', 'case', 'ints', 'map', 'names', 'defaults') if rng.random() < .35)
    if 'friction' in less:
        for l in w['superlinks']:
            for p in [l] + l.get('parts', []):
                if p['friction_method'] != 'cm':
                    p['friction_method'], p['n'] = 'cm', .015
    if 'ends' in less:
        for l in w['superlinks']:
            if 'dx_uk' in l:
                l['dx_uk'] = l['dx_dk'] = 0.
    if 'maxdepth' in less:
        for j in w['superjunctions']:
            j['max_depth'] = None
    if 'oneway' in less:
        for o in w['orifices']:
            o['oneway'] = False
    if 'ints' in less:
        for j in w['superjunctions']:
            j['a'], j['c'] = float(round(j['a'])), float(round(j['c']))
        for l in w['superlinks']:
            for p in [l] + l.get('parts', []):
                p['A_c'], p['C'] = (1., 1.) if p['ctrl'] else (0., 0.)
    if 'coefficients' in less:
        for l in w['superlinks']:
            l.pop('C_uk', None)
            l.pop('C_dk', None)
    if 'defaults' in less:
        w['options'].update(method='b', bc_method='z', auto_permute=False, mobile_elements=False, min_depth=1e-5, dt=60)
        w['options'].pop('sparse', None)
        w['options'].pop('inertial_damping', None)
        if not w.get('explicit') and rng.random() < .5:
            w['options']['internal_links'] = 4
    ops = []
    for op in drive.gen_ops(rng, w, rng.randint(3, 50 if big else 12), negative=.1, q_scale=rng.choice([0., .02, .2])):
        op['omit'] = sorted(x for x in ('dt', 'Q_in', 'H_bc', 'Q_0Ik', 'u_o', 'u_w', 'u_p', 'banded') if rng.random() < .3)
        x = rng.random()
        if x < .35:
            op['num_iter'] = rng.randint(1, 8)
            op['tol'] = rng.choice([None, None, 1e-2, 1e-3, 1e-5, 1e-8, 0.])
        elif x < .45:
            op['op'], op['n'], op['reset'] = 'spinup', rng.randint(1, 6), rng.choice([None, None, True, False])
            op['repos'] = bool(w['options']['mobile_elements']) and rng.random() < .5
        elif x < .55:
            op['op'], op['n'] = 'driver', rng.randint(1, 3)
        if w['options']['mobile_elements'] and rng.random() < .2:
            op['move'] = True
        if rng.random() < .1:
            op['fault'] = [rng.choice(sorted(FAULT_EXC)), round(rng.random(), 4)]
        ops.append(op)
        if rng.random() < .1:
            ops.append({'op': 'undo'})
    return {'world': w, 'less': less, 'ops': ops}


def short(w, less):
    """The tables with everything left out that may be."""
    t = netgen.tables(w)
    drop = []
    if 'friction' in less and all(l['friction_method'] == 'cm' and all(p['friction_method'] == 'cm' for p in l.get('parts', [])) for l in w['superlinks']):
        drop.append('friction_method')
    if 'ends' in less and not any(l.get('dx_uk') or l.get('dx_dk') for l in w['superlinks']):
        drop += ['dx_uk', 'dx_dk']
    if 'coefficients' in less and not any('C_uk' in l for l in w['superlinks']):
        drop += ['C_uk', 'C_dk']
    drop += ['g%d' % n for n in range(2, 8) if not any(l['g%d' % n] or any(p['g%d' % n] for p in l.get('parts', [])) for l in w['superlinks'])]
    for k in ('superlinks', 'links'):
        if t.get(k) is not None:
            t[k] = t[k].drop(columns=[c for c in drop if c in t[k]])
            if 'case' in less and 'shape' in t[k]:
                t[k]['shape'] = [s.upper() if n % 2 else s.title() for n, s in enumerate(t[k]['shape'])]
    sj = t['superjunctions']
    if 'maxdepth' in less and not np.isfinite(sj['max_depth']).any():
        t['superjunctions'] = sj = sj.drop(columns='max_depth')
    if 'names' in less:
        t['superjunctions'], t['superlinks'] = sj.drop(columns='name'), t['superlinks'].drop(columns='name')
    if t['orifices'] is not None and 'oneway' in less and not t['orifices']['oneway'].any():
        t['orifices'] = t['orifices'].drop(columns='oneway')
    if 'ints' in less:
        for k in ('superjunctions', 'superlinks', 'links', 'junctions', 'orifices', 'weirs', 'pumps'):
            if t.get(k) is not None:
                for c in t[k].columns:
                    v = t[k][c]
                    if v.dtype == float and np.isfinite(v).all() and (v == v.round()).all() or v.dtype == bool:
                        t[k][c] = v.astype(int)
    o = {}
    if 'defaults' in less:
        base = {'method': 'b', 'bc_method': 'z', 'auto_permute': False, 'mobile_elements': False, 'min_depth': 1e-5, 'dt': 60, 'internal_links': 4}
        o = {k: v for k, v in w['options'].items() if base.get(k) != v}
    else:
        o = dict(w['options'])
    return t, o


def full(w, less):
    """The tables with everything spelled out."""
    t = netgen.tables(w)
    sl, sj = t['superlinks'], t['superjunctions']
    for k in ('superlinks', 'links'):
        if t.get(k) is None:
            continue
        if 'g1' in t[k]:
            for n in range(1, 8):
                if 'g%d' % n not in t[k]:
                    t[k]['g%d' % n] = 0.
        if 'transect' not in t[k]:
            t[k]['transect'] = ''
    for c, v in (('dx_uk', 0.), ('dx_dk', 0.), ('C_uk', 1 / .67 ** 2), ('C_dk', 1 / .67 ** 2), ('max_depth', math.inf)):
        if c not in sl:
            sl[c] = v
    if 'map' in less:
        sj['map_x'], sj['map_y'] = np.arange(len(sj)) * 10., np.arange(len(sj)) % 3 * 7.
    if t['orifices'] is not None:
        o = t['orifices']
        if 'oneway' not in o:
            o['oneway'] = False
        if 'orifice' in less and 'shape' not in o:
            o['shape'], o['g1'], o['g2'], o['g3'] = 'rect_open', np.sqrt(o['A'].values), np.sqrt(o['A'].values), 0.
    return t, dict({'sparse': False, 'inertial_damping': False}, **w['options'])


def build(t, o):
    from pipedream_solver.hydraulics import SuperLink
    kw = {k: t[k] for k in ('orifices', 'weirs', 'pumps', 'links', 'junctions') if t.get(k) is not None}
    for k in ('storages', 'transects'):
        if t[k]:
            kw[k] = t[k]
    return SuperLink(t['superlinks'], t['superjunctions'], **kw, **o)


def counters(m):
    return {'t': float(m.t), 'iter_count': int(m.iter_count)}


def run(scn, ctx):
    from pipedream_solver.simulation import Simulation
    w, less = scn['world'], scn['less']
    rig = drive.Rig(w)          # only to name things
    a = ctx.sut(build, *short(w, less))
    b = ctx.sut(build, *full(w, less))
    if 'names' in less:
        if not w['options']['auto_permute']:
            ctx.check([int(x) for x in a.superjunction_names] == list(range(a.M)), 'default-names', lambda: repr(list(a.superjunction_names)))
        ctx.check([int(x) for x in a.superlink_names] == list(range(a.NK)), 'default-names', lambda: repr(list(a.superlink_names)))
    ctx.same('left-out-columns', drive.report(a), drive.report(b), 'as built, %s' % less)
    for x in less:
        ctx.probe('left_out_' + x)
    ddt = float(w['options']['dt'])
    undoable = False
    lines = 400
    for n, op in enumerate(scn['ops']):
        if op['op'] == 'undo':
            if undoable:
                ctx.sut(a.load_state)
                b.load_state()
                ctx.fault('undo')
                ctx.same('undo', drive.report(a), drive.report(b), 'op %d' % n)
                ctx.check(counters(a)['t'] == counters(b)['t'], 'clock', 'op %d after undo' % n)
                undoable = False
            continue
        rich = dict(rig.kwargs({k: v for k, v in op.items() if k not in ('num_iter', 'banded')}), banded=bool(op.get('banded', True)) and bool(w['options']['auto_permute']))
        rich.setdefault('Q_0Ik', np.zeros(b._I.size))
        given = dict(rich)
        if op['op'] == 'step' or op['op'] == 'spinup':
            rule = {'dt': ddt, 'Q_in': np.zeros(b.M), 'H_bc': None, 'Q_0Ik': np.zeros(b._I.size), 'banded': bool(w['options']['auto_permute']),
                    'u_o': np.zeros(b.n_o), 'u_w': np.zeros(b.n_w), 'u_p': np.zeros(b.n_p)}
            if op['op'] == 'spinup':
                rule.update(dt=10, Q_in=1e-6 * np.ones(b.M), Q_0Ik=1e-6 * np.ones(b._I.size))
            for k in op['omit']:
                if k in given:
                    del given[k]
                    rich[k] = rule[k]
                    ctx.probe('left_out_' + k)
        keep = 'H_bc' in rich and rich['H_bc'] is None

        def hand(**over):
            kw = dict(rich, **over)
            if kw.get('H_bc', 0) is None:
                kw['H_bc'] = np.array(b.H_j, float)
            b.step(**kw)

        if op['op'] == 'step':
            if 'num_iter' in op:
                given['num_iter'] = op['num_iter']
                if op['tol'] is not None:
                    given['head_tol'] = op['tol']
            call = lambda: a.step(**given)
        elif op['op'] == 'spinup':
            given['n_steps'] = op['n']
            if op['reset'] is not None:
                given['reset_counters'] = op['reset']
            if op['repos']:
                given['reposition_junctions'] = True
            call = lambda: a.spinup(**given)
        else:
            def call():
                sim = Simulation(a, max_iter=op['n'])
                kw = {k: given[k] for k in ('u_o', 'u_w', 'u_p', 'Q_in', 'H_bc') if k in given and k not in op['omit']}
                for _ in sim.steps:
                    sim.step(**kw)
                return sim
        if op.get('fault'):
            snap = drive.snapshot(a)
            count = a.iter_count
            try:
                with Lines(at=max(1, int(op['fault'][1] * lines)), exc=FAULT_EXC[op['fault'][0]]):
                    call()
            except BaseException as e:
                if not isinstance(e, (Injected, AssertionError, np.linalg.LinAlgError)):
                    raise
            ctx.fault(op['fault'][0])
            a.load_state(snap)
            a.iter_count = count
        with Lines() as l:
            try:
                done = ctx.sut(call, allow=(AssertionError, np.linalg.LinAlgError, ValueError))
            except (AssertionError, np.linalg.LinAlgError, ValueError) as e:
                ctx.check(not drive.sane(a), 'refused', lambda: 'op %d: %r' % (n, e))
                ctx.probe('diverged')
                return
        lines = l.n
        at = 'op %d (%s, without %s)' % (n, op['op'], op['omit'])
        if op['op'] == 'step':
            start = np.array(b.H_j, float)
            hand()
            passes = 1
            tol = .0015 if op.get('tol') is None else op['tol']
            last, prev = np.array(b.H_j, float), start
            while passes < op.get('num_iter', 1) and not (np.abs(last - prev) < tol).all():
                b.t -= rich['dt']
                b.iter_count -= 1
                hand(first_iter=False)
                passes += 1
                prev, last = last, np.array(b.H_j, float)
            ctx.check(int(a.iter_elapsed) == passes, 'iterations', lambda: '%s: %r iterations reported, %d made' % (at, a.iter_elapsed, passes))
            ctx.probe('iterations', passes)
            undoable = True
        elif op['op'] == 'spinup':
            for _ in range(op['n']):
                hand()
                if op['repos']:
                    b.reposition_junctions(np.ones(b.NK, dtype=bool))
            if op['reset'] is None or op['reset']:
                b.t, b.iter_count = 0., 0
            ctx.probe('warm_ups')
            undoable = False
        else:
            for _ in range(op['n']):
                kw = {k: rich[k] for k in ('u_o', 'u_w', 'u_p', 'Q_in', 'H_bc') if k in rich and k not in op['omit']}
                for k, size in (('u_o', b.n_o), ('u_w', b.n_w), ('u_p', b.n_p)):
                    kw.setdefault(k, np.zeros(size))
                kw.setdefault('Q_in', np.zeros(b.M))
                kw.setdefault('H_bc', np.array(b.H_j, float))
                b.step(dt=ddt, banded=bool(w['options']['auto_permute']), Q_0Ik=np.zeros(b._I.size), **kw)
            ctx.check(done.t == a.t, 'clock', at)
            ctx.probe('driver_defaults')
            undoable = False
        if op.get('move'):
            ctx.sut(a.reposition_junctions)
            b.reposition_junctions(np.ones(b.NK, dtype=bool))
            undoable = False
        ctx.advance(rich['dt'])
        got = drive.report(a)
        ctx.same('left-out' if op['op'] == 'step' else op['op'], got, drive.report(b), at)
        ctx.same('counters', counters(a), counters(b), at)
        if keep and b.bc.any() and op['op'] == 'step':
            # nobody prescribed a level: the boundary stays where it was
            ctx.close('unprescribed-boundary', np.array(a.H_j, float)[b.bc], start[b.bc], 1e-7 * (1 + np.abs(start).max()), at)
            ctx.probe('boundaries_kept')
        ctx.log(n, got)
        ctx.state(got['H_j'])
        if not drive.sane(a):
            ctx.probe('diverged')
            return


def shrink(scn):
    for x in scn['less']:
        yield dict(scn, less=[y for y in scn['less'] if y != x])
    for x in netgen.shrink_world(scn['world']):
        if x['superlinks']:
            yield dict(scn, world=x)
