"""C12: contaminant goes with the water: every cell balances what enters, leaves, mixes, decays and is stored."""
import copy

import numpy as np

from sim import drive, netgen, ref, wq
from sim.core import FAULT_EXC, Injected, Lines, Violation

ID = 'C12'
LEVEL = 'exploration'
RUNS = {'quick': 1500, 'thorough': 60000}
RULE = ('Seeded networks carry one or two contaminants through storms, tides, pulses of load, gate operations, roll-backs, repeated steps, pauses of the '
        'quality model and interruptions inside its step; after each step all concentrations are compared with one dense solution of the balances '
        'of all cells, built from the reported levels and flows.')
REAL = ['network model', 'water quality model', 'compiled kernels']
STUB = ['rain, tide, loads and operator signals', 'the failing call: an exception raised at the chosen line of the package']
ASSUMPTIONS = ['rectangular open and circular conduits (all the model supports), conduit ends of positive length and no offset of conduit ends above the node',
               'when the unlimited solution leaves the given limits only the limits are checked in that step']
WARMUP = 10
KEYS = ('c_j', 'c_Ik', 'c_ik', 'c_uk', 'c_dk')



def world(rng, big, **over):
    kw = dict(n_max=8 if big else 5, shapes=wq.SHAPES, offsets=0., methods=('b', 'b', 'f'), internal=rng.choice([1, 2, 3, 4, 6, 10, 24]), controls=rng.choice([0., .3, .6]), wet=rng.choice([.3, 1., 2.]), ends=1.,
              max_depth=0, tabular=rng.choice([0., .3]))
    kw.update(over)
    w = netgen.gen_world(rng, **kw)
    for l in w['superlinks']:
        for k in ('dx_uk', 'dx_dk'):
            l[k] = l.get(k) or round(rng.uniform(.5, 10), 2)
    return w


def generate(rng, tier):
    big = tier == 'thorough'
    uni = rng.choice([None, None, 5.])
    w = world(rng, big)
    ops = wq.gen_forcing(rng, w, drive.gen_ops(rng, w, rng.randint(3, 40 if big else 12)), uni)
    for op in ops:
        x = rng.random()
        op['then'] = ('again' if x < .08 else 'interrupt' if x < .2 else 'save' if x < .26 else 'load' if x < .32 else 'pause' if x < .37 else
                      'edit' if x < .42 else 'other' if x < .46 else '')
        op['frac'] = round(rng.random(), 4)
        op['exc'] = rng.choice(sorted(FAULT_EXC))
        op['given'] = rng.random() < .2          # inflows passed to the quality model explicitly
        op['no_dt'] = rng.random() < .3
    return {'world': w, 'ops': ops, 'uniform': uni, 'par': [wq.gen_params(rng, w, uni) for _ in range(rng.choice([1, 1, 2]))]}


def state(q):
    return {k: np.array(getattr(q, k), float) for k in KEYS}


def put(q, s):
    for k in KEYS:
        setattr(q, k, s[k].copy())


def joined(s):
    return np.concatenate([s[k] for k in KEYS])


def flows_of(net, m):
    return [(net.ctrl[k], getattr(m, x)) for k, x in (('orifices', 'Q_o'), ('weirs', 'Q_w'), ('pumps', 'Q_p')) if len(net.ctrl[k][0])]


def run(scn, ctx):
    from pipedream_solver.nquality import QualityBuilder
    w = scn['world']
    rig = drive.Rig(w)
    m = rig.m
    net = ref.Network(w, m)
    tabs = [wq.Tables(p, rig) for p in scn['par']]
    qs, systems = [], []
    for tab in tabs:
        frames = [tab.nodes.copy(), tab.links.copy()]
        try:
            qs.append(ctx.sut(QualityBuilder, m, *frames, allow=(AssertionError,), **tab.kw))
        except AssertionError:
            ctx.probe('diverged')
            return
        ctx.check(frames[0].equals(tab.nodes) and frames[1].equals(tab.links), 'input-modified', 'the tables of the caller were changed')
        for f in frames:        # later edits of the caller's tables have no effect
            for c in f.columns:
                if f[c].dtype.kind == 'f':
                    f[c] = 77.
        systems.append(wq.System(net, m, tab))
    saved, held = None, [state(q) for q in qs]
    lines = 200
    for n, op in enumerate(scn['ops']):
        at = 'op %d' % n
        pre = ref.before(m)
        back = drive.snapshot(m) if op['then'] == 'again' else None
        kw = rig.step(ctx, op)
        if not drive.sane(m, 1e4):
            ctx.probe('diverged')
            break
        if op['then'] == 'pause':
            ctx.fault('quality_paused')
            continue
        c0, ci = rig.vec(op['c0']), np.array([op['ci'].get(net.links[k]['name'], 0.) for k in m._kI])
        q_in, q_I = kw['Q_in'], kw.get('Q_0Ik', np.zeros(m._I.size))
        for x, (q, tab, S) in enumerate(zip(qs, tabs, systems)):
            where = '%s contaminant %d' % (at, x)
            for k in KEYS:
                ctx.close('kept-between-steps', getattr(q, k), held[x][k], 0., where)
            before = state(q)
            scale_in = 1. + x
            a = {'c_0j': c0 * scale_in, 'c_0Ik': ci * scale_in} if not scn['uniform'] else {'c_0j': c0, 'c_0Ik': ci}
            if not op['no_dt']:
                a['dt'] = op['dt']
            if op['cb'] is not None:
                a['c_bc'] = rig.vec(op['cb'])
            if op['given']:
                a['Q_0j'], a['Q_0Ik'] = q_in.copy(), q_I.copy()
            args = copy.deepcopy(a)
            L, R, water = S.build(pre, op['dt'], before, q_in, a['c_0j'], q_I, a['c_0Ik'], a.get('c_bc', before['c_j']), flows_of(net, m))
            hyd = drive.report(m)
            try:
                if op['then'] == 'interrupt':
                    l = Lines(at=max(1, int(op['frac'] * lines)), exc=FAULT_EXC[op['exc']])
                    try:
                        with l:
                            ctx.sut(q.step, allow=(AssertionError,), **a)
                    except BaseException as e:
                        if not isinstance(e, Injected):
                            raise
                        ctx.fault(op['exc'])
                        put(q, before)
                        ctx.sut(q.step, allow=(AssertionError,), **a)
                else:
                    with Lines() as l:
                        ctx.sut(q.step, allow=(AssertionError,), **a)
                    lines = l.n
            except AssertionError:
                ctx.probe('not_finite')
                return
            for k in a:
                ctx.check(np.array_equal(a[k], args[k]), 'input-modified', lambda: '%s changed by the step' % k)
            now = drive.report(m)
            ctx.check(all(np.array_equal(hyd[k], now[k]) for k in hyd), 'water-changed', 'the quality step changed the water model')
            got = state(q)
            held[x] = got
            try:
                v = np.linalg.solve(L, R)
                cond = np.linalg.cond(L / np.abs(np.diag(L))[:, None])
            except np.linalg.LinAlgError:
                ctx.probe('singular')
                continue
            lo, hi = tab.kw['c_min'], tab.kw.get('c_max', np.inf)
            g = joined(got)
            ctx.check(bool(np.isfinite(g).all()), 'not-finite', where)
            ctx.check(g.min() >= lo and g.max() <= hi, 'limits', lambda: '%s: %r..%r outside %r..%r' % (where, g.min(), g.max(), lo, hi))
            scale = max(np.abs(v).max(), 1e-3)
            if np.nanmax(cond) > 1e9 or not np.isfinite(v).all():
                ctx.probe('ill_conditioned')
                continue
            rnd = scale * (1e-6 + 1e-13 * cond + 1e-15 * np.abs(np.diag(L)).max() / np.abs(np.diag(L)[:m.M]).min())
            if v.min() < lo - rnd or v.max() > hi + rnd:
                ctx.probe('limited')
                continue
            ref_c = S.split(np.clip(v, lo, hi))
            loose = S.loose(L, 1e-12 * scale)
            for k in KEYS:
                ctx.close('balance-' + k, got[k], ref_c[k], rnd + loose.get(k, 0.), where)
            ctx.probe('tight' if max(a.max() for a in loose.values()) < 1e-3 * scale else 'loose')
            for j in np.flatnonzero(tab.bc):
                want = a['c_bc'][j] if 'c_bc' in a else before['c_j'][j]
                ctx.close('boundary', got['c_j'][j], np.clip(want, lo, hi), 1e-9 * scale, where)
            if scn['uniform']:
                rows = L.sum(1)
                if rows.min() > 0:
                    off = np.abs(water / rows).max()
                    was = np.abs(joined(before) / 5. - 1).max()
                    if off < 1e-6:
                        ctx.probe('uniform')
                        ctx.check(np.abs(g / 5. - 1).max() <= 1.01 * was + 4 * off + rnd, 'uniform',
                                  lambda: '%s: water balances but a uniform concentration became uneven by %r (was %r)' % (where, np.abs(g / 5. - 1).max(), was))
            ctx.probe('steps')
            if op['then'] == 'again' and x == 0:
                ctx.fault('undo_and_repeat')
                ctx.sut(m.load_state, back)
                put(q, before)
                rig.step(ctx, op)
                ctx.sut(q.step, **a)
                second = state(q)
                for k in KEYS:
                    ctx.close('repeat', second[k], got[k], 0., where)
        if op['then'] == 'save':
            saved = (drive.snapshot(m), [state(q) for q in qs])
        elif op['then'] == 'load' and saved:
            ctx.sut(m.load_state, copy.deepcopy(saved[0]))
            for x, q in enumerate(qs):
                put(q, saved[1][x])
                held[x] = state(q)
            ctx.fault('roll_back')
        elif op['then'] == 'edit':
            for x, q in enumerate(qs):
                c = state(q)
                c['c_j'] = c['c_j'] + (0 if scn['uniform'] else 3. * op['frac'])
                c['c_j'] = np.minimum(c['c_j'], tabs[x].kw.get('c_max', np.inf))
                put(q, c)
                held[x] = c
            ctx.fault('spill')
        elif op['then'] == 'other':
            o = drive.Rig(w)
            try:
                QualityBuilder(o.m, tabs[0].nodes.copy(), tabs[0].links.copy()).step(dt=3.)
            except AssertionError:
                pass
            ctx.fault('another_model')
        ctx.log(n, [joined(state(q)) for q in qs])
        ctx.state(m.H_j, joined(state(qs[0])))


def shrink(scn):
    for x in netgen.shrink_world(scn['world']):
        names = {j['name'] for j in x['superjunctions']}, {l['name'] for l in x['superlinks']}
        if x['superlinks']:
            yield dict(scn, world=x)
