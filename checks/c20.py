"""C20: the section of water in every conduit is the one its shape gives for its depth, in every state of the run."""
import copy

import numpy as np

from sim import drive, netgen, ref

ID = 'C20'
LEVEL = 'exploration'
RUNS = {'quick': 2200, 'thorough': 60000}
RULE = ('Seeded networks mixing every conduit shape, measured transects and conduits of several sections are filled, surcharged and drained by storms, tides, '
        'gauge corrections of depths (to the crown, over it, to nothing), roll-backs, warm-up runs and other models built in between; after every step, and when asked, '
        'area, perimeter, hydraulic radius and top width of every conduit and of both its ends are recomputed from its own shape.')
REAL = ['network model', 'compiled kernels', 'state save and restore']
STUB = ['rain, tide and operator signals', 'gauge corrections of depths', 'caller that edits its tables after building the model']
ASSUMPTIONS = ['the section refers to the depths at the start of the step', 'measured transects are sampled at equal depths and read linearly in between',
               'depths within 1e-9 m of the crown of a closed section are not compared', 'the width of a parabola above its top and the hydraulic radius of no water are not compared']


def generate(rng, tier):
    big = tier == 'thorough'
    shapes = None if rng.random() < .6 else [rng.choice(netgen.SHAPES)]
    w = netgen.gen_world(rng, n_max=8 if big else 5, shapes=shapes, transects=rng.choice([0., .3, .8]), bc=rng.choice([.2, .7]), reverse=.25, explicit=.3,
                         mobile=.1, ends=.4, wet=rng.choice([.05, .3, 1., 2., 3.]), methods=('b', 'b', 'f'), controls=.2)
    ops = []
    for op in drive.gen_ops(rng, w, rng.randint(3, 60 if big else 14), negative=.1, q_scale=rng.choice([.02, .2, 1.])):
        if rng.random() < .1:
            op['num_iter'] = rng.randint(2, 3)
        ops.append(op)
        x = rng.random()
        if x < .3:
            ops.append({'op': 'gauge', 'link': rng.choice(w['superlinks'])['name'],
                        'd': [[rng.choice(['any', 'any', 'crown', 'over', 'trace', 'same']), round(rng.random(), 4)] for _ in range(rng.randint(1, 4))]})
        elif x < .35:
            ops.append({'op': 'save'})
        elif x < .4:
            ops.append({'op': 'load'})
        elif x < .45:
            ops.append({'op': 'edit'})
        elif x < .5:
            ops.append({'op': 'other', 'k': round(rng.uniform(.5, 2.), 3)})
        elif x < .6:
            ops.append({'op': 'courant'})
    return {'world': w, 'ops': ops}


def section(p, y):
    """(A, Pe, B, R), None where nothing is claimed."""
    v = ref.section(p['shape'], p['g'], y, p['tr'])
    if len(v) == 4:
        return v
    A, P, B = v
    return A, P, B, (None if A is None or P is None else A / P if P > 0 else 0.0)


def run(scn, ctx):
    w = scn['world']
    tabs = netgen.tables(w)
    rig = drive.Rig.__new__(drive.Rig)
    rig.world = w
    rig.m = m = ctx.sut(netgen.build, w, tabs)
    rig.names = [str(n) for n in m.superjunction_names]
    rig.row = {n: i for i, n in enumerate(rig.names)}
    rig.lrow = {str(n): i for i, n in enumerate(m.superlink_names)}
    net = ref.Network(w, m)
    lay = ref.Links(net, m)
    saved = None

    def parts(k):
        p = net.links[k]['parts']
        return p if len(p) == lay.nk[k] else [p[0]] * int(lay.nk[k])

    def one(what, p, y, got, where):
        crown = p['g1'] if p['shape'] in ('circular', 'rect_closed', 'elliptical') else None
        if crown is not None and abs(y - crown) < 1e-9:
            ctx.probe('at_crown')
            return
        want, lo, hi = section(p, y), section(p, max(y - 1e-11, 0.)), section(p, y + 1e-11)
        for name, g, v, a, b in zip(('area', 'perimeter', 'width', 'radius'), got, want, lo, hi):
            if g is None or v is None or (name == 'radius' and want[0] < 1e-9):
                continue
            spread = abs(a - b) if a is not None and b is not None else 0.0
            tol = 1e-8 * abs(v) + 1e-11 + 4 * spread + (1e-7 if y < 1e-6 else 0.)
            ctx.close('section-%s' % name, float(g), v, tol, lambda: '%s of %s (%s) at depth %r' % (what, where, p['shape'], y))
        ctx.probe('shape_%s' % p['shape'])
        if crown is not None and y > crown:
            ctx.probe('surcharged')

    def judge(h, H, thu, thd, where, ends=True):
        A, P, R, B = (np.array(x, float) for x in (m.A_ik, m.Pe_ik, m.R_ik, m.B_ik))
        for k, L in enumerate(net.links):
            a, i0 = lay.I0[k], lay.i0[k]
            ps = parts(k)
            for q, p in enumerate(ps):
                y = float(h[a + q] + h[a + q + 1]) / 2
                one('link %d' % q, p, y, (A[i0 + q], P[i0 + q], B[i0 + q], R[i0 + q]), '%s %s' % (L['name'], where))
            if ends:
                for e, p, hh, z, node, th in (('u', ps[0], h[a], L['zu'], L['u'], thu), ('d', ps[-1], h[lay.I1[k]], L['zd'], L['d'], thd)):
                    y = float(hh + th[k] * (H[node] - z)) / 2
                    opt = lambda n: float(getattr(m, n)[k]) if hasattr(m, n) else None
                    one('end %s' % e, p, y, (float(getattr(m, 'A_%sk' % e)[k]), opt('_Pe_%sk' % e), opt('_B_%sk' % e), opt('_R_%sk' % e)), '%s %s' % (L['name'], where))
        ctx.probe('judged')

    for n, op in enumerate(scn['ops']):
        if op['op'] == 'step':
            pre = ref.before(m)
            rig.step(ctx, op)
            if not drive.sane(m):
                ctx.probe('diverged')
                break
            if not op.get('num_iter'):
                judge(pre['h_Ik'], pre['H_j'], pre['theta_uk'], pre['theta_dk'], 'step %d' % n)
            else:
                ctx.fault('fixed_point_iteration')
            ctx.log(n, m.H_j, m.A_ik, m.B_ik)
            ctx.state(m.H_j, m.A_ik)
        elif op['op'] == 'gauge':
            k = rig.lrow.get(op['link'])
            if k is None:
                continue
            s = drive.snapshot(m)
            h = s['h_Ik'] = np.array(s['h_Ik'], float)
            a, b = lay.I0[k], lay.I1[k] + 1
            crown = max(w['transects'][net.links[k]['transect']]['y']) if net.links[k]['shape'] == 'irregular' else net.links[k]['g1']
            for q in range(a, b):
                kind, v = op['d'][(q - a) % len(op['d'])]
                h[q] = {'any': v * crown, 'crown': crown, 'over': crown * (1 + v), 'trace': 1e-5 + v * 1e-3, 'same': h[q]}[kind]
            ctx.sut(m.load_state, s)
            ctx.fault('gauge_correction')
            judge(h, np.array(m.H_j, float), s['_theta_uk'], s['_theta_dk'], 'corrected at %d' % n)
        elif op['op'] == 'courant':
            before = drive.report(m)
            with np.errstate(all='ignore'):
                ctx.sut(m.superlink_inverse_courant)
            after = drive.report(m)
            for key in before:
                ctx.same('asking-changes-nothing', after[key], before[key], key)
            Q, A = np.array(m.Q_ik, float), np.array(m.A_ik, float)
            for k, L in enumerate(net.links):
                s = slice(lay.i0[k], lay.i0[k] + lay.nk[k])
                q, a = Q[s].mean(), A[s].mean()
                if abs(q) > 1e-9 and np.abs(Q[s]).max() < 1e6 * abs(q):
                    ctx.close('courant-time', float(m._dt_ck[k]), abs(a * L['dx'] / q), 1e-8 * abs(a * L['dx'] / q), lambda: '%s at %d' % (L['name'], n))
            ctx.probe('courant_time')
        elif op['op'] == 'save':
            saved = drive.snapshot(m)
        elif op['op'] == 'load' and saved:
            ctx.sut(m.load_state, copy.deepcopy(saved))
            ctx.fault('roll_back')
            judge(np.array(saved['h_Ik'], float), np.array(saved['H_j'], float), saved['_theta_uk'], saved['_theta_dk'], 'rolled back at %d' % n)
        elif op['op'] == 'edit':
            for t in ('superlinks', 'links'):
                if tabs.get(t) is not None:
                    for c in ('g1', 'g2', 'g3'):
                        if c in tabs[t]:
                            tabs[t][c] = 7.0
            for t in tabs['transects'].values():
                t['y'] *= 2.0
            ctx.fault('caller_edits_tables')
        elif op['op'] == 'other':
            o = copy.deepcopy(w)
            for l in o['superlinks']:
                for p in [l] + l.get('parts', []):
                    p['g1'] = p['g1'] * op['k']
            for t in o['transects'].values():
                t['y'] = [v * op['k'] for v in t['y']]
            drive.Rig(o).m.step(dt=5., Q_in=np.zeros(m.M), **({'H_bc': np.zeros(m.M)} if m.bc.any() else {}))
            ctx.fault('another_model_built')


def shrink(scn):
    for c in netgen.shrink_world(scn['world']):
        yield dict(scn, world=c)
