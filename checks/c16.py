"""C16: a movable junction follows the backwater front and moving it bends nothing else."""
import copy

import numpy as np

from sim import drive, netgen, ref

ID = 'C16'
LEVEL = 'exploration'
RUNS = {'quick': 2500, 'thorough': 60000}
RULE = ('Seeded networks with movable junctions are driven through floods, falling tides, roll-backs and jumps of the downstream level while a '
        'seeded operator repositions all or some conduits; each repositioning is compared with a model of the conduit profile before it.')
REAL = ['network model', 'compiled kernels', 'state save and restore']
STUB = ['rain, tide and operator signals', 'jumps of the downstream level']
ASSUMPTIONS = ['a junction that would fall on a fixed one (within a millionth of the conduit) stays where it is']


def generate(rng, tier):
    big = tier == 'thorough'
    w = netgen.gen_world(rng, n_max=8 if big else 5, controls=rng.choice([0., .4]), tabular=.1, bc=rng.choice([.2, .8]), mobile=1.0, internal=rng.choice([2, 3, 4, 5, 6, 8]),
                         methods=('b', 'b', 'f'), wet=rng.choice([.05, .3, 1., 2.]), slopes=rng.choice([(.0005, .02), (.005, .05)]), ends=rng.choice([0., .6]),
                         offsets=.4, bc_methods=('z',), transects=0.1)
    ops = []
    names = [j['name'] for j in w['superjunctions']]
    for op in drive.gen_ops(rng, w, rng.randint(3, 60 if big else 14), bc_amp=rng.choice([.6, 3.]), q_scale=rng.choice([0., .05, .4])):
        ops.append(op)
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            x = rng.random()
            if x < .45:
                ops.append({'op': 'level', 'link': rng.random(), 'v': round(rng.uniform(-.2, 1.2), 4) if rng.random() < .8 else rng.choice(['fixed', 'top', 'bottom', 'home'])})
            elif x < .52:
                ops.append({'op': 'save'})
            elif x < .59:
                ops.append({'op': 'load'})
            elif x < .65:
                ops.append({'op': 'other'})
            ops.append({'op': 'move', 'which': None if rng.random() < .7 else [int(rng.random() < .5) for _ in w['superlinks']]})
    return {'world': w, 'ops': ops}


class Profile:
    """The conduits as the reference sees them: bottom line, fixed stations and the movable one."""

    def __init__(self, w, net, m):
        self.net = net
        n = w['options']['internal_links']
        self.n = n
        self.lines = []
        for L in net.links:
            du, dd = L.get('dx_uk', 0.) or 0., L.get('dx_dk', 0.) or 0.
            slope = (L['zd'] - L['zu']) / (L['dx'] + du + dd)
            fixed = np.linspace(0, L['dx'], n)
            home = L['dx'] / 2 + (0 if (n + 1) % 2 else L['dx'] / n / 2)
            self.lines.append({'slope': slope, 'z0': L['zu'] + slope * du, 'fixed': fixed, 'home': home, 'L': L['dx'], 'd': L['d']})

    def target(self, k, H):
        p = self.lines[k]
        zN = p['z0'] + p['slope'] * p['L']
        if zN < H < p['z0']:
            return (H - p['z0']) / p['slope'], 'front'
        return p['home'], 'home'


def pieces(x0, Q0, mov0, x1, mov1):
    """Flow of each link after the move: cut from the conduit in which the removed junction was merged; as long
    as the junction stays between the same two fixed ones, both links keep their flow."""
    if mov1 == mov0:
        return Q0
    a, b = x0[mov0] - x0[mov0 - 1], x0[mov0 + 1] - x0[mov0]
    merged = Q0[mov0 - 1] + (Q0[mov0] - Q0[mov0 - 1]) * a / (a + b)
    fx = np.delete(x0, mov0)
    fq = np.concatenate([Q0[:mov0 - 1], [merged], Q0[mov0 + 1:]])
    mid = (x1[1:] + x1[:-1]) / 2
    return fq[np.clip(np.searchsorted(fx, mid) - 1, 0, len(fq) - 1)]


def run(scn, ctx):
    w = scn['world']
    rig = drive.Rig(w)
    m = rig.m
    net = ref.Network(w, m)
    prof = Profile(w, net, m)
    n = prof.n
    mov = [None] * m.NK
    # after construction the movable junction is the one that is not on a fixed station
    for k, p in enumerate(prof.lines):
        x = np.array(m.x_Ik[m._I_1k[k]:m._I_1k[k] + n + 1]) - p['L'] * 0
        ctx.close('stations', np.sort(x - x[0]), np.sort(np.append(p['fixed'], p['home'])), 1e-9 * p['L'], 'conduit %d' % k)
        mov[k] = int(np.searchsorted(p['fixed'], p['home']))
    saved = None

    def read(k):
        i, I = m._i_1k[k], m._I_1k[k]
        return [np.array(v, float) for v in (m.x_Ik[I:I + n + 1], m._z_inv_Ik[I:I + n + 1], m.h_Ik[I:I + n + 1], m._dx_ik[i:i + n], m.Q_ik[i:i + n])]

    for q, op in enumerate(scn['ops']):
        if op['op'] == 'step':
            pre = [read(k) for k in range(m.NK)]
            rig.step(ctx, op)
            if not drive.sane(m):
                ctx.probe('diverged')
                break
            for k in range(m.NK):
                post = read(k)
                ctx.close('step-keeps-stations', post[0], pre[k][0], 0.0, 'op %d' % q)
                ctx.close('step-keeps-lengths', post[3], pre[k][3], 0.0, 'op %d' % q)
        elif op['op'] == 'level':
            k = int(op['link'] * m.NK)
            p = prof.lines[k]
            zN = p['z0'] + p['slope'] * p['L']
            v = op['v']
            v = {'fixed': 1 - p['fixed'][n // 2] / p['L'], 'top': 1.0, 'bottom': 0.0, 'home': 1 - p['home'] / p['L']}.get(v, v)
            s = drive.snapshot(m)
            s['H_j'] = np.array(s['H_j'], float)
            s['H_j'][p['d']] = max(zN + v * (p['z0'] - zN), net.z[p['d']])
            ctx.sut(m.load_state, s)
            ctx.fault('level_jump')
        elif op['op'] == 'save':
            saved = (drive.snapshot(m), list(mov))
        elif op['op'] == 'load' and saved:
            ctx.sut(m.load_state, copy.deepcopy(saved[0]))
            mov = list(saved[1])
            ctx.fault('roll_back')
        elif op['op'] == 'other':
            o = drive.Rig(w)
            o.m.reposition_junctions()
            ctx.fault('another_model_moved')
        elif op['op'] == 'move':
            pre = [read(k) for k in range(m.NK)]
            H = np.array(m.H_j, float)
            which = op['which']
            if which is not None:
                which = [bool((which + [0] * m.NK)[k]) for k in range(m.NK)]
                ctx.sut(m.reposition_junctions, np.array(which, dtype=np.bool_))
                ctx.fault('partial_move')
            else:
                ctx.sut(m.reposition_junctions)
            ctx.close('levels-kept', np.array(m.H_j, float), H, 0.0, 'op %d' % q)
            for k, p in enumerate(prof.lines):
                at = 'op %d conduit %s' % (q, net.links[k]['name'])
                x0, z0, h0, d0, q0 = pre[k]
                x1, z1, h1, d1, q1 = read(k)
                L = p['L']
                xt, why = prof.target(k, H[p['d']])
                same = which is not None and not which[k]
                start = x0[0]
                dist = np.abs(p['fixed'] - xt).min() / L
                if not same and 0.5e-6 < dist < 2e-6:
                    ctx.probe('borderline')
                    mov[k] = int(np.argmax([np.abs(p['fixed'] + start - x).min() for x in x1]))
                    continue
                if same or dist <= 1e-6:
                    for a, b in zip((x0, z0, h0, d0, q0), (x1, z1, h1, d1, q1)):
                        ctx.close('left-alone', b, a, 0.0, at)
                    ctx.probe('coincident' if not same else 'not_selected')
                    continue
                want = np.sort(np.append(p['fixed'], xt))
                i = int(np.searchsorted(p['fixed'], xt))
                ctx.close('station', x1 - start, want, 1e-9 * L + 1e-9, lambda: '%s (%s)' % (at, why))
                ctx.check('ordered', bool((np.diff(x1) > 0).all()), at)
                ctx.close('lengths', d1, np.diff(want), 1e-9 * L + 1e-9, at)
                ctx.close('total-length', d1.sum(), L, 1e-9 * L, at)
                zs = 1e-9 * (abs(p['z0']) + abs(p['slope'] * L) + 1)
                ctx.close('bottom', z1, p['z0'] + p['slope'] * want, zs, at)
                fix0, fix1 = np.delete(h0, mov[k]), np.delete(h1, i)
                ctx.close('fixed-depths', fix1, fix0, 0.0, at)
                ctx.close('depth', h1[i], np.interp(xt, x0 - start, h0), 1e-6 * np.abs(h0).max() + 1e-12, at)
                ctx.close('flows', q1, pieces(x0, q0, mov[k], x1, i), 1e-7 * np.abs(q0).max() + 1e-12, lambda: '%s moved %d->%d' % (at, mov[k], i))
                ctx.probe(why)
                if i != mov[k]:
                    ctx.probe('past_fixed_' + ('upstream' if i < mov[k] else 'downstream'))
                mov[k] = i
            ctx.log(q, m.x_Ik, m.h_Ik, m.Q_ik)
            ctx.state(m.x_Ik, m.H_j)


def shrink(scn):
    for c in netgen.shrink_world(scn['world']):
        if c['options']['mobile_elements']:
            yield dict(scn, world=c)
