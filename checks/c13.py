"""C13: orifices, weirs and pumps obey their laws and the operator, and move exactly the water they should."""
import math

import numpy as np

from sim import drive, netgen, ref
from sim.core import Discard

ID = 'C13'
LEVEL = 'exploration'
RUNS = {'quick': 2500, 'thorough': 80000}
RULE = ('A seeded network with several orifices, weirs and pumps, sharing nodes or not, is driven through storms, tides and an operator whose '
        'signals jump, stick, and get lost, with roll-backs to the step before; after each step every reported control flow is compared with '
        'the law of that structure, and the node balances with the law linearised about the flow before.')
REAL = ['network model', 'compiled kernels']
STUB = ['operator signals (jump, stick, lost)', 'rain and tide']
ASSUMPTIONS = ['structures whose heads lie within 1e-7 m of a change of flow regime are not compared', 'the wetted area of an orifice is the one at the start of the step']
SHAPES = ('rect_closed', 'rect_open', 'triangular', 'trapezoidal', 'circular', 'elliptical', 'wide', 'force_main', 'parabolic')


def generate(rng, tier):
    big = tier == 'thorough'
    w = netgen.gen_world(rng, n_max=8 if big else 5, controls=0.0, tabular=0.3, transects=0.05, bc=rng.choice([0.0, 0.4]), methods=('b', 'b', 'f'),
                         wet=rng.choice([0.3, 1.0, 2.0]), ends=0.1, max_depth=0.1)
    js = w['superjunctions']
    n = len(js)
    shaped = rng.random() < 0.4
    for kind, tab in (('o', 'orifices'), ('w', 'weirs'), ('p', 'pumps')):
        for q in range(rng.choice([0, 1, 1, 2, 3])):
            i, j = rng.sample(range(n), 2)
            if kind == 'o':
                o = {'name': 'O%d' % q, 'sj_0': i, 'sj_1': j, 'orientation': rng.choice(['bottom', 'side']), 'C': netgen.r(rng.uniform(.3, .9), 2),
                     'A': netgen.r(rng.uniform(0.01, 0.5), 3), 'y_max': netgen.r(rng.uniform(0.1, 0.8), 2), 'z_o': netgen.r(rng.choice([0, rng.uniform(0, 0.5)]), 2),
                     'oneway': bool(rng.random() < .4)}
                if shaped:
                    o.update(shape=rng.choice(SHAPES), g1=netgen.r(rng.uniform(.1, .8), 2), g2=netgen.r(rng.uniform(.1, .8), 2), g3=netgen.r(rng.uniform(.1, .8), 2))
                w['orifices'].append(o)
            elif kind == 'w':
                w['weirs'].append({'name': 'W%d' % q, 'sj_0': i, 'sj_1': j, 'z_w': netgen.r(rng.choice([0, rng.uniform(0, 0.6)]), 2),
                                   'y_max': netgen.r(rng.uniform(0.1, 1.5), 2), 'Cr': netgen.r(rng.uniform(1, 2), 3), 'Ct': netgen.r(rng.uniform(.8, 1.5), 3),
                                   'L': netgen.r(rng.uniform(0.1, 2), 2), 's': netgen.r(rng.choice([0, rng.uniform(0, 1)]), 2)})
            else:
                w['pumps'].append({'name': 'P%d' % q, 'sj_0': i, 'sj_1': j, 'z_p': netgen.r(rng.choice([0, rng.uniform(0, 0.6)]), 2),
                                   **netgen.gen_pump(rng, abs(js[i]['z_inv'] - js[j]['z_inv']) * rng.random())})
    if not (w['orifices'] or w['weirs'] or w['pumps']):
        w['weirs'].append({'name': 'W0', 'sj_0': 0, 'sj_1': 1, 'z_w': .1, 'y_max': .5, 'Cr': 1.838, 'Ct': 1.38, 'L': 1., 's': .5})
    ops = []
    for op in drive.gen_ops(rng, w, rng.randint(4, 100 if big else 24), negative=0.1, bc_amp=rng.choice([.5, 1.5])):
        if rng.random() < .1:
            op['lost'] = rng.choice(['u_o', 'u_w', 'u_p'])
        ops.append(op)
        if rng.random() < .08:
            ops.append({'op': 'undo'})
    return {'world': w, 'ops': ops}


class Law:
    """The three laws, one structure at a time, from the tables."""

    def __init__(self, w, net):
        self.w, self.net = w, net

    def orifice_area(self, o, u, Hu, Hd, zu):
        y = max(Hu, Hd) - zu - o['z_o']
        s = math.sqrt(o['A'])
        sh, g = o.get('shape', 'rect_open'), (o.get('g1', s), o.get('g2', s), o.get('g3', 0.), 0.)
        if g[0] * u <= 0:
            return 0.0
        return max(0.0, ref.section(sh, (g[0] * u, g[1], g[2], 0.), y)[0])

    def orifice(self, o, u, Hu, Hd, zu, edge):
        """(coefficients of Hu and Hd, constant, sign) of what stands under the root, over 2 g C² A²"""
        tau = 1.0 if o['orientation'] == 'side' else 0.0
        up = Hu >= Hd
        hi, lo = max(Hu, Hd), min(Hu, Hd)
        sgn = 1.0 if up else -1.0
        bottom = zu + o['z_o']
        opening = tau * o['y_max'] * u
        edge.extend([hi - bottom - opening, lo - bottom - opening / 2, hi - bottom, Hu - Hd])
        if o['oneway'] and Hd >= Hu:
            return 0.0, 0.0, 0.0, sgn
        if hi > bottom + opening:
            if lo > bottom + opening / 2:
                return 1.0, -1.0, 0.0, sgn
            off = bottom + opening / 2
        elif hi > bottom:
            off = bottom
        else:
            return 0.0, 0.0, 0.0, sgn
        return (1.0, 0.0, -off, sgn) if up else (0.0, -1.0, off, sgn)

    def weir(self, v, u, Hu, Hd, zu, edge):
        up = Hu >= Hd
        hi, lo = max(Hu, Hd), min(Hu, Hd)
        sgn = 1.0 if up else -1.0
        crest = zu + v['z_w'] + (1 - u) * v['y_max']
        edge.extend([hi - crest, lo - crest, Hu - Hd])
        if hi <= crest:
            return 0.0, 0.0, 0.0, sgn, 0.0
        if lo > crest:
            return 1.0, -1.0, 0.0, sgn, hi - lo
        return ((1.0, 0.0, -crest, sgn) if up else (0.0, -1.0, crest, sgn)) + (hi - crest,)

    def conveyance(self, v, h):
        return (v['Cr'] * v['L'] * h + v['Ct'] * v['s'] * h * h) ** 2

    def pump(self, p, u, Hu, Hd, zu, edge):
        dh = Hd - Hu
        edge.extend([Hu - zu - p['z_p'], dh - p['dH_min'], dh - p['dH_max']])
        if Hu <= zu + p['z_p']:
            return 0.0, 0.0, 0.0
        if p['dH_min'] < dh < p['dH_max']:
            return 1.0, -1.0, p['a_p']
        return 0.0, 0.0, p['a_p'] - min(max(dh, p['dH_min']), p['dH_max'])

    def flows(self, us, H, V, dt, areas):
        out = []
        for kind in ('orifices', 'weirs', 'pumps'):
            for c, row in enumerate(self.w[kind]):
                i, j = int(self.net.ctrl[kind][0][c]), int(self.net.ctrl[kind][1][c])
                edge = []
                a = (row, us[kind][c], H[i], H[j], self.net.z[i], edge)
                scale = None
                if kind == 'orifices':
                    x, y, k, s = self.orifice(*a)
                    under = abs(x * H[i] + y * H[j] + k)
                    q = math.sqrt(2 * ref.G) * row['C'] * areas[c] * math.sqrt(under)
                    cap = V[i if H[i] > H[j] else j] / dt
                    if q > cap:
                        scale = 'capped'
                    q = s * min(q, cap)
                elif kind == 'weirs':
                    x, y, k, s, h = self.weir(*a)
                    q = s * math.sqrt(self.conveyance(row, h) * h)
                else:
                    x, y, k = self.pump(*a)
                    dh = min(max(H[j] - H[i], row['dH_min']), row['dH_max'])
                    q = 0.0 if (x, y, k) == (0.0, 0.0, 0.0) else (us[kind][c] / row['b_p'] * (row['a_p'] - dh)) ** (1 / row['c_p'])
                out.append((kind, c, i, j, q, edge, scale, (x, y, k)))
        return out

    def linear(self, us, H0, H1, Q0, areas):
        """What the structures move between their nodes during the step."""
        out = []
        for kind in ('orifices', 'weirs', 'pumps'):
            for c, row in enumerate(self.w[kind]):
                i, j = int(self.net.ctrl[kind][0][c]), int(self.net.ctrl[kind][1][c])
                edge = []
                a = (row, us[kind][c], H0[i], H0[j], self.net.z[i], edge)
                q0 = abs(Q0[kind][c])
                if kind == 'orifices':
                    x, y, k, _ = self.orifice(*a)
                    num, den = 2 * ref.G * row['C'] ** 2 * areas[c] ** 2, q0
                elif kind == 'weirs':
                    x, y, k, _, h = self.weir(*a)
                    num, den = self.conveyance(row, h), q0
                else:
                    x, y, k = self.pump(*a)
                    num, den = us[kind][c], row['b_p'] * q0 ** (row['c_p'] - 1)
                # a flow at rounding level counts for no flow
                if .5e-9 < den < 2e-9:
                    edge.append(0.0)
                g = num / den if den >= 1e-9 else 0.0
                out.append((kind, c, i, j, g * (x * H1[i] + y * H1[j] + k), g * (abs(x * H1[i]) + abs(y * H1[j]) + abs(k)), edge))
        return out


KEYS = (('orifices', 'u_o', 'Q_o'), ('weirs', 'u_w', 'Q_w'), ('pumps', 'u_p', 'Q_p'))


def run(scn, ctx):
    w = scn['world']
    rig = drive.Rig(w)
    m = rig.m
    net = ref.Network(w, m)
    law = Law(w, net)
    last = None
    for n, op in enumerate(scn['ops']):
        if op['op'] == 'undo':
            if last is not None:
                ctx.fault('undo')
                ctx.sut(m.load_state)
                last = None
            continue
        pre = ref.before(m)
        Q0 = {k: np.array(getattr(m, a), float).copy() for k, _, a in KEYS if w[k]}
        kw = rig.kwargs(op)
        if op.get('lost') in kw:
            del kw[op['lost']]
            ctx.fault('signal_lost')
        us = {k: (kw[u] if u in kw else np.zeros(len(w[k]))) for k, u, _ in KEYS if w[k]}
        marks = {u: kw[u].copy() for _, u, _ in KEYS if u in kw}
        ctx.sut(m.step, **kw)
        ctx.advance(op['dt'])
        for u, v in marks.items():
            ctx.check((kw[u] == v).all(), 'signal-modified', u)
        if last is not None and any(len(us[k]) and not (us[k] == last[k]).all() for k in us):
            ctx.fault('gate_move')
        last = us
        H0, H1 = pre['H_j'], np.array(m.H_j, float)
        if not drive.sane(m, 1e5):
            ctx.probe('diverged')
            break
        areas = [law.orifice_area(o, us['orifices'][c], H0[net.ctrl['orifices'][0][c]], H0[net.ctrl['orifices'][1][c]],
                                  net.z[net.ctrl['orifices'][0][c]]) for c, o in enumerate(w['orifices'])]
        V = net.volume(H0)
        got = {k: np.array(getattr(m, a), float) for k, _, a in KEYS if w[k]}
        for kind, c, i, j, q, edge, note, _ in law.flows(us, H1, V, op['dt'], areas):
            if min(abs(e) for e in edge) < 1e-7:
                ctx.probe('at_regime_change')
                continue
            ctx.close(kind[:-1] + '-law', got[kind][c], q, 1e-7 * (abs(q) + abs(got[kind][c])) + 1e-9,
                      lambda: 'step %d %s %d: heads %r %r over %r, setting %r' % (n, kind, c, H1[i], H1[j], net.z[i], us[kind][c]))
            ctx.probe(kind + ('_flowing' if q else '_idle'))
            if note:
                ctx.probe('orifice_limited_by_storage')
            if q < 0:
                ctx.probe(kind + '_reversed')
        # the water that really moved
        if not net.has_ends:
            A = net.area(H0)
            inflow, mag = net.net_flow(m, kw['Q_in'], controls=False)
            skip = net.clamped(H1) | net.bc
            near = net.clamped(H1)
            for u, d in [(net.uk, net.dk)] + list(net.ctrl.values()):
                skip[u[near[d]]] = True
                skip[d[near[u]]] = True
            for kind, c, i, j, q, sc, edge in law.linear(us, H0, H1, Q0, areas):
                if min(abs(e) for e in edge) < 1e-7:
                    skip[i] = skip[j] = True
                inflow[i] -= q
                inflow[j] += q
                mag[i] += sc
                mag[j] += sc
            stored = A * (H1 - H0) / op['dt']
            scale = mag + A * (np.abs(H0) + np.abs(H1)) / op['dt'] + 1e-6
            touched = sorted(set(int(x) for u, d in net.ctrl.values() for x in list(u) + list(d)))
            for i in touched:
                if not skip[i]:
                    ctx.close('water-moved', stored[i], inflow[i], 2e-7 * scale[i], lambda: 'step %d node %s' % (n, net.js[i]['name']))
                    ctx.probe('node_balances')
        ctx.log(n, H1, *[got[k] for k in sorted(got)])
        ctx.state(H1, *[got[k] for k in sorted(got)])
