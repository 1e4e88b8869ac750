"""Reference for contaminant transport: the balance of every cell (conduit pieces, junctions, conduit ends and nodes)
written as one dense linear system from levels and flows of the water model.  Nothing here calls the package."""
import math

import numpy as np

from sim import ref

SHAPES = ['rect_open', 'rect_open', 'circular']


def gen_params(rng, w, uniform=None):
    """Water-quality tables for a world (rows by name), plain JSON."""
    wq = {'nodes': {}, 'links': {}, 'c_min': 0.0, 'c_max': rng.choice([None, None, None, 60.0])}
    decay = rng.choice([0., 0., 1e-5, 1e-3])
    lo = rng.choice([0., 1., 10.])
    for j in w['superjunctions']:
        wq['nodes'][j['name']] = {'K': 0. if uniform else round(decay * rng.random(), 7), 'c_0': uniform or round(lo + 10 * rng.random(), 3),
                                  'bc': rng.random() < (.7 if j['bc'] else .08)}
    for l in w['superlinks']:
        d = round(10 ** rng.uniform(-1, 1.2), 3)
        wq['links'][l['name']] = {'K': 0. if uniform else round(decay * rng.random(), 7), 'D': d, 'c_0': uniform or round(lo + 10 * rng.random(), 3),
                                  'D_uk': d if rng.random() < .5 else round(10 ** rng.uniform(-1, 1.2), 3),
                                  'D_dk': d if rng.random() < .5 else round(10 ** rng.uniform(-1, 1.2), 3)}
    wq['tables'] = rng.choice(['superlinks', 'superlinks', 'links'])
    wq['ends'] = rng.random() < .7          # separate columns for the conduit ends
    wq['kf'] = rng.random() < .5
    return wq


def gen_forcing(rng, w, ops, uniform=None):
    """Loads: pulses of contaminant that come and go, boundary concentrations, lateral loads."""
    c0, cb, ci = {}, {}, {}
    top = rng.choice([1., 20., 200.])
    for op in ops:
        if op['op'] != 'step':
            continue
        if rng.random() < .3:
            c0 = {j['name']: round(rng.random() * top, 3) for j in w['superjunctions'] if rng.random() < .5}
        if rng.random() < .3:
            cb = {j['name']: round(rng.random() * top, 3) for j in w['superjunctions'] if rng.random() < .7}
        if rng.random() < .3:
            ci = {l['name']: round(rng.random() * top, 3) for l in w['superlinks'] if rng.random() < .5}
        if uniform:
            c0, cb, ci = ({j['name']: uniform for j in w['superjunctions']},) * 2 + ({l['name']: uniform for l in w['superlinks']},)
        op['c0'], op['cb'], op['ci'] = dict(c0), (dict(cb) if uniform or rng.random() < .8 else None), dict(ci)
    return ops


class Tables:
    """The tables of parameters in the row order of a given model."""

    def __init__(self, wq, rig):
        import pandas as pd
        m = rig.m
        nodes = [wq['nodes'][n] for n in rig.names]
        links = [wq['links'][str(n)] for n in m.superlink_names]
        self.nodes = pd.DataFrame({'K': [n['K'] for n in nodes], 'c_0': [n['c_0'] for n in nodes], 'bc': [bool(n['bc']) for n in nodes]})
        self.links = pd.DataFrame({k: [l[k] for l in links] for k in ('K', 'D', 'c_0')})
        if wq['ends']:
            for k in ('D_uk', 'D_dk'):
                self.links[k] = [l[k] for l in links]
        if wq['kf']:
            self.links['KF_obs_point'] = wq.get('obs', 0)
            self.links['KF_process_sigma'] = wq.get('q', .1)
            self.links['KF_measure_sigma'] = wq.get('r', .1)
        self.kw = {'c_min': wq['c_min']}
        if wq['c_max'] is not None:
            self.kw['c_max'] = wq['c_max']
        if wq['tables'] == 'links':
            for key, at in (('link_params', m._ki), ('junction_params', m._kI)):
                self.kw[key] = self.links[['K', 'D', 'c_0']].iloc[np.asarray(at)].reset_index(drop=True)
        self.K_j = np.array([n['K'] for n in nodes])
        self.bc = np.array([bool(n['bc']) for n in nodes])
        self.K = np.array([l['K'] for l in links])
        self.D = np.array([l['D'] for l in links])
        self.D_uk = np.array([l['D_uk'] if wq['ends'] else l['D'] for l in links])
        self.D_dk = np.array([l['D_dk'] if wq['ends'] else l['D'] for l in links])


def read(q):
    return {k: np.array(getattr(q, k), float) for k in ('c_j', 'c_Ik', 'c_ik', 'c_uk', 'c_dk')}


class System:
    """One step: cells are nodes, junctions, pieces, upstream ends and downstream ends, in that order."""

    def __init__(self, net, m, tab):
        self.net, self.m, self.tab = net, m, tab
        M, I, i, K = m.M, m._I.size, m._ik.size, m.NK
        self.oI, self.oi, self.ou, self.od, self.n = M, M + I, M + I + i, M + I + i + K, M + I + i + 2 * K

    def build(self, pre, dt, c, q_in, c_in, q_I, c_I, c_bc, flows):
        """Matrix and right-hand side.  pre: water state before the step, flows: structures' reported flows."""
        net, m, tab = self.net, self.m, self.tab
        H0, H1 = pre['H_j'], np.array(m.H_j, float)
        h0, h1 = pre['h_Ik'], np.array(m.h_Ik, float)
        L, R = np.zeros((self.n, self.n)), np.zeros(self.n)
        water = np.zeros(self.n)        # what flows out of a cell less what flows in, for the water itself

        def exchange(a, b, Qa, Qb, D, A, dx):
            """Flow from cell a to cell b past their common face, plus mixing.  Qa leaves a and enters b: both the same."""
            for cell, s in ((a, 1.), (b, -1.)):
                L[cell, a] += s * max(Qa, 0.)
                L[cell, b] -= s * max(-Qa, 0.)
                water[cell] += s * Qa
                if D:
                    k = 2 * D * A / dx
                    L[cell, a] += s * k
                    L[cell, b] -= s * k

        def store(cell, V1, V0, K, c_old):
            L[cell, cell] += (2 * V1 - V0) / dt + K * V1
            R[cell] += V1 / dt * c_old
            water[cell] += (V1 - V0) / dt

        A_sj = net.area(H0)
        A_SIk = np.array(m._A_SIk, float)
        for j in range(net.M):
            z = net.js[j]['z_inv']
            store(j, A_sj[j] * (H1[j] - z), A_sj[j] * (H0[j] - z), tab.K_j[j], c['c_j'][j])
            R[j] += q_in[j] * c_in[j]
            water[j] -= q_in[j]
        self.full = False
        for k, S in enumerate(net.links):
            a, b = m._I_1k[k], m._I_Np1k[k]
            i0 = m._i_1k[k]
            sec = lambda y: ref.section(p['shape'], p['g'], y)
            def area(y):
                if p['shape'] == 'rect_open':
                    return p['g2'] * y
                return sec(y)[0]
            for x in range(a, b + 1):
                g1 = min(p['g1'] for p in S['parts'])
                store(self.oI + x, A_SIk[x] * h1[x], A_SIk[x] * h0[x], tab.K[k], c['c_Ik'][x])
                R[self.oI + x] += q_I[x] * c_I[x]
                water[self.oI + x] -= q_I[x]
                self.full = self.full or h1[x] >= .99 * g1 or h0[x] >= .99 * g1
            # pieces of the conduit
            for n, i in enumerate(range(i0, i0 + (b - a))):
                p = S['parts'][n]
                dx = p['dx']
                B = sec((h0[a + n] + h0[a + n + 1]) / 2)[2]
                A1 = area((h1[a + n] + h1[a + n + 1]) / 2)
                A0 = sec((h0[a + n] + h0[a + n + 1]) / 2)[0]
                up = m.Q_ik[i] + .5 * B * dx * (h1[a + n] - h0[a + n]) / dt
                dn = m.Q_ik[i] - .5 * B * dx * (h1[a + n + 1] - h0[a + n + 1]) / dt
                store(self.oi + i, A1 * dx, A0 * dx, tab.K[k], c['c_ik'][i])
                exchange(self.oI + a + n, self.oi + i, up, up, tab.D[k], A1, dx)
                exchange(self.oi + i, self.oI + a + n + 1, dn, dn, tab.D[k], A1, dx)
            # conduit ends
            for node, junc, off, dx, th, Q, D, c_old, first in ((S['u'], a, self.ou, S['dx_uk'], pre['theta_uk'][k], m.Q_uk[k], tab.D_uk[k], c['c_uk'][k], True),
                                                              (S['d'], b, self.od, S['dx_dk'], pre['theta_dk'][k], m.Q_dk[k], tab.D_dk[k], c['c_dk'][k], False)):
                z = net.js[node]['z_inv']
                p = S['parts'][0 if first else -1]
                B = sec((h0[junc] + th * (H0[node] - z)) / 2)[2]
                A1, A0 = area((H1[node] - z + h1[junc]) / 2), area((H0[node] - z + h0[junc]) / 2)
                store(off + k, A1 * dx, A0 * dx, 0., c_old)
                dH, dh = .5 * B * dx * (H1[node] - H0[node]) / dt, .5 * B * dx * (h1[junc] - h0[junc]) / dt
                if first:
                    exchange(node, off + k, Q + dH, Q + dH, D, A1, dx)
                    exchange(off + k, self.oI + junc, Q - dh, Q - dh, D, A1, dx)
                else:
                    exchange(self.oI + junc, off + k, Q + dh, Q + dh, D, A1, dx)
                    exchange(off + k, node, Q - dH, Q - dH, D, A1, dx)
        for (u, d), Q in flows:
            for a, b, x in zip(u, d, Q):
                exchange(a, b, x, x, 0., 0., 1.)
        for j in np.flatnonzero(tab.bc):
            L[j] = 0.
            L[j, j] = 1.
            R[j] = c_bc[j]
            water[j] = 0.
        return L, R, water

    def split(self, v):
        return {'c_j': v[:self.oI], 'c_Ik': v[self.oI:self.oi], 'c_ik': v[self.oi:self.ou], 'c_uk': v[self.ou:self.od], 'c_dk': v[self.od:]}

    def loose(self, L, eps):
        """The level of rounding in a conduit: its end junctions follow from the cells at its ends by dividing by the
        coupling between them, which may be very small."""
        m = self.m
        I, i = np.zeros(self.oi - self.oI), np.zeros(self.ou - self.oi)
        for k in range(m.NK):
            a, b = m._I_1k[k], m._I_Np1k[k]
            with np.errstate(divide='ignore', over='ignore'):
                amp = max(np.abs(L[c, c] / L[c, self.oI + j]) for c, j in ((self.ou + k, a), (self.od + k, b)))
            I[a:b + 1] = i[m._i_1k[k]:m._i_1k[k] + b - a] = min(eps * amp, 1e300)
        return {'c_Ik': I, 'c_ik': i}
