"""C11: infiltration follows the Green-Ampt law and loses no water, over any sequence of storms and dry spells."""
import copy
import math

import numpy as np

from sim.core import Discard

ID = 'C11'
LEVEL = 'exploration'
RUNS = {'quick': 4000, 'thorough': 200000}
RULE = ('Seeded soils (sand to clay, wet to dry) live through seeded sequences of storms, drizzle, dry spells, irregular steps, ponded '
        'water added or drained by a coupled model, and roll-backs to copies; each element is advanced beside the package by a scalar '
        'model of our own (bisection on the integrated law).')
REAL = ['compiled infiltration model', 'plain infiltration model']
STUB = ['rain gauge', 'coupled surface model that adds and drains ponded water']
ASSUMPTIONS = ['elements within rounding of a branch of the law are not compared from there on']


def generate(rng, tier):
    big = tier == 'thorough'
    n = rng.randint(1, 6)
    soils = []
    for _ in range(n):
        ths = round(rng.uniform(0.3, 0.5), 3)
        soils.append({'psi_f': round(rng.uniform(0.05, 0.35), 4), 'Ks': round(10 ** rng.uniform(-7.5, -4.3), 12), 'theta_s': ths,
                      'theta_i': round(rng.choice([ths - 0.01, rng.uniform(0.02, ths - 0.02), 0.05]), 3), 'A_s': round(10 ** rng.uniform(0, 5), 2)})
    ops = []
    mode = 'dry'
    for _ in range(rng.randint(4, 150 if big else 50)):
        if rng.random() < 0.3:
            mode = rng.choice(['dry', 'drizzle', 'storm', 'storm', 'mixed', 'patchy'])
        dt = rng.choice([10, 60, 60, 300, 300, 900, 3600, 7200, 86400]) if rng.random() < .7 else round(rng.uniform(5, 2000), 1)
        rain = []
        for s in soils:
            k = {'mixed': rng.choice(['dry', 'drizzle', 'storm']), 'patchy': rng.choice(['dry', 'dry', 'storm'])}.get(mode, mode)
            rain.append({'dry': 0.0, 'drizzle': s['Ks'] * rng.uniform(0.01, 0.95), 'storm': s['Ks'] * 10 ** rng.uniform(0.02, 2.0)}[k])
        ops.append({'op': 'step', 'dt': dt, 'i': rain})
        x = rng.random()
        if x < 0.08:
            ops.append({'op': 'pond', 'd': [round(rng.choice([0., rng.uniform(0, .1)]), 5) for _ in soils], 'own': rng.random() < .5})
        elif x < 0.16:
            ops.append({'op': 'drain', 'frac': rng.choice([1.0, 1.0, 0.5])})
        elif x < 0.20:
            ops.append({'op': 'ckpt'})
        elif x < 0.24:
            ops.append({'op': 'rollback'})
    return {'soils': soils, 'variant': rng.choice(['default', 'default', 'plain']), 'ops': ops}


def law(F1, dt, Ks, c):
    """Cumulative infiltration dt after F1 under ponding: F - F1 - c ln((F + c)/(F1 + c)) = Ks dt."""
    g = lambda F: F - F1 - c * math.log((F + c) / (F1 + c)) - Ks * dt
    lo, hi = F1, F1 + Ks * dt + math.sqrt(2 * c * Ks * dt + 1e-12) + 1e-6
    while g(hi) < 0:
        hi = F1 + 2 * (hi - F1)
    for _ in range(200):
        mid = (lo + hi) / 2
        if mid in (lo, hi):
            break
        lo, hi = (mid, hi) if g(mid) < 0 else (lo, mid)
    return (lo + hi) / 2


class Edge(Exception):
    pass


def gap(a, b, scale):
    if abs(a - b) <= 1e-6 * scale + 1e-30:
        raise Edge()


class Soil:
    def __init__(self, s):
        self.__dict__.update(s)
        k = math.sqrt(self.Ks * 39.97 * 3600)
        self.Lu, self.kr, self.Tr = 4 * k * 0.0254, k / 75 / 3600, 4.5 / k * 3600
        self.dmax = s['theta_s'] - s['theta_i']
        self.td = self.tu = self.dmax
        self.F = self.f = self.d = self.T = 0.0
        self.sat = False
        self.live = True
        self.branch = None

    def take(self, dF):
        self.tu = min(max(self.tu - dF / self.Lu, 0.0), self.dmax)

    def saturated(self, dt, ia):
        self.T = self.Tr
        F2 = law(self.F, dt, self.Ks, self.psi_f * self.td)
        top = self.F + ia * dt
        if abs(F2 - top) < 2e-7:
            raise Edge()
        if F2 > top:
            F2, self.sat = top, False
        dF = F2 - self.F
        self.F = F2
        self.take(dF)
        self.f = dF / dt

    def step(self, dt, i):
        ia = i + self.d / dt
        self.T -= dt
        if self.sat:
            self.branch = 'saturated'
            self.saturated(dt, ia)
        elif ia == 0:
            self.branch = 'dry'
            self.f = 0.0
            g = self.kr * self.dmax * dt
            self.tu = min(max(self.tu + g, 0.0), self.dmax)
            self.F = max(self.F - g * self.Lu, 0.0)
            gap(self.T, 0.0, self.Tr)
            if self.T <= 0:
                self.branch = 'new_event'
                self.td, self.F = self.tu, 0.0
        elif ia <= self.Ks:
            gap(ia, self.Ks, self.Ks)
            self.branch = 'drizzle'
            self.f = ia
            self.F += ia * dt
            self.take(ia * dt)
        else:
            gap(ia, self.Ks, self.Ks)
            self.T = self.Tr
            Fs = self.Ks * self.psi_f * self.td / (ia - self.Ks)
            gap(self.F, Fs, Fs + self.F)
            gap(self.F + ia * dt, Fs, Fs + self.F)
            if self.F >= Fs:
                self.branch = 'becomes_saturated'
                self.sat = True
                self.saturated(dt, ia)
            elif self.F + ia * dt < Fs:
                self.branch = 'all_infiltrates'
                self.f = ia
                self.F += ia * dt
                self.take(ia * dt)
            else:
                self.branch = 'saturates_within'
                F2 = law(Fs, dt - (Fs - self.F) / ia, self.Ks, self.psi_f * self.td)
                dF = F2 - self.F
                self.F = F2
                self.take(dF)
                self.f = dF / dt
        self.Q = max(i - self.f, 0.0) * self.A_s
        self.d = max(self.d + (i - self.f) * dt, 0.0)


def run(scn, ctx):
    import pandas as pd
    from pipedream_solver import hydrology, infiltration
    cls = hydrology.GreenAmpt if scn['variant'] == 'default' else infiltration.GreenAmpt
    table = pd.DataFrame(scn['soils'])
    m = ctx.sut(cls, table.copy())
    soils = [Soil(s) for s in scn['soils']]
    N = len(soils)
    saved = None
    t = 0.0
    for n, op in enumerate(scn['ops']):
        if op['op'] == 'pond':
            d = np.array(op['d'], float)
            ctx.fault('ponded_water_set')
            m.d = d
            for s, x in zip(soils, op['d']):
                s.d = x
            given = d.copy()
            continue
        if op['op'] == 'drain':
            m.d = np.array(m.d, float) * (1 - op['frac'])
            for s, x in zip(soils, m.d):
                s.d = float(x)
            ctx.fault('drained')
            continue
        if op['op'] == 'ckpt':
            saved = copy.deepcopy((m, soils, t))
            continue
        if op['op'] == 'rollback':
            if saved:
                m, soils, t = copy.deepcopy(saved)
                ctx.fault('rollback')
            continue
        dt, i = op['dt'], np.array(op['i'], float)
        i_given = i.copy()
        d0, F0 = np.array(m.d, float).copy(), np.array(m.F, float).copy()
        held = m.d
        ctx.sut(m.step, dt, i)
        t += dt
        ctx.advance(dt)
        if n and scn['ops'][n - 1]['op'] == 'pond':
            ctx.check((held == given).all(), 'caller-array-modified', 'the ponded depths the caller set were changed in place')
        ctx.check((i == i_given).all(), 'caller-array-modified', 'the rain array was changed in place')
        ctx.check(abs(float(m.t) - t) <= 1e-9 * t, 'clock', lambda: 'the clock shows %r, %r has passed' % (m.t, t))
        f, F, d, Q, T = (np.array(getattr(m, k), float) for k in 'fFdQT')
        # water balance at the surface, without reference to the law
        ctx.check(np.isfinite(F).all() and np.isfinite(d).all(), 'non-finite', 'step %d' % n)
        scale = (i * dt + d0 + 1e-9)
        ctx.close('surface-balance', d + f * dt, d0 + i * dt, 1e-9 * scale + 1e-12, 'step %d' % n)
        ctx.check((f >= -1e-15).all() and (f * dt <= d0 + i * dt + 1e-9 * scale + 2e-8).all(), 'infiltration-bound', lambda: 'step %d: f=%s' % (n, f))
        ctx.check((F >= 0).all(), 'negative-infiltration', lambda: 'step %d: F=%s' % (n, F))
        for k, s in enumerate(soils):
            if not s.live:
                continue
            s.F, s.d, s.T, s.sat = s.F if n == 0 else float(F0[k]), float(d0[k]), s.T, s.sat
            try:
                s.step(dt, float(i[k]))
            except Edge:
                s.live = False
                ctx.probe('branch_boundary')
                continue
            where = lambda: 'step %d element %d (%s)' % (n, k, s.branch)
            tol = 1e-7 + 1e-7 * abs(s.F)
            ctx.close('cumulative-infiltration', F[k], s.F, tol, where)
            ctx.close('infiltration-rate', f[k], s.f, tol / dt + 1e-9 * abs(s.f), where)
            ctx.close('ponded-depth', d[k], s.d, tol, where)
            ctx.close('runoff', Q[k], s.Q, (tol / dt + 1e-9 * (i[k] + s.f)) * s.A_s, where)
            ctx.check(bool(m.is_saturated[k]) == s.sat, 'saturation', where)
            ctx.close('recovery-time', T[k], s.T, 1e-6 * s.Tr + 1e-9 * abs(s.T), where)
            ctx.fault(s.branch)
        ctx.log(n, F, d, T)
        ctx.state(F, d, T)
