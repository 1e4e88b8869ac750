"""Driving the real model with scenario operations (plain JSON), and reading back what it reports."""
import copy
import math

from sim import netgen
from sim.core import Discard


class Rig:
    """A real model built from a world, fed by operations that name nodes and links."""

    def __init__(self, world, **over):
        self.world = world
        self.m = netgen.build(world, **over)
        self.names = [str(n) for n in self.m.superjunction_names]
        self.row = {n: i for i, n in enumerate(self.names)}
        self.lrow = {str(n): i for i, n in enumerate(self.m.superlink_names)}

    # -- inputs -----------------------------------------------------------------------------------
    def vec(self, d, default=0.0):
        import numpy as np
        v = np.full(self.m.M, float(default)) if not hasattr(default, '__len__') else np.array(default, float)
        for k, x in (d or {}).items():
            if k in self.row:
                v[self.row[k]] = x
        return v

    def bc_vec(self, d):
        """Boundary heads: what the operation says, else the level the node started with."""
        import numpy as np
        h0 = {j['name']: j['z_inv'] + j['h_0'] for j in self.world['superjunctions']}
        return self.vec(dict(h0, **(d or {})))

    def ivec(self, d):
        import numpy as np
        m = self.m
        v = np.zeros(m._I.size)
        for k, (frac, q) in (d or {}).items():
            if k in self.lrow:
                i0, i1 = m._I_1k[self.lrow[k]], m._I_Np1k[self.lrow[k]]
                # interior junctions only: the ends belong to the superjunctions' neighbours
                i = i0 + 1 + int(frac * max(1, (i1 - i0 - 1)))
                v[min(i, i1 - 1) if i1 - i0 > 1 else i0] += q
        return v

    def kwargs(self, op):
        import numpy as np
        m = self.m
        kw = {'dt': op['dt'], 'Q_in': self.vec(op.get('q'))}
        if m.bc.any():
            kw['H_bc'] = self.bc_vec(op.get('h'))
        if op.get('qi'):
            kw['Q_0Ik'] = self.ivec(op['qi'])
        for key, n in (('u_o', m.n_o), ('u_w', m.n_w), ('u_p', m.n_p)):
            if n:
                kw[key] = np.array([float((op.get(key) or [1.0])[i % len(op.get(key) or [1.0])]) for i in range(n)])
        if op.get('banded') is not None and not op['banded']:
            kw['banded'] = False
        if op.get('num_iter'):
            kw['num_iter'] = op['num_iter']
        if op.get('head_tol'):
            kw['head_tol'] = op['head_tol']
        return kw

    def step(self, ctx, op, allow=()):
        kw = self.kwargs(op)
        if self.world['options'].get('method') == 'lsq':
            import numpy as np
            try:
                ctx.sut(self.m.step, allow=tuple(allow) + (np.linalg.LinAlgError,), **kw)
            except np.linalg.LinAlgError:
                raise Discard('normal equations of an empty conduit are singular')
        else:
            ctx.sut(self.m.step, allow=allow, **kw)
        ctx.advance(op['dt'])
        return kw


STATE = ('H_j', 'h_Ik', 'Q_ik', 'Q_uk', 'Q_dk', 'x_Ik')


def report(m):
    """Everything a user reads after a step."""
    import numpy as np
    d = {k: np.array(getattr(m, k), float) for k in STATE}
    for k, n in (('Q_o', m.n_o), ('Q_w', m.n_w), ('Q_p', m.n_p)):
        if n:
            d[k] = np.array(getattr(m, k), float)
    for k in ('A_ik', 'B_ik', 'A_uk', 'A_dk', 'A_sj', 'V_j'):
        d[k] = np.array(getattr(m, k), float)
    d['t'] = float(m.t)
    return d


def snapshot(m):
    """A checkpoint the way a user takes one: save, then copy the saved state."""
    m.save_state()
    return copy.deepcopy(m.states)


def sane(m, limit=1e6):
    """Time stepping with a step far beyond what the scheme resolves may diverge numerically; the
    checks on rounding-level identities stop there (counted as out of domain, never as a pass)."""
    import numpy as np
    return bool(np.isfinite(m.H_j).all() and np.isfinite(m.Q_ik).all() and np.abs(m.H_j).max() < limit
                and np.abs(m.Q_ik).max() < limit)


def gen_ops(rng, world, n, dts=None, q_scale=None, internal=0.3, bc_amp=0.6, controls=True, negative=0.0,
            irregular=0.5, storm=0.6):
    """A forcing history: storms that come and go at random nodes, tides at the boundaries, operators
    moving gates, and (often) an irregular step."""
    js, ls = world['superjunctions'], world['superlinks']
    dt0 = world['options']['dt']
    dts = dts or [1, 2, 5, 10, 15, 30, 60]
    q_scale = q_scale if q_scale is not None else rng.choice([0.0, 0.005, 0.02, 0.1, 0.4])
    ops = []
    q, h, qi, u = {}, {}, {}, {}
    phase = {j['name']: rng.uniform(0, 6.28) for j in js}
    period = rng.uniform(200, 4000)
    t = 0.0
    irr = rng.random() < irregular
    for i in range(n):
        dt = rng.choice(dts) if irr else dt0
        if rng.random() < 0.25 or i == 0:
            q = {}
            if rng.random() < storm:
                for j in js:
                    if rng.random() < 0.5:
                        v = rng.uniform(0, 1) * q_scale
                        if rng.random() < negative:
                            v = -0.2 * v
                        q[j['name']] = float(round(v, 6))
        if rng.random() < 0.2:
            qi = {}
            if rng.random() < internal:
                for l in ls:
                    if rng.random() < 0.3:
                        qi[l['name']] = [float(round(rng.random(), 3)), float(round(rng.uniform(0, q_scale * .3), 6))]
        h = {j['name']: float(round(j['z_inv'] + max(0.02, j['h_0'] + bc_amp * (0.5 + 0.5 * math.sin(
            6.28 * t / period + phase[j['name']]))), 5)) for j in js if j['bc']}
        if rng.random() < 0.2 or i == 0:
            if controls:
                for key, tab in (('u_o', 'orifices'), ('u_w', 'weirs'), ('u_p', 'pumps')):
                    if world.get(tab):
                        u[key] = [float(rng.choice([0, 0.25, 0.5, 1.0, 1.0, round(rng.random(), 3)]))
                                  for _ in world[tab]]
        op = {'op': 'step', 'dt': dt, 'q': dict(q), 'h': h}
        if qi:
            op['qi'] = dict(qi)
        op.update({k: list(v) for k, v in u.items()})
        ops.append(op)
        t += dt
    return ops
