"""C14: how a network is written down, and which solver is used, makes no difference to what happens in it."""
import copy

import numpy as np

from sim import drive, netgen
from sim.core import Discard

ID = 'C14'
LEVEL = 'exploration'
RUNS = {'quick': 2500, 'thorough': 80000}
RULE = ('A seeded network is simulated beside a second description of it (rows reordered, conduits given from the other end, raised datum, '
        'an unconnected neighbour in the same model, other matrix solver, automatic reordering, or several of these) under seeded storms, tides, '
        'gate moves and roll-backs; before each step the second model takes over the state of the first (fail-over), after it they must agree.')
REAL = ['network model', 'dense, sparse and banded head solvers', 'compiled kernels']
STUB = ['rain, tide and operator signals', 'transfer of state between the two models']
ASSUMPTIONS = ['agreement up to 20 times the spread that perturbing the state in the eleventh digit causes in that step']
KINDS = ('nodes', 'links', 'controls', 'reverse', 'datum', 'beside', 'permute', 'solver', 'tables', 'reverse', 'tables')


def generate(rng, tier):
    big = tier == 'thorough'
    w = netgen.gen_world(rng, n_max=9 if big else 6, controls=0.6, tabular=0.3, transects=0.15, bc=rng.choice([0.2, .6]), ctrl=.2,
                         methods=('b', 'b', 'f'), wet=rng.choice([0.05, 0.3, 1.0, 2.0]), damping=.1)
    n = len(w['superjunctions'])
    v = {}
    for k in rng.sample(KINDS, rng.choice([1, 1, 2, 3])):
        if k == 'nodes':
            v[k] = rng.sample(range(n), n)
        elif k == 'links':
            v[k] = rng.sample(range(len(w['superlinks'])), len(w['superlinks']))
        elif k == 'controls':
            v[k] = {t: rng.sample(range(len(w[t])), len(w[t])) for t in ('orifices', 'weirs', 'pumps')}
        elif k == 'reverse':
            v[k] = [i for i in range(len(w['superlinks'])) if rng.random() < .6]
        elif k == 'datum':
            v[k] = rng.choice([100.0, -30.0, 12.3456, 1000.0, -7.125])
        elif k == 'beside':
            v[k] = {'world': netgen.gen_world(rng, n_max=4, controls=0.4, tabular=0.3, transects=.1, bc=.4, wet=rng.choice([.3, 1.]), methods=('b',), ends=0., explicit=float(bool(w.get('explicit')))),
                    'first': rng.random() < .5, 'q': round(rng.uniform(0, .2), 3)}
        elif k in ('permute', 'tables'):
            v[k] = True
        else:
            v[k] = rng.choice(['general', 'sparse', 'sparse', 'banded'])
    if 'tables' in v and 'beside' in v:
        del v['beside']
    ops = []
    for op in drive.gen_ops(rng, w, rng.randint(3, 50 if big else 12), negative=0.1):
        op.pop('banded', None)
        ops.append(op)
        if rng.random() < .1:
            ops.append({'op': 'undo'})
    return {'world': w, 'variant': v, 'ops': ops}


def rewrite(w, v):
    """The second description."""
    c = copy.deepcopy(w)
    order = list(range(len(w['superjunctions'])))
    if 'datum' in v:
        for j in c['superjunctions']:
            j['z_inv'] = j['z_inv'] + v['datum']
    for i in v.get('reverse', []):
        l = c['superlinks'][i]
        js = w['superjunctions']
        if js[l['sj_0']]['z_inv'] + l['in_offset'] > js[l['sj_1']]['z_inv'] + l['out_offset'] + 1e-5:
            for a, b in (('sj_0', 'sj_1'), ('in_offset', 'out_offset'), ('C_uk', 'C_dk'), ('dx_uk', 'dx_dk')):
                if a in l:
                    l[a], l[b] = l[b], l[a]
            if w.get('explicit'):
                l['parts'], l['nodes'] = l['parts'][::-1], l['nodes'][::-1]
    for t, p in [('superlinks', v.get('links'))] + list((v.get('controls') or {}).items()):
        if p is not None:
            c[t] = [c[t][i] for i in p if i < len(c[t])]
    if 'nodes' in v:
        p = [i for i in v['nodes'] if i < len(order)]
        inv = {b: k for k, b in enumerate(p)}
        c['superjunctions'] = [c['superjunctions'][i] for i in p]
        for t in ('superlinks', 'orifices', 'weirs', 'pumps'):
            for row in c[t]:
                row['sj_0'], row['sj_1'] = inv[row['sj_0']], inv[row['sj_1']]
    if 'tables' in v and not c.get('explicit'):
        # the tables of links and junctions that the model would have made itself
        n = c['options'].pop('internal_links')
        for l in c['superlinks']:
            l['parts'] = [dict({k: l[k] for k in netgen.PART}, dx=l['dx'] / n) for _ in range(n)]
            l['nodes'] = [{'bump': 0., 'h_0': l['h_0'], 'A_s': l['A_s']} for _ in range(n + 1)]
        c['explicit'] = True
    if 'beside' in v:
        o = copy.deepcopy(v['beside']['world'])
        for j in o['superjunctions']:
            j['name'] = 'X' + j['name']
            if j['table']:
                j['table'] = 'X' + j['table']
        for l in o['superlinks']:
            l['name'] = 'X' + l['name']
            if l.get('transect'):
                l['transect'] = 'X' + l['transect']
        for t in ('storages', 'transects'):
            c[t].update({'X' + k: x for k, x in o[t].items()})
        a, b = (o, c) if v['beside']['first'] else (c, o)
        shift = len(a['superjunctions'])
        for t in ('superlinks', 'orifices', 'weirs', 'pumps'):
            for row in b[t]:
                row['sj_0'] += shift
                row['sj_1'] += shift
            c[t] = a[t] + b[t]
        c['superjunctions'] = a['superjunctions'] + b['superjunctions']
        keys = set(k for l in c['superlinks'] for k in l)
        for l in c['superlinks']:
            for k in keys:
                l.setdefault(k, 1 / .67**2 if k in ('C_uk', 'C_dk') else 0.0)
    if 'permute' in v:
        c['options']['auto_permute'] = not c['options']['auto_permute']
    if v.get('solver') == 'sparse':
        c['options']['sparse'] = not c['options'].get('sparse', False)
    return c


ENDS = {'Q_uk': 'Q_dk', 'Q_dk': 'Q_uk', 'A_uk': 'A_dk', 'A_dk': 'A_uk', '_theta_uk': '_theta_dk', '_theta_dk': '_theta_uk'}


SHAKEN = ('H_j', 'h_Ik', 'Q_ik', 'Q_uk', 'Q_dk')


def shaken(snap, eps, seed):
    s = copy.deepcopy(snap)
    g = np.random.default_rng(seed)
    for k in SHAKEN:
        x = np.array(s[k], float)
        s[k] = x * (1 + eps * g.choice([-1., 1.], x.size))
    return s


def turned(w, c):
    """Names of the conduits that run the other way in world c than in world w."""
    def runs(w):
        js, out = w['superjunctions'], {}
        for l in w['superlinks']:
            a, b = js[l['sj_0']], js[l['sj_1']]
            # conduits of which only the ends are given run downhill, those given in tables as given
            flip = not w.get('explicit') and a['z_inv'] + l['in_offset'] < b['z_inv'] + l['out_offset']
            out[l['name']] = (b if flip else a)['name']
        return out
    p, q = runs(w), runs(c)
    return {n for n in p if p[n] != q[n]}


class Twin:
    """The second model, with the correspondence of its elements to those of the first."""

    def __init__(self, scn, base):
        w, v = scn['world'], scn['variant']
        self.v = v
        self.w = rewrite(w, v)
        self.rig = drive.Rig(self.w)
        m, b = self.rig.m, base.m
        self.m = m
        self.node = np.array([self.rig.row[n] for n in base.names])
        lr = self.rig.lrow
        links = [str(n) for n in b.superlink_names]
        self.link = np.array([lr[n] for n in links])
        # conduits that run the other way in this description: junctions in the opposite order, flows of opposite sign
        self.turned = np.array([n in turned(w, self.w) for n in links])
        self.sign = {'i': np.concatenate([np.full(b.nk[k], -1. if t else 1.) for k, t in enumerate(self.turned)]), 'k': np.where(self.turned, -1., 1.)}
        way = [-1 if t else 1 for t in self.turned]
        self.I = np.concatenate([np.arange(m._I_1k[lr[n]], m._I_Np1k[lr[n]] + 1)[::d] for n, d in zip(links, way)]).astype(int)
        self.i = np.concatenate([np.arange(m._i_1k[lr[n]], m._i_1k[lr[n]] + m.nk[lr[n]])[::d] for n, d in zip(links, way)]).astype(int)
        self.bI = np.concatenate([np.arange(b._I_1k[k], b._I_Np1k[k] + 1) for k in range(b.NK)]).astype(int)
        self.bi = np.concatenate([np.arange(b._i_1k[k], b._i_1k[k] + b.nk[k]) for k in range(b.NK)]).astype(int)
        self.ctrl = {}
        for t in ('orifices', 'weirs', 'pumps'):
            n = len(w[t])
            p = [i for i in (v.get('controls') or {}).get(t, range(n)) if i < n]
            off = len(v['beside']['world'][t]) if 'beside' in v and v['beside']['first'] else 0
            pos = {x: k for k, x in enumerate(p)}
            self.ctrl[t] = np.array([pos[x] + off for x in range(n)], int)
        self.datum = v.get('datum', 0.0)
        self.own = drive.snapshot(m)

    def groups(self):
        return (('H_j', self.node, None), ('A_sj', self.node, None), ('V_j', self.node, None), ('Q_uk', self.link, None), ('Q_dk', self.link, None),
                ('A_uk', self.link, None), ('A_dk', self.link, None), ('_theta_uk', self.link, None), ('_theta_dk', self.link, None),
                ('h_Ik', self.I, self.bI), ('Q_ik', self.i, self.bi), ('A_ik', self.i, self.bi),
                ('Q_o', self.ctrl['orifices'], None), ('Q_w', self.ctrl['weirs'], None), ('Q_p', self.ctrl['pumps'], None))

    def value(self, get, k, frm):
        """Values of the first model in the order and direction of the second."""
        x = np.array(get(k), float)
        x = x if frm is None else x[frm]
        other = ENDS.get(k)
        if other and self.turned.any():
            x = np.where(self.turned, np.array(get(other), float), x)
        if k in ('Q_uk', 'Q_dk'):
            x = x * self.sign['k']
        elif k == 'Q_ik':
            x = x * self.sign['i']
        return x

    def take_over(self, snap, eps=0.0, seed=0):
        s = copy.deepcopy(self.own)
        g = np.random.default_rng(seed)
        for k, to, frm in self.groups():
            if k in snap and k in s and to.size:
                x = self.value(snap.__getitem__, k, frm)
                if k == 'H_j':
                    x = x + self.datum
                if eps and k in SHAKEN:
                    x = x * (1 + eps * g.choice([-1., 1.], x.size))
                a = np.array(s[k], float)
                a[to] = x
                s[k] = a
        s['t'] = snap['t']
        self.m.load_state(s)

    def kwargs(self, kw, op, base):
        out = {'dt': kw['dt']}
        m = self.m
        q = np.full(m.M, self.v['beside']['q'] if 'beside' in self.v else 0.0)
        q[self.node] = kw['Q_in']
        out['Q_in'] = q
        if m.bc.any():
            h = np.array(self.own['H_j'], float)
            if 'H_bc' in kw:
                h[self.node] = kw['H_bc'] + self.datum
            out['H_bc'] = h
        if 'Q_0Ik' in kw:
            qi = np.zeros(m._I.size)
            qi[self.I] = kw['Q_0Ik'][self.bI]
            out['Q_0Ik'] = qi
        for key, t, n in (('u_o', 'orifices', m.n_o), ('u_w', 'weirs', m.n_w), ('u_p', 'pumps', m.n_p)):
            if n:
                u = np.full(n, .5)
                if key in kw:
                    u[self.ctrl[t]] = kw[key]
                out[key] = u
        if self.v.get('solver') in ('general', 'sparse'):
            out['banded'] = False
        elif self.v.get('solver') == 'banded':
            out['banded'] = True
        return out

    def report(self):
        m = self.m
        out = {}
        for k, to, frm in self.groups():
            if k[0] != '_' and to.size:
                x = np.array(getattr(m, k), float)[to]
                out[k] = x - self.datum if k == 'H_j' else x
        return out


def run(scn, ctx):
    w = scn['world']
    base = drive.Rig(w)
    m = base.m
    twin = Twin(scn, base)
    for k, v in scn['variant'].items():
        ctx.fault('described_' + k if k != 'solver' else 'solver_' + v)
    bw = lambda x: bool(getattr(x.m, 'banded', False))
    undoable = False
    for n, op in enumerate(scn['ops']):
        if op['op'] == 'undo':
            if undoable:
                ctx.sut(m.load_state)
                ctx.fault('undo')
                undoable = False
            continue
        snap = drive.snapshot(m)
        low = np.array([np.min(np.array(m.h_Ik)[m._I_1k[k]:m._I_Np1k[k] + 1]) < 1e-3 for k in range(m.NK)])
        kw = base.kwargs(op)
        other = []
        if twin.turned.any():
            # the sweep runs the other way: rounding is magnified differently in the two descriptions
            for seed in (1, 2):
                ctx.sut(m.load_state, shaken(snap, 1e-11, seed))
                ctx.sut(m.step, **kw)
                other.append({k: twin.value(lambda key: getattr(m, key), k, frm) for k, to, frm in twin.groups() if hasattr(m, k) and to.size})
            ctx.sut(m.load_state, snap)
        ctx.sut(m.step, **kw)
        undoable = True
        ctx.advance(op['dt'])
        if not drive.sane(m, 1e5):
            ctx.probe('diverged')
            break
        if w['options'].get('bc_method') == 'b' and max(np.abs(snap[k]).max() for k in ('Q_uk', 'Q_dk')) > 1e4:
            # right after construction the end flows may be spurious and huge: end heads are differences of such terms
            ctx.probe('ill_conditioned_steps')
            continue
        tk = twin.kwargs(kw, op, base)
        got = []
        for eps, seed in ((0.0, 0), (1e-11, 1), (1e-11, 2)):
            ctx.sut(twin.take_over, snap, eps, seed)
            ctx.sut(twin.m.step, **tk)
            got.append(twin.report())
        a, dry = {}, {}
        for k, to, frm in twin.groups():
            if k in got[0]:
                a[k] = twin.value(lambda key: getattr(m, key), k, frm)
                if k in ('h_Ik', 'Q_ik'):
                    # the sweep through a nearly dry conduit magnifies rounding, and the order of terms is its own
                    x = low[np.asarray(m._kI if k == 'h_Ik' else m._ki)]
                    dry[k] = x if frm is None else x[frm]
        limits = None
        if twin.turned.any():
            # a depth held at its limit is carried on along the sweep, which runs the other way
            t = twin.m
            bad = np.array([twin.turned[k] and bool(low[k] or (np.array(m.h_Ik)[m._I_1k[k]:m._I_Np1k[k] + 1] <= m.min_depth * 1.0001).any() or (
                np.array(t.h_Ik)[t._I_1k[j]:t._I_Np1k[j] + 1] <= t.min_depth * 1.0001).any()) for k, j in enumerate(twin.link)])
            limits = {'h_Ik': bad[np.asarray(m._kI)][twin.bI], 'Q_ik': bad[np.asarray(m._ki)][twin.bi]}
        skip = False
        for k in ('H_j', 'h_Ik', 'Q_uk', 'Q_dk', 'Q_ik', 'Q_o', 'Q_w', 'Q_p', 'A_ik', 'A_sj', 'V_j'):
            if k not in got[0] or not a[k].size:
                continue
            spread = max(np.abs(got[0][k] - got[1][k]).max(), np.abs(got[0][k] - got[2][k]).max())
            for o in other:
                spread = max(spread, np.abs(a[k] - o[k]).max())
            tol = 1e-8 * (1 + np.abs(a[k]) + 1e-3 * abs(twin.datum)) + 20 * spread
            if k in dry:
                tol = np.where(dry[k], np.maximum(tol, 1e-5 * (1 + np.abs(a[k]))), tol)
            if limits and k in limits:
                tol = np.where(limits[k], np.inf, tol)
            if not np.isfinite(spread) or np.where(np.isinf(tol), 0., tol).max() > 1e-3 * (1 + np.abs(a[k]).max()):
                skip = True
                continue
            ctx.close('description-matters-' + k, got[0][k], a[k], tol, lambda: 'step %d, %s' % (n, sorted(scn['variant'])))
        ctx.probe('ill_conditioned_steps' if skip else 'steps_compared')
        if bw(base) != bw(twin.rig):
            ctx.probe('banded_against_general')
        ctx.log(n, *[a[k] for k in sorted(a)])
        ctx.state(m.H_j, m.h_Ik, m.Q_ik)


def shrink(scn):
    for k in scn['variant']:
        if len(scn['variant']) > 1:
            c = copy.deepcopy(scn)
            del c['variant'][k]
            yield c
    if 'nodes' in scn['variant'] or 'links' in scn['variant'] or 'controls' in scn['variant'] or 'reverse' in scn['variant']:
        return
    for w in netgen.shrink_world(scn['world']):
        c = copy.deepcopy(scn)
        c['world'] = w
        yield c
