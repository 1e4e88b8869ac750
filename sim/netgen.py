"""Generation of drainage-network worlds as pure JSON, and construction of the real model from one.

A world is a dict of plain lists/numbers/strings, so that a scenario file is a complete, exactly
repeatable description of an execution.
"""
import copy
import math

SHAPES = ['circular', 'rect_closed', 'rect_open', 'triangular', 'trapezoidal', 'parabolic',
          'elliptical', 'wide', 'force_main', 'floodplain']


def r(x, n=4):
    return float(round(x, n))


def gen_shape(rng, shapes):
    s = rng.choice(shapes)
    d = r(rng.uniform(0.6, 2.5), 2)
    g = {'circular': [d, 0., 0., 0.], 'force_main': [d, 0.0002, 0., 0.],
         'rect_closed': [d, r(rng.uniform(0.5, 3), 2), 0., 0.],
         'rect_open': [r(d * 2, 2), r(rng.uniform(0.5, 4), 2), 0., 0.],
         'triangular': [r(d * 2, 2), r(rng.uniform(0.5, 2), 2), 0., 0.],
         'trapezoidal': [r(d * 2, 2), r(rng.uniform(0.5, 2), 2), r(rng.uniform(0.3, 2), 2), 0.],
         'parabolic': [r(d * 2, 2), r(rng.uniform(1, 4), 2), 0., 0.],
         'elliptical': [d, r(rng.uniform(0.3, 1.5), 2), 0., 0.],
         'wide': [r(d * 2, 2), r(rng.uniform(1, 6), 2), 0., 0.],
         'floodplain': [r(d * 2, 2), r(d * rng.uniform(.2, .6), 2), r(d * rng.uniform(.2, .8), 2)] + [r(rng.uniform(*u), 2) for u in ((0, 2), (0, 2), (.2, 6))] +
                       [r(rng.choice([0, rng.uniform(.2, 2)]) + (.3 if s == 'floodplain' else 0), 2)]}[s]
    return s, g + [0.] * (7 - len(g))


def gen_pump(rng, lift):
    # Q = (max(a_p - dH, 0) / b_p)^(1/c_p) style curve between dH_min and dH_max
    hi = r(max(lift, 0.2) + rng.uniform(1., 4.), 2)
    return {'a_p': r(hi * rng.uniform(1.05, 1.6), 3), 'b_p': r(rng.uniform(20, 400), 2),
            'c_p': rng.choice([1.5, 2.0, 2.0]), 'dH_min': r(rng.uniform(0.1, 0.5), 2), 'dH_max': hi}


def gen_world(rng, n_max=6, shapes=None, controls=0.0, tabular=0.0, bc=0.4, loops=True,
              methods=('b', 'b', 'b', 'f', 'lsq'), banded=0.3, mobile=0.0, offsets=0.3,
              bc_methods=('z', 'z', 'z', 'b'), ctrl=0.1, internal=None, min_depths=(1e-5,), storage_b=0.3,
              wet=None, reverse=0.15, transects=0.0, nk=None, max_depth=0.2,
              slopes=(0.0005, 0.02), lengths=(20., 300.), frictions=0.2, ends=0.25, damping=0.0, explicit=0.1):
    n = rng.randint(2, n_max)
    topo = rng.choice(['chain', 'tree', 'star', 'loop', 'parallel'] if loops else ['chain', 'tree', 'star'])
    edges = []
    if topo == 'chain':
        edges = [(i, i + 1) for i in range(n - 1)]
    elif topo == 'star':
        edges = [(i, n - 1) for i in range(n - 1)]
    else:
        edges = [(i, rng.randint(i + 1, n - 1)) for i in range(n - 1)]
        if topo == 'loop' and n > 2:
            for _ in range(rng.randint(1, 2)):
                i = rng.randint(0, n - 2)
                j = rng.randint(i + 1, n - 1)
                edges.append((i, j))
        if topo == 'parallel':
            edges.append(edges[rng.randrange(len(edges))])
    shapes = shapes or SHAPES
    # elevations: each node lies above everything it drains to
    z = [0.0] * n
    L = [r(rng.uniform(*lengths), 1) for _ in edges]
    S = [rng.uniform(*slopes) for _ in edges]
    for i in range(n - 1, -1, -1):
        cand = [z[b] + L[e] * S[e] for e, (a, b) in enumerate(edges) if a == i]
        z[i] = r(max(cand), 4) if cand else r(rng.uniform(0.0, 2.0), 4)
    order = list(range(n))
    rng.shuffle(order)          # superjunction numbering is not in flow order
    wet = rng.choice([0.0, 1e-5, 0.05, 0.3, 1.0]) if wet is None else wet
    junctions = [None] * n
    tables = {}
    has_bc = False
    for i in range(n):
        out = all(a != i for a, _ in edges)
        isbc = (rng.random() < (bc if out else bc * 0.15))
        has_bc = has_bc or isbc
        st, tb = 'functional', None
        a, b, c = 0.0, 0.0, r(rng.uniform(2, 60), 2)
        if rng.random() < storage_b:
            a, b, c = r(rng.uniform(1, 20), 2), rng.choice([0.5, 1.0, 1.5, 2.0]), r(rng.uniform(1, 20), 2)
        if rng.random() < tabular:
            npts = rng.randint(2, 6)
            hs = [0.0]
            for _ in range(npts - 1):
                hs.append(r(hs[-1] + rng.uniform(0.3, 2.0), 3))
            As = sorted(r(rng.uniform(2, 80), 2) for _ in range(npts))
            nm = 'S%d' % len(tables)
            tables[nm] = {'h': hs, 'A': As}
            st, tb = 'tabular', nm
        junctions[order[i]] = {'name': 'J%d' % order[i], 'z_inv': z[i],
                               'h_0': r(max(1e-5, wet * rng.uniform(0.3, 1.5)), 6),
                               'bc': bool(isbc), 'storage': st, 'table': tb, 'a': a, 'b': b, 'c': c,
                               'max_depth': r(rng.uniform(1.5, 4.0), 2) if rng.random() < max_depth else None}
    links = []
    trans = {}
    for e, (i, j) in enumerate(edges):
        s, g = gen_shape(rng, shapes)
        tr = None
        if rng.random() < transects:
            nm = 'T%d' % len(trans)
            w = r(rng.uniform(2, 10), 2)
            d = r(rng.uniform(1.5, 4), 2)
            m = rng.randint(3, 7)
            xs = [r(w * q / (m - 1), 3) for q in range(m)]
            ys = [r(d * abs(2 * q / (m - 1) - 1) ** rng.uniform(0.6, 1.6), 3) for q in range(m)]
            trans[nm] = {'x': xs, 'y': ys, 'sample_points': rng.choice([20, 50, None])}
            s, g, tr = 'irregular', [d] + [0.] * 6, nm
        io = r(rng.uniform(0, 0.3), 3) if rng.random() < offsets else 0.0
        oo = 0.0
        if rng.random() < offsets:
            drop = z[i] + io - z[j]
            oo = r(rng.uniform(0, 0.5) * max(drop, 0.0), 4)
        hasctrl = rng.random() < ctrl
        a, b = order[i], order[j]
        if rng.random() < reverse:
            a, b, io, oo = b, a, oo, io
        if s == 'force_main':
            fm = rng.choice(['hw', 'hw', 'dw'])
        else:
            fm = rng.choice(['hw', 'dw']) if rng.random() < frictions else 'cm'
        nn = {'cm': r(rng.uniform(0.01, 0.04), 4), 'hw': r(rng.uniform(90, 140), 1), 'dw': r(rng.uniform(1e-4, 2e-3), 5)}[fm]
        links.append({'name': 'L%d' % e, 'sj_0': a, 'sj_1': b, 'in_offset': io, 'out_offset': oo,
                      'dx': L[e], 'n': nn, 'friction_method': fm,
                      'shape': s, 'transect': tr, 'g1': g[0], 'g2': g[1], 'g3': g[2], 'g4': g[3], 'g5': g[4], 'g6': g[5], 'g7': g[6],
                      'Q_0': 0.0, 'h_0': r(max(1e-5, wet * 0.5 * rng.uniform(0.5, 1.5)), 6),
                      'A_s': r(rng.uniform(0.2, 2.0), 3), 'ctrl': bool(hasctrl),
                      'A_c': r(rng.uniform(0.2, 1.0), 3) if hasctrl else 0.0,
                      'C': 0.67 if hasctrl else 0.0,
                      'C_uk': rng.choice([0.67, 0.67, 0.8, 1.0]), 'C_dk': rng.choice([0.67, 0.67, 0.8, 1.0])})
    if rng.random() < ends:
        for l in links:
            l['dx_uk'], l['dx_dk'] = r(rng.choice([0, rng.uniform(0.5, 10)]), 2), r(rng.choice([0, rng.uniform(0.5, 10)]), 2)
    if nk is None:
        nk = internal if internal is not None else rng.choice([2, 3, 4, 4, 6, 8])
    w = {'superjunctions': junctions, 'superlinks': links, 'storages': tables, 'transects': trans,
         'orifices': [], 'weirs': [], 'pumps': [],
         'options': {'internal_links': nk, 'method': rng.choice(list(methods)),
                     'auto_permute': rng.random() < banded, 'bc_method': rng.choice(list(bc_methods)),
                     'mobile_elements': rng.random() < mobile, 'min_depth': rng.choice(list(min_depths)),
                     'dt': rng.choice([5, 10, 30, 60])}}
    if rng.random() < .1:
        w['options']['sparse'] = True
    if rng.random() < .1:
        for l in links:
            del l['C_uk'], l['C_dk']
    if rng.random() < damping:
        w['options']['inertial_damping'] = True
    if rng.random() < .05:
        w['roughness'] = True
    if not w['options']['mobile_elements'] and rng.random() < explicit:
        give_parts(rng, w, shapes, ctrl, frictions)
    if rng.random() < controls:
        for _ in range(rng.randint(1, 2)):
            kind = rng.choice(['orifices', 'weirs', 'pumps'])
            i = rng.randint(0, n - 2)
            j = rng.randint(i + 1, n - 1)
            a, b = order[i], order[j]
            if kind == 'orifices':
                w['orifices'].append({'name': 'O', 'sj_0': a, 'sj_1': b,
                                      'orientation': rng.choice(['bottom', 'side']), 'C': 0.67,
                                      'A': r(rng.uniform(0.05, 0.5), 3), 'y_max': r(rng.uniform(0.2, 0.8), 2),
                                      'z_o': r(rng.uniform(0, 0.3), 2), 'oneway': bool(rng.random() < .5)})
            elif kind == 'weirs':
                w['weirs'].append({'name': 'W', 'sj_0': a, 'sj_1': b, 'z_w': r(rng.uniform(0.1, 0.6), 2),
                                   'y_max': r(rng.uniform(0.5, 1.5), 2), 'Cr': 1.838, 'Ct': 1.38,
                                   'L': r(rng.uniform(0.3, 2), 2), 's': r(rng.uniform(0, 1), 2)})
            else:
                w['pumps'].append({'name': 'P', 'sj_0': b, 'sj_1': a, 'z_p': r(rng.uniform(0, 0.2), 2),
                                   **gen_pump(rng, z[i] - z[j])})
    return w


def give_parts(rng, w, shapes, ctrl, frictions):
    """Tables of links and junctions of the user: conduits cut into different numbers of unequal pieces, each with a section,
    roughness and slope of its own."""
    w['options'].pop('internal_links')
    uniform = rng.random() < .5
    for l in w['superlinks']:
        n = rng.choice([1, 2, 3, 3, 4, 6, 9])
        f = [rng.uniform(.3, 1.) for _ in range(n)]
        dx = [r(x * l['dx'] / sum(f), 2) for x in f]
        l['dx'] = r(sum(dx), 2)
        l['parts'] = []
        for k in range(n):
            p = {key: l[key] for key in PART}
            p['dx'] = dx[k]
            if not uniform and l['shape'] not in ('irregular', 'force_main'):
                g = 1 if l['shape'] in ('circular', 'rect_closed', 'elliptical') else 7 if l['shape'] == 'floodplain' else 2
                p['g%d' % g] = r(p['g%d' % g] * rng.uniform(.8, 1.25), 3)
                p['n'] = r(p['n'] * rng.uniform(.7, 1.4), 6 if p['friction_method'] == 'dw' else 4)
                if rng.random() < ctrl and not p['ctrl']:
                    p.update(ctrl=True, A_c=r(rng.uniform(.2, 1.), 3), C=0.67)
            l['parts'].append(p)
        fall = rng.uniform(.0005, .004)
        # height of each junction above the straight line from end to end, and its depth and surface
        l['nodes'] = [{'bump': 0. if uniform or k in (0, n) else r(rng.uniform(-1, 1) * fall * min(dx[k - 1], dx[k]), 4), 'h_0': r(max(1e-5, l['h_0'] * rng.uniform(.7, 1.3)), 6),
                       'A_s': l['A_s'] if uniform else r(l['A_s'] * rng.uniform(.5, 2.), 3)} for k in range(n + 1)]
    w['explicit'] = True


PART = ('n', 'friction_method', 'shape', 'transect', 'g1', 'g2', 'g3', 'g4', 'g5', 'g6', 'g7', 'Q_0', 'ctrl', 'A_c', 'C')


def bottoms(l, zu, zd):
    """Bottom elevations of the junctions of a conduit given in pieces, from its first end to its second."""
    x = l.get('dx_uk', 0.) or 0.
    tot = x + sum(p['dx'] for p in l['parts']) + (l.get('dx_dk', 0.) or 0.)
    out = []
    for k, node in enumerate(l['nodes']):
        out.append(zu + (zd - zu) * x / tot + node['bump'])
        if k < len(l['parts']):
            x += l['parts'][k]['dx']
    return out


def part_tables(w):
    links, junctions, j0, j1 = [], [], [], []
    js = w['superjunctions']
    for k, l in enumerate(w['superlinks']):
        z = bottoms(l, js[l['sj_0']]['z_inv'] + l['in_offset'], js[l['sj_1']]['z_inv'] + l['out_offset'])
        j0.append(len(junctions))
        for n, p in enumerate(l['parts']):
            links.append(dict(p, id=len(links), k=k, j_0=j0[-1] + n, j_1=j0[-1] + n + 1))
        for n, node in enumerate(l['nodes']):
            junctions.append({'id': len(junctions), 'k': k, 'h_0': node['h_0'], 'A_s': node['A_s'], 'z_inv': z[n]})
        j1.append(len(junctions) - 1)
    return links, junctions, j0, j1


def tables(world):
    """The pandas tables a user would pass (fresh objects on every call)."""
    import numpy as np
    import pandas as pd
    w = copy.deepcopy(world)
    sj = pd.DataFrame(w['superjunctions'])
    sj['max_depth'] = [math.inf if v is None else v for v in [j['max_depth'] for j in w['superjunctions']]]
    sj['bc'] = sj['bc'].astype(bool)
    sj.insert(0, 'id', np.arange(len(sj)))
    if not w.get('storages'):
        sj = sj.drop(columns='table')
    sl = pd.DataFrame(w['superlinks'])
    if not any(l.get('g7') or l.get('g6') or l.get('g5') for l in w['superlinks']):
        sl = sl.drop(columns=[c for c in ('g5', 'g6', 'g7') if c in sl])
    if w.get('roughness'):
        sl = sl.rename(columns={'n': 'roughness'})
    sl.insert(0, 'id', np.arange(len(sl)))
    if not w.get('transects'):
        sl = sl.drop(columns='transect')
    out = {'superjunctions': sj, 'superlinks': sl}
    for k in ('orifices', 'weirs', 'pumps'):
        out[k] = pd.DataFrame(w[k]) if w.get(k) else None
        if out[k] is not None:
            out[k].insert(0, 'id', np.arange(len(out[k])))
    if w.get('explicit'):
        links, junctions, j0, j1 = part_tables(w)
        out['links'], out['junctions'] = pd.DataFrame(links), pd.DataFrame(junctions)
        if not w.get('transects'):
            out['links'] = out['links'].drop(columns='transect')
        out['superlinks'] = sl.assign(j_0=j0, j_1=j1).drop(columns=[c for c in ('parts', 'nodes', 'dx', 'h_0', 'A_s') + PART if c in sl])
    out['storages'] = {k: {'h': np.array(v['h'], float), 'A': np.array(v['A'], float)}
                       for k, v in w.get('storages', {}).items()}
    out['transects'] = {k: {'x': np.array(v['x'], float), 'y': np.array(v['y'], float),
                            **({'sample_points': v['sample_points']} if v['sample_points'] else {})}
                        for k, v in w.get('transects', {}).items()}
    return out


def build(world, tabs=None, **over):
    from pipedream_solver.hydraulics import SuperLink
    t = tables(world) if tabs is None else tabs
    o = dict(world['options'])
    o.update(over)
    kw = {k: t[k] for k in ('orifices', 'weirs', 'pumps', 'links', 'junctions') if t.get(k) is not None}
    if t['storages']:
        kw['storages'] = t['storages']
    if t['transects']:
        kw['transects'] = t['transects']
    return SuperLink(t['superlinks'], t['superjunctions'], **kw, **o)


def _drop_node(w, k):
    c = copy.deepcopy(w)
    del c['superjunctions'][k]
    ren = lambda i: i - (i > k)
    for tab in ('superlinks', 'orifices', 'weirs', 'pumps'):
        rows = []
        for row in c.get(tab, []):
            if row['sj_0'] == k or row['sj_1'] == k:
                continue
            row['sj_0'], row['sj_1'] = ren(row['sj_0']), ren(row['sj_1'])
            rows.append(row)
        c[tab] = rows
    return c


def shrink_world(w):
    """Smaller or simpler worlds, most drastic first.  Candidates may be invalid; the caller runs them."""
    if not w:
        return
    if w.get('explicit'):
        c = copy.deepcopy(w)
        del c['explicit']
        for l in c['superlinks']:
            del l['parts'], l['nodes']
        c['options']['internal_links'] = 3
        yield c
    for tab in ('pumps', 'weirs', 'orifices'):
        for i in range(len(w.get(tab, []))):
            c = copy.deepcopy(w)
            del c[tab][i]
            yield c
    if len(w['superjunctions']) > 2:
        for k in range(len(w['superjunctions'])):
            c = _drop_node(w, k)
            if c['superlinks']:
                yield c
    if len(w['superlinks']) > 1:
        for k in range(len(w['superlinks'])):
            c = copy.deepcopy(w)
            del c['superlinks'][k]
            yield c
    o = w['options']
    for k, v in (('auto_permute', False), ('mobile_elements', False), ('method', 'b'), ('internal_links', 2),
                 ('internal_links', 4)):
        if k in o and o[k] != v and not (k == 'internal_links' and o[k] < v):
            c = copy.deepcopy(w)
            c['options'][k] = v
            yield c
    for i, l in enumerate(w['superlinks']):
        for k, v in (('ctrl', False), ('in_offset', 0.0), ('out_offset', 0.0)):
            if l.get(k):
                c = copy.deepcopy(w)
                c['superlinks'][i][k] = v
                if k == 'ctrl':
                    c['superlinks'][i].update(A_c=0.0, C=0.0)
                yield c
        if l['shape'] not in ('rect_open', 'irregular') and not w.get('explicit'):
            c = copy.deepcopy(w)
            c['superlinks'][i].update(shape='rect_open', g1=3.0, g2=2.0, g3=0., g4=0.,
                                      n=0.02, friction_method='cm')
            yield c
    for i, j in enumerate(w['superjunctions']):
        if j['storage'] == 'functional' and j['a']:
            c = copy.deepcopy(w)
            c['superjunctions'][i].update(a=0.0, b=0.0)
            yield c
        if j['storage'] == 'tabular':
            c = copy.deepcopy(w)
            c['superjunctions'][i].update(storage='functional', table=None)
            yield c
        if j.get('max_depth') is not None:
            c = copy.deepcopy(w)
            c['superjunctions'][i]['max_depth'] = None
            yield c
