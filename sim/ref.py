"""Independent reference for the discretised equations of the network model: section geometry,
storage curves, node balances, link continuity, link momentum and end-of-link head relations, written from
the equations, not from the implementation.  Nothing here calls the package."""
import math

import numpy as np

from sim import netgen

G = 9.81


# -- section geometry: flow area, wetted perimeter, top width at a depth ------------------------------
_GX, _GW = np.polynomial.legendre.leggauss(80)


def section(shape, g, y, table=None):
    """(A, Pe, B); None where the reference does not define the quantity."""
    if shape == 'irregular':
        return transect(table, y) if table else (None, None, None)
    g1, g2, g3, g4 = g[:4]
    y = max(y, 0.0)
    yc = min(y, g1)
    if shape == 'circular':
        r = g1 / 2
        th = math.acos(min(1.0, max(-1.0, 1 - yc / r)))
        return r * r * (th - math.sin(th) * math.cos(th)), 2 * r * th, (2 * r * math.sin(th) if y < g1 else g2 * g1)
    if shape == 'rect_closed':
        return yc * g2, g2 + 2 * yc, (g2 if y < g1 else g3 * g2)
    if shape == 'rect_open':
        return yc * g2, g2 + 2 * yc, g2
    if shape == 'triangular':
        return g2 * yc * yc, 2 * yc * math.sqrt(1 + g2 * g2), 2 * g2 * yc
    if shape == 'trapezoidal':
        return yc * (g2 + g3 * yc), g2 + 2 * yc * math.sqrt(1 + g3 * g3), g2 + 2 * g3 * yc
    if shape == 'elliptical':
        b, a = g1 / 2, g2 / 2
        th = math.asin(min(1.0, max(-1.0, (yc - b) / b)))
        mid, half = (th - math.pi / 2) / 2, (th + math.pi / 2) / 2
        t = mid + half * _GX
        return a * b * (math.pi / 2 + th + math.sin(th) * math.cos(th)), float(2 * half * (_GW * np.sqrt((a * np.sin(t)) ** 2 + (b * np.cos(t)) ** 2)).sum()), 2 * a * math.cos(th)
    if shape == 'parabolic':
        T = g2 * math.sqrt(yc / g1)         # half a chord every sqrt(depth)
        if yc < 1e-12:
            return 0.0, None, None
        x = 4 * yc / T
        return 2 * T * yc / 3, T / 2 * (math.sqrt(1 + x * x) + math.asinh(x) / x), (T if y <= g1 else None)
    if shape == 'wide':
        return yc * g2, g2, g2
    if shape == 'force_main':
        return math.pi * g1 * g1 / 4, math.pi * g1, g2 * g1
    if shape == 'floodplain':
        A, P, B, at = 0.0, g[6], g[6], 0.0
        for top, m in ((g2, g[4]), (g2 + g3, g[5]), (math.inf, g4)):
            t = max(min(yc, top) - at, 0.0)
            A += t * (B + m * t)
            P += 2 * t * math.sqrt(1 + m * m)
            B += 2 * m * t
            at = top
        return A, P if yc > 0 else 0.0, B if yc > 0 else 0.0
    return None, None, None


def under(x, y, w):
    """Area, wetted perimeter and width of a polygonal bed under the level w."""
    A = P = B = 0.0
    for x0, x1, y0, y1 in zip(x[:-1], x[1:], y[:-1], y[1:]):
        if min(y0, y1) >= w and not (y0 == w and y1 == w):
            continue
        if max(y0, y1) > w:             # cut at the level
            f = (w - min(y0, y1)) / abs(y1 - y0)
            dx, dy, mean = (x1 - x0) * f, w - min(y0, y1), (w - min(y0, y1)) / 2
        else:
            dx, dy, mean = x1 - x0, y1 - y0, w - (y0 + y1) / 2
        A += dx * mean
        P += math.hypot(dx, dy)
        B += dx
    return A, P, B


def transect(t, y):
    """Measured sections are sampled at equal depths and read linearly in between."""
    n = t.get('sample_points') or 100
    top = max(t['y'])
    if not 0 <= y <= top:
        y = min(max(y, 0.0), top)
    k = min(int(y / top * (n - 1)), n - 2)
    w = [top * q / (n - 1) for q in (k, k + 1)]
    f = (y - w[0]) / (w[1] - w[0])
    a, b = under(t['x'], t['y'], w[0]), under(t['x'], t['y'], w[1])
    A, P, B = [(1 - f) * p + f * q for p, q in zip(a, b)]
    R = [p[0] / p[1] if p[1] > 0 else 0.0 for p in (a, b)]
    return A, P, B, (1 - f) * R[0] + f * R[1]


def friction(method, n, Q, dx, A, R):
    """Head-loss coefficient of a link (multiplies Q in the momentum equation)."""
    if A <= 0:
        return 0.0
    if method == 'hw':
        return 1.354 * G * abs(Q) ** 0.85 * dx / A ** 0.85 / n ** 1.85 / R ** 1.1655
    if method == 'dw':
        re = abs(Q) / A * 4 * R / 0.0000010034
        f = 0.25 / math.log10(n / (3.7 * 4 * R) + 5.74 / re ** 0.9) ** 2 if re > 0 else 0.0
        return 0.01274 * G * f * abs(Q) * dx / (A * R)
    return G * n * n * abs(Q) * dx / A / R ** (4 / 3)


class Network:
    """Static description of a world, in the row order of a given model."""

    def __init__(self, world, m):
        self.w = world
        names = [str(n) for n in m.superjunction_names]
        by = {j['name']: j for j in world['superjunctions']}
        self.js = [by[n] for n in names]
        self.M = len(names)
        row = {n: i for i, n in enumerate(names)}
        orig = [j['name'] for j in world['superjunctions']]
        self.row = row
        self.z = np.array([j['z_inv'] for j in self.js])
        self.bc = np.array([j['bc'] for j in self.js])
        self.hmax = np.array([math.inf if j['max_depth'] is None else j['max_depth'] for j in self.js])
        self.hmin = world['options'].get('min_depth', 1e-5)
        self.links = []
        static = not world['options'].get('mobile_elements')
        for l in world['superlinks']:
            d = dict(l)
            a, b = orig[l['sj_0']], orig[l['sj_1']]
            if not world.get('explicit') and by[a]['z_inv'] + l['in_offset'] < by[b]['z_inv'] + l['out_offset']:
                a, b = b, a
                for p, q in (('in_offset', 'out_offset'), ('C_uk', 'C_dk'), ('dx_uk', 'dx_dk')):
                    if p in d and q in d:
                        d[p], d[q] = d[q], d[p]
            d['u'], d['d'] = row[a], row[b]
            d['zu'] = by[a]['z_inv'] + d['in_offset']
            d['zd'] = by[b]['z_inv'] + d['out_offset']
            ends = d.get('dx_uk', 0.) or 0., d.get('dx_dk', 0.) or 0.
            if world.get('explicit'):
                d['parts'] = [dict(p) for p in l['parts']]
                z = netgen.bottoms(l, by[orig[l['sj_0']]]['z_inv'] + l['in_offset'], by[orig[l['sj_1']]]['z_inv'] + l['out_offset'])
                S = [n['A_s'] for n in l['nodes']]
                d['dx'] = sum(p['dx'] for p in d['parts'])
            else:
                n = int(m.nk[len(self.links)]) if static else 1
                d['parts'] = [dict({k: l[k] for k in netgen.PART}, dx=l['dx'] / n) for _ in range(n)]
                m0 = (d['zd'] - d['zu']) / (l['dx'] + sum(ends))
                z = [d['zu'] + m0 * (ends[0] + k * l['dx'] / n) for k in range(n + 1)]
                S = [l['A_s']] * (n + 1)
            for p in [d] + d['parts']:
                slot = {'circular': 'g2', 'rect_closed': 'g3', 'force_main': 'g2'}.get(p['shape'])
                if slot and p[slot] == 0:
                    p[slot] = 0.001         # closed sections get a narrow slot when none is given
                p['g'] = tuple(p.get('g%d' % q, 0.) for q in range(1, 8))
                p['tr'] = world.get('transects', {}).get(p.get('transect'))
            d['z'], d['S'] = np.array(z), np.array(S, float)
            d['pdx'] = np.array([p['dx'] for p in d['parts']])
            d['So'] = -np.diff(d['z']) / d['pdx']
            d['So_u'] = (d['zu'] - z[0]) / ends[0] if ends[0] else 0.
            d['So_d'] = (z[-1] - d['zd']) / ends[1] if ends[1] else 0.
            self.links.append(d)
        self.has_ends = any(d.get('dx_uk') or d.get('dx_dk') for d in self.links)
        self.uk = np.array([d['u'] for d in self.links], int)
        self.dk = np.array([d['d'] for d in self.links], int)
        # control structures keep the direction they were given
        self.ctrl = {k: (np.array([row[orig[c['sj_0']]] for c in world.get(k, [])], int),
                         np.array([row[orig[c['sj_1']]] for c in world.get(k, [])], int))
                     for k in ('orifices', 'weirs', 'pumps')}

    # -- storage --------------------------------------------------------------------------------------
    def area(self, H):
        out = np.zeros(self.M)
        for i, j in enumerate(self.js):
            h = max(H[i] - j['z_inv'], self.hmin)
            out[i] = self.area_at(j, h)
        return out

    def area_at(self, j, h):
        if j['storage'] == 'functional':
            return j['a'] * h ** j['b'] + j['c']
        t = self.w['storages'][j['table']]
        return float(np.interp(h, t['h'], t['A']))

    def volume(self, H):
        """Volume stored in each node between its invert and the level H."""
        out = np.zeros(self.M)
        for i, j in enumerate(self.js):
            h = max(H[i] - j['z_inv'], self.hmin)
            if j['storage'] == 'functional':
                out[i] = j['a'] / (j['b'] + 1) * h ** (j['b'] + 1) + j['c'] * h
            else:
                t = self.w['storages'][j['table']]
                hs, As = t['h'], t['A']
                v = 0.0
                if h < hs[0]:
                    v = As[0] * h
                else:
                    v = As[0] * hs[0]
                    for q in range(len(hs) - 1):
                        top = min(h, hs[q + 1])
                        if top > hs[q]:
                            at = float(np.interp(top, hs, As))
                            v += (As[q] + at) / 2 * (top - hs[q])
                    if h > hs[-1]:
                        v += As[-1] * (h - hs[-1])
                out[i] = v
        return out

    def end_area(self, m, pre):
        """Surface of the half end cells that belongs to the nodes."""
        out = np.zeros(self.M)
        for k, L in enumerate(self.links):
            for p, node, dx, z, th, i, B in ((L['parts'][0], 'u', 'dx_uk', 'zu', pre['theta_uk'][k], m._I_1k[k], m._B_uk[k]),
                                             (L['parts'][-1], 'd', 'dx_dk', 'zd', pre['theta_dk'][k], m._I_Np1k[k], m._B_dk[k])):
                if L.get(dx):
                    H = pre['H_j'][L[node]]
                    b = section(p['shape'], p['g'], (pre['h_Ik'][i] + th * (H - L[z])) / 2)[2]
                    b = float(B) if b is None else b
                    out[L[node]] += b * L[dx] / 2 * (1.0 if H >= L[z] else 0.0)
        return out

    def clamped(self, H):
        d = H - self.z
        return ~((d > self.hmin * 1.0001 + 1e-12) & (d < self.hmax * 0.9999))

    def net_flow(self, m, Q_in, controls=True):
        """Net inflow to every node and the sum of magnitudes, from reported flows."""
        net, mag = np.array(Q_in, float), np.abs(np.array(Q_in, float))
        flows = [(self.uk, self.dk, np.array(m.Q_uk, float), np.array(m.Q_dk, float))]
        if controls:
            for k, a in (('orifices', 'Q_o'), ('weirs', 'Q_w'), ('pumps', 'Q_p')):
                if len(self.ctrl[k][0]):
                    q = np.array(getattr(m, a), float)
                    flows.append((self.ctrl[k][0], self.ctrl[k][1], q, q))
        for u, d, qu, qd in flows:
            np.subtract.at(net, u, qu)
            np.add.at(net, d, qd)
            np.add.at(mag, u, np.abs(qu))
            np.add.at(mag, d, np.abs(qd))
        return net, mag

    def components(self):
        """Sets of nodes tied together by control structures (the linearised flow moved through a structure
        is not what is reported, but it cancels within such a set)."""
        p = list(range(self.M))

        def find(i):
            while p[i] != i:
                i = p[i]
            return i
        for u, d in self.ctrl.values():
            for a, b in zip(u, d):
                p[find(int(a))] = find(int(b))
        out = {}
        for i in range(self.M):
            out.setdefault(find(i), []).append(i)
        return list(out.values())


class Links:
    """Per-link arrays of the static layout (no movable junctions)."""

    def __init__(self, net, m):
        self.net = net
        self.I0 = np.array(m._I_1k, int)
        self.I1 = np.array(m._I_Np1k, int)
        self.i0 = np.array(m._i_1k, int)
        self.nk = np.array(m.nk, int)

    def check(self, ctx, m, pre, kw, tol=1e-6, lsq=False):
        """Continuity at every interior junction, momentum on every link and the two end relations, for
        superlinks none of whose depths were held at a limit."""
        dt = kw['dt']
        net = self.net
        h1, Q1 = np.array(m.h_Ik, float), np.array(m.Q_ik, float)
        Quk, Qdk = np.array(m.Q_uk, float), np.array(m.Q_dk, float)
        H1 = np.array(m.H_j, float)
        qi = kw.get('Q_0Ik')
        done = 0
        hmaxk = np.array(m.max_depth_k, float)
        cl = net.clamped(H1)
        for k, L in enumerate(net.links):
            a, b = self.I0[k], self.I1[k] + 1
            s = slice(self.i0[k], self.i0[k] + self.nk[k])
            h, q = h1[a:b], Q1[s]
            if (h <= net.hmin * 1.0001).any() or (h >= hmaxk[k] * 0.9999).any():
                ctx.probe('superlink_at_depth_limit')
                continue
            n = self.nk[k]
            parts, dx, So = L['parts'], L['pdx'], L['So']
            first, last = parts[0], parts[-1]
            hp, qp = pre['h_Ik'][a:b], pre['Q_ik'][s]
            rep_A, rep_B = np.array(m.A_ik, float)[s], np.array(m.B_ik, float)[s]
            rep_R = np.array(m.R_ik, float)[s]
            A, B, R = np.empty(n), np.empty(n), np.empty(n)
            for i in range(n):
                Ai, Pi, Bi = section(parts[i]['shape'], parts[i]['g'], (hp[i] + hp[i + 1]) / 2)[:3]
                A[i] = rep_A[i] if Ai is None else Ai
                B[i] = rep_B[i] if Bi is None else Bi
                R[i] = rep_R[i] if (Pi is None or Ai is None) else (A[i] / Pi if Pi > 0 else 0.0)
            if A.min() < 1e-6:
                # nothing conveys the momentum of an empty link
                ctx.probe('superlink_with_dry_link')
                continue
            # ends
            zu, zd = L['zu'], L['zd']
            hu = pre['theta_uk'][k] * (pre['H_j'][L['u']] - zu)
            hd = pre['theta_dk'][k] * (pre['H_j'][L['d']] - zd)
            Au = section(first['shape'], first['g'], (hp[0] + hu) / 2)
            Ad = section(last['shape'], last['g'], (hp[-1] + hd) / 2)
            Auk = float(m.A_uk[k]) if Au[0] is None else Au[0]
            Adk = float(m.A_dk[k]) if Ad[0] is None else Ad[0]
            if net.w['options'].get('bc_method') == 'b' and min(Auk, Adk) < 1e-6:
                # nor that of an empty end cell
                ctx.probe('superlink_with_dry_end')
                continue
            if net.w['options'].get('bc_method') == 'b' and max(
                    abs(pre['Q_%sk' % e][k]) * (L.get('dx_%sk' % e, 0.) / dt + abs(pre['Q_%sk' % e][k]) / Ae) / (G * Ae) for e, Ae in (('u', Auk), ('d', Adk))) > 1e4:
                # the head of the end cell is the small difference of two huge terms
                ctx.probe('superlink_ill_conditioned')
                continue
            Buk = float(m._B_uk[k]) if Au[2] is None else Au[2]
            Bdk = float(m._B_dk[k]) if Ad[2] is None else Ad[2]
            # continuity
            E = L['S'].copy()
            E[:-1] += B * dx / 2
            E[1:] += B * dx / 2
            E[0] += Buk * L.get('dx_uk', 0.0) / 2
            E[-1] += Bdk * L.get('dx_dk', 0.0) / 2
            # momentum coefficients
            u = np.where(A > 0, qp_div(qp, A), 0.0)
            uI, uE = u.copy(), u.copy()
            if n > 1:
                mid = (dx[1:] * u[:-1] + dx[:-1] * u[1:]) / (dx[1:] + dx[:-1])
                uI[1:] = mid
                uE[:-1] = mid
            sig = np.ones(n)
            if net.w['options'].get('inertial_damping'):
                with np.errstate(all='ignore'):
                    fr = np.where((A > 0) & (B > 0), np.abs(u) / np.sqrt(G * A / B), 0.0)
                if not np.isfinite(fr).all() or (np.abs(fr - 0.5) < 1e-6).any():
                    continue
                sig = np.where(fr < 0.5, 1.0, np.where(fr > 1, 0.0, 2 * (1 - fr)))
            ca, cc = -np.maximum(uI, 0) * sig, -np.maximum(-uE, 0) * sig
            cb = dx / dt * sig - ca - cc
            for i in range(n):
                p = parts[i]
                cb[i] += friction(p['friction_method'], p['n'], qp[i], dx[i], A[i], R[i])
                if p['ctrl']:
                    cb[i] += p['C'] * A[i] * abs(qp[i]) / p['A_c'] ** 2
            if not lsq and amplification(ca, cb, cc, E / dt, A) > 1e6:
                # rounding errors grow along the sweep through nearly dry or supercritical reaches
                ctx.probe('superlink_ill_conditioned')
                continue
            inflow = np.concatenate([[Quk[k]], q]) - np.concatenate([q, [Qdk[k]]])
            if qi is not None:
                inflow = inflow + qi[a:b]
            stor = E * (h - hp) / dt
            # the numbers the solver itself adds and subtracts are E*h/dt
            scale = E * (np.abs(h) + np.abs(hp)) / dt + np.abs(np.concatenate([[Quk[k]], q])) + np.abs(
                np.concatenate([q, [Qdk[k]]])) + 1e-6
            where = lambda: 'superlink %s (%s)' % (L['name'], first['shape'])
            ctx.close('superlink-continuity', stor.sum(), inflow.sum(), (1e-3 if lsq else tol) * scale.sum(), where)
            ctx.close('junction-continuity', stor, inflow, (0.05 if lsq else tol) * scale, where)
            # momentum
            P = qp * dx / dt * sig + G * A * So * dx
            qm = np.concatenate([[Quk[k]], q[:-1]])
            qn = np.concatenate([q[1:], [Qdk[k]]])
            terms = [ca * qm, cb * q, cc * qn, -P, -G * A * (h[:-1] - h[1:])]
            mag = sum(np.abs(t) for t in terms[:4]) + G * A * (np.abs(h[:-1]) + np.abs(h[1:])) + 1e-6
            ctx.close('link-momentum', sum(terms), np.zeros(n), (0.05 if lsq else tol) * mag, where)
            # end relations: junction depth against node level
            thu = 1.0 if pre['H_j'][L['u']] >= zu else 0.0
            thd = 1.0 if pre['H_j'][L['d']] >= zd else 0.0
            full = net.w['options'].get('bc_method') == 'b'     # momentum of the end cell, else the entrance loss alone
            for end, p, node, z, sec, Ae, hJ, Qe, th, s in (('u', first, L['u'], zu, Au, Auk, h[0], Quk[k], thu, -1.),
                                                            ('d', last, L['d'], zd, Ad, Adk, h[-1], Qdk[k], thd, 1.)):
                if abs(pre['H_j'][node] - z) <= 1e-9 or cl[node] or not Ae > 0:
                    continue
                Qp = pre['Q_%sk' % end][k]
                terms = [th * (H1[node] - z), s * abs(Qp) * L.get('C_%sk' % end, 1 / .67 ** 2) / (2 * G * Ae ** 2) * Qe]
                if full:
                    dxe = L.get('dx_%sk' % end, 0.0)
                    Re = float(getattr(m, '_R_%sk' % end)[k]) if sec[0] is None or sec[1] is None else Ae / sec[1]
                    terms += [s * friction(p['friction_method'], p['n'], Qp, dxe, Ae, Re) / (G * Ae) * Qe,
                              s * dxe / (G * Ae * dt) * Qe, -s * dxe / (G * Ae * dt) * Qp, -s * L['So_' + end] * dxe]
                ctx.close(('upstream' if end == 'u' else 'downstream') + '-end-head', hJ, sum(terms), (0.05 if lsq else 10 * tol) * (
                    abs(hJ) + sum(abs(t) for t in terms[1:]) + abs(H1[node]) + abs(z) + 1e-3), where)
            done += 1
        ctx.probe('superlinks_checked', done)
        return done


def amplification(a, b, c, E, A):
    """How much the alternating sweep through a conduit magnifies a rounding error: the product of the
    ratios of its forward and backward discharge-depth coefficients."""
    n = len(a)
    U, X = np.zeros(n), np.zeros(n)
    with np.errstate(all='ignore'):
        U[0] = (c[0] * E[1] - G * A[0]) / (a[0] + b[0] + c[0])
        for i in range(1, n):
            d = E[i] - U[i - 1]
            U[i] = (c[i] * E[i + 1] - G * A[i]) / (b[i] + c[i] + (G * A[i] - a[i] * U[i - 1]) / d)
        X[n - 1] = (G * A[n - 1] - a[n - 1] * E[n - 1]) / (a[n - 1] + b[n - 1] + c[n - 1])
        for i in range(n - 2, -1, -1):
            d = E[i + 1] + X[i + 1]
            X[i] = (G * A[i] - a[i] * E[i]) / (a[i] + b[i] + (c[i] * X[i + 1] + G * A[i]) / d)
        r = np.abs(U / X)
    r = np.where(np.isfinite(r), r, 1e30)
    worst = g = 1.0
    for v in r[::-1]:
        g = max(1.0, g * v)
        worst = max(worst, g)
    return float(worst)


def qp_div(q, a):
    with np.errstate(all='ignore'):
        return q / a


def before(m):
    """What the reference needs to know about the state a step starts from."""
    return {'H_j': np.array(m.H_j, float), 'h_Ik': np.array(m.h_Ik, float), 'Q_ik': np.array(m.Q_ik, float),
            'Q_uk': np.array(m.Q_uk, float), 'Q_dk': np.array(m.Q_dk, float),
            'theta_uk': np.array(m._theta_uk, float), 'theta_dk': np.array(m._theta_dk, float)}
