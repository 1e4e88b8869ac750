"""C23: compiled kernels compute what their source says, and never reach outside their arrays."""
import contextlib
import copy
import sys

import numpy as np

from checks import c12, c22
from sim import drive, netgen, wq

ID = 'C23'
LEVEL = 'exploration'
RUNS = {'quick': 900, 'thorough': 30000}
WARMUP = 12
SECONDS = {'quick': 50}
RULE = ('A seeded system (network model, driver with gauge fusion, water-quality or infiltration model) runs through storms, tides, undo and moved junctions; at every step a copy of it takes the same step '
        'with every compiled kernel replaced by its own source run by the interpreter, which checks each array access; both must end in the same state up to rounding (tolerance from a perturbed copy).')
REAL = ['network model', 'simulation driver', 'Kalman filter', 'water-quality model', 'infiltration model', 'compiled kernels and their Python source']
STUB = ['rain, tide, loads and gauges', 'the execution mode of the kernels']
ASSUMPTIONS = ['rounding may differ between the two modes', 'steps that magnify a change of 1e-12 to more than 1e-3 are not compared']


def generate(rng, tier):
    scn = c22.generate(rng, tier)
    if scn['kind'] in ('model', 'sim') and rng.random() < .2 and not scn['world'].get('mobile'):
        scn['world']['options']['method'] = 'lsq'
    scn['ops'] = [o for o in scn['ops'] if o['op'] in ('step', 'undo')][:60 if tier == 'thorough' else 9]
    for o in scn['ops']:
        o.pop('fault', None)
    return scn


@contextlib.contextmanager
def interpreted():
    """Every compiled function of the package replaced by its source."""
    keep = []
    try:
        for name, mod in list(sys.modules.items()):
            if not name.startswith('pipedream_solver') or mod is None:
                continue
            for k, v in list(vars(mod).items()):
                if callable(getattr(v, 'py_func', None)):
                    keep.append((mod, k, v))
                    setattr(mod, k, v.py_func)
        with np.errstate(all='ignore'):
            yield len(keep)
    finally:
        for mod, k, v in keep:
            setattr(mod, k, v)


def flat(x, out, name=''):
    if isinstance(x, dict):
        for k in sorted(x):
            flat(x[k], out, '%s.%s' % (name, k))
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            flat(v, out, '%s[%d]' % (name, i))
    elif x is not None:
        out[name] = np.atleast_1d(np.array(x, float))
    return out


def shake(s, seed):
    r = np.random.RandomState(seed)
    mul = lambda v: np.array(v, float) * (1 + 1e-12 * r.uniform(-1, 1, np.shape(v)))
    if s.soil is not None:
        s.soil.F[:] = mul(s.soil.F)
        return
    m = s.rig.m
    m.H_j = m.z_inv_j + mul(m.H_j - m.z_inv_j)
    for k in ('_h_Ik', '_Q_ik', '_Q_uk', '_Q_dk', '_h_uk', '_h_dk'):
        setattr(m, k, mul(getattr(m, k)))
    if s.q is not None:
        for k in ('_c_j', '_c_Ik', '_c_ik', '_c_uk', '_c_dk'):
            if hasattr(s.q, k):
                setattr(s.q, k, mul(getattr(s.q, k)))


def run(scn, ctx):
    try:
        s = c22.System(scn)
    except AssertionError:
        ctx.probe('diverged')
        return
    undoable = False
    for n, op in enumerate(scn['ops']):
        if op['op'] == 'undo':
            if undoable and s.q is None and s.soil is None:
                s.undo()
                ctx.fault('undo')
                undoable = False
            continue
        parts = s.parts()
        twin = s.with_parts(copy.deepcopy(parts))
        probes = [s.with_parts(copy.deepcopy(parts)) for _ in range(2)]
        try:
            ctx.sut(s.step, op, allow=c22.STOP)
        except c22.STOP as e:
            ctx.probe('diverged')
            return
        ctx.advance(op['dt'])
        undoable = True
        if s.rig is not None and not drive.sane(s.rig.m, 1e4):
            ctx.probe('diverged')
            return
        try:
            with interpreted() as k:
                ctx.probe('kernels_interpreted', k)
                ctx.sut(twin.step, op, allow=c22.STOP)
        except c22.STOP as e:
            ctx.check(not isinstance(e, ValueError) , 'source-fails', lambda: 'op %d: %r' % (n, e))
            ctx.probe('interpreted_stopped')
            return
        a, b = flat(s.look(), {}), flat(twin.look(), {})
        ctx.check(sorted(a) == sorted(b), 'shape', lambda: 'op %d: %s' % (n, sorted(set(a) ^ set(b))[:5]))
        spread = {k: 0. for k in a}
        for seed, p in enumerate(probes):
            shake(p, seed)
            try:
                p.step(op)
            except c22.STOP:
                spread = None
                break
            o = flat(p.look(), {})
            if sorted(o) != sorted(a):
                spread = None
                break
            spread = {k: max(spread[k], np.abs(o[k] - a[k]).max(initial=0.)) for k in a}
        if spread is None:
            ctx.probe('sensitive')
            continue
        for k in a:
            tol = 1e-9 * (1 + np.abs(a[k])) + 20 * spread[k]
            if not np.isfinite(spread[k]) or spread[k] > 1e-3 * (1 + np.abs(a[k]).max(initial=0.)):
                ctx.probe('sensitive')
                continue
            ctx.close('compiled-differs', a[k], b[k], tol, 'op %d (%s) %s' % (n, scn['kind'], k))
        ctx.probe('steps_compared_' + scn['kind'])
        ctx.log(n, s.look())
        ctx.state(a[sorted(a)[0]])


def shrink(scn):
    for x in netgen.shrink_world(scn['world']):
        if x['superlinks']:
            yield dict(scn, world=x)
