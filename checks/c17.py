"""C17: progress reports tell the truth about simulated time and never disturb the simulation."""
import re
import sys
import time

import numpy as np

from sim import drive, netgen
from sim.core import Clock, InjectedIOError, Terminal, digest, patched

ID = 'C17'
LEVEL = 'exploration'
RUNS = {'quick': 2500, 'thorough': 80000}
RULE = ('A seeded network is stepped through the driver while a seeded wall clock jumps, stalls and runs backwards, the terminal fails '
        'like a full or closed device, and the simulated clock is rolled back and overrun; everything written is parsed and compared with '
        'simulated time, and the run is compared bit for bit with one that reports nothing.')
REAL = ['simulation driver', 'network model']
STUB = ['wall clock', 'terminal']
ASSUMPTIONS = ['simulated time is not rolled back before the requested start']
LINE = re.compile(r'\r\[([=-]*)\] (-?[0-9.]+)% \[(-?[0-9.e+-]+) s\]')


def generate(rng, tier):
    big = tier == 'thorough'
    w = netgen.gen_world(rng, n_max=3, controls=0.2, methods=('b',), bc=0.4)
    ops = []
    for op in drive.gen_ops(rng, w, rng.randint(4, 120 if big else 30), dts=[1, 5, 10, 30, 60, 0.3]):
        op.pop('banded', None)
        ops.append(op)
        if rng.random() < 0.3:
            ops.append({'op': 'clock', 'by': rng.choice([0., 0.004, 1., 3600., -5., -7200., 1e6, round(rng.uniform(0, 100), 3)])})
        if rng.random() < 0.85:
            ops.append({'op': 'report', 'sparse': rng.random() < 0.6, 'fail': rng.random() < 0.1})
        if rng.random() < 0.06:
            ops.append({'op': 'ckpt'})
        if rng.random() < 0.06:
            ops.append({'op': 'rollback'})
    total = sum(o['dt'] for o in ops if o['op'] == 'step')
    t0 = rng.choice([0., 0., 100., -30., 1e6])
    return {'world': w, 'ops': ops, 't_start': t0,
            't_end': rng.choice([t0 + total, t0 + total, round(t0 + total * rng.uniform(0.2, 3), 2), t0 + 1e-3, None, t0])}


def run(scn, ctx):
    from pipedream_solver.simulation import Simulation
    w = scn['world']
    t0, t1 = scn['t_start'], scn['t_end']
    quiet, rig = drive.Rig(w), drive.Rig(w)
    kw = {} if t1 is None else {'t_end': t1}
    ref = ctx.sut(Simulation, quiet.m, dt=10., t_start=t0, **kw)
    sim = ctx.sut(Simulation, rig.m, dt=10., t_start=t0, **kw)
    clock = Clock()
    saved = None
    first = None
    shown = None       # position of the last sparse report among 50 evenly spaced marks
    marks = np.linspace(t0, t1) if t1 is not None else np.array([np.inf])
    for n, op in enumerate(scn['ops']):
        k = op['op']
        if k == 'step':
            a = rig.kwargs(dict(op, dt=1))
            a.pop('dt')
            a.pop('Q_0Ik', None)
            if first is None:
                first = clock.now
            with patched(time, time=clock.time, perf_counter=clock.time, monotonic=clock.time):
                ctx.sut(sim.step, dt=op['dt'], **a)
            ctx.sut(ref.step, dt=op['dt'], **a)
            ctx.advance(op['dt'])
            if not drive.sane(rig.m):
                ctx.probe('diverged')
                return
        elif k == 'clock':
            clock.now += op['by']
            ctx.fault('clock_jump_back' if op['by'] < 0 else 'clock_jump')
        elif k == 'ckpt':
            saved = drive.snapshot(rig.m)
        elif k == 'rollback' and saved is not None:
            ctx.sut(sim.load_state, saved)
            ctx.sut(ref.load_state, saved)
            ctx.fault('rollback')
        elif k == 'report':
            if first is None:
                continue
            before = digest(drive.report(rig.m), rig.m.states)
            term = Terminal(fail=[1] if op['fail'] else [])
            failed = False
            with patched(time, time=clock.time, perf_counter=clock.time, monotonic=clock.time), patched(sys, stdout=term):
                try:
                    ctx.sut(sim.print_progress, use_checkpoints=op['sparse'])
                except InjectedIOError:
                    failed = True
            ctx.check(digest(drive.report(rig.m), rig.m.states) == before, 'report-disturbs-simulation', 'step %d' % n)
            if term.failed:
                ctx.fault('terminal_failure')
                ctx.check(failed, 'terminal-failure-hidden', 'a failed write was swallowed')
                shown = None
                continue
            text = ''.join(term.text)
            t = float(sim.t)
            if t1 is None:
                if op['sparse']:
                    ctx.check(text == '', 'report-without-end', repr(text))
                ctx.log(n, text)
                continue
            here = int(np.searchsorted(marks, t))
            near = np.abs(marks - t).min() < 1e-9 * (1 + abs(t))
            if op['sparse']:
                if shown is not None and shown != 'start' and not near:
                    ctx.check((text == '') == (here == shown), 'sparse-reports',
                              lambda: 'step %d t=%r: %r although the last report was %s' % (n, t, text, 'for this mark' if here == shown else 'for another mark'))
                if text or shown is not None:
                    shown = None if near else here
                elif not near:
                    shown = here
                if not text:
                    ctx.probe('suppressed')
                    continue
            else:
                ctx.check(text != '', 'no-report', 'step %d' % n)
            got = LINE.fullmatch(text)
            ctx.check(got is not None, 'malformed-report', lambda: 'step %d wrote %r' % (n, text))
            bar, pct, el = got.group(1), float(got.group(2)), float(got.group(3))
            frac = (min(t, t1) - t0) / (t1 - t0) if t1 > t0 else 1.0
            ctx.check(len(bar) == 50 and '-=' not in bar, 'bar', repr(bar))
            ctx.check(abs(bar.count('=') - 50 * frac) <= 0.5 + 1e-6, 'bar', lambda: '%r at fraction %r' % (bar, frac))
            ctx.check(0 <= pct <= 100 and abs(pct - 100 * frac) <= 0.05 + 1e-9, 'percentage', lambda: '%r at fraction %r' % (pct, frac))
            if t >= t1:
                ctx.check(pct == 100.0 and bar == '=' * 50, 'completion', text)
                ctx.fault('overrun')
            ctx.check(abs(el - (clock.now - first)) <= 0.005 + 1e-6 * abs(el) , 'elapsed', lambda: '%r, really %r' % (el, clock.now - first))
            ctx.probe('reports')
            ctx.log(n, text)
    ctx.same('reporting-changes-results', drive.report(rig.m), drive.report(quiet.m), 'end')
    ctx.state(drive.report(rig.m))
