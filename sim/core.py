"""Simulation core: the context a simulated run reports to, fault-injection seams, the seeded
cooperative scheduler, and the process-level runner (search, minimisation, replay, evidence)."""
import collections
import contextlib
import copy
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import struct
import sys
import threading
import time as _time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'pipedream_solver') + os.sep


# --------------------------------------------------------------------------------------------------
# outcomes of a run
# --------------------------------------------------------------------------------------------------
class Violation(Exception):
    def __init__(self, kind, msg):
        super().__init__('%s: %s' % (kind, msg))
        self.kind, self.msg = kind, msg


class Discard(Exception):
    """The scenario left the property's domain (counted, neither a pass nor a violation)."""


class Injected(BaseException):
    """Marker mix-in for exceptions raised by the fault injector."""


class InjectedInterrupt(KeyboardInterrupt, Injected):
    pass


class InjectedMemoryError(MemoryError, Injected):
    pass


class InjectedIOError(OSError, Injected):
    pass


class InjectedArithmetic(ArithmeticError, Injected):
    pass


FAULT_EXC = {'interrupt': InjectedInterrupt, 'nomem': InjectedMemoryError, 'ioerror': InjectedIOError,
             'arith': InjectedArithmetic}


def in_package(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(PKG):
            return True
        tb = tb.tb_next
    return False


def feed(h, x):
    """Feed a canonical byte encoding of x to hash h (bit-exact for floats and arrays)."""
    import numpy as np
    if isinstance(x, np.ndarray):
        a = np.ascontiguousarray(x)
        h.update(('A%s%s' % (a.dtype.str, a.shape)).encode())
        h.update(a.tobytes() if a.dtype != object else repr(a.tolist()).encode())
    elif isinstance(x, (bool, np.bool_)):
        h.update(b'T' if x else b'F')
    elif isinstance(x, (int, np.integer)):
        h.update(('I%d' % int(x)).encode())
    elif isinstance(x, (float, np.floating)):
        h.update(b'D' + struct.pack('<d', float(x)))
    elif isinstance(x, dict):
        h.update(b'{')
        for k in sorted(x, key=str):
            feed(h, str(k))
            feed(h, x[k])
        h.update(b'}')
    elif isinstance(x, (list, tuple)):
        h.update(b'[')
        for v in x:
            feed(h, v)
        h.update(b']')
    elif x is None:
        h.update(b'N')
    elif isinstance(x, str):
        h.update(b'S' + x.encode())
    else:
        h.update(b'R' + repr(x).encode())


def digest(*xs):
    h = hashlib.sha256()
    for x in xs:
        feed(h, x)
    return h.hexdigest()


class Ctx:
    """What one simulated run records: trace hash, faults fired, probes, simulated time, states."""

    def __init__(self, verbose=False):
        self.h = hashlib.sha256()
        self.seq = 0
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.simtime = 0.0
        self.states = set()
        self.schedules = set()
        self.checks = 0
        self.steps = 0
        self.worst = {}
        self.verbose = verbose

    def log(self, *items):
        self.seq += 1
        feed(self.h, self.seq)
        for it in items:
            feed(self.h, it)
        if self.verbose:
            print('%5d' % self.seq, *[(_short(i)) for i in items], flush=True)

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def advance(self, dt):
        self.simtime += float(dt)
        self.steps += 1

    def state(self, *arrays):
        h = hashlib.blake2b(digest_size=8)
        for a in arrays:
            feed(h, a)
        if len(self.states) < 4000:
            self.states.add(h.digest())

    def schedule(self, x):
        self.schedules.add(hashlib.blake2b(repr(x).encode(), digest_size=8).digest())

    def check(self, cond, kind, msg=''):
        self.checks += 1
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)

    def close(self, name, got, want, tol, msg=''):
        """|got - want| <= tol element-wise (NaN never passes); keeps the worst ratio for evidence."""
        import numpy as np
        self.checks += 1
        got, want = np.asarray(got, float), np.asarray(want, float)
        if got.shape != want.shape:
            raise Violation(name, 'shape %s, expected %s %s' % (got.shape, want.shape, msg))
        if got.size == 0:
            return
        err = np.abs(got - want)
        with np.errstate(all='ignore'):
            ratio = np.where(err == 0, 0.0, err / np.asarray(tol, float))
        ratio = np.where(np.isnan(ratio), np.inf, ratio)
        w = float(ratio.max())
        if np.isfinite(w):
            self.worst[name] = max(self.worst.get(name, 0.0), w)
        if not w <= 1.0:
            i = int(np.argmax(ratio.ravel()))
            raise Violation(name, 'got %.17g, expected %.17g (tolerance %.3g) at [%d] %s' % (
                got.ravel()[i], want.ravel()[i],
                np.broadcast_to(np.asarray(tol, float), got.shape).ravel()[i], i,
                msg() if callable(msg) else msg))

    def same(self, name, got, want, msg=''):
        """Bit-for-bit equality of two nested values."""
        self.checks += 1
        if digest(got) != digest(want):
            raise Violation(name, '%s differs: %s' % (msg() if callable(msg) else msg, diff(got, want)))

    def sut(self, fn, *a, allow=(), **k):
        """Call the system under test.  An exception out of it that nobody injected or allowed is a
        violation; one raised by the harness itself stays a harness error."""
        try:
            return fn(*a, **k)
        except Violation:
            raise
        except Exception as e:
            if isinstance(e, Injected) or (allow and isinstance(e, allow)):
                raise
            if in_package(e.__traceback__):
                tb = traceback.extract_tb(e.__traceback__)
                where = [f for f in tb if f.filename.startswith(PKG)][-1]
                raise Violation('exception:' + type(e).__name__, '%s (raised under %s)' % (
                    str(e)[:300], where.name)) from e
            raise


def _short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:157] + '...'


def diff(a, b):
    import numpy as np
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return '%r only on one side' % k
            if digest(a[k]) != digest(b[k]):
                return '%s: %s' % (k, diff(a[k], b[k]))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if digest(x) != digest(y):
                return '[%d] %s' % (i, diff(x, y))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.size:
        with np.errstate(all='ignore'):
            neq = ~((a == b) | ((a != a) & (b != b))) if a.dtype != object else np.ones(a.shape, bool)
        if neq.any():
            i = int(np.argmax(neq.ravel()))
            return 'at [%d] %r != %r' % (i, a.ravel()[i], b.ravel()[i])
    return '%s != %s' % (_short(a), _short(b))


# --------------------------------------------------------------------------------------------------
# seam 1: a fault at any point of the package's own code
# --------------------------------------------------------------------------------------------------
class Lines:
    """Counts the lines the package executes in a call and, when asked, raises at the n-th one."""

    def __init__(self, at=None, exc=None):
        self.n, self.at, self.exc, self.fired = 0, at, exc, None

    def _local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.at is not None and self.n == self.at:
                self.fired = frame.f_code.co_name
                self.at = None
                raise self.exc('injected')
        return self._local

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PKG):
            return self._local
        return None

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self._old)
        return False


def count_lines(fn):
    with Lines() as l:
        r = fn()
    return l.n, r


# --------------------------------------------------------------------------------------------------
# seam 2: which thread of the package's callers runs next
# --------------------------------------------------------------------------------------------------
class Scheduler:
    """Runs caller threads one at a time.  A thread gives up the processor only at a line of the
    package, when the slice the schedule gave it is used up; `slices` is a list of [task, lines].
    The schedule is the whole of the nondeterminism: the same list gives the same execution."""

    def __init__(self, tasks, slices):
        self.tasks, self.slices = tasks, list(slices)
        self.n = len(tasks)
        self.sem = [threading.Semaphore(0) for _ in tasks]
        self.main = threading.Semaphore(0)
        self.budget = [0] * self.n
        self.done = [False] * self.n
        self.result = [None] * self.n
        self.error = [None] * self.n
        self.switches = 0

    def _trace(self, k):
        def local(frame, event, arg):
            if event == 'line':
                self.budget[k] -= 1
                if self.budget[k] <= 0:
                    self.switches += 1
                    self.main.release()
                    self.sem[k].acquire()
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(PKG) and frame.f_code.co_name != '<module>' else None     # never inside an import, which holds a lock
        return glob

    def _body(self, k):
        self.sem[k].acquire()
        sys.settrace(self._trace(k))
        try:
            self.result[k] = self.tasks[k]()
        except BaseException as e:
            self.error[k] = e
        finally:
            sys.settrace(None)
            self.done[k] = True
            self.main.release()

    def run(self):
        ts = [threading.Thread(target=self._body, args=(k,), daemon=True) for k in range(self.n)]
        for t in ts:
            t.start()
        it = iter(self.slices)
        while not all(self.done):
            try:
                k, lines = next(it)
                k %= self.n
            except StopIteration:
                k, lines = self.done.index(False), 10 ** 9
            if self.done[k]:
                continue
            self.budget[k] = max(1, int(lines))
            self.sem[k].release()
            self.main.acquire()
        for t in ts:
            t.join()
        return self.result, self.error


# --------------------------------------------------------------------------------------------------
# seam 3: the clock and the terminal
# --------------------------------------------------------------------------------------------------
class Clock:
    """Replaces time.time inside the run: the simulator decides what every reading returns."""

    def __init__(self, t0=1.0e9):
        self.now, self.reads = t0, 0

    def time(self):
        self.reads += 1
        return self.now


@contextlib.contextmanager
def patched(obj, **attrs):
    old = {k: getattr(obj, k) for k in attrs}
    for k, v in attrs.items():
        setattr(obj, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(obj, k, v)


class Terminal:
    """A stdout the simulator controls: collects text, or fails like a full or closed device."""

    def __init__(self, fail=()):
        self.text, self.fail, self.calls, self.failed = [], set(fail), 0, 0

    def write(self, s):
        self.calls += 1
        if self.calls in self.fail:
            self.failed += 1
            raise InjectedIOError(28, 'No space left on device')
        self.text.append(s)
        return len(s)

    def flush(self):
        pass


# --------------------------------------------------------------------------------------------------
# seam 4: durable storage for checkpoints
# --------------------------------------------------------------------------------------------------
class Store:
    """A slot store with write-ahead checksums on a faulty medium.  A write may be lost or torn; a
    reader sees the newest record whose checksum is intact, as a careful deployment would."""

    def __init__(self):
        self.records = []

    def put(self, state, fault=None):
        import pickle as pk
        blob = pk.dumps(state, protocol=4)
        rec = hashlib.sha256(blob).digest() + blob
        if fault == 'lost_write':
            return
        if fault == 'torn_write':
            rec = rec[:len(rec) // 2]
        if fault == 'bit_flip':
            b = bytearray(rec)
            b[len(b) // 3] ^= 0x40
            rec = bytes(b)
        self.records.append(rec)

    def get(self):
        import pickle as pk
        for n, rec in enumerate(reversed(self.records)):
            blob = rec[32:]
            if hashlib.sha256(blob).digest() == rec[:32]:
                return pk.loads(blob)
        return None


# --------------------------------------------------------------------------------------------------
# runner
# --------------------------------------------------------------------------------------------------
def rng_for(base, pid, i):
    return random.Random('%s:%s:%s' % (base, pid, i))


def normal(scn):
    """The scenario exactly as a replay file would give it back."""
    return json.loads(json.dumps(scn))


def execute(mod, scn, verbose=False):
    """Run one scenario; returns a plain dict."""
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    np.random.seed(12345)
    random.seed(12345)
    ctx = Ctx(verbose)
    out = {'status': 'ok'}
    try:
        mod.run(scn, ctx)
    except Violation as v:
        out = {'status': 'violation', 'kind': v.kind, 'msg': v.msg[:1000]}
    except Discard as d:
        out = {'status': 'discard', 'msg': str(d)[:200]}
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt) and not isinstance(e, Injected):
            raise
        if in_package(e.__traceback__) and isinstance(e, Exception) and not isinstance(e, (Injected, MemoryError)):
            # nobody injected or expected it: the package itself failed
            where = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(PKG)][-1]
            out = {'status': 'violation', 'kind': 'exception:' + type(e).__name__, 'msg': '%s (raised under %s)' % (str(e)[:300], where.name)}
        else:
            out = {'status': 'error', 'msg': ''.join(traceback.format_exception(e))[-4000:]}
    out.update(trace=ctx.h.hexdigest(), faults=dict(ctx.faults), probes=dict(ctx.probes),
               simtime=ctx.simtime, steps=ctx.steps, checks=ctx.checks, worst=ctx.worst,
               states=list(ctx.states), schedules=list(ctx.schedules), events=ctx.seq)
    return out


def in_child(fn, timeout):
    """Run fn in a forked child; returns its pickled result, or {'status':'hang'|'died'}."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            data = pickle.dumps(fn(), protocol=4)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks, t_end = [], _time.monotonic() + timeout
    status = None
    while True:
        left = t_end - _time.monotonic()
        if left <= 0:
            status = 'hang'
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            status = 'hang'
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if status == 'hang':
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if status == 'hang':
        return {'status': 'hang', 'msg': 'no answer within %ds' % timeout}
    try:
        return pickle.loads(b''.join(chunks))
    except Exception:
        return {'status': 'died', 'msg': 'child ended with wait status %d' % st}


def as_violation(res):
    """A run that never ends or takes the interpreter down is itself a violation."""
    if res['status'] == 'hang':
        return dict(res, status='violation', kind='no-progress')
    if res['status'] == 'died':
        return dict(res, status='violation', kind='interpreter-crash')
    return res


RUN_TIMEOUT = 60


def search(mod, base, tier, nruns, seconds, workers, start=0):
    """Fixed set of seeds, static split over workers; every run in its own forked child of the warmed
    process, so that a run depends on nothing but its scenario and the code."""
    t0 = _time.monotonic()
    deadline = t0 + seconds
    results, pending, live = {}, collections.deque(range(start, start + nruns)), {}
    sel = select.poll()
    stop = False
    budget = getattr(mod, 'RUN_TIMEOUT', RUN_TIMEOUT)

    def launch(idx):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                # chunk of consecutive indices is never shared: one run, one process
                scn = normal(mod.generate(rng_for(base, mod.ID, idx), tier))
                res = execute(mod, scn)
                res['scn_digest'] = digest(scn)[:16]
                if idx < start + 3 or res['status'] in ('violation', 'error'):
                    res['scn'] = scn
                with os.fdopen(w, 'wb') as f:
                    f.write(pickle.dumps(res, protocol=4))
            except BaseException:
                try:
                    with os.fdopen(w, 'wb') as f:
                        f.write(pickle.dumps({'status': 'error', 'msg': traceback.format_exc()[-3000:]}))
                except BaseException:
                    pass
            finally:
                os._exit(0)
        os.close(w)
        live[r] = [idx, pid, [], _time.monotonic()]
        sel.register(r, select.POLLIN | select.POLLHUP)

    def reap(fd, kill=False):
        idx, pid, chunks, _ = live.pop(fd)
        sel.unregister(fd)
        os.close(fd)
        if kill:
            os.kill(pid, signal.SIGKILL)
        _, st = os.waitpid(pid, 0)
        if kill:
            res = {'status': 'hang', 'msg': 'no answer within %ds' % budget}
        else:
            try:
                res = pickle.loads(b''.join(chunks))
            except Exception:
                res = {'status': 'died', 'msg': 'wait status %d' % st}
        results[idx] = res
        return res

    while (pending and not stop) or live:
        if pending and _time.monotonic() > deadline:
            stop = True
        while pending and not stop and len(live) < workers:
            launch(pending.popleft())
        for fd, ev in sel.poll(200):
            b = os.read(fd, 1 << 20)
            if b:
                live[fd][2].append(b)
            else:
                res = reap(fd)
                if res['status'] != 'ok' and res['status'] != 'discard':
                    stop = True      # finish what is running, then report the smallest index
        now = _time.monotonic()
        for fd in [f for f, v in live.items() if now - v[3] > budget]:
            reap(fd, kill=True)
            stop = True
    return results, _time.monotonic() - t0


# --------------------------------------------------------------------------------------------------
# minimisation
# --------------------------------------------------------------------------------------------------
def minimise(mod, scn, kind, seconds):
    t_end = _time.monotonic() + seconds
    tried = [0]
    limit = 30 if kind != 'no-progress' else getattr(mod, 'RUN_TIMEOUT', RUN_TIMEOUT)

    def fails(c):
        tried[0] += 1
        r = as_violation(in_child(lambda: execute(mod, c), limit))
        return r['status'] == 'violation' and r['kind'] == kind

    def lists(s):
        return [k for k in ('ops', 'slices', 'faults') if isinstance(s.get(k), list)]

    improved = True
    while improved and _time.monotonic() < t_end:
        improved = False
        for key in lists(scn):
            size = max(1, len(scn[key]) // 2)
            while size >= 1 and _time.monotonic() < t_end:
                i = 0
                while i < len(scn[key]) and _time.monotonic() < t_end:
                    c = dict(scn)
                    c[key] = scn[key][:i] + scn[key][i + size:]
                    if fails(c):
                        scn, improved = c, True
                    else:
                        i += size
                size //= 2
        again = True
        while again and _time.monotonic() < t_end:
            again = False
            for c in candidates(mod, scn, kind):
                if _time.monotonic() > t_end:
                    break
                if fails(c):
                    scn, improved, again = c, True, True
                    break
    return scn, tried[0]


def candidates(mod, scn, kind):
    if hasattr(mod, 'shrink'):
        for c in mod.shrink(copy.deepcopy(scn)):
            yield c
    for k in ([] if kind.startswith('exception') else scn):
        if k == 'world' or k.startswith('world_'):
            from sim import netgen
            for w in netgen.shrink_world(scn[k]):
                c = dict(scn)
                c[k] = w
                yield c


# --------------------------------------------------------------------------------------------------
# known findings
# --------------------------------------------------------------------------------------------------
def known_findings(pid):
    """Lines `finding: property=<id> kind=<violation kind> scenario=<digest or *> <what fails>`."""
    out = []
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding:'):
                f = line[len('finding:'):].split(None, 3)
                d = dict(x.split('=', 1) for x in f[:3])
                if d.get('property') == pid:
                    out.append((d['kind'], d['scenario'], f[3].strip() if len(f) > 3 else ''))
    return out


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1, default=str)
        f.write('\n')
    os.replace(tmp, path)
