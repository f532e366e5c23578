"""Seams: everything nondeterministic the code under test can see is owned here.

solver budgets (guarded hooks) | wall clock | disk (open/mkdir/write/close) | directory order |
torch RNG | exceptions at arbitrary lines | allocation failures at arbitrary tensor operations |
stdout failures | thread scheduling (real threads, one runnable at a time, locks simulated)
"""
import os, sys, io, errno, zlib, builtins, threading, time as _time, datetime as _dt

REPO = os.environ.get('DST_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
REAL_LOCK, REAL_RLOCK = threading.Lock, threading.RLock
REAL_OPEN = builtins.open
REAL = {}


class InjectedError(RuntimeError):
    """A failure put in by the simulator (never raised by the code under test itself)."""


class InjectedMemoryError(MemoryError): pass
class InjectedInterrupt(KeyboardInterrupt): pass
class SimCrash(BaseException): pass


INJECTED = (InjectedError, InjectedMemoryError, InjectedInterrupt, SimCrash)

# ------------------------------------------------------------------ clock
class Clock:
    def __init__(self):
        self.active = False
        self.t = 1.7e9
        self.script = []          # per-read increments (may be negative: clock jumps back)
        self.reads = 0

    def now(self):
        self.reads += 1
        if self.script: self.t += self.script[(self.reads - 1) % len(self.script)]
        return self.t


CLOCK = Clock()


class SimDateTime(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        if not CLOCK.active: return super().now(tz)
        return _dt.datetime.fromtimestamp(CLOCK.now(), _dt.timezone.utc).replace(tzinfo=tz)
    @classmethod
    def today(cls): return cls.now()
    @classmethod
    def utcnow(cls): return cls.now()


def _install_clock():
    real_time, real_pc, real_mono, real_sleep = _time.time, _time.perf_counter, _time.monotonic, _time.sleep
    REAL.update(time=real_time, perf_counter=real_pc, monotonic=real_mono, sleep=real_sleep)
    _time.time = lambda: CLOCK.now() if CLOCK.active else real_time()
    _time.perf_counter = lambda: CLOCK.now() if CLOCK.active else real_pc()
    _time.sleep = lambda s: setattr(CLOCK, 't', CLOCK.t + max(0, s)) if CLOCK.active else real_sleep(s)
    real_strftime, real_lt, real_gm = _time.strftime, _time.localtime, _time.gmtime
    _time.localtime = lambda *a: real_gm(CLOCK.now()) if CLOCK.active and not a else real_lt(*a)
    _time.gmtime = lambda *a: real_gm(CLOCK.now()) if CLOCK.active and not a else real_gm(*a)
    _time.strftime = lambda f, *a: real_strftime(f, *(a or (_time.localtime(),)))
    _dt.datetime = SimDateTime


# ------------------------------------------------------------------ simulated locks
class SimLock:
    reentrant = False
    def __init__(self):
        self.owner, self.depth = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        s = SCHED
        if self.reentrant and self.owner == me:
            self.depth += 1; return True
        if s is not None: s.yield_point('lock')
        while self.owner is not None:
            if not blocking: return False
            if s is None: raise RuntimeError('simulated deadlock: lock held with nobody to release it')
            s.block(self)
        self.owner, self.depth = me, 1
        return True

    def release(self):
        if self.owner is None: raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if self.depth == 0: self.owner = None
        if SCHED is not None: SCHED.yield_point('unlock')

    def locked(self): return self.owner is not None
    def __enter__(self): self.acquire(); return self
    def __exit__(self, *a): self.release()


class SimRLock(SimLock):
    reentrant = True


def _lock_factory(real, sim):
    def make(*a, **k):
        f = sys._getframe(1)
        if f.f_code.co_filename.startswith(SRC): return sim()
        return real(*a, **k)
    return make


# ------------------------------------------------------------------ deterministic thread scheduler
SCHED = None


class Deadlock(Exception): pass


class Sched:
    """Real threads, exactly one runnable at any time; every source line of the code under test is a
    possible switch point.  `switches` = {event number: thread index} and `gates` = (salt, m, limit): one
    source line in m (chosen by the salt) hands over to the next thread each of the first `limit` times it is
    reached, so that threads doing the same work meet inside it.  Nothing else decides."""
    def __init__(self, switches, max_events=3_000_000, gates=None):
        self.gates, self.gate_hits, self.is_gate = gates, {}, {}
        self.switches = {int(e): int(t) for e, t in switches}
        self.max_events = max_events
        self.events = self.n_switch = self.contended = 0
        self.th, self.sem, self.state, self.err = [], [], [], []
        self.idents = {}
        self.cur = None
        self.main = threading.Semaphore(0)
        self.abort = None
        self.order = []
        self.bomb = {}          # thread index -> called at every line of that thread (may raise)

    def spawn(self, fn):
        i = len(self.th)
        self.sem.append(threading.Semaphore(0)); self.state.append('ready'); self.err.append(None)
        def body():
            self.sem[i].acquire()
            self.idents[threading.get_ident()] = i
            try:
                if self.abort is None:
                    sys.settrace(self._trace)
                    fn()
            except BaseException as e:
                self.err[i] = e
            finally:
                sys.settrace(None)
                self.state[i] = 'done'
                self._next(i, finishing=True)
        t = threading.Thread(target=body, daemon=True)
        self.th.append(t)

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(SRC): return None
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line':
            self.yield_point('line')
            if self.gates: self._gate(frame)
            b = self.bomb.get(self.cur)
            if b is not None and not lock_line(frame): b(frame)
        return self._local

    def _gate(self, frame):
        me = self.cur
        if self.idents.get(threading.get_ident()) != me or me is None: return
        salt, m, limit = self.gates
        key = (frame.f_code, frame.f_lineno)
        g = self.is_gate.get(key)
        if g is None:
            g = self.is_gate[key] = zlib.crc32(f'{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}:{salt}'.encode()) % m == 0
        if not g: return
        n = self.gate_hits[key, me] = self.gate_hits.get((key, me), 0) + 1
        if n > limit: return
        for d in range(1, len(self.th)):
            t = (me + d) % len(self.th)
            if self.state[t] == 'ready':
                self.n_switch += 1
                self._hand(me, t)
                return

    def yield_point(self, kind):
        me = self.cur
        if self.idents.get(threading.get_ident()) != me or me is None: return
        self.events += 1
        if self.events > self.max_events:
            self.abort = Deadlock(f'no progress after {self.events} scheduling points')
            raise self.abort
        if self.abort is not None: raise self.abort
        t = self.switches.get(self.events)
        if t is None: return
        t %= len(self.th)
        if t == me or self.state[t] != 'ready': return
        self.n_switch += 1
        self._hand(me, t)

    def _hand(self, me, t):
        self.cur = t
        self.order.append((self.events, t))
        self.sem[t].release()
        self.sem[me].acquire()
        if self.abort is not None: raise self.abort

    def block(self, lock):
        """The running thread waits for `lock`."""
        me = self.cur
        self.contended += 1
        self.state[me] = ('wait', lock)
        n = len(self.th)
        for d in range(1, n):
            t = (me + d) % n
            if self._runnable(t):
                self.state[t] = 'ready'
                self.cur = t
                self.order.append((self.events, t))
                self.sem[t].release()
                self.sem[me].acquire()
                if self.abort is not None: raise self.abort
                self.state[me] = 'ready'
                return
        self.abort = Deadlock('every thread waits for a lock')
        raise self.abort

    def _runnable(self, t):
        s = self.state[t]
        return s == 'ready' or (isinstance(s, tuple) and s[1].owner is None)

    def _next(self, me, finishing=False):
        n = len(self.th)
        for d in range(1, n + 1):
            t = (me + d) % n
            if self.state[t] != 'done' and (self._runnable(t) or self.abort is not None):
                if self.state[t] != 'done':
                    self.state[t] = 'ready'; self.cur = t
                    self.sem[t].release()
                    return
        if any(s != 'done' for s in self.state):
            self.abort = self.abort or Deadlock('every remaining thread waits for a lock')
            for t in range(n):
                if self.state[t] != 'done':
                    self.state[t] = 'ready'; self.cur = t; self.sem[t].release(); return
        self.main.release()

    def run(self):
        global SCHED
        SCHED = self
        try:
            for t in self.th: t.start()
            self.cur = 0
            self.sem[0].release()
            self.main.acquire()
        finally:
            SCHED = None
        return self.err


# ------------------------------------------------------------------ simulated disk
class Disk:
    """Wraps file creation/writing inside the scratch directory.  plan: list of
    {'op': open|write|close|mkdir|read|list, 'n': k-th such op, 'err': ENOSPC|EIO|EACCES|EMFILE|crash,
     'partial': bytes written before failing, 'sticky': bool}"""
    def __init__(self, root, plan=(), probe=None):
        self.root = os.path.realpath(root)
        self.plan = [dict(p) for p in plan]
        self.count = {}
        self.fired = []
        self.crashed = False
        self.probe = probe
        self.sticky = None
        self.writes = []

    def owns(self, path):
        try: p = os.path.realpath(os.fspath(path))
        except TypeError: return False
        if isinstance(p, bytes): p = p.decode('utf8', 'replace')
        return p == self.root or p.startswith(self.root + os.sep)

    def hit(self, op, path):
        """Counts an operation; returns the fault for it, if any."""
        if self.crashed: return {'err': 'crash', 'op': op}
        self.count[op] = self.count.get(op, 0) + 1
        if self.sticky and op in ('write', 'open', 'mkdir'): return self.sticky
        for p in self.plan:
            if p['op'] == op and p['n'] == self.count[op]:
                if p.get('match') and p['match'] not in os.fspath(path): continue
                self.fired.append((op, p['n'], p['err']))
                if p['err'] == 'call': p['do'](); return None          # somebody else's work happens right here
                if self.probe: self.probe.fault(f"disk.{op}.{p['err']}" + ('.short' if p.get('partial') else ''))
                if p.get('sticky'): self.sticky = dict(p, partial=0)
                return p
        return None

    def raise_for(self, p, path):
        if p['err'] == 'crash':
            self.crashed = True
            raise SimCrash('simulated process crash')
        e = OSError(getattr(errno, p['err']), os.strerror(getattr(errno, p['err'])) + ' (injected)', os.fspath(path))
        e.injected = True
        raise e


class FaultyRaw(io.FileIO):
    def __init__(self, path, mode, disk, opener=None):
        self._disk = disk
        self._path = path
        super().__init__(path, mode, opener=opener)

    def write(self, b):
        d = self._disk
        if d.crashed: return len(b)          # the process is gone: nothing reaches the disk any more
        p = d.hit('write', self._path)
        if p:
            k = min(int(p.get('partial') or 0), len(b))
            if k: super().write(bytes(b)[:k])
            d.raise_for(p, self._path)
        return super().write(b)

    def readinto(self, b):
        p = self._disk.hit('read', self._path) if not self._disk.crashed else None
        if p:
            if p['err'] == 'short': return super().readinto(memoryview(b)[:max(1, min(len(b), int(p.get('partial') or 1)))])
            if p['err'] == 'eof': return 0
            self._disk.raise_for(p, self._path)
        return super().readinto(b)

    def readall(self):
        out = b''
        while True:
            buf = bytearray(65536)
            n = self.readinto(buf)
            if not n: return out
            out += bytes(buf[:n])

    def close(self):
        if self.closed: return
        d = self._disk
        w = self.writable()
        p = d.hit('close', self._path) if (w and not d.crashed) else None
        super().close()
        if p: d.raise_for(p, self._path)


DISK = None
LOCALE = None          # preferred encoding of the simulated system: what a text file is opened with when the code names none


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d = DISK
    if LOCALE and 'b' not in mode and encoding in (None, 'locale') and not isinstance(file, int) \
            and not os.path.realpath(os.fspath(file)).startswith((os.path.realpath(sys.prefix), os.path.realpath(sys.base_prefix) + os.sep + 'lib')): encoding = LOCALE
    if d is None or isinstance(file, int) or not d.owns(file):
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in 'wax+')
    if d.crashed: raise SimCrash('simulated process crash')
    p = d.hit('open' if writing else 'openr', file)
    if p: d.raise_for(p, file)
    if writing: d.writes.append(os.path.realpath(os.fspath(file)))
    raw_mode = ''.join(c for c in mode if c in 'rwax+')
    raw = FaultyRaw(file, raw_mode, d, opener)
    if 'b' in mode and buffering == 0: return raw
    size = buffering if buffering > 1 else 8192
    if '+' in raw_mode: buf = io.BufferedRandom(raw, size)
    elif writing: buf = io.BufferedWriter(raw, size)
    else: buf = io.BufferedReader(raw, size)
    if 'b' in mode: return buf
    t = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, line_buffering=(buffering == 1))
    t.mode = mode
    return t


LIST_ORDER = None      # function(list) -> list


def _install_fs():
    real_listdir, real_scandir, real_mkdir = os.listdir, os.scandir, os.mkdir
    REAL.update(listdir=real_listdir, scandir=real_scandir, mkdir=real_mkdir)

    def listdir(path='.'):
        r = sorted(real_listdir(path))
        return LIST_ORDER(r) if LIST_ORDER else r

    class Scan:
        def __init__(self, path):
            with real_scandir(path) as it: self.e = sorted(it, key=lambda x: x.name)
            if LIST_ORDER:
                by = {x.name: x for x in self.e}
                self.e = [by[n] for n in LIST_ORDER(list(by))]
            self.i = iter(self.e)
        def __iter__(self): return self
        def __next__(self): return next(self.i)
        def __enter__(self): return self
        def __exit__(self, *a): pass
        def close(self): pass

    def mkdir(path, mode=0o777, *, dir_fd=None):
        d = DISK
        if d is not None and d.owns(path) and not os.path.lexists(path):
            if d.crashed: raise SimCrash('simulated process crash')
            p = d.hit('mkdir', path)
            if p and p['err'] == 'race':            # another process is faster
                real_mkdir(path, mode)
                with REAL_OPEN(os.path.join(path, 'other_process.txt'), 'w') as f: f.write('mine')
            elif p: d.raise_for(p, path)
        if dir_fd is not None: return real_mkdir(path, mode, dir_fd=dir_fd)
        return real_mkdir(path, mode)

    def scandir(path='.'):
        if isinstance(path, int): return real_scandir(path)
        return Scan(path)
    os.listdir, os.scandir, os.mkdir = listdir, scandir, mkdir
    builtins.open = sim_open
    io.open = sim_open


# ------------------------------------------------------------------ injected exceptions
_LINES = {}


def lock_line(frame):
    """Lines on which an asynchronous exception would hit CPython's own lock hand-over (between leaving a with block
    and __exit__), which no Python code can protect against: never chosen as a place to fail."""
    k = (frame.f_code.co_filename, frame.f_lineno)
    v = _LINES.get(k)
    if v is None:
        import linecache
        t = linecache.getline(*k).strip()
        v = _LINES[k] = t.startswith(('with ', 'async with ')) or '.release(' in t or '.acquire(' in t
    return v


class LineBomb:
    """Raises `exc` at the n-th executed line of the code under test that runs at least `depth` frames
    below a function named `root`."""
    def __init__(self, n, exc, root='run_step', depth=2, skip=()):
        self.n, self.exc, self.root, self.depth = n, exc, root, depth
        self.count = 0
        self.fired = None

    def _below(self, frame):
        """Number of repository frames between `frame` and the closest frame named root."""
        d = 0
        f = frame
        while f is not None:
            if f.f_code.co_name == self.root and f.f_code.co_filename.startswith(SRC): return d
            if f.f_code.co_filename.startswith(SRC): d += 1
            f = f.f_back
        return -1

    def _trace(self, frame, event, arg):
        if self.fired or not frame.f_code.co_filename.startswith(SRC): return None
        if self._below(frame) < self.depth: return None
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line' and self.fired is None and not lock_line(frame):
            self.count += 1
            if self.count == self.n and self.exc is not None:
                self.fired = f'{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}'
                raise self.exc
        return self._local

    def __enter__(self):
        sys.settrace(self._trace); return self

    def __exit__(self, *a): sys.settrace(None)


def op_bomb(n, exc, on_fire=None):
    """Context manager: the n-th tensor operation raises exc (allocation failure)."""
    from torch.utils._python_dispatch import TorchDispatchMode

    class Bomb(TorchDispatchMode):
        def __init__(self):
            super().__init__()
            self.k = 0; self.fired = None

        def __torch_dispatch__(self, func, types, args=(), kwargs=None):
            self.k += 1
            if self.k == n and self.fired is None:
                self.fired = str(func)
                raise exc
            return func(*args, **(kwargs or {}))
    return Bomb()


# ------------------------------------------------------------------ stdout
class Sink:
    """Captures what the code prints; can fail at the n-th write (broken pipe)."""
    encoding = 'utf-8'; errors = 'strict'
    def __init__(self, limit=400_000): self.buf, self.size, self.limit, self.fail_at, self.n, self.fired = [], 0, limit, None, 0, False
    def write(self, s):
        self.n += 1
        if self.fail_at is not None and self.n == self.fail_at:
            self.fired = True
            e = BrokenPipeError(errno.EPIPE, 'Broken pipe (injected)'); e.injected = True
            raise e
        if self.size < self.limit: self.buf.append(s); self.size += len(s)
        return len(s)
    def flush(self): pass
    def isatty(self): return False
    def fileno(self): raise io.UnsupportedOperation('fileno')
    def take(self):
        s = ''.join(self.buf); self.buf, self.size = [], 0
        return s


OUT = Sink()


def quiet():
    sys.stdout = OUT
    sys.stderr = Sink()


# ------------------------------------------------------------------ solver budgets
class Solver:
    """Handler behind the guarded hooks.  starve: list of booleans / ints consumed per solver call
    (None = untouched, k = at most k iterations); everything after the list is untouched."""
    newton_cap = None          # a smaller ordinary Newton budget, to keep fully implicit runs short

    def __init__(self, starve=(), probe=None, always=None, attempts=None, on_attempt=None):
        self.starve = list(starve)
        self.attempts = attempts       # per attempt: None or the budget of every solver call in it
        self.on_attempt = on_attempt
        self.always = always
        self.probe = probe
        self.calls = 0
        self.dts = []            # dt of every attempt, in order
        self.names = []
        self.fired = 0

    def __call__(self, name, value):
        if name.endswith('.dt'):
            if self.on_attempt: self.on_attempt(len(self.dts), float(value))
            self.dts.append(float(value)); self.names.append(name)
            if len(self.dts) > 20000: raise InjectedError('livelock: 20000 attempts in one call')
            return value
        self.calls += 1
        self.names.append(name)
        cap = self.always
        if self.attempts is not None:
            i = len(self.dts) - 1
            cap = self.attempts[i] if 0 <= i < len(self.attempts) else None
        if self.starve:
            c = self.starve.pop(0)
            if c is not None: cap = c
        if name.startswith('newton'):      # the loop needs one pass
            if cap is not None: cap = max(1, cap)
            elif Solver.newton_cap: return min(value, Solver.newton_cap)
        if cap is not None and cap < value:
            self.fired += 1
            if self.probe: self.probe.fault('solver.' + name.split('.')[0] + '.starved')
            return cap
        return value

    def __enter__(self):
        self.prev = M.hooks.handler
        M.hooks.handler = self
        return self

    def __exit__(self, *a): M.hooks.handler = self.prev


# ------------------------------------------------------------------ loading the code under test
class M:
    """Modules of the code under test (filled by load_repo)."""


def load_repo():
    import torch, numpy, scipy.sparse.linalg, matplotlib, matplotlib.pyplot, imageio, tqdm, gymnasium, zipfile, json, PIL.Image  # noqa
    import PIL.PngImagePlugin, PIL.GifImagePlugin, imageio.v2, pyevtk.hl, glob  # noqa
    import imageio.plugins.pillow_legacy, imageio.plugins.pillow  # noqa
    torch.set_num_threads(1)
    import warnings
    warnings.filterwarnings('ignore')
    tqdm.tqdm.monitor_interval = 0
    _install_clock()
    _install_fs()
    threading.Lock = _lock_factory(REAL_LOCK, SimLock)
    threading.RLock = _lock_factory(REAL_RLOCK, SimRLock)
    sys.path.insert(0, SRC)
    M.torch = torch
    import simulator.simulation, simulator.fluid, simulator.reservoir, simulator.well, simulator.pvt, simulator.pvt_generator
    import solver.pressure_amg, solver.classical_amg, plotting.plotter, output.vtk_writer, utils, rl_env, main
    import simulator.sim_hooks as hooks
    M.hooks = hooks
    if not hooks.ENABLED: raise RuntimeError('hooks are off: OILSIM_SIM_HOOKS=1 expected')
    M.simulation, M.fluid, M.reservoir, M.well = simulator.simulation, simulator.fluid, simulator.reservoir, simulator.well
    M.pvt, M.pvtgen, M.amg, M.camg = simulator.pvt, simulator.pvt_generator, solver.pressure_amg, solver.classical_amg
    M.plotter, M.vtk, M.utils, M.rl, M.main = plotting.plotter, output.vtk_writer, utils, rl_env, main
    for m in (M.simulation, M.fluid, M.amg, M.rl):
        f = os.path.realpath(m.__file__)
        if not f.startswith(os.path.realpath(SRC)): raise RuntimeError(f'{m.__name__} loaded from {f}, not from {SRC}')


def call(fn, *a, **k):
    """Runs code under test in a situation where it has no business raising."""
    from core import Violation
    try:
        return fn(*a, **k)
    except Violation: raise
    except INJECTED: raise
    except Deadlock: raise
    except Exception as e:
        if getattr(e, 'injected', False): raise
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f'{os.path.basename(x.filename)}:{x.name}' for x in tb if x.filename.startswith(SRC)]
        raise Violation('raised', f'{type(e).__name__}: {e} (in {inside[-1] if inside else "?"})')
