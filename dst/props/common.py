"""Shared workload pieces."""
import json, math, os
import numpy as np
import seams, world as W, ref as RF
from seams import M, call, Solver, LineBomb, op_bomb, OUT
from core import Violation, need

EPS32 = RF.EPS32

REAL_CORE = ['Simulator (IMPES pressure solve, saturation transport, sub-cycling, balances)', 'Fluid', 'Reservoir', 'Wells/WellManager',
             'PVTTable', 'CG solver', 'torch kernels (CPU, 1 thread)']
ASSUME = ['CPU only, one torch thread; the CUDA path is not simulated',
          'worlds are small (at most a few hundred cells)',
          'sampling, not enumeration: a clean batch is evidence, not proof']


class Check:
    counts = dict(quick=400, thorough=6000)
    det_sample = dict(quick=12, thorough=64)
    real, stub, assumptions = REAL_CORE, [], ASSUME
    rule = ''

    def gen(self, r, i, tier): raise NotImplementedError
    def run(self, case, p): raise NotImplementedError


BIG = [[20, 20, 1], [200, 1, 1], [1, 250, 1], [6, 8, 9], [15, 1, 20], [2, 2, 70], [12, 25, 1]]


def scale_of(r):
    """Most runs are small and short; a few have a long history of small steps, a few have hundreds of cells."""
    x = r.random()
    if 'DST_KIND' in os.environ: return os.environ['DST_KIND']
    return 'long' if x < 0.04 else 'big' if x < 0.09 else ''


def sized(r, kind, sizes, **kw):
    if kind == 'long': kw.update(max_cells=r.choice([3, 8]), rate=(2e-4, 8e-3))
    elif kind == 'big': kw.update(max_cells=600, dims=list(r.choice(BIG)))
    else: kw.update(max_cells=r.choice(sizes))
    return kw


def nops(r, kind, a, b): return r.randint(30, 80) if kind == 'long' else r.randint(1, 3) if kind == 'big' else r.randint(a, b)


def finite(a): return bool(np.isfinite(a).all())


def solver_variant(r):
    """Solver configuration knobs, randomised per run."""
    x = r.random()
    if x < 0.55: return {}
    if x < 0.65: return dict(pressure_float64=True)
    if x < 0.72: return dict(cg_tolerance=1e-5)
    return dict(pressure_solver='amg', amg=dict(coarsest_size=r.choice([4, 16, 200]), max_cycles=r.choice([1, 5, 20]),
                                                theta=r.choice([0.25, 0.5, 0.1])))


def gen_starve(r, kind=None, max_calls=8):
    """A pattern of starved solver calls (None = normal)."""
    kind = kind or r.choice(['one', 'few', 'burst', 'mixed'])
    k = lambda: r.choice([0, 0, 1, 2, 3])
    if kind == 'one': return [None] * r.randint(0, 2) + [k()]
    if kind == 'few': return [None] * r.randint(0, 3) + [k() for _ in range(r.randint(1, 4))]
    if kind == 'burst': return [k() for _ in range(r.randint(2, max_calls))]
    return [r.choice([None, k()]) for _ in range(r.randint(2, max_calls))]


def apply_lim(limits, op):
    n = len(limits)
    for k, key, f in op.get('limits', []):
        if n and limits[k % n] and key in limits[k % n]: limits[k % n][key] = float(limits[k % n][key] * f)


def apply_ctl(S, op):
    """Operator action between steps: change a well's target or (in place) a surface limit."""
    ws = S.well_manager.get_wells()
    for n, f in op.get('ctl', []):
        if ws:
            w = ws[n % len(ws)]
            w.control_value = float(w.control_value * f) if w.control_type == 'rate' else float(w.control_value + (f - 1) * 5)
    apply_lim([w.limits for w in ws], op)


def values(S): return [w.control_value for w in S.well_manager.get_wells()]


def step(S, dt, p, starve=(), always=None, **kw):
    """One run_step with the solver seam in place; returns (result, seam)."""
    with Solver(starve, p, always, **kw) as h:
        ok = call(S.run_step, dt)
    p.steps += 1
    if ok: p.sim_seconds += dt
    return ok, h


def log_state(p, S):
    for n in W.FIELDS: p.log(getattr(S.fluid, n))


def get(S):
    F = S.fluid
    return [getattr(F, n).detach().cpu().numpy().astype(np.float64).reshape(-1) for n in W.FIELDS]


class Trace:
    """Transitions of one run_step: state at every attempt's start and at the end.  An attempt that left the state
    untouched contributes nothing; the rest are (before, after, dt) with float64 copies of the float32 fields."""
    def __init__(self, S): self.S, self.s = S, []
    def snap(self):
        S = self.S
        return dict(f=get(S), raw=[getattr(S.fluid, n).detach().cpu().numpy().copy() for n in W.FIELDS],
                    mass=json.loads(json.dumps(S.mass_balance)), comp=json.loads(json.dumps(S.component_balance)),
                    wells=[dict(q=w.last_q_total, sr=dict(w.last_surface_rates or {}), mode=w.last_mode) for w in S.well_manager.get_wells()])
    def __call__(self, i, dt): self.s.append((self.snap(), dt))
    def transitions(self):
        seq = self.s + [(self.snap(), None)]
        out = []
        for (a, dt), (b, _) in zip(seq, seq[1:]):
            if any(x.tobytes() != y.tobytes() for x, y in zip(a['raw'], b['raw'])) or a['comp'] != b['comp'] or a['mass'] != b['mass']:
                out.append((a, b, dt))
        return out


def traced(S, dt, p, starve=(), **kw):
    """run_step with every sub-step's state recorded."""
    t = Trace(S)
    ok, h = step(S, dt, p, starve, on_attempt=t, **kw)
    return ok, h, (t.transitions() if ok else [])


def well_state(vals, sy): return vals, sy['modes']


def unclamped(ref, a, b, margin=2e-5):
    """Cells whose saturations cannot have been limited during the transition (see DESIGN: a limited cell ends on its limit).
    A phase resting at or below its immobile value cannot leave through faces, so it may stay there unless a well draws on it."""
    P, sw, sg, so = b
    lo_w, lo_g = np.minimum(a[1], ref.sw_cr), np.minimum(a[2], ref.sg_cr)
    top = np.maximum(a[1] + a[2], 1 - ref.so_r)
    nowell = np.ones(ref.N, bool)
    for w in ref.wells: nowell[ref.cell(w)] = False
    w_ok = (sw > lo_w + margin) | ((sw == a[1]) & (a[1] <= ref.sw_cr) & nowell)
    g_ok = (sg > lo_g + margin) | ((sg == a[2]) & (a[2] <= ref.sg_cr) & nowell)
    return w_ok & g_ok & (sw + sg < top - margin)


class Zygote:
    """A fork of the process as it is now, kept waiting: ask(x) runs fn(x) there.  Take it before anything happened
    to get an execution in a process where nothing else ran.  Violations travel back."""
    def __init__(self, fn):
        import socket, os, traceback
        a, b = socket.socketpair()
        self.pid = os.fork()
        if self.pid == 0:
            a.close()
            try:
                x = self._recv(b)
                try: out = ('ok', fn(x))
                except Violation as v: out = ('v', v.cls, v.msg)
                except BaseException: out = ('e', traceback.format_exc()[-2000:])
                self._send(b, out)
            finally: os._exit(0)
        b.close()
        self.s = a

    @staticmethod
    def _send(s, x):
        import pickle, struct
        d = pickle.dumps(x)
        s.sendall(struct.pack('<q', len(d)) + d)

    @staticmethod
    def _recv(s):
        import pickle, struct
        def get(n):
            out = b''
            while len(out) < n:
                d = s.recv(min(1 << 20, n - len(out)))
                if not d: raise EOFError
                out += d
            return out
        return pickle.loads(get(struct.unpack('<q', get(8))[0]))

    def close(self):
        import os, signal
        if self.pid:
            os.kill(self.pid, signal.SIGKILL); os.waitpid(self.pid, 0); self.s.close(); self.pid = None

    def ask(self, x):
        from core import HarnessError
        self._send(self.s, x)
        try: out = self._recv(self.s)
        except EOFError: raise HarnessError('isolated run died')
        finally: self.close()
        if out[0] == 'v': raise Violation(out[1], out[2])
        if out[0] == 'e': raise HarnessError(out[1])
        return out[1]
