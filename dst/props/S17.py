"""Fully implicit scheme: a failed Newton solve is never passed off as a step."""
from props.common import *


def solve_fault(plan, p):
    """The k-th linear solve fails: raises, returns NaN, or returns garbage (dense torch solve, or scipy's sparse one for
    systems of more than 1000 unknowns, whose failure makes the code fall back to a real iterative solve)."""
    import scipy.sparse.linalg as SL
    real = SL.spsolve
    from torch.utils._python_dispatch import TorchDispatchMode

    class F(TorchDispatchMode):
        def __init__(self): super().__init__(); self.k = 0; self.fired = 0
        def __torch_dispatch__(self, func, types, args=(), kwargs=None):
            out = func(*args, **(kwargs or {}))
            if 'linalg_solve' in str(func):
                kind = self.next('linear_solve.')
                if kind:
                    if kind == 'singular': raise RuntimeError('linalg.solve: singular matrix (injected)')
                    def bad(t):
                        if not isinstance(t, M.torch.Tensor) or not t.is_floating_point(): return t
                        if kind == 'nan': return t * float('nan')
                        return t * -37.0 + 1e5
                    out = tuple(bad(t) if i == 0 else t for i, t in enumerate(out)) if isinstance(out, tuple) else bad(out)
            return out

        def next(self, tag):
            self.k += 1
            kind = plan.get(str(self.k), plan.get('*'))
            if kind: self.fired += 1; p.fault(tag + kind)
            return kind

        def __enter__(self):
            SL.spsolve = self.sparse
            return super().__enter__()

        def __exit__(self, *a):
            SL.spsolve = real
            return super().__exit__(*a)

        def sparse(self, A, b, *a, **k):
            kind = self.next('sparse_solve.')
            if kind == 'singular': raise MemoryError('SuperLU ran out of memory (injected)') if self.k % 2 else RuntimeError('Factor is exactly singular (injected)')
            x = real(A, b, *a, **k)
            return x * float('nan') if kind == 'nan' else x * -37.0 + 1e5 if kind else x
    return F()


class S17(Check):
    prop = 'S17'
    counts = dict(quick=520, thorough=9000)
    rule = ('a run is a small two-phase fully implicit world (resting, sloping, with wells from negligible to strong) and 1-4 steps in which Newton iterations are cut short and linear solves '
            'raise, return NaN or garbage at seeded places; a failed step must leave everything bitwise as it was within the configured attempts; a reported success must have covered dt, be finite and in '
            'bounds, and every attempt that moved the state must conserve water and oil mass to the acceptance tolerance; resting reservoirs must be stepped; '
            'non-trivial = a fault fired or the solver failed by itself; distinct = (outcomes, attempt sequence, faults)')
    real = ['Simulator (fully implicit retry loop, Newton, assembly, line search)', 'Fluid', 'Reservoir', 'Wells/WellManager', 'torch.linalg.solve (CPU)']
    stub = ['Newton iteration budget (guarded hook)', 'chosen linear solves (raise / NaN / garbage)']

    def gen_cell(self, r):
        """A single small closed cell with a water injector: the step is solvable, needs several iterations, and must be made.
        dt is 1/rho_water seconds, so that volume rate, mass rate and mass per step are the same number."""
        w = dict(dims=[1, 1, 1], grid=[W.u(r, 1, 4), W.u(r, 1, 4), W.u(r, 0.5, 2)], phi=W.u(r, 0.1, 0.3), kh=100.0, kvf=0.1,
                 fluid=dict(pressure=W.u(r, 10, 40), s_w=W.u(r, 0.3, 0.6), s_g=0.0, rho_water=1000.0, rho_oil=W.u(r, 750, 900), c_oil=W.sig(10 ** r.uniform(-4, -2.5)), c_water=W.sig(10 ** r.uniform(-4.5, -3)),
                            relative_permeability=dict(sw_cr=0.1, so_r=0.1, sg_cr=0.05, nw=2, no=2, ng=2)), dt=1.0,
                 sim=dict(solver_type='fully_implicit', time_step_days=1.0, total_time_days=1.0, max_time_step_attempts=r.choice([1, 3])))
        f = w['fluid']
        V = w['grid'][0] * w['grid'][1] * w['grid'][2] * w['phi']
        P0, Pn = f['pressure'] * 1e6, f['pressure'] * 1e6 + r.uniform(3e6, 12e6)
        cw, co = f['c_water'] / 1e6, f['c_oil'] / 1e6
        so = (1 - f['s_w']) * (1 + co * (P0 - 1e5)) / (1 + co * (Pn - 1e5))     # oil mass stays
        q = V * 1000.0 * ((1 - so) * (1 + cw * (Pn - 1e5)) - f['s_w'] * (1 + cw * (P0 - 1e5)))
        w['wells'] = [dict(name='I', type='injector', i=0, j=0, k=0, radius=0.05, control_type='rate', control_value=W.sig(q * 86400))]
        return dict(world=w, ops=[dict(op='step', dt=1e-3 / W.DAY)], rest=False, cell=True, cap=r.choice([None, r.randint(2, 12), r.randint(2, 12)]), tseed=r.randrange(1 << 30), _shrink=[])

    def gen(self, r, i, tier):
        if r.random() < 0.12: return self.gen_cell(r)
        big = r.random() < 0.02                    # more than 1000 unknowns: the sparse solver
        w = W.gen_world(r, max_cells=600 if big else r.choice([2, 4, 6]), dims=r.choice([[501, 1, 1], [8, 9, 7], [23, 11, 2]]) if big else None, solver='fully_implicit', pvt=False, three=False, wells=r.choice(['rate', 'any']), min_cells=1,
                        limits=False, rate=r.choice([(0.005, 0.1), (1e-7, 1e-5), (1e-9, 1e-8)]), caps=r.random() < 0.4)
        rest = r.random() < 0.25
        if rest:                                   # nothing moves: uniform, horizontal, no wells
            w['wells'] = []; w.pop('init', None); w['dims'] = [w['dims'][0] * w['dims'][2], w['dims'][1], 1]
            if w.get('het'): w['het']['barrier'] = False
            if r.random() < 0.8: w['grid'] = [W.u(r, 0.1, 2.0), W.u(r, 0.1, 1.0), W.u(r, 0.1, 0.5)]
        elif r.random() < 0.3: w['wells'] = []
        elif r.random() < 0.4:                     # one cell and a well of a size the Newton loop acts on
            w['dims'] = [1, 1, 1]; w['init'] = dict(seed=r.randrange(1 << 30), dp=0.1, ds=0.05); w.pop('het', None)
            w['wells'] = [dict(name='W', type=r.choice(['injector', 'producer']), i=0, j=0, k=0, radius=0.1, control_type='rate', control_value=W.sig(10 ** r.uniform(1.5, 4.5)))]
        w['sim']['max_time_step_attempts'] = r.choice([1, 2, 3, 4, 6])
        if r.random() < 0.5: w['sim']['dt_reduction_factor'] = r.choice([1.7, 3.1, 2.0])
        if r.random() < 0.5: w['sim']['dt_increase_factor'] = r.choice([1.1, 1.5, 2.3])
        ops = []
        for _ in range(r.randint(1, 4)):
            op = dict(op='step', dt=W.sig(w['dt'] * r.choice([1, 1, 0.3, 1e-3, 1e-6])))
            x = r.random()
            if x < 0.35: op['attempts'] = [r.choice([None, 1, 1, 2, 3]) for _ in range(r.randint(1, 6))]
            elif x < 0.7:
                k = r.choice(['nan', 'garbage', 'singular'])
                op['solve'] = {'*': k} if r.random() < 0.3 else {str(r.randint(1, 12)): r.choice(['nan', 'garbage', 'singular']) for _ in range(r.randint(1, 4))}
            ops.append(op)
        if big:
            ops = ops[:1]; w['sim']['max_time_step_attempts'] = r.choice([1, 2])
            if not rest:
                ops[0].pop('attempts', None); ops[0]['solve'] = {str(k): r.choice(['singular', 'singular', 'nan', 'garbage']) for k in range(1, r.randint(1, 3))}
                g = w['grid']; w['wells'] = [dict(name='W', type='injector', i=0, j=0, k=0, radius=0.1, control_type='rate', control_value=W.sig(10 ** r.uniform(2.5, 4)))]
            return dict(world=w, ops=ops, rest=rest, cap=2, tseed=r.randrange(1 << 30), _shrink=['ops'])
        return dict(world=w, ops=ops, rest=rest, cap=r.choice([4, 6, 6, 8, None if r.random() < 0.3 else 6]), tseed=r.randrange(1 << 30), _shrink=['ops'])

    def run(self, case, p):
        w = case['world']
        M.torch.manual_seed(case['tseed'])
        S = W.build(w)
        Solver.newton_cap = case['cap']
        rp = w['fluid'].get('relative_permeability', {})
        swc, sor = rp.get('sw_cr', 0.2), rp.get('so_r', 0.2)
        ma = w['sim']['max_time_step_attempts']
        V = W.pore_volume(w).reshape(-1)
        f = w['fluid']
        r0 = dict(w=f.get('rho_water', 1000.0), o=f.get('rho_oil', 850.0)); cc = dict(w=f.get('c_water', 1e-5) / 1e6, o=f.get('c_oil', 1e-5) / 1e6)
        def masses(st):
            P, sw = st[0], st[1]
            return dict(w=float(np.sum(V * sw * r0['w'] * (1 + cc['w'] * (P - 1e5)))), o=float(np.sum(V * (1 - sw) * r0['o'] * (1 + cc['o'] * (P - 1e5)))))
        tol = 1e-3
        sig = []
        for n, op in enumerate(case['ops']):
            dt = op['dt'] * W.DAY
            pre = W.snap(S)
            seen = []
            def at(i, d): seen.append(get(S))
            from contextlib import nullcontext
            sf = solve_fault(op['solve'], p) if op.get('solve') else None
            with sf or nullcontext():
                ok, h = step(S, dt, p, attempts=op.get('attempts'), on_attempt=at)
            at(None, None)
            post = W.snap(S)
            log_state(p, S); p.log(ok, h.dts)
            faulty = bool(sf and sf.fired) or h.fired
            sig.append((ok, [round(math.log(d / dt), 3) for d in h.dts], faulty, sorted((op.get('solve') or {}).values())))
            moved = [any(not np.array_equal(a, b) for a, b in zip(x, y)) for x, y in zip(seen, seen[1:])]
            if not ok:
                d = W.diff(pre, post)
                need(d is None, 'rollback', lambda: f'step {n} of {dt:.4g} s failed but {d} (attempts {h.dts})')
                p.hit('failed_step')
            need(len(h.dts) >= 1, 'no-attempt', f'step {n}: no attempt was made')
            why = self.protocol(h.dts, moved, ok, dt, ma)
            need(why is None, 'attempts', lambda: f'step {n} of {dt:.6g} s, limit {ma} attempts, returned {ok} after {h.dts} (moved {moved}): {why}')
            # float32 rounding of the masses in place against the acceptance tolerance
            if case['rest'] and not faulty and 8 * 1.2e-7 * float(np.linalg.norm(V)) * max(r0.values()) < tol:
                need(ok, 'rest', lambda: f'step {n}: a reservoir at rest without wells could not be stepped ({h.dts})')
                p.hit('rest_stepped')
            if case.get('cell') and case['cap'] is None:
                need(ok, 'progress', lambda: f'one cell, one injector of {w["wells"][0]["control_value"]:.6g} m3/day: the solvable step of 1 ms failed ({h.dts})')
                p.hit('cell_stepped')
            if not ok: continue
            P, sw, sg, so = get(S)
            need(finite(P) and finite(sw) and finite(so), 'nonfinite', lambda: f'step {n}: reported success with non-finite state')
            need(float(np.max(np.abs(sw + so + sg - 1))) < 1e-5, 'closure', f'step {n}: saturations do not sum to one')
            lo, hi = min(swc, float(seen[0][1].min())), max(1 - sor, float(seen[0][1].max()))
            need(float(sw.min()) >= lo - 1e-6 and float(sw.max()) <= hi + 1e-6, 'bounds', lambda: f'step {n}: water saturation {sw.min():.7f}..{sw.max():.7f} outside {lo}..{hi}')
            need(float(P.min()) >= min(1e5, float(seen[0][0].min())) * (1 - 1e-6) and float(P.max()) <= max(1e8, float(seen[0][0].max())) * (1 + 1e-6), 'bounds', lambda: f'step {n}: pressure {P.min():.4g}..{P.max():.4g}')
            p.hit('success_moved' if any(moved) else 'success_still')
            N = len(P)
            if case.get('cell') and len(h.dts) == 1:
                p.hit('cell_capped' if case['cap'] else 'cell_full')
                a, b = masses(seen[0]), masses(seen[-1])
                q = w['wells'][0]['control_value'] / 86400
                for ph, due in (('w', q), ('o', 0.0)):
                    bd = 25 * tol + 10 * RF.EPS32 * a[ph]
                    need(abs(b[ph] - a[ph] - due) <= bd, 'mass', lambda: f'one cell, one injector: {ph} mass changed by {b[ph] - a[ph]:.6g} kg, due {due:.6g} (bound {bd:.2g})')
                p.sign('cell', round(q, 4))
            for k, (a, b) in enumerate(zip(seen, seen[1:])):
                if not moved[k]: continue
                d = h.dts[k]
                ma_, mb = masses(a), masses(b)
                for ph in 'wo':
                    flow = 0.0
                    for x in w['wells']:
                        ty, v = W.control(x)
                        if ty == 'rate': flow += abs(v) / 86400.0 * d * r0[ph] * 1.5
                        else: flow += 1e300
                    lim = flow + 40 * tol * math.sqrt(2 * N) * math.sqrt(N) + 20 * RF.EPS32 * (abs(ma_[ph]) + abs(mb[ph]))
                    need(abs(mb[ph] - ma_[ph]) <= lim, 'mass', lambda: f'step {n} attempt {k} ({d:.4g} s) was accepted although the mass of {"water" if ph == "w" else "oil"} changed by {mb[ph] - ma_[ph]:.6g} kg (wells can move {flow:.4g}, tolerance {lim - flow:.3g})')
        if any(x[2] or not x[0] for x in sig): p.sign(w['dims'], sig, len(w['wells']))

    @staticmethod
    def protocol(dts, moved, ok, dt, ma):
        """Is there a reading of the attempt sequence (each either failed or accepted) that covers dt with fewer failures than the limit
        (success) or uses up the limit (failure)?"""
        n = len(dts)
        dts, dt = [d / dt for d in dts], 1.0
        states = {(0, 0.0)}
        for i, d in enumerate(dts):
            nxt = set()
            for fails, done in states:
                if fails >= ma or (done > 0 and dt - done <= 1e-9 * dt): continue
                if d > (dt - done) * (1 + 1e-6): continue
                nxt.add((fails, done + d))
                if i + 1 == n or (not moved[i] and dts[i + 1] < d * (1 - 1e-6)): nxt.add((fails + 1, done))
            if len(nxt) > 4096: return None
            states = {(f, round(x, 11)) for f, x in nxt}
            if not states: return f'attempt {i} fits no protocol'
        if ok: good = [s for s in states if abs(s[1] - dt) <= 1e-6 * dt and s[0] < ma]
        else: good = [s for s in states if s[0] >= ma]
        return None if good else 'the attempts neither cover the interval nor use up the limit'


CHECK = S17()
