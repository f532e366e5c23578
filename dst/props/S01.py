"""Atomicity: failed or interrupted steps leave nothing behind."""
from props.common import *
import errno

EXC = dict(error=lambda: seams.InjectedError('injected failure'), memory=lambda: seams.InjectedMemoryError('injected allocation failure'),
           interrupt=lambda: seams.InjectedInterrupt())


def gen_fault(r, fi=False):
    k = r.choice(['starve', 'starve', 'late', 'line', 'line', 'line', 'op', 'op', 'stdout'])
    f = dict(kind=k)
    if k in ('line', 'op', 'stdout'):
        f['frac'] = round(r.random(), 5)
        # a failure after part of the interval has been covered (first attempts starved, then a bomb) is the deepest rollback
        if r.random() < 0.4: f['starve'] = gen_starve(r, 'few')
    if k in ('line', 'op'): f['exc'] = r.choice(list(EXC))
    if k == 'starve': f['cap'] = r.choice([0, 0, 1, 4, 5] if fi else [0, 0, 1])
    if k == 'starve' and (fi and r.random() < 0.7 or r.random() < 0.2): f['scale'] = r.choice([1.3, 2.0, 5.0])    # an operator tries other targets, the step fails, the old ones are restored
    if k == 'late':     # some attempts succeed, then the solver fails for good
        n = r.randint(1, 6)
        f['pattern'] = [0] * r.randint(1, 2) + [None] * n
    return f


class Late(seams.Solver):
    """First attempts per pattern, afterwards nothing converges."""
    def __init__(self, pattern, probe):
        super().__init__(probe=probe, attempts=list(pattern) + [0] * 5000)


class S01(Check):
    prop = 'S01'
    counts = dict(quick=700, thorough=14000)
    rule = ('a run is a random world (both schemes) and a history of steps; before each step the simulator suffers 0-3 failures (solver starved for good from the '
            'start or after some sub-steps, exception / allocation failure / interrupt at a chosen fraction of the lines or tensor operations the step executes, '
            'broken stdout), after each of which the complete state must be bitwise the one before; then the step is done and compared bitwise with a twin that '
            'never failed; non-trivial = at least one failure really happened and the twin moved; distinct = fault kinds x places x world')
    stub = ['solver iteration budgets (starved through guarded hooks)', 'stdout']

    def gen(self, r, i, tier):
        fi = r.random() < 0.2
        if fi:
            w = W.gen_world(r, max_cells=6, solver='fully_implicit', pvt=False, three=False, wells='rate', min_cells=2)
            if r.random() < 0.3:            # one cell and a rate at the edge of what the scheme accepts
                w['dims'] = [1, 1, 1]; w['init'] = dict(seed=r.randrange(1 << 30), dp=0.1, ds=0.05); w.pop('het', None)
                w['wells'] = [dict(name='W', type=r.choice(['injector', 'producer']), i=0, j=0, k=0, radius=0.1, control_type='rate', control_value=u_(r))]
            elif r.random() < 0.6:          # rates small enough for the scheme to accept steps
                for x in w['wells']: x.update(W_ctl(x, 1e-3))
        else:
            w = W.gen_world(r, max_cells=r.choice([8, 27, 60]))
            w['sim'].update(solver_variant(r))
            if r.random() < 0.2: w['sim'].update(debug_component_balance=True, debug_log_path='dbg.log')
        w['sim']['max_time_step_attempts'] = r.choice([1, 2, 3, 5])
        if r.random() < 0.3: w['sim']['dt_reduction_factor'] = r.choice([1.5, 2.0, 4.0])
        ops = []
        for _ in range(r.randint(1, 4)):
            op = dict(op='step', dt=W.sig(w['dt'] * r.choice([1, 1, 0.3, 2])), fault_list=[gen_fault(r, fi) for _ in range(r.randint(0, 3))])
            if r.random() < 0.25: op['starve'] = gen_starve(r, 'few')
            if r.random() < 0.3: op['ctl'] = [[r.randrange(4), r.choice([0.5, 1.2, 2.0])]]
            ops.append(op)
        if fi and w['dims'] == [1, 1, 1] and w['wells'] and r.random() < 0.7:
            for op in ops: op['fault_list'].append(dict(kind='starve', cap=r.choice([4, 5]), scale=r.choice([1.5, 2.0, 5.0])))
            w['sim']['max_time_step_attempts'] = r.choice([1, 1, 3])
        return dict(world=w, ops=ops, tseed=r.randrange(1 << 30), _shrink=['ops'])

    @staticmethod
    def variants(case):
        from core import _variants
        import copy
        for a, op in enumerate(case['ops']):
            for b in range(len(op.get('fault_list', []))):
                c = copy.deepcopy(case); c['ops'][a]['fault_list'].pop(b); yield c
        yield from _variants(case)

    def run(self, case, p):
        w = case['world']
        amg = w['sim'].get('pressure_solver') == 'amg'
        fi = w['sim']['solver_type'] != 'impes'
        M.torch.manual_seed(case['tseed'])
        S, T = W.build(w), W.build(w)
        failures = 0
        if fi: Solver.newton_cap = 6
        for n, op in enumerate(case['ops']):
            apply_ctl(S, op); apply_ctl(T, op)
            dt = op['dt'] * W.DAY
            # the twin's clean step, counted
            sizes = {}
            kinds = {f['kind'] for f in op['fault_list']}
            if kinds & {'line', 'op', 'stdout'}:
                D = self.clone(T, w)
                nst = op.get('starve', ())
                for f in op['fault_list']:
                    key = json.dumps([f['kind'], f.get('starve')])
                    if f['kind'] in ('line', 'op', 'stdout') and key not in sizes:
                        C = self.clone(T, w)
                        sizes[key] = self.measure(C, f, dt)
            if amg: M.torch.manual_seed(case['tseed'] + n)
            t0 = W.snap(T)
            okT, _ = step(T, dt, p, op.get('starve', ()))
            if not okT:
                d = W.diff(t0, W.snap(T))
                need(d is None, 'rollback', lambda: f'step {n}: step reported failure but {d}')
            for f in op['fault_list']:
                pre = W.snap(S)
                if amg: M.torch.manual_seed(case['tseed'] + n)
                res, fired = self.inject(S, f, dt, sizes, p)
                if fired: p.log(f['kind'], str(fired), str(res))
                post = W.snap(S)
                if res is True:
                    if not fired: p.hit('fault_not_reached')
                    elif fi or amg: p.hit('fault_absorbed'); return
                    else:
                        p.hit('fault_absorbed')
                        if f.get('starve') is None and not op.get('starve'):
                            d = W.diff(W.snap(T), post)
                            need(d is None, 'absorbed-fault', lambda: f'step {n}: {f["kind"]} failure at {fired} was absorbed and the step reported success, but {d}')
                    return
                failures += 1
                d = W.diff(pre, post)
                how = 'returned False' if res is False else f'raised {res}'
                need(d is None, 'rollback', lambda: f'step {n}: {f["kind"]} failure at {fired}: run_step {how} but {d}')
                p.hit('rolled_back')
                p.sign(w['dims'], f['kind'], str(fired), bool(w.get('pvt')), n)
            if amg: M.torch.manual_seed(case['tseed'] + n)
            okS, _ = step(S, dt, p, op.get('starve', ()))
            log_state(p, S)
            need(amg or okS == okT, 'history', lambda: f'step {n}: the step after failures returned {okS}, its twin without failures {okT}')
            if not amg:
                d = W.diff(W.snap(T), W.snap(S))
                need(d is None, 'history', lambda: f'step {n}: after {failures} failed attempts the simulator differs from one that never failed: {d}')
                p.hit('twin_equal')

    @staticmethod
    def clone(T, w):
        """A second simulator in T's present state (to count lines and operations without touching T)."""
        C = W.build(w)
        for n in W.FIELDS + ('prev_pressure', 'prev_sw', 'prev_sg'):
            setattr(C.fluid, n, getattr(T.fluid, n).clone())
        for a, b in zip(C.well_manager.get_wells(), T.well_manager.get_wells()): a.control_value = b.control_value
        return C

    @staticmethod
    def measure(C, f, dt):
        if f['kind'] == 'line':
            with LineBomb(-1, None) as b:
                with Solver(f.get('starve', ())): call(C.run_step, dt)
            return b.count
        if f['kind'] == 'op':
            b = op_bomb(-1, None)
            with b, Solver(f.get('starve', ())): call(C.run_step, dt)
            return b.k
        a = OUT.n
        with Solver(f.get('starve', ())): call(C.run_step, dt)
        return OUT.n - a

    @staticmethod
    def inject(S, f, dt, sizes, p):
        k = f['kind']
        def go(ctx):
            try:
                with ctx: return bool(call(S.run_step, dt))
            except seams.INJECTED as e: return type(e).__name__
            except OSError as e:
                if getattr(e, 'injected', False): return type(e).__name__
                raise
        if k == 'starve':
            ws = S.well_manager.get_wells(); cv = [x.control_value for x in ws]
            if f.get('scale'):
                for x in ws:
                    if x.control_type == 'rate': x.control_value *= f['scale']
            res = go(Solver((), p, f['cap']))
            if res is not True:
                for x, v in zip(ws, cv): x.control_value = v
            return res, ('solver' if res is not True else None)
        if k == 'late':
            res = go(Late(f['pattern'], p))
            p.fault('solver.dies_midway')
            return res, ('solver' if res is not True else None)
        n = 1 + int(f['frac'] * max(1, sizes[json.dumps([k, f.get('starve')])]))
        if k == 'stdout':
            OUT.fail_at = OUT.n + n; OUT.fired = False
            res = go(Solver(f.get('starve', ()), p)); OUT.fail_at = None
            if OUT.fired: p.fault('stdout.EPIPE')
            return res, ('stdout' if OUT.fired else None)
        exc = EXC[f['exc']]()
        b = LineBomb(n, exc) if k == 'line' else op_bomb(n, exc)
        from contextlib import ExitStack
        st = ExitStack()
        class Both:
            def __enter__(self): st.enter_context(Solver(f.get('starve', ()), p)); st.enter_context(b)
            def __exit__(self, *a): st.__exit__(*a)
        res = go(Both())
        if b.fired: p.fault(f'{k}.{f["exc"]}')
        return res, b.fired


def u_(r): return W.sig(r.uniform(1250, 1780))


def W_ctl(x, f):
    if 'control_value' in x: return dict(control_value=W.sig(x['control_value'] * f))
    return dict(control=dict(x['control'], value=W.sig(x['control']['value'] * f)))


CHECK = S01()
