"""Isolation: several simulators in one process, interleaved or in threads, behave as if alone."""
import sys, threading
from props.common import *
from props.S06 import check_pressure, check_transport


class Router:
    """One solver seam per simulator: whoever is stepping owns the budget points."""
    def __init__(self): self.cur = {}
    def __call__(self, name, value):
        h = self.cur.get(threading.get_ident())
        return h(name, value) if h else value


class S07(Check):
    prop = 'S07'
    counts = dict(quick=1300, thorough=26000)
    rule = ('a run is 2-4 simulators (same or different worlds, sharing configuration objects or not, CG / float64 / AMG with equal or different parameters) whose steps are '
            'interleaved in a seeded order in one thread, or run in one thread each under a seeded scheduler that may switch at every executed line and every lock operation; '
            'some steps have starved solver calls, some are killed by an exception at a seeded line; every simulator must end each step exactly as in a process of its own '
            '(bitwise; with AMG: each accepted sub-step solves its own flow equations); non-trivial = at least two simulators stepped and (threads) at least one switch happened '
            'inside a step; distinct = executed interleaving')
    real = REAL_CORE + ['AMG solver and its process-wide cache and lock']
    stub = ['thread scheduler and locks (real threads, one runnable at a time; locks created by the code under test are simulated)', 'solver budgets']

    def gen(self, r, i, tier):
        k = r.choice([2, 2, 3, 4])
        threads = r.random() < 0.55
        cells = r.choice([4, 12, 24]) if threads else r.choice([6, 24, 60])
        worlds = []
        amg = r.random() < 0.5
        base = W.gen_world(r, max_cells=cells)
        if base.get('pvt') and r.random() < 0.5:
            for q in base['wells']:
                ty, v = W.control(q)
                if q['type'] == 'producer' and ty == 'rate': q['limits'] = {key: W.sig(v * r.uniform(0.3, 3)) for key in r.sample(['wopr', 'liqr', 'wgpr'], 2)}
        ap = dict(coarsest_size=r.choice([4, 16, 200]), max_cycles=r.choice([5, 20]), theta=0.25)
        for j in range(k):
            x = r.random()
            if j and x < 0.2: w = 'same'
            elif j and x < 0.5: w = W.nearly(r, base)
            elif j and x < 0.75:
                w = W.gen_world(r, max_cells=cells, dims=base['dims'])          # same size: shares whatever is keyed by size
            else: w = base if j == 0 else W.gen_world(r, max_cells=cells)
            if w != 'same':
                w = json.loads(json.dumps(w))
                if amg and r.random() < 0.8: w['sim'].update(pressure_solver='amg', amg=dict(ap) if r.random() < 0.8 else dict(ap, theta=0.5))
                elif r.random() < 0.2: w['sim'].update(pressure_float64=True)
            worlds.append(w)
        ops = []
        for j in range(k):
            seq = []
            for _ in range(r.randint(1, 2) if threads else r.randint(1, 4)):
                op = dict(dt=W.sig(base['dt'] * r.choice([1, 0.5, 2])))
                if r.random() < 0.2: op['starve'] = gen_starve(r, 'few')
                if r.random() < 0.2: op['ctl'] = [[r.randrange(4), r.choice([0.5, 1.2])]]
                if r.random() < 0.25: op['limits'] = [[r.randrange(4), key, r.choice([0.02, 0.3, 3.0])] for key in ('wopr', 'wgpr', 'liqr', 'wlpr')]
                if r.random() < 0.2: op['bomb'] = int(10 ** r.uniform(0.5, 3.8))
                seq.append(op)
            ops.append(seq)
        case = dict(worlds=worlds, seqs=ops, tseed=r.randrange(1 << 30), threads=threads, _shrink=['switches', 'order'])
        if threads:
            t, sw = 0, []
            kind = r.choice(['dense', 'sparse', 'mixed'])
            for _ in range(r.choice([3, 20, 150])):
                t += 1 + int(10 ** (r.uniform(0, 1.5) if kind == 'dense' else r.uniform(1.5, 3.5) if kind == 'sparse' else r.uniform(0, 3.5)))
                sw.append([t, r.randrange(k)])
            case['switches'] = sw
            if r.random() < 0.5: case['gates'] = [r.randrange(1 << 30), r.choice([3, 10, 30, 100]), r.choice([1, 5, 40])]
        else:
            order = [j for j, s in enumerate(ops) for _ in range(len(s) + 1)]      # first occurrence constructs
            r.shuffle(order)
            case['order'] = order
        return case

    @staticmethod
    def variants(case):
        from core import _variants
        import copy
        for j in range(len(case['seqs'])):
            for a in range(len(case['seqs'][j])):
                for key in ('bomb', 'starve', 'ctl'):
                    if key in case['seqs'][j][a]:
                        c = copy.deepcopy(case); c['seqs'][j][a].pop(key); yield c
        yield from _variants(case)

    def world(self, case, j):
        w = case['worlds'][j]
        return case['worlds'][0] if w == 'same' else w

    # one step of simulator j; returns (outcome, snapshot)
    def do(self, S, w, ref, op, p, router, amg, who, sched=None):
        apply_ctl(S, op); apply_lim([x.get('limits') for x in ref.wells], op)
        vals = values(S)
        tr = Trace(S)
        h = Solver(op.get('starve', ()), p, on_attempt=tr)
        me = threading.get_ident()
        pre = W.snap(S)
        router.cur[me] = h
        fired = []
        n = op.get('bomb')
        res = None
        try:
            if n is None: res = bool(call(S.run_step, op['dt'] * W.DAY))
            elif sched is None:
                with LineBomb(n, seams.InjectedError('injected')) as b:
                    try: res = bool(call(S.run_step, op['dt'] * W.DAY))
                    finally:
                        if b.fired: fired.append(1)
            else:
                cnt = [0]; me_i = sched.idents[me]
                probe = LineBomb(n, None)
                def hit(frame):
                    if fired or probe._below(frame) < 2: return
                    cnt[0] += 1
                    if cnt[0] == n:
                        fired.append(1); sched.bomb.pop(me_i, None)
                        raise seams.InjectedError('injected')
                sched.bomb[me_i] = hit
                try: res = bool(call(S.run_step, op['dt'] * W.DAY))
                finally:
                    sched.bomb.pop(me_i, None)
        except seams.INJECTED:
            res = 'interrupted'
        finally:
            router.cur.pop(me, None)
            if sched is not None: sys.settrace(sched._trace)
        if fired: p.fault('exception_inside_step')
        if op.get('starve') and h.fired: p.hit('starved_step')
        p.steps += 1
        s = W.snap(S)
        if res is not True:
            d = W.diff(pre, s)
            need(d is None, 'rollback', lambda: f'{who}: step {"failed" if res is False else res} but {d}')
        elif amg:
            for k, (a, b, dt) in enumerate(tr.transitions()):
                sy = ref.pressure_system(a['f'][0], a['f'][1], a['f'][2], dt, vals)
                if not all(finite(x) for x in b['f']): raise Violation('nonfinite', f'{who}: non-finite field')
                if 'switch?' in sy['modes'] or np.max(np.abs(b['f'][0])) > 3e8: continue
                tol = w['sim'].get('cg_tolerance', 1e-6)
                check_pressure(ref, sy, a['f'], b['f'][0], dt, vals, tol, tol, p, who)
                check_transport(ref, sy, a['f'], b['f'], dt, vals, p, who)
                p.hit('amg_substep_refined')
        return res, (bool(fired) if n is not None else None), s

    def run(self, case, p):
        M.torch.manual_seed(case['tseed'])
        k = len(case['worlds'])
        router = Router()
        case = json.loads(json.dumps(case))
        ws = [self.world(case, j) for j in range(k)]
        live = {id(w): {} for w in ws}             # simulators of one world are built from the same objects
        amg = [w['sim'].get('pressure_solver') == 'amg' for w in ws]
        tr = [[] for _ in range(k)]

        def alone(x):
            j, outcomes = x
            M.hooks.handler = None
            S = W.build(ws[j])
            out = []
            for op, o in zip(case['seqs'][j], outcomes):
                apply_ctl(S, op)
                if o == 'interrupted': out.append(('interrupted', W.snap(S))); continue
                with Solver(op.get('starve', ())): res = bool(call(S.run_step, op['dt'] * W.DAY))
                out.append((res, W.snap(S)))
            return out
        zy = [None if amg[j] else Zygote(alone) for j in range(k)]
        M.hooks.handler = router
        if case['threads']:
            sched = seams.Sched(case['switches'], gates=case.get('gates'))
            refs = [None] * k
            def body(j):
                S = W.build(ws[j], live=live[id(ws[j])]); refs[j] = RF.Ref(ws[j])
                for n, op in enumerate(case['seqs'][j]):
                    tr[j].append(self.do(S, ws[j], refs[j], op, p, router, amg[j], f'thread {j} step {n}', sched))
            for j in range(k): sched.spawn(lambda j=j: body(j))
            errs = sched.run()
            for j, e in enumerate(errs):
                if e is None: continue
                if isinstance(e, seams.Deadlock): raise Violation('deadlock', f'thread {j}: {e}')
                if isinstance(e, Violation): raise e
                raise Violation('crashed', f'thread {j}: {type(e).__name__}: {e}')
            p.hit('thread_switches', sched.n_switch); p.hit('lock_contention', sched.contended)
            inter = sched.order
        else:
            sims = {}
            pos = [0] * k
            for j in case['order']:
                if j >= k: continue
                if j not in sims:
                    S = W.build(ws[j], live=live[id(ws[j])]); sims[j] = (S, RF.Ref(ws[j])); continue
                if pos[j] >= len(case['seqs'][j]): continue
                op = case['seqs'][j][pos[j]]
                S, ref = sims[j]
                tr[j].append(self.do(S, ws[j], ref, op, p, router, amg[j], f'simulator {j} step {pos[j]}'))
                pos[j] += 1
            inter = case['order']
        # alone
        for j in range(k):
            if not tr[j] or amg[j]: zy[j] and zy[j].close(); continue
            solo = zy[j].ask((j, [x[0] for x in tr[j]]))
            for n, ((ra, fa, a), (rb, b)) in enumerate(zip(tr[j], solo)):
                if fa and ra is True: break                # a failure inside the step was absorbed: the twin had none
                need(ra == rb, 'outcome', lambda: f'simulator {j} step {n}: {ra} among {k} simulators, {rb} alone')
                d = W.diff(b, a)
                need(d is None, 'interference', lambda: f'simulator {j} step {n}: differs from the same simulator running alone: {d}')
                p.hit('equal_to_solo')
            for x in tr[j][-1:]: p.log(x[2]['pressure'], x[2]['s_w'])
        if sum(1 for t in tr if t) >= 2:
            p.sign([w['dims'] for w in ws], amg, inter, [[x[0] for x in t] for t in tr])
            p.hit('threads' if case['threads'] else 'interleaved')


CHECK = S07()
