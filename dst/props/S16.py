"""The mass balance is the change of what is in place."""
from props.common import *

PH = ('water', 'gas', 'oil')


class S16(Check):
    prop = 'S16'
    counts = dict(quick=900, thorough=18000)
    rule = ('a run is a random world and 3-10 steps with changing dt and targets, starved solver calls, cut, failed and interrupted steps; after every step the net (in - out) of each phase must '
            'have changed by the sum over sub-steps and cells of pore volume x density (an independent density model at the new pressure) x saturation change, "in" and "out" must not have '
            'decreased, and steps that failed or were interrupted must have changed nothing; non-trivial = some phase moved; distinct = (world shape, wells, PVT, step outcomes, faults)')
    stub = ['solver iteration budgets (starved through guarded hooks)']

    def gen(self, r, i, tier):
        kind = scale_of(r)
        w = W.gen_world(r, **sized(r, kind, [8, 27, 60], rate=r.choice([(0.005, 0.12), (0.05, 0.6)])))
        if r.random() < 0.1: W.crowd(r, w)
        w['sim'].update(solver_variant(r))
        w['sim']['max_time_step_attempts'] = r.choice([1, 2, 3, 5])
        ops = []
        for _ in range(nops(r, kind, 3, 10)):
            op = dict(dt=W.sig(w['dt'] * r.choice([1, 1, 0.3, 3])))
            x = r.random()
            if x < 0.25: op['attempts'] = [r.choice([None, 0]) for _ in range(4)]
            elif x < 0.35: op['attempts'] = [None] * r.randint(0, 1) + [0] * 200
            elif x < 0.5: op['starve'] = gen_starve(r)
            elif x < 0.65: op['bomb'] = [round(r.random(), 4), r.choice([[], [0, None]])]
            if r.random() < 0.2: op['ctl'] = [[r.randrange(4), r.choice([0.5, 1.2, 2.0, 0.0])]]
            ops.append(op)
        return dict(world=w, ops=ops, tseed=r.randrange(1 << 30), _shrink=['ops'])

    def run(self, case, p):
        w = case['world']
        M.torch.manual_seed(case['tseed'])
        S = W.build(w)
        ref = RF.Ref(w)
        sizes = None
        outcome = []
        for n, op in enumerate(case['ops']):
            apply_ctl(S, op)
            m0 = json.loads(json.dumps(S.mass_balance))
            dt = op['dt'] * W.DAY
            if op.get('bomb'):
                f, att = op['bomb']
                b = op_bomb(1 + int(f * 400), seams.InjectedError('injected'))
                try:
                    with b: ok, h, tr = traced(S, dt, p, attempts=att or None)
                except seams.INJECTED: ok, tr = 'raised', []
                if b.fired: p.fault('op.error')
            else:
                ok, h, tr = traced(S, dt, p, op.get('starve', ()), attempts=op.get('attempts'))
            log_state(p, S)
            m1 = S.mass_balance
            outcome.append((ok, len(tr)))
            if ok is not True:
                p.hit('failed_or_interrupted')
                need(json.dumps(m0) == json.dumps(m1), 'failed-step', lambda: f'step {n} did not succeed ({ok}) but the mass balance went from {m0} to {m1}')
                continue
            if any(np.max(np.abs(b['f'][0])) > 3e8 or not all(finite(x) for x in b['f']) for _, b, _ in tr): p.hit('extreme'); return
            want = {k: 0.0 for k in PH}; mag = {k: 0.0 for k in PH}
            for a, b, _ in tr:
                rho = ref.rho(b['f'][0])
                dw, dg = b['f'][1] - a['f'][1], b['f'][2] - a['f'][2]
                for k, d, q in (('water', dw, 'w'), ('gas', dg, 'g'), ('oil', -(dw + dg), 'o')):
                    x = ref.PV * rho[q] * d
                    want[k] += float(np.sum(x)); mag[k] += float(np.sum(np.abs(x))) if k != 'oil' else float(np.sum(ref.PV * np.abs(rho[q]) * (np.abs(dw) + np.abs(dg))))
            if len(tr) > 1: p.hit('subcycled')
            for k in PH:
                for io in ('in', 'out'):
                    need(m1[k][io] >= m0[k][io], 'decreased', lambda: f'step {n}: cumulative {k} {io} fell from {m0[k][io]} to {m1[k][io]}')
                got = (m1[k]['in'] - m1[k]['out']) - (m0[k]['in'] - m0[k]['out'])
                lim = 32 * EPS32 * mag[k] + 4e-16 * sum(m1[k].values()) + 1e-9
                p.measure('mass_err/bound', abs(got - want[k]) / lim)
                need(abs(got - want[k]) <= lim, 'mass-' + k, lambda: f'step {n}: the net {k} mass balance changed by {got:.8g} kg, the {k} in place by {want[k]:.8g} kg ({len(tr)} sub-steps, bound {lim:.3g})')
            if any(mag[k] > 1 for k in PH): p.hit('moved')
        if len(outcome): p.sign(w['dims'], bool(ref.pvt), len(w['wells']), outcome)


CHECK = S16()
