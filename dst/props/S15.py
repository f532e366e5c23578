"""Component accounting: surface volumes of what the wells really moved, each part counted once."""
from props.common import *


class S15(Check):
    prop = 'S15'
    counts = dict(quick=900, thorough=18000)
    rule = ('a run is a random world with a PVT table and wells of every control mode, and 3-10 steps with changing dt and targets, starved, cut, failed and interrupted steps; after every step '
            'the oil and gas component counters must have grown by exactly the sum over sub-steps and wells of the surface volumes of an independent well model (dissolved gas and vaporised oil '
            'included), accumulation must equal in minus out, and failed steps must have changed nothing; non-trivial = a component moved; distinct = (wells and modes, step outcomes)')
    stub = ['solver iteration budgets (starved through guarded hooks)']

    def gen(self, r, i, tier):
        kind = scale_of(r)
        w = W.gen_world(r, **sized(r, kind, [2, 8, 27], pvt=True, rate=r.choice([(0.005, 0.12), (0.05, 0.3)])))
        while not w['wells'] and r.random() < 0.9:
            w = W.gen_world(r, **sized(r, kind, [2, 8, 27], pvt=True))
        if r.random() < 0.1: W.crowd(r, w)
        w['sim'].update(solver_variant(r))
        w['sim']['max_time_step_attempts'] = r.choice([1, 2, 3, 5])
        if r.random() < 0.2: w['sim']['global_rate_scale'] = r.choice([0.5, 1.3])
        ops = []
        for _ in range(nops(r, kind, 3, 10)):
            op = dict(dt=W.sig(w['dt'] * r.choice([1, 1, 0.3, 3])))
            x = r.random()
            if x < 0.3: op['attempts'] = [r.choice([None, 0]) for _ in range(4)]
            elif x < 0.4: op['attempts'] = [None] * r.randint(0, 1) + [0] * 200
            elif x < 0.5: op['starve'] = gen_starve(r)
            elif x < 0.65: op['bomb'] = [round(r.random(), 4), r.choice([[], [0, None]])]
            if r.random() < 0.3: op['ctl'] = [[r.randrange(4), r.choice([0.5, 1.2, 2.0, 0.0])]]
            ops.append(op)
        return dict(world=w, ops=ops, tseed=r.randrange(1 << 30), _shrink=['ops'])

    def run(self, case, p):
        w = case['world']
        M.torch.manual_seed(case['tseed'])
        S = W.build(w)
        ref = RF.Ref(w)
        outcome = []
        scale = 0
        for n, op in enumerate(case['ops']):
            apply_ctl(S, op); vals = values(S)
            c0 = json.loads(json.dumps(S.component_balance))
            dt = op['dt'] * W.DAY
            if op.get('bomb'):
                f, att = op['bomb']
                b = op_bomb(1 + int(f * 500), seams.InjectedError('injected'))
                try:
                    with b: ok, h, tr = traced(S, dt, p, attempts=att or None)
                except seams.INJECTED: ok, tr = 'raised', []
                if b.fired: p.fault('op.error')
            else:
                ok, h, tr = traced(S, dt, p, op.get('starve', ()), attempts=op.get('attempts'))
            log_state(p, S)
            c1 = json.loads(json.dumps(S.component_balance))
            outcome.append((ok, len(tr)))
            if ok is not True:
                p.hit('failed_or_interrupted')
                need(c0 == c1, 'failed-step', lambda: f'step {n} did not succeed ({ok}) but the component balance went from {c0} to {c1}')
                continue
            for k in ('oil', 'gas'):
                e = c1[k]['accum'] - (c1[k]['in'] - c1[k]['out'])
                need(abs(e) <= 1e-9 * (abs(c1[k]['in']) + abs(c1[k]['out'])) + 1e-12, 'accumulation', lambda: f'step {n}: {k} accumulation {c1[k]["accum"]} is not in - out of {c1[k]}')
            want = {(k, io): 0.0 for k in ('oil', 'gas') for io in ('in', 'out')}
            lim = dict(want)
            skip = False
            for a, b, d in tr:
                A, B = a['f'], b['f']
                if not all(finite(x) for x in B) or np.max(np.abs(B[0])) > 3e8: skip = True; break
                sy = ref.pressure_system(A[0], A[1], A[2], d, vals)
                if 'switch?' in sy['modes']: skip = True; break
                m = ref.mob(B[0], A[1], A[2])
                qs, info = ref.well_sources(B[0], A[1], A[2], d, m, sy['modes'], vals)
                if ref.ill: skip = True; break
                # how much the last bits of the saturations decide (end points of the curves)
                alt = []
                for ew, eg, ep in ((1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)):
                    sw2, sg2 = A[1] + 4 * EPS32 * ew, np.maximum(A[2] + 4 * EPS32 * eg, 0)
                    P2 = B[0] * (1 + 2 * EPS32 * ep)      # steep table entries
                    alt.append(ref.well_sources(P2, sw2, sg2, d, ref.mob(P2, sw2, sg2), sy['modes'], vals)[1])
                if ref.rp.get('model') == 'stone2':
                    for do in (-1, 1): alt.append(ref.well_sources(B[0], A[1], A[2], d, ref.mob(B[0], A[1], A[2], do), sy['modes'], vals)[1])
                for q, (x, y) in enumerate(zip(w['wells'], info)):
                    c = ref.cell(x)
                    rel = 40 * EPS32
                    if ref.qnoise[c] > 0: rel += 4 * ref.qnoise[c] / max(abs(y['Q']), 1e-30)
                    # room left in the cell is a difference of saturations
                    rel += 4 * EPS32 * ref.PV[c] / max(abs(y['Q']) * d, 1e-30)
                    for k in ('oil', 'gas'):
                        if y[f'{k}_in'] and W.control(x)[0] == 'bhp': p.hit('bhp_injection_or_crossflow')
                        for io in ('in', 'out'):
                            want[k, io] += y[f'{k}_{io}']; lim[k, io] += rel * max(abs(y[f'{k}_in']), abs(y[f'{k}_out'])) + sum(abs(z[q][f'{k}_{io}'] - y[f'{k}_{io}']) for z in alt)
            if skip: p.hit('skipped_tie_or_extreme'); continue
            if len(tr) > 1: p.hit('subcycled')
            for (k, io), v in want.items():
                got = c1[k][io] - c0[k][io]
                l = lim[k, io] + 1e-12 * abs(c1[k][io]) + 1e-9
                p.measure('component_err/bound', abs(got - v) / l)
                need(abs(got - v) <= l, f'{k}-{io}', lambda: f'step {n}: the {k} component "{io}" counter grew by {got:.9g} m3, the wells moved {v:.9g} m3 ({len(tr)} sub-steps, bound {l:.3g}); wells {[(x["name"], x["type"], W.control(x)[0]) for x in w["wells"]]}')
                if v > 1e-6: scale += 1; p.hit(f'{k}_{io}')
        if scale: p.sign([(x['type'], W.control(x)[0], x.get('injected_phase'), x.get('rate_type'), sorted(x.get('limits', {}))) for x in w['wells']], outcome)


CHECK = S15()
