"""CG, double precision CG and AMG solve the same equations: their answers agree."""
from props.common import *

NAMES = ('pressure', 's_w', 's_g', 's_o', 'prev_pressure', 'prev_sw', 'prev_sg')


def load(S, st):
    """Puts a simulator into a recorded state."""
    for n, v in st['f'].items(): setattr(S.fluid, n, M.torch.from_numpy(v.copy()))
    S.mass_balance = json.loads(json.dumps(st['mass'])); S.component_balance = json.loads(json.dumps(st['comp']))


def save(S):
    return dict(f={n: getattr(S.fluid, n).detach().numpy().copy() for n in NAMES if getattr(S.fluid, n, None) is not None}, mass=json.loads(json.dumps(S.mass_balance)), comp=json.loads(json.dumps(S.component_balance)))


def variants_of(r):
    v = [dict(), dict(pressure_float64=True)]
    for _ in range(r.randint(1, 2)):
        v.append(dict(pressure_solver='amg', amg=dict(coarsest_size=r.choice([1, 4, 16, 200]), max_cycles=r.choice([1, 5, 20, 60]), theta=r.choice([0.1, 0.25, 0.5, 0.9]), max_levels=r.choice([1, 2, 10]), **({'tol': r.choice([1e-4, 1e-8, 1e-6])} if r.random() < 0.5 else {}))))
    if r.random() < 0.4: v.append(dict(cg_tolerance=r.choice([1e-5, 1e-4]), cg_max_iter=r.choice([60, 500])))
    return v


class S09(Check):
    prop = 'S09'
    counts = dict(quick=800, thorough=16000)
    rule = ('a run is a history of 2-6 steps of one world; before every step all solver variants (CG, float64 CG, AMG with random parameters, looser tolerances) are put into the same state, and each performs the '
            'step, some with their first solver call starved so that they take the relaxed retry, the CG fallback or the cut step; pressures of every pair must agree within the accuracy of the two solvers '
            '(rounding and tolerance carried through the inverse of the reference matrix), saturations within what the pressure difference explains, rates and balances likewise; '
            'non-trivial = two variants were compared on a step that moved the state; distinct = (world, variants, solver events)')

    def gen(self, r, i, tier):
        kind = scale_of(r)
        w = W.gen_world(r, **sized(r, kind, [6, 20, 50]))
        if r.random() < 0.08: W.crowd(r, w)
        for k in ('pressure_solver', 'amg', 'pressure_float64', 'cg_tolerance'): w['sim'].pop(k, None)
        ops = []
        vs = variants_of(r)
        for _ in range(nops(r, kind, 2, 6)):
            op = dict(dt=W.sig(w['dt'] * r.choice([1, 0.3, 2])), lead=r.randrange(len(vs)))
            if r.random() < 0.3: op['ctl'] = [[r.randrange(4), r.choice([0.5, 1.2])]]
            if r.random() < 0.4: op['starve'] = {str(r.randrange(len(vs))): [r.choice([0, 0, 1, 2])]}
            if r.random() < 0.15: op['attempts'] = [0]
            ops.append(op)
        return dict(world=w, vs=vs, ops=ops, tseed=r.randrange(1 << 30), _shrink=['ops'])

    def run(self, case, p):
        w = case['world']
        M.torch.manual_seed(case['tseed'])
        sims = [W.build(w, sim_extra=v) for v in case['vs']]
        ref = RF.Ref(w)
        state = save(sims[0])
        done = []
        for n, op in enumerate(case['ops']):
            res = []
            for k, S in enumerate(sims):
                load(S, state); apply_ctl(S, op)
                st = (op.get('starve') or {}).get(str(k), ())
                ok, h, tr = traced(S, op['dt'] * W.DAY, p, st, attempts=op.get('attempts') if not st else None)
                res.append((ok, h, tr, [x.last_q_total for x in S.well_manager.get_wells()]))
                if not ok: p.hit('variant_failed')
            vals = values(sims[0])
            ev = [(ok, h.fired, [a for a in h.names if a.split('.')[0] in ('cg', 'amg')][:4]) for ok, h, _, _ in res]
            good = [k for k, x in enumerate(res) if x[0] and x[2]]
            if len(good) >= 2: self.compare(case, ref, good, res, vals, f'step {n}', p, done, ev)
            # a solver that converges for one variant with room to spare must not be reported as failing by the others
            for k, x in enumerate(res):
                if not x[0] and not x[1].fired and not op.get('attempts') and case['vs'][k].get('pressure_solver') != 'amg' and not case['vs'][k]: p.hit('cg_failed_by_itself')
            if res[op['lead']][0]: state = save(sims[op['lead']])
            log_state(p, sims[op['lead']])
        if done: p.sign(w['dims'], [sorted(v) for v in case['vs']], done)

    def compare(self, case, ref, good, res, vals, tag, p, done, ev):
        w = case['world']
        base = {}
        for k in good:
            a, b, dt = res[k][2][0]
            base.setdefault(round(dt, 6), []).append(k)
        for dt_, ks in base.items():
            if len(ks) < 2: continue
            a, b, dt = res[ks[0]][2][0]
            pre = a['f']
            sy = ref.pressure_system(pre[0], pre[1], pre[2], dt, vals)
            if 'switch?' in sy['modes']: p.hit('skipped_tie'); continue
            A = ref.dense(sy)
            try: inv = np.abs(np.linalg.inv(A))
            except np.linalg.LinAlgError: p.hit('skipped_singular'); continue
            dg = sy['diag']
            bn = math.sqrt(float(np.sum(sy['b'] ** 2 / dg)))
            err = {}
            for k in ks:
                v = case['vs'][k]; P = res[k][2][0][1]['f'][0]
                need(finite(P), 'nonfinite', f'{tag}: variant {v} produced a non-finite pressure')
                if np.max(np.abs(P)) > 3e8: continue
                neigh = np.zeros(ref.N)
                np.add.at(neigh, ref.fa, sy['T'] * np.abs(P[ref.fb])); np.add.at(neigh, ref.fb, sy['T'] * np.abs(P[ref.fa]))
                noise = EPS32 * (dg * np.abs(P) + neigh + sy['mag'] + dg * np.max(np.abs(P)))
                tol = v.get('cg_tolerance', 1e-6)
                lim = 15 * tol
                amg = v.get('pressure_solver') == 'amg'
                if amg: lim = max(lim, 3 * max(v['amg'].get('tol', tol), 1e-9) * bn)
                # tolerance part in the norm of the stopping test: |A^-1 r| <= row norm of A^-1 D^1/2 times the norm of D^-1/2 r
                row = np.sqrt(np.sum(inv ** 2 * dg[None, :], axis=1))
                err[k] = 24 * inv @ noise + row * lim + 4 * EPS32 * np.abs(P)
            ks = [k for k in ks if k in err]
            for x in range(len(ks)):
                for y in range(x + 1, len(ks)):
                    self.pair(case, ref, sy, res, ks[x], ks[y], err, dt, vals, tag, p, done, ev)

    def pair(self, case, ref, sy, res, i, j, err, dt, vals, tag, p, done, ev):
        w = case['world']
        (a1, b1, _), (a2, b2, _) = res[i][2][0], res[j][2][0]
        P1, P2 = b1['f'][0], b2['f'][0]
        lim = err[i] + err[j]
        d = np.abs(P1 - P2)
        name = f"{case['vs'][i] or 'cg'} / {case['vs'][j] or 'cg'}"
        p.measure('dp/bound', float(np.max(d / lim)))
        c = int(np.argmax(d / lim))
        need(d[c] <= lim[c], 'pressure', lambda: f'{tag} (dt {dt:.4g} s): {name}: pressures {P1[c]:.9g} and {P2[c]:.9g} Pa in cell {c}, solver accuracy allows {lim[c]:.3g} Pa')
        p.hit('pairs'); done.append((i, j, ev[i][1], ev[j][1]))
        pre = a1['f']
        t1 = ref.transport(P1, pre[0], pre[1], pre[2], dt, sy['modes'], vals); ill = ref.ill
        t2 = ref.transport(P2, pre[0], pre[1], pre[2], dt, sy['modes'], vals)
        if ill or ref.ill: return
        u = unclamped(ref, pre, b1['f']) & unclamped(ref, pre, b2['f'])
        for f, nm in ((1, 'water'), (2, 'gas')):
            due = t1[f - 1] - t2[f - 1]
            bd = 2 * (t1[2]['wg'[f - 1]] + t2[2]['wg'[f - 1]]) + 60 * EPS32
            e = np.abs((b1['f'][f] - b2['f'][f]) - due)
            bad = u & (e > bd)
            p.measure('ds/bound', float(np.max(np.where(u, e / bd, 0))))
            if bad.any():
                c = int(np.argmax(np.where(bad, e / bd, 0)))
                raise Violation('saturation', f'{tag}: {name}: {nm} saturations {b1["f"][f][c]:.8f} and {b2["f"][f][c]:.8f} in cell {c}, the pressure difference explains {due[c]:.3g} (bound {bd[c]:.2g})')
        # reported rates and component balances, where the pressures agree closely
        close = float(np.max(d / np.maximum(np.abs(P1), 1e5))) < 1e-5
        if close and ref.pvt:
            for k, (q1, q2) in enumerate(zip(b1['wells'], b2['wells'])):
                x = ref.wells[k]
                if q1['q'] is None or q2['q'] is None or sy['modes'][k] == 'bhp': continue
                l1, l2 = t1[4][k], t2[4][k]
                if l1['q'] is None or l2['q'] is None: continue
                bd = 2e-3 * (abs(q1['q']) + abs(q2['q'])) + 1e-12
                need(abs((q1['q'] - q2['q']) - (l1['q'] - l2['q'])) <= bd, 'rates', lambda: f'{tag}: {name}: well {x["name"]} reports {q1["q"]:.8g} and {q2["q"]:.8g} m3/s')
            for comp in ('oil', 'gas'):
                for io in ('in', 'out'):
                    c1 = b1['comp'][comp][io] - a1['comp'][comp][io]; c2 = b2['comp'][comp][io] - a2['comp'][comp][io]
                    l1, l2 = (sum(z[f'{comp}_{io}'] for z in t[4]) for t in (t1, t2))
                    bd = 2e-3 * (abs(c1) + abs(c2)) + 1e-9 * abs(b1['comp'][comp][io]) + 1e-9
                    dq = sum(4 * EPS32 * ref.wi(x) * t1[5]['t'][ref.cell(x)] * abs(P1[ref.cell(x)]) for k, x in enumerate(ref.wells) if sy['modes'][k] == 'bhp') * dt * 400
                    need(abs((c1 - c2) - (l1 - l2)) <= bd + dq, 'balances', lambda: f'{tag}: {name}: {comp} {io} {c1:.8g} and {c2:.8g}')
            p.hit('rates_compared')


CHECK = S09()
