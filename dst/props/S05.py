"""Conservation: flow between cells moves phase volume, wells are the only source."""
from props.common import *


def regions(ref, T=None):
    """Connected components over faces with non-zero transmissibility."""
    par = list(range(ref.N))
    def find(x):
        while par[x] != x: par[x] = par[par[x]]; x = par[x]
        return x
    for a, b, t in zip(ref.fa, ref.fb, ref.ft):
        if t > 0: par[find(int(a))] = find(int(b))
    return np.array([find(i) for i in range(ref.N)])


class S05(Check):
    prop = 'S05'
    counts = dict(quick=900, thorough=18000)
    rule = ('a run is a random world, often cut into regions by impermeable rock, and 2-8 steps with changing dt and well targets, starved and cut steps; for every sub-step and every '
            'region in which no saturation limit was touched the change of water, gas and oil volume in place must equal the net well volume (an independent well model; zero without '
            'wells) to rounding; non-trivial = some such region moved more than rounding; distinct = (world shape, regions, wells, sub-steps)')
    stub = ['solver iteration budgets (starved through guarded hooks)']

    def gen(self, r, i, tier):
        kind = scale_of(r)
        w = W.gen_world(r, **sized(r, kind, [8, 27, 80], min_cells=2, rate=r.choice([(0.005, 0.05), (0.02, 0.2)]), wells=r.choice(['any', 'any', 'pair', 'none'])))
        if r.random() < 0.25: w['wells'] = []
        elif r.random() < 0.08: W.crowd(r, w)
        if r.random() < 0.5: w['init'] = dict(seed=r.randrange(1 << 30), dp=r.choice([0.5, 2.0, 4.0]), ds=r.choice([0.05, 0.15]))
        if r.random() < 0.55:
            ax = max(range(3), key=lambda a: w['dims'][a])
            n = w['dims'][ax]
            if n >= 2: w['seal'] = [ax, sorted(set(r.randrange(n) for _ in range(r.randint(1, max(1, n // 2)))))]
        w['sim'].update(solver_variant(r))
        w['sim']['max_time_step_attempts'] = r.choice([3, 5])
        ops = []
        for _ in range(nops(r, kind, 2, 8)):
            op = dict(dt=W.sig(w['dt'] * r.choice([1, 1, 0.3, 3])))
            if r.random() < 0.3: op['attempts'] = [r.choice([None, 0]) for _ in range(3)]
            elif r.random() < 0.2: op['starve'] = gen_starve(r)
            if r.random() < 0.2: op['ctl'] = [[r.randrange(4), r.choice([0.5, 1.2, 2.0, 0.0])]]
            ops.append(op)
        return dict(world=w, ops=ops, tseed=r.randrange(1 << 30), _shrink=['ops'])

    def run(self, case, p):
        w = case['world']
        M.torch.manual_seed(case['tseed'])
        S = W.build(w)
        ref = RF.Ref(w)
        reg = regions(ref)
        wc = [ref.cell(x) for x in w['wells']]
        moved = 0; subs = 0
        for n, op in enumerate(case['ops']):
            apply_ctl(S, op); vals = values(S)
            kw = dict(attempts=op['attempts']) if op.get('attempts') else {}
            ok, h, tr = traced(S, op['dt'] * W.DAY, p, op.get('starve', ()), **kw)
            log_state(p, S)
            if not ok: p.hit('step_failed'); continue
            subs += len(tr)
            if len(tr) > 1: p.hit('subcycled')
            for a, b, dt in tr:
                moved += self.conserve(ref, reg, wc, a['f'], b['f'], dt, vals, p, f'step {n}')
        if moved: p.sign(w['dims'], w.get('seal'), [(x['type'], W.control(x)[0]) for x in w['wells']], subs)

    @staticmethod
    def conserve(ref, reg, wc, a, b, dt, vals, p, tag):
        if not all(finite(x) for x in b): raise Violation('nonfinite', f'{tag}: non-finite field')
        if np.max(np.abs(b[0])) > 3e8: return 0
        sy = ref.pressure_system(a[0], a[1], a[2], dt, vals)
        if 'switch?' in sy['modes']: p.hit('skipped_tie'); return 0
        dSw, dSg, tol, qs, info, m = ref.transport(b[0], a[0], a[1], a[2], dt, sy['modes'], vals)
        if ref.ill: return 0
        free = unclamped(ref, a, b)
        moved = 0
        for g in set(reg.tolist()):
            idx = reg == g
            if not free[idx].all(): p.hit('region_limited'); continue
            haswell = any(idx[c] for c in wc)
            # oil is what water and gas leave: conserving both conserves all three
            for ph, new, old, t in (('water', b[1], a[1], tol['w']), ('gas', b[2], a[2], tol['g'])):
                d = ref.PV[idx] * (new[idx] - old[idx])
                src = dt * float(np.sum(qs[ph[0]][idx])) if haswell else 0.0
                # a face flow is one number added here and subtracted there; only sums and additions round
                lim = float(np.sum(ref.PV[idx] * 32 * EPS32 + dt * 16 * EPS32 * ref.flux_mag[ph[0]][idx])) \
                    + dt * float(np.sum((16 * EPS32 * np.abs(qs[ph[0]]) + ref.qnoise)[idx])) * haswell
                err = abs(float(np.sum(d)) - src)
                p.measure('conservation_err/bound', err / lim)
                need(err <= lim, 'volume-' + ph, lambda: f'{tag}: {ph} in place of a region of {int(idx.sum())} cells changed by {float(np.sum(d)):.6g} m3 in {dt:.6g} s, wells account for {src:.6g} (bound {lim:.3g})')
                if float(np.max(np.abs(d))) > 3 * lim: moved += 1
            so = ref.PV[idx] * (b[3][idx] - a[3][idx] + (b[1] - a[1])[idx] + (b[2] - a[2])[idx])
            need(float(np.max(np.abs(b[3] + b[1] + b[2] - 1))) < 1e-5, 'volume-oil', f'{tag}: So + Sw + Sg != 1')
            p.hit('region_with_well' if haswell else 'region_without_well')
        return moved


CHECK = S05()
