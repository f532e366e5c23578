"""Time integrity: a successful step covers exactly the requested interval."""
from props.common import *


def interior(F, rp, m=2e-3):
    sw, sg = F.s_w.numpy().astype(np.float64), F.s_g.numpy().astype(np.float64)
    swc, so_r, sgc = rp.get('sw_cr', 0.2), rp.get('so_r', 0.2), rp.get('sg_cr', 0.0)
    nogas = not np.any(sg != 0)
    return bool(np.all(sw > swc + m) and np.all(sw + sg < 1 - so_r - m) and (nogas or np.all(sg > sgc + m)))


class S02(Check):
    prop = 'S02'
    counts = dict(quick=800, thorough=20000)
    rule = ('a run is a random IMPES world with rate wells, retry parameters (attempt limit, reduction and increase factors) and 1-5 steps whose solver attempts fail by a '
            'seeded pattern; checked per step: success exactly when fewer attempts failed than the limit, a failed attempt moves nothing, the successful sub-intervals add up to dt, '
            'injected volumes and the closed-volume pressure rise are those of the whole dt, and the state equals bitwise that of a twin doing the same sub-intervals as plain steps; '
            'non-trivial = a step succeeded after at least one failed attempt; distinct = (attempt pattern outcome, dt sequence, world)')
    stub = ['solver iteration budgets (starved through guarded hooks)']

    def gen(self, r, i, tier):
        kind = scale_of(r)
        inj = r.random() < 0.6
        w = W.gen_world(r, **sized(r, kind, [4, 18, 40], wells='inj' if inj else 'rate', limits=False, rate=(0.002, 0.03), caps=r.random() < 0.3,
                        pvt=r.random() < 0.3, min_cells=2))
        for x in w['wells']:
            for k in ('bhp_min', 'limits', 'rate_type', 'surface_phase'): x.pop(k, None)
        if r.random() < 0.5 and not w.get('pvt'):      # stiff enough rock that the pressure identity is sharp
            w['kh'] = W.sig(r.uniform(0.01, 1.0)); w['fluid'].update(c_oil=1e-3, c_water=1e-3, c_gas=5e-3, c_rock=1e-3)
        w['sim'].update(r.choice([{}, {}, {}, dict(pressure_float64=True), dict(pressure_solver='amg', amg=dict(max_cycles=20))]))
        ma = r.choice([1, 2, 3, 4, 5, 8])
        if r.random() < 0.85: w['sim']['max_time_step_attempts'] = ma
        else: ma = 5
        if r.random() < 0.6: w['sim']['dt_reduction_factor'] = r.choice([1.3, 1.7, 2.0, 3.0, 10.0])
        if r.random() < 0.6: w['sim']['dt_increase_factor'] = r.choice([1.0, 1.1, 1.25, 2.0, 5.0])
        if r.random() < 0.12:      # factors that leave a tiny last sub-interval
            e = 10 ** r.uniform(-4.5, -1.5)
            w['sim'].update(r.choice([dict(dt_reduction_factor=1 + e), dict(dt_reduction_factor=2.0, dt_increase_factor=2 - e)]))
        ops = []
        for _ in range(nops(r, kind, 1, 5)):
            op = dict(op='step', dt=W.sig(w['dt'] * r.choice([1, 1, 0.3, 2, 0.777])))
            x = r.random()
            if x < 0.8:
                nf = r.randint(0, ma - 1) if x < 0.65 else r.randint(ma, ma + 2)
                while w['sim'].get('dt_reduction_factor', 2.0) ** min(nf, ma - 1) > 40: nf -= 1
                pat = [0] * nf + [None] * r.randint(0, 10)
                if r.random() < 0.6: r.shuffle(pat)
                if x >= 0.65 and r.random() < 0.5: pat = pat + [0] * ma
                op['attempts'] = pat
            if r.random() < 0.2: op['ctl'] = [[r.randrange(4), r.choice([0.5, 1.2])]]
            ops.append(op)
        return dict(world=w, ops=ops, tseed=r.randrange(1 << 30), ma=ma, _shrink=['ops'])

    def run(self, case, p):
        w = case['world']; rp = w['fluid'].get('relative_permeability', {})
        fi = w['sim']['solver_type'] != 'impes'
        amg = w['sim'].get('pressure_solver') == 'amg'
        M.torch.manual_seed(case['tseed'])
        S, T = W.build(w), W.build(w)
        PV = W.pore_volume(w)
        ref = RF.Ref(w)
        inj_only = all(x['type'] == 'injector' for x in w['wells'])
        gas_still = not any(x.get('injected_phase') == 'gas' for x in w['wells'])
        for n, op in enumerate(case['ops']):
            apply_ctl(S, op); apply_ctl(T, op)
            dt = op['dt'] * W.DAY
            seen = []
            def at(i, d): seen.append((S.fluid.pressure.numpy().tobytes(), S.fluid.s_w.numpy().tobytes(), interior(S.fluid, rp), W.get64(S)))
            pat = op.get('attempts')
            pre = get(S)
            ok, h = step(S, dt, p, attempts=pat, on_attempt=at)
            at(None, None)
            dts = h.dts
            log_state(p, S)
            nfail = sum(1 for i in range(len(dts)) if pat and i < len(pat) and pat[i] == 0)
            moved = [seen[i][:2] != seen[i + 1][:2] for i in range(len(dts))]
            starved = [bool(pat) and i < len(pat) and pat[i] == 0 for i in range(len(dts))]
            if ok:
                for i in range(len(dts)):
                    if starved[i]: need(not moved[i], 'failed-attempt-moved', f'step {n}: attempt {i} (dt {dts[i]:.6g}) did not converge but changed the state')
            natural = any(not moved[i] and not starved[i] for i in range(len(dts)))
            if natural: p.hit('natural_nonconvergence' if not ok else 'unmoved_attempt')
            if not ok:
                p.hit('step_failed')
                need(nfail >= case['ma'], 'gave-up', lambda: f'step {n}: failed after {nfail} unsuccessful attempts of {case["ma"]} allowed ({dts})')
                continue
            need(nfail < case['ma'] or nfail == 0, 'attempt-limit', lambda: f'step {n}: succeeded after {nfail} failed attempts, limit {case["ma"]}')
            good = [d for d, s in zip(dts, starved) if not s]
            if not natural:
                need(abs(sum(good) - dt) <= 1e-6 * dt, 'time', lambda: f'step {n}: requested {dt:.9g} s, successful attempts cover {sum(good):.9g} s ({dts}, failed {starved})')
            p.measure('attempts', len(dts))
            # volumes
            post = get(S)
            inside = all(s[2] for s in seen)
            qs = {'water': 0.0, 'gas': 0.0}; net = 0.0
            for x, v in zip(w['wells'], values(S)):
                if x['type'] == 'injector': qs[x.get('injected_phase', 'water')] += v / 86400.0; net += v / 86400.0
                else: net -= v / 86400.0
            for i, d in enumerate(dts):
                for x, v in zip(w['wells'], values(S)):
                    c = ref.cell(x); a = seen[i][3]
                    if x['type'] == 'injector' and v / 86400.0 * d / ref.PV[c] > 1 - ref.so_r - a[1][c] - a[2][c] - 1e-3: inside = False   # choked
            if inj_only and inside:
                for name, k in (('water', 1), ('gas', 2)):
                    dv = float(np.sum(PV.reshape(-1) * (post[k] - pre[k]))); want = qs[name] * dt
                    # every sub-step adds its increment in float32, at most 60 times per solve
                    lim = 12 * len(good) * RF.EPS32 * float(np.sum(PV)) * 0.5 + 5e-7 * self.throughput(seen, ref, dts, starved, name)
                    p.measure('volume_err/bound', abs(dv - want) / max(lim, 1e-300))
                    if want > 20 * lim: p.hit('volume_identity')
                    need(abs(dv - want) <= lim, 'volume', lambda: f'step {n}: {name} in place changed by {dv:.6g} m3, wells put in {want:.6g} m3 over {dt:.6g} s (bound {lim:.3g}; attempts {dts}, failed {starved})')
            if not w.get('pvt') and not natural and not fi:
                acc = float(np.sum(ref.PV * ref.ct(pre[0], pre[1], pre[2]) * (post[0] - pre[0])))
                noise = 0.0
                for i, d in enumerate(dts):
                    if starved[i]: continue
                    a, b = seen[i][3], seen[i + 1][3]
                    sy = ref.pressure_system(a[0], a[1], a[2], d, values(S))
                    noise += d * float(np.sum(RF.EPS32 * (sy['diag'] * (np.abs(b[0]) + np.max(np.abs(b[0]))) + sy['mag'])))
                    noise += d * 15 * w['sim'].get('cg_tolerance', 1e-6) * math.sqrt(float(np.sum(sy['diag'])))
                    if amg: noise += d * 1e-5 * float(np.sum(np.abs(sy['b'])))
                lim = 6 * noise
                want = net * dt
                if abs(want) > 5 * lim: p.hit('pressure_identity')
                need(abs(acc - want) <= lim + 1e-3 * abs(want), 'closed-volume', lambda: f'step {n}: accumulated volume {acc:.6g} m3, wells net {want:.6g} m3 (bound {lim:.3g}; attempts {dts}, failed {starved})')
            # twin: the same intervals as plain steps
            if not natural and not amg:
                same = True
                for d in good:
                    okT, hT = step(T, d, p)
                    if not okT or len(hT.dts) != 1: same = False; break
                if same:
                    d = W.diff(W.snap(T), W.snap(S))
                    need(d is None, 'twin', lambda: f'step {n}: the cut step ({dts}, failed {starved}) differs from plain steps {good}: {d}')
                    p.hit('twin_equal')
                else: return
            else: return
            if any(starved): p.sign(w['dims'], [round(d / dt, 4) for d in dts], len(w['wells'])); p.hit('cut_step_succeeded')
            else: p.hit('clean_step')

    @staticmethod
    def throughput(seen, ref, dts, starved, name):
        """Volume of the phase exchanged between cells over the step (its rounding limits the identity)."""
        tot = 0.0
        for i, d in enumerate(dts):
            if starved[i]: continue
            a, b = seen[i][3], seen[i + 1][3]
            m = ref.mob(b[0], a[1], a[2])[name[0]]
            dp = np.abs(b[0][ref.fa] - b[0][ref.fb]) + 0.02 * np.abs(b[0][ref.fa]) * (ref.fd == 2)
            tot += d * float(np.sum(ref.ft * np.maximum(m[ref.fa], m[ref.fb]) * dp))
        return tot


CHECK = S02()
