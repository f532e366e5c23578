"""Wells: direction, targets, limits, minimum bottom-hole pressure; reported equals applied."""
from props.common import *


class S14(Check):
    prop = 'S14'
    counts = dict(quick=2000, thorough=40000)
    rule = ('a run is a random IMPES world with 1-5 wells (rate / surface rate / BHP, injected phases, surface limits, minimum BHP, rates from a thousandth to ten times what the cell holds) '
            'and 2-7 steps with operator changes and solver failures; after every accepted sub-step each well is judged from the field change of its cell (minus flow through the faces by an '
            'independent model) and from what it reports: direction, at most and exactly the target, limits, minimum BHP, reported = applied; '
            'non-trivial = at least one well rate was reconstructed from the fields or reported; distinct = (well kinds, which constraint was active, solver events)')

    def gen(self, r, i, tier):
        kind = scale_of(r)
        rate = r.choice([(0.005, 0.12), (0.001, 0.02), (0.1, 1.0), (0.5, 10.0)])
        w = W.gen_world(r, **sized(r, kind, [6, 20, 45], pvt=r.random() < 0.7, rate=rate))
        for _ in range(8):
            if w['wells']: break
            g = w['grid']
            w['wells'] = W.gen_wells(r, w['dims'], g, g[0] * g[1] * g[2] * w['phi'], w['dt'], w['fluid'], bool(w.get('pvt')), w['fluid']['s_g'] > 0, 'any', rate, True)
        if rate[1] > 0.05 or r.random() < 0.5:       # soft enough that large rates do not blow the pressure up
            w['fluid'].update(c_rock=W.sig(10 ** r.uniform(-2.5, -0.5)), **({} if w.get('pvt') else dict(c_oil=1e-2, c_water=1e-3, c_gas=0.2)))
        x = r.random()
        if x < 0.25:            # producers near their minimum pressure
            for q in w['wells']:
                if q['type'] == 'producer': q['bhp_min'] = W.u(r, w['fluid']['pressure'] - 4, w['fluid']['pressure'] + 0.5)
        if r.random() < 0.3 and w.get('pvt'):
            for q in w['wells']:
                if q['type'] == 'producer' and W.control(q)[0] == 'rate':
                    v = W.control(q)[1]
                    q['limits'] = {k: 0.0 if r.random() < 0.1 else W.sig(v * 10 ** r.uniform(-2, 0.3) * (100 if k == 'wgpr' else 1)) for k in r.sample(['wopr', 'wlpr', 'wgpr', 'liqr'], r.randint(1, 4))}
        w['sim'].update(solver_variant(r))
        if r.random() < 0.1: w['sim']['global_rate_scale'] = r.choice([0.5, 1.3])
        ops = []
        for _ in range(nops(r, kind, 2, 7)):
            op = dict(op='step', dt=W.sig(w['dt'] * r.choice([1, 1, 0.3, 2])))
            if r.random() < 0.25: op['starve'] = gen_starve(r)
            if r.random() < 0.35: op['ctl'] = [[r.randrange(4), r.choice([0.5, 1.2, 3.0, 0.0])]]
            if r.random() < 0.12: op['lim'] = [r.randrange(4), r.choice(['wopr', 'wlpr', 'wgpr', 'liqr']), r.choice([0.3, 1.0, 3.0, 0.0])]
            ops.append(op)
        return dict(world=w, ops=ops, tseed=r.randrange(1 << 30), _shrink=['ops'])

    def run(self, case, p):
        w = case['world']
        M.torch.manual_seed(case['tseed'])
        S = W.build(w)
        ref = RF.Ref(w)
        active = set()
        for n, op in enumerate(case['ops']):
            apply_ctl(S, op)
            if op.get('lim') and w['wells'] and w.get('pvt'):
                k, key, f = op['lim']; k %= len(w['wells'])
                cfg, obj = w['wells'][k], S.well_manager.get_wells()[k]
                if cfg['type'] == 'producer':           # the operator tightens or relaxes a limit
                    L = dict(obj.limits or {}); L[key] = W.sig(f * max(abs(obj.control_value), 1e-3)); obj.limits = L
                    cfg['limits'] = dict(L); ref.wells[k]['limits'] = dict(L)
            vals = values(S)
            ok, h, tr = traced(S, op['dt'] * W.DAY, p, op.get('starve', ()))
            log_state(p, S)
            if not ok: p.hit('step_failed'); continue
            for k, (a, b, dt) in enumerate(tr):
                self.judge(case, ref, a, b, dt, vals, p, f'step {n}.{k}', active)
        if active: p.sign(sorted(active), [(x['type'], W.control(x)[0]) for x in w['wells']], w['dims'])

    def judge(self, case, ref, a, b, dt, vals, p, tag, active):
        w = case['world']
        pre, post = a['f'], b['f']
        if not all(finite(x) for x in post): p.hit('skipped_nonfinite'); return
        if np.max(np.abs(post[0])) > 3e8: p.hit('skipped_extreme_pressure'); return
        P = post[0]
        sy = ref.pressure_system(pre[0], pre[1], pre[2], dt, vals)
        dSw, dSg, tol, qs, info, m = ref.transport(P, pre[0], pre[1], pre[2], dt, sy['modes'], vals)
        ill = ref.ill or 'switch?' in sy['modes']
        # what the wells put into each cell, from the fields: reference face flow taken away from the change in place
        div = {'w': (qs['w'] - dSw * ref.PV / dt), 'g': (qs['g'] - dSg * ref.PV / dt)}
        got = {'w': (post[1] - pre[1]) * ref.PV / dt + div['w'], 'g': (post[2] - pre[2]) * ref.PV / dt + div['g']}
        free = unclamped(ref, pre, post)
        cells = [ref.cell(x) for x in ref.wells]
        scale = float(w['sim'].get('global_rate_scale', 1.0))
        for j, (x, v, d) in enumerate(zip(ref.wells, vals, info)):
            c = cells[j]; ty = W.control(x)[0]; inj = x['type'] == 'injector'; name = f"{tag}: {x['type']} {x['name']}"
            gas = inj and x.get('injected_phase', 'water') == 'gas'
            rep = b['wells'][j]
            B = {k2: float(ref.tab(P[c:c + 1], k2)[0]) for k2 in ('Bo', 'Bw', 'Bg', 'Rs_m3m3', 'Rv_m3m3')} if ref.pvt else None
            surf = x.get('rate_type', 'reservoir') == 'surface' and ref.pvt
            fr, den, qts = self.box(ref, x, c, P, pre, v * scale / 86400.0, surf)
            qt_lo, qt = qts
            # fractions and formation factors are evaluated by the simulator in float32: relative slack
            rel = 2e-4 if not ref.pvt else 1e-3
            rated = ty == 'rate'
            producing = (not inj) and rated
            # ---- reported
            if producing and ref.pvt:
                q = rep['q']
                need(q is not None and math.isfinite(q), 'no-report', f'{name}: no rate reported')
                need(q <= 0, 'direction', lambda: f'{name}: reported total rate {q:.6g} m3/s is into the reservoir')
                if not ill: need(-q <= qt * (1 + rel) + 1e-12, 'above-target', lambda: f'{name}: reports {-q:.8g} m3/s, target {qt:.8g}')
                sr = rep['sr']
                need(all(k2 in sr and math.isfinite(sr[k2]) and sr[k2] >= 0 for k2 in den), 'no-report', lambda: f'{name}: surface rates {sr}')
                for k2 in den:
                    lo, hi = -q * den[k2][0] * 86400, -q * den[k2][1] * 86400
                    need(lo * (1 - rel) - 1e-9 <= sr[k2] <= hi * (1 + rel) + 1e-9, 'report', lambda: f'{name}: reported {k2} {sr[k2]:.8g} m3/day, its total rate of {q:.6g} m3/s makes {lo:.8g}..{hi:.8g}')
                lims = x.get('limits') or {}
                for key, k2 in (('wopr', 'oil'), ('wlpr', 'water'), ('wgpr', 'gas'), ('liqr', 'liquid')):
                    if key in lims:
                        need(sr[k2] <= lims[key] * (1 + 1e-5) + 1e-9, 'limit', lambda: f'{name}: reports {k2} {sr[k2]:.8g} m3/day above its limit {lims[key]:.8g}')
                        need(-q * den[k2][0] * 86400 <= lims[key] * (1 + rel) + 1e-9, 'limit', lambda: f'{name}: draws {k2} {-q * den[k2][0] * 86400:.8g} m3/day above its limit {lims[key]:.8g}')
                        if sr[k2] > 0.999 * lims[key]: active.add(key)
                p.hit('reported')
                active.add('report')
            if rated and not inj and x.get('bhp_min') is not None and not ill:
                t = ref.wi(x) * m['t'][c]; t0 = ref.wi(x) * sy['m']['t'][c]; pm = x['bhp_min'] * 1e6
                draw0 = t0 * (pre[0][c] - pm)
                sl = 1e-3 * (abs(v * scale / 86400.0) + abs(draw0)) + t0 * 10
                # the raw target decides the switch
                if v * scale / 86400.0 > draw0 + sl: need(rep['mode'] == 'bhp', 'bhp-min', lambda: f'{name}: target {v * scale / 86400.0:.6g} m3/s needs a BHP below {x["bhp_min"]} MPa (drawdown gives {draw0:.6g}) but the well stays on rate control')
                if v * scale / 86400.0 < draw0 - sl: need(rep['mode'] == 'rate', 'bhp-min', lambda: f'{name}: switched to BHP control although {x["bhp_min"]} MPa allows {draw0:.6g} m3/s, target {v * scale / 86400.0:.6g}')
                if rep['mode'] == 'bhp':
                    active.add('bhp_min')
                    cap = max(0.0, t * (P[c] - pm))
                    if ref.pvt: need(-rep['q'] <= cap * (1 + 1e-3) + t * 2 * EPS32 * abs(P[c]) + 1e-12, 'bhp-min', lambda: f'{name}: reports {-rep["q"]:.6g} m3/s, {x["bhp_min"]} MPa allows {cap:.6g}')
            # ---- applied
            if producing and ref.pvt and cells.count(c) == 1 and not ill:     # what it reports to have produced was there: in the cell above the immobile saturation, or came in
                for nm, ph, k2, lo in (('water', 'w', 1, ref.sw_cr), ('gas', 'g', 2, ref.sg_cr)):
                    have = (max(0.0, pre[k2][c] - lo) + 2e-6) * ref.PV[c] / dt + max(0.0, -div[ph][c]) + tol[ph][c] * ref.PV[c] / dt
                    need(-q * fr[ph][0] <= have * (1 + rel) + 1e-12, 'availability', lambda: f'{name}: reports {-q * fr[ph][0]:.8g} m3/s of {nm}, the cell had {have:.8g} to give')
            if inj and rated and cells.count(c) == 1 and not free[c] and not ill:      # a cell filled by its injector alone: what does not fit is not injected
                room = 1 - ref.so_r - pre[1][c] - pre[2][c]
                out = [div[ph][c] * dt / ref.PV[c] for ph in 'wg']
                if room >= 0 and max(tol['w'][c], tol['g'][c]) < 1e-4 and all(o >= -tol[ph][c] for o, ph in zip(out, 'wg')) and all(pre[k2][c] - o > lo + 1e-4 for k2, o, lo in ((1, out[0], ref.sw_cr), (2, out[1], ref.sg_cr))):
                    p.hit('full_cell_judged'); active.add('full')
                    main, other = ('g', 'w') if gas else ('w', 'g')
                    sl = lambda ph: (3 * tol[ph][c] + 1e-5)
                    d_o = float(got[other][c]) * dt / ref.PV[c]; d_m = float(got[main][c]) * dt / ref.PV[c]
                    need(abs(d_o) <= sl(other), 'wrong-phase', lambda: f'{name}: the saturation of the other phase moved by {d_o:.6g} with it (bound {sl(other):.2g})')
                    need(d_m <= room + sl(main), 'availability', lambda: f'{name}: filled {d_m:.6g} of the pore volume, there was room for {room:.6g}')
            if cells.count(c) > 1 or not free[c] or ill: p.hit('cell_not_judged'); continue
            p.hit('applied_judged'); active.add('applied')
            tw = (2 * tol['w'][c] + 30 * EPS32) * ref.PV[c] / dt
            tg = (2 * tol['g'][c] + 30 * EPS32) * ref.PV[c] / dt
            gw, gg = float(got['w'][c]), float(got['g'][c])
            if inj:
                main, other, tm, to = (gg, gw, tg, tw) if gas else (gw, gg, tw, tg)
                need(abs(other) <= to, 'wrong-phase', lambda: f'{name}: {"water" if gas else "gas"} of {other:.6g} m3/s entered with it (bound {to:.2g})')
                if rated:
                    need(main >= -tm, 'direction', lambda: f'{name}: withdraws {-main:.6g} m3/s (bound {tm:.2g})')
                    need(main <= qt * (1 + rel) + tm, 'above-target', lambda: f'{name}: injects {main:.8g} m3/s, target {qt:.8g} (bound {tm:.2g})')
                    room = max(0.0, 1 - ref.so_r - pre[1][c] - pre[2][c]) * ref.PV[c] / dt
                    if qt < room * (1 - 1e-3): need(main >= qt_lo * (1 - rel) - tm, 'below-target', lambda: f'{name}: injects {main:.8g} m3/s of {qt:.8g} with room for {room:.6g} (bound {tm:.2g})'); active.add('target')
                else:
                    Q = ref.wi(x) * m['t'][c] * (v * 1e6 - P[c])
                    tm += rel * abs(Q) + 8 * EPS32 * ref.wi(x) * m['t'][c] * abs(P[c])
                    need(abs(main - Q) <= tm, 'bhp-rate', lambda: f'{name}: moves {main:.6g} m3/s, its drawdown gives {Q:.6g} (bound {tm:.2g})'); active.add('bhp')
            else:
                if rated:
                    need(gw <= tw and gg <= tg, 'direction', lambda: f'{name}: adds water {gw:.6g}, gas {gg:.6g} m3/s (bounds {tw:.2g}, {tg:.2g})')
                    if ref.pvt: Q = rep['q']
                    else:
                        Q = -qt
                        if rep['mode'] == 'bhp': Q = -min(qt, max(0.0, ref.wi(x) * m['t'][c] * (P[c] - x['bhp_min'] * 1e6)))
                else: Q = ref.wi(x) * m['t'][c] * (v * 1e6 - P[c])
                sl = rel * abs(Q) + (0 if rated and rep['mode'] != 'bhp' else 8 * EPS32 * ref.wi(x) * m['t'][c] * abs(P[c]))
                for nm, g_, t_, f_ in (('water', gw, tw, fr['w']), ('gas', gg, tg, fr['g'])):
                    ends = sorted((Q * f_[0], Q * f_[1])); bd = t_ + sl * max(f_[1], 0.02)
                    need(ends[0] - bd <= g_ <= ends[1] + bd, 'applied', lambda: f'{name}: {nm} of {g_:.6g} m3/s in its cell, reported or due {ends[0]:.6g}..{ends[1]:.6g} (bound {bd:.2g})')
                if rated and ref.pvt:
                    want = qt_lo
                    if rep['mode'] == 'bhp': want = min(want, max(0.0, ref.wi(x) * m['t'][c] * (P[c] - x['bhp_min'] * 1e6)))
                    for ph, k2, lo in (('w', 1, ref.sw_cr), ('g', 2, ref.sg_cr)):
                        have = max(0.0, pre[k2][c] - lo) * ref.PV[c] / dt
                        if have <= 2e-6 * ref.PV[c] / dt or qt * fr[ph][1] > have * (1 - 1e-3): want = None; active.add('availability'); break
                    if want is not None:
                        lims = [L / 86400.0 / den[k2][1] for key, k2 in (('wopr', 'oil'), ('wlpr', 'water'), ('wgpr', 'gas'), ('liqr', 'liquid')) for L in [(x.get('limits') or {}).get(key)] if L is not None and den[k2][1] > 0]
                        want = min([want] + lims)
                        slack = 3 * rel * want + 8 * EPS32 * ref.wi(x) * m['t'][c] * abs(P[c]) * (rep['mode'] == 'bhp') + 1e-12
                        need(-Q >= want - slack, 'below-target', lambda: f'{name}: draws {-Q:.8g} m3/s although target, limits and availability allow {want:.8g}'); active.add('target')
        # pressure volume of reservoir-rate wells (a known weakness for converted or choked rates is kept out, see DESIGN)
        if case.get('strict'):
            acc = float(np.sum(sy['acc'] * (P - pre[0]))); net = sum(d['Q'] for d in info)
            need(abs(acc - net) <= 0.02 * abs(net) + 1e-9, 'pressure-volume', lambda: f'{tag}: the pressure equation took in {acc:.6g} m3/s, the wells moved {net:.6g} m3/s')

    @staticmethod
    def box(ref, x, c, P, pre, q, surf):
        """Ranges of flow fractions, surface volumes per reservoir volume and converted target over float32 rounding of pressure and saturations."""
        fr = {a: [math.inf, -math.inf] for a in 'owg'}
        den = {a: [math.inf, -math.inf] for a in ('oil', 'gas', 'water', 'liquid')} if ref.pvt else None
        qt = [math.inf, -math.inf]
        def put(r, v): r[0], r[1] = min(r[0], v), max(r[1], v)
        for dp in (-1, 1):
            PP = P * (1 + dp * 2 * EPS32)
            B = {k: float(ref.tab(PP[c:c + 1], k)[0]) for k in ('Bo', 'Bw', 'Bg', 'Rs_m3m3', 'Rv_m3m3')} if ref.pvt else None
            for dw in (-1, 1):
                for dg in (-1, 1):
                    m = ref.mob(PP, pre[1] + dw * 3e-7, pre[2] + dg * 3e-7, -dw)
                    f = {a: m[a][c] / (m['t'][c] + 1e-10) for a in 'owg'}
                    for a in f: put(fr[a], f[a])
                    t = q
                    if ref.pvt:
                        d = ref.den(f, B)
                        for a in d: put(den[a], d[a])
                        if surf:
                            if x['type'] == 'injector': t = q * (B['Bg'] if x.get('injected_phase') == 'gas' else B['Bw'])
                            else:
                                sp = (x.get('surface_phase') or 'liquid').lower()
                                t = q * B['Bw'] / max(f['w'], 1e-8) if sp == 'water' else q / max(d[sp if sp in d else 'liquid'], 1e-12)
                    put(qt, t)
        return fr, den, qt


CHECK = S14()
