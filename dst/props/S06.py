"""Refinement: every accepted single-solve step equals an independent float64 model of the scheme."""
from props.common import *


def check_pressure(ref, sy, pre, P, dt, vals, tol_cg, amg_tol, p, tag='step', slack=None):
    """Residual of the reference system at the pressure the simulator produced."""
    sy_P = pre[0]
    r = ref.residual(sy, P)
    neigh = np.zeros(ref.N)
    np.add.at(neigh, ref.fa, sy['T'] * np.abs(P[ref.fb])); np.add.at(neigh, ref.fb, sy['T'] * np.abs(P[ref.fa]))
    noise = EPS32 * (sy['diag'] * np.abs(P) + neigh + sy['mag'])
    noise = noise + EPS32 * sy['diag'] * np.max(np.abs(P))
    it = 1.0
    pv = ref.pvt is not None
    bnd = 24 * noise + (0.05 * sy['acc'] * np.abs(P - sy_P) if pv else 0)
    dg = np.maximum(np.abs(sy['diag']), 1e-300)
    # solver tolerance: CG stops at sqrt(r.M^-1 r) < tol (x10 on the relaxed retry); AMG at a relative residual
    lim = 10 * tol_cg * 1.5
    if amg_tol: lim = max(lim, 3 * amg_tol * math.sqrt(float(np.sum(sy['b'] ** 2 / dg))))
    excess = np.maximum(np.abs(r) - bnd, 0)
    e = math.sqrt(float(np.sum(excess ** 2 / dg)))
    p.measure('pressure_residual/noise', float(np.max(np.abs(r) / np.maximum(bnd / 24, 1e-300))))
    if e > lim:
        c = int(np.argmax(excess))
        raise Violation('pressure-balance', f'{tag}: cell {np.unravel_index(c, ref.shape)} volume imbalance {r[c]:.4g} m3/s '
                        f'(rounding bound {bnd[c]:.3g}, weighted excess {e:.3g} > {lim:.3g}, dt={dt})')
    # global balance
    g = float(np.sum(r)); gb = float(np.sum(bnd)) + math.sqrt(float(np.sum(dg))) * lim
    need(abs(g) <= gb, 'pressure-balance', f'{tag}: field volume imbalance {g:.4g} > {gb:.3g}')


def check_transport(ref, sy, pre, post, dt, vals, p, tag='step'):
    P, sw, sg, so = post
    dSw, dSg, tol, qs, info, m = ref.transport(P, pre[0], pre[1], pre[2], dt, sy['modes'], vals)
    if ref.ill:
        p.hit('skipped_illconditioned'); return info, m, 0, None
    sw1, sg1 = pre[1] + dSw, pre[2] + dSg
    lo_w, lo_g = np.minimum(pre[1], ref.sw_cr), np.minimum(pre[2], ref.sg_cr)
    top = np.maximum(pre[1] + pre[2], 1 - ref.so_r)
    mt = 4 * (tol['w'] + tol['g']) + 1e-6
    inside = (sw1 > lo_w + mt) & (sg1 > lo_g - 1e-12 + (np.where(np.abs(dSg) > 0, mt, 0))) & (sw1 + sg1 < top - mt)
    for name, a, b, t in (('water', sw, sw1, tol['w']), ('gas', sg, sg1, tol['g'])):
        nsub = 60.0
        err = np.abs(a - b); lim = 2 * t + nsub * EPS32 * 0.5
        bad = inside & (err > lim)
        p.measure('sat_err/bound', float(np.max(np.where(inside, err / lim, 0))) if inside.any() else 0)
        if bad.any():
            c = int(np.argmax(np.where(bad, err / lim, 0)))
            raise Violation(f'{name}-transport', f'{tag}: cell {np.unravel_index(c, ref.shape)} {name} saturation {a[c]:.7f}, reference {b[c]:.7f} '
                            f'(before {pre[1 if name == "water" else 2][c]:.7f}, bound {lim[c]:.2g})')
    need(float(np.max(np.abs(so + sw + sg - 1))) < 1e-5, 'closure', f'{tag}: So+Sw+Sg != 1')
    moved = int(np.sum(inside & ((np.abs(dSw) > 1e-6) | (np.abs(dSg) > 1e-6))))
    p.hit('cells_compared', int(inside.sum())); p.hit('cells_clamped_skipped', int((~inside).sum()))
    return info, m, moved, inside


class S06(Check):
    prop = 'S06'
    counts = dict(quick=900, thorough=16000)
    rule = ('a run is a random world (grid, rock, fluid, wells, solver knobs) plus 2-6 steps with changing dt and well targets and starved '
            'solver calls; it is non-trivial when at least one accepted sub-step moved saturation or pressure by more than rounding '
            'and was compared cell by cell with the reference; distinct = different (world shape, wells, solver, outcome) signature')

    def gen(self, r, i, tier):
        kind = scale_of(r)
        w = W.gen_world(r, **sized(r, kind, [12, 40, 90]))
        if r.random() < 0.12: W.crowd(r, w)
        w['sim'].update(solver_variant(r))
        if w['sim'].get('pressure_solver') == 'amg' and r.random() < 0.5: w['sim']['amg']['tol'] = r.choice([1e-3, 1e-4, 1e-5, 1e-2])
        if r.random() < 0.35 and not w.get('pvt'): self.sharpen(r, w)
        if r.random() < 0.15: w['sim']['global_rate_scale'] = r.choice([0.5, 1.3])
        ops = []
        for _ in range(nops(r, kind, 2, 6)):
            op = dict(op='step', dt=W.sig(w['dt'] * r.choice([1, 1, 1, 0.3, 2])))
            if r.random() < 0.3: op['starve'] = gen_starve(r)
            if r.random() < 0.3: op['ctl'] = [[r.randrange(4), r.choice([0.5, 1.2, 2.0, 0.0])]]
            ops.append(op)
        return dict(world=w, ops=ops, tseed=r.randrange(1 << 30), _shrink=['ops'])

    @staticmethod
    def sharpen(r, w):
        """Low pressure, tall cells and strong compressibility: second-order terms rise above float32 rounding."""
        f = w['fluid']; shift = W.u(r, 1.5, 4) - f['pressure']; f['pressure'] += shift
        w['grid'][2] = W.u(r, 10, 60)
        f.update(c_oil=W.sig(10 ** r.uniform(-4, -2)), c_water=W.sig(10 ** r.uniform(-4, -2)), c_gas=W.sig(10 ** r.uniform(-3, -0.5)))
        f.update(rho_oil=W.u(r, 700, 950), rho_water=W.u(r, 990, 1200), rho_gas=W.sig(r.choice([1.0, 50.0, 300.0])))
        if 'init' in w: w['init']['dp'] = r.choice([0.3, 1.0])
        for k in range(len(w['wells'])):
            x = w['wells'][k]; ty, v = W.control(x)
            if ty == 'bhp':
                v = max(0.2, v + shift)
                if 'control' in x: x['control']['value'] = W.sig(v)
                else: x['control_value'] = W.sig(v)
            if 'bhp_min' in x: x['bhp_min'] = max(0.1, x['bhp_min'] + shift)

    def run(self, case, p):
        w = case['world']
        M.torch.manual_seed(case['tseed'])
        S = W.build(w)
        ref = RF.Ref(w)
        for n, op in enumerate(case['ops']):
            apply_ctl(S, op)
            vals = values(S)
            ok, h, tr = traced(S, op['dt'] * W.DAY, p, op.get('starve', ()))
            log_state(p, S)
            if not ok: p.hit('step_failed'); continue
            if len(tr) > 1: p.hit('subcycled')
            for k, (a, b, dt) in enumerate(tr):
                pre, post = a['f'], b['f']
                if not all(finite(x) for x in post): raise Violation('nonfinite', f'step {n}: non-finite field')
                sy = ref.pressure_system(pre[0], pre[1], pre[2], dt, vals)
                if 'switch?' in sy['modes'] or np.max(np.abs(post[0])) > 3e8: p.hit('skipped_tie'); continue
                amg = w['sim'].get('pressure_solver') == 'amg'
                tolc = w['sim'].get('cg_tolerance', 1e-6)
                tag = f'step {n}.{k}'
                check_pressure(ref, sy, pre, post[0], dt, vals, tolc, w['sim']['amg'].get('tol', tolc) if amg else 0, p, tag)
                info, m, moved, _ = check_transport(ref, sy, pre, post, dt, vals, p, tag)
                p.hit('refined_step')
                if h.fired: p.hit('refined_after_starved_solver')
                if moved or np.max(np.abs(post[0] - pre[0])) > 1e3:
                    p.sign(w['dims'], [(x['type'], W.control(x)[0], x.get('injected_phase')) for x in w['wells']], bool(ref.pvt), moved, h.names)


CHECK = S06()
