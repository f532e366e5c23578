"""Saturations stay physical under extreme rates, states and failing solvers."""
from props.common import *

TOL = 3e-6


def check_bounds(pre, post, rp, tag):
    sw_cr, so_r, sg_cr = rp.get('sw_cr', 0.2), rp.get('so_r', 0.2), rp.get('sg_cr', 0.0)
    P, sw, sg, so = post
    for n, a in zip(W.FIELDS, post): need(finite(a), 'nonfinite', lambda: f'{tag}: {n} has {int((~np.isfinite(a)).sum())} non-finite values')
    for n, a in zip(W.FIELDS[1:], post[1:]):
        need(float(a.min()) >= -TOL and float(a.max()) <= 1 + TOL, 'out-of-range', lambda: f'{tag}: {n} ranges over [{a.min():.7f}, {a.max():.7f}]')
    e = float(np.max(np.abs(sw + sg + so - 1)))
    need(e <= 1e-5, 'sum', lambda: f'{tag}: saturations sum to 1 only within {e:.3g}')
    # mobile windows
    def worst(x): return np.unravel_index(int(np.argmax(x)), x.shape)
    lw = np.minimum(pre[1], sw_cr) - sw
    need(float(lw.max()) <= TOL, 'below-connate', lambda: f'{tag}: cell {worst(lw)} water {sw[worst(lw)]:.6f} below connate {sw_cr} (was {pre[1][worst(lw)]:.6f})')
    lo = np.minimum(1 - pre[1] - pre[2], so_r) - (1 - sw - sg)
    need(float(lo.max()) <= TOL, 'below-residual', lambda: f'{tag}: cell {worst(lo)} oil {(1 - sw - sg)[worst(lo)]:.6f} below residual {so_r} (was {(1 - pre[1] - pre[2])[worst(lo)]:.6f})')
    lg = np.minimum(pre[2], sg_cr) - sg
    need(float(lg.max()) <= TOL, 'below-critical', lambda: f'{tag}: cell {worst(lg)} gas {sg[worst(lg)]:.6f} below critical {sg_cr} (was {pre[2][worst(lg)]:.6f})')


class S04(Check):
    prop = 'S04'
    counts = dict(quick=1500, thorough=40000)
    rule = ('a run is a random world with rates from gentle to 1000 pore volumes per step, saturations started anywhere in the simplex (also outside the mobile window), and 2-8 steps with '
            'starved solver attempts; every field is checked against its bounds after every step; non-trivial = a limit was actually reached (a cell within 1e-4 of a bound) or a step was cut; '
            'distinct = (world shape, wells, which limits were reached, attempts)')
    stub = ['solver iteration budgets (starved through guarded hooks)']

    def gen(self, r, i, tier):
        kind = scale_of(r)
        hard = r.choice([(0.01, 0.2), (0.2, 3), (1, 50), (10, 1000)])
        w = W.gen_world(r, **dict(sized(r, kind, [4, 18, 60], wells=r.choice(['any', 'any', 'rate', 'inj', 'prod'])), rate=hard))
        w['sim'].update(solver_variant(r))
        if r.random() < 0.5: w['sim']['max_saturation_change'] = r.choice([0.005, 0.05, 0.3, 1.0])
        if r.random() < 0.5: w['sim']['max_substeps'] = r.choice([1, 2, 20])
        if r.random() < 0.15:       # end points that leave a narrow window
            rp = w['fluid']['relative_permeability']; rp['sw_cr'], rp['so_r'], rp['sg_cr'] = r.choice([(0.5, 0.45, 0.0), (0.0, 0.9, 0.05), (0.3, 0.0, 0.1)])
        case = dict(world=w, tseed=r.randrange(1 << 30), _shrink=['ops'])
        if r.random() < 0.5: case['simplex'] = dict(seed=r.randrange(1 << 30), kind=r.choice(['any', 'ends', 'edge']))
        else:
            rp = w['fluid']['relative_permeability']
            if w['fluid']['s_w'] + w['fluid']['s_g'] > 1: w['fluid']['s_g'] = 0.0
        case['ops'] = []
        for _ in range(nops(r, kind, 2, 8)):
            op = dict(op='step', dt=W.sig(w['dt'] * r.choice([1, 1, 0.1, 3, 10])))
            if r.random() < 0.3: op['starve'] = gen_starve(r)
            if r.random() < 0.3: op['ctl'] = [[r.randrange(4), r.choice([0.0, 0.5, 2.0, 10.0])]]
            case['ops'].append(op)
        return case

    @staticmethod
    def simplex(S, spec, rp):
        rs = np.random.RandomState(spec['seed'])
        sh = tuple(S.reservoir.dimensions)
        a = rs.dirichlet([1, 1, 1], size=sh)
        if spec['kind'] == 'ends': a = np.eye(3)[rs.randint(0, 3, size=sh)]
        if spec['kind'] == 'edge':
            swc, so_r, sgc = rp.get('sw_cr', 0.2), rp.get('so_r', 0.2), rp.get('sg_cr', 0.0)
            pts = np.array([[swc, 0.0], [1 - so_r, 0.0], [swc, 1 - so_r - swc], [swc, sgc], [max(0, 1 - so_r - sgc), sgc]])
            c = pts[rs.randint(0, len(pts), size=sh)] + rs.choice([0.0, 1e-4, -1e-4], size=sh + (1,))
            c = np.clip(c, 0, 1); c[..., 1] = np.minimum(c[..., 1], 1 - c[..., 0])
            a = np.concatenate([c, (1 - c.sum(-1))[..., None]], -1)
        F = S.fluid; t = M.torch
        F.s_w = t.from_numpy(a[..., 0].astype(np.float32)); F.s_g = t.from_numpy(a[..., 1].astype(np.float32))
        F.s_g = t.minimum(F.s_g, 1.0 - F.s_w)
        F.s_o = 1.0 - F.s_w - F.s_g
        F.prev_sw, F.prev_sg = F.s_w.clone(), F.s_g.clone()

    def run(self, case, p):
        w = case['world']; rp = w['fluid'].get('relative_permeability', {})
        M.torch.manual_seed(case['tseed'])
        S = W.build(w)
        F = S.fluid
        g = lambda: [getattr(F, n).numpy().astype(np.float64) for n in W.FIELDS]
        a = g()
        e = float(np.max(np.abs(a[1] + a[2] + a[3] - 1)))
        need(e <= 1e-5 and all(finite(x) for x in a) and all(float(x.min()) >= -TOL for x in a[1:]), 'initial', f'initial saturations: sum off by {e:.3g}, min {[float(x.min()) for x in a[1:]]}')
        if case.get('simplex'): self.simplex(S, case['simplex'], rp)
        swc, so_r, sgc = rp.get('sw_cr', 0.2), rp.get('so_r', 0.2), rp.get('sg_cr', 0.0)
        for n, op in enumerate(case['ops']):
            apply_ctl(S, op)
            pre = g()
            ok, h = step(S, op['dt'] * W.DAY, p, op.get('starve', ()))
            log_state(p, S)
            post = g()
            check_bounds(pre, post, rp, f'step {n}')
            if not ok: p.hit('step_failed'); continue
            lim = [bool(np.any(np.abs(post[1] - swc) < 1e-4)), bool(np.any(np.abs(post[1] + post[2] - 1 + so_r) < 1e-4)), bool(np.any((np.abs(post[2] - sgc) < 1e-4) & (pre[2] > sgc + 1e-3)))]
            if lim[0]: p.hit('connate_reached')
            if lim[1]: p.hit('residual_oil_reached')
            if lim[2]: p.hit('critical_gas_reached')
            if any(lim) or len(h.dts) > 1: p.sign(w['dims'], lim, len(h.dts), [(x['type'], W.control(x)[0]) for x in w['wells']])


CHECK = S04()
