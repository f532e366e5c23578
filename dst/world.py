"""Random worlds (JSON) and their construction from the real classes of /repo."""
import os, json, math
import numpy as np
from seams import M, call

MD = 9.869233e-16
DAY = 86400.0


def u(r, a, b): return round(r.uniform(a, b), 6)
def sig(x): return float(f'{x:.5g}')


def gen_pvt(r):
    """A monotone black-oil table (JSON object as the simulator reads it)."""
    n = r.choice([2, 5, 12, 30])
    p0, p1 = r.choice([(5.0, 60.0), (1.0, 45.0), (10.0, 40.0)])
    P = [p0 + (p1 - p0) * i / (n - 1) for i in range(n)]
    co, cw = r.uniform(5e-4, 3e-3), r.uniform(3e-4, 1e-3)
    bo0, bw0, bg0 = r.uniform(1.1, 1.5), r.uniform(1.0, 1.05), r.uniform(0.003, 0.01)
    t = dict(pressure_MPa=P, Bo=[bo0 * math.exp(-co * (p - p0)) for p in P], Bw=[bw0 * math.exp(-cw * (p - p0)) for p in P],
             Bg=[bg0 * 20.0 / (p + 5.0) for p in P], mu_o_cP=[r.uniform(0.8, 3) * (1 + 0.01 * (p - p0)) for p in P],
             mu_w_cP=[0.5 + 0.001 * (p - p0) for p in P], mu_g_cP=[0.015 + 0.0003 * (p - p0) for p in P],
             Rs_m3m3=[r.uniform(20, 22) + 2.0 * (p - p0) for p in P])
    if r.random() < 0.7: t['Rv_m3m3'] = [1e-5 * (1 + 0.1 * i) * r.choice([1, 20]) for i in range(n)]
    return {k: [sig(x) for x in v] for k, v in t.items()}


def gen_world(r, max_cells=80, solver='impes', pvt=None, het=True, wells='any', three=None, min_cells=1, dims=None,
              init=True, rate=(0.005, 0.12), caps=True, limits=True, min_dim=1):
    """rate: well rate x dt as a fraction of the pore volume of its cell."""
    while dims is None:
        kind = r.choice(['3d', '3d', '2d', 'line', 'flat', 'any'])
        hi = max(2, int(round(max_cells ** (1 / 3))) + 1)
        d = [r.randint(1, hi), r.randint(1, hi), r.randint(1, hi)]
        if kind == 'line':
            d = [1, 1, 1]; d[r.randrange(3)] = r.randint(2, min(24, max_cells))
        elif kind == '2d': d = [r.randint(2, 9), r.randint(2, 9), 1]
        elif kind == 'flat': d = [r.randint(1, 2), r.randint(2, 6), r.randint(2, 6)]
        if min_cells <= d[0] * d[1] * d[2] <= max_cells and min(d) >= min_dim: dims = d
    g = [u(r, 5, 40), u(r, 5, 40), u(r, 2, 12)]
    if r.random() < 0.25: g[1] = g[0]
    phi = u(r, 0.08, 0.3)
    kh = sig(10 ** r.uniform(0.3, 3.2))
    world = dict(dims=dims, grid=g, phi=phi, kh=kh, kvf=sig(r.choice([1.0, 0.1, 0.01, r.uniform(0.05, 1)])))
    pvol = g[0] * g[1] * g[2] * phi
    if het and r.random() < 0.6:
        world['het'] = dict(seed=r.randrange(1 << 30), k=r.choice([0.3, 1.0, 2.0]), phi=r.choice([0, 0.2]),
                            barrier=r.random() < 0.15, aniso=r.random() < 0.3)
    use_pvt = pvt if pvt is not None else r.random() < 0.45
    three = three if three is not None else r.random() < 0.75
    sw_cr, so_r = r.choice([(0.2, 0.2), (0.2, 0.2), (0.1, 0.25), (0.15, 0.05), (0.0, 0.0), (0.25, 0.3)])
    sg_cr = r.choice([0.0, 0.0, 0.05, 0.02])
    top = 1 - so_r
    sw = u(r, sw_cr + 0.05, sw_cr + 0.05 + 0.5 * (top - sw_cr - 0.2))
    sg = u(r, sg_cr + 0.02, max(sg_cr + 0.03, 0.4 * (top - sw - sg_cr))) if three else 0.0
    if sw + sg > top - 0.02: sg = max(0.0, top - 0.05 - sw)
    f = dict(pressure=u(r, 12, 35), s_w=sig(sw), s_g=sig(sg))
    if r.random() < 0.5: f.update(mu_oil=u(r, 0.5, 8), mu_water=u(r, 0.3, 1.1), mu_gas=sig(r.uniform(0.012, 0.05)))
    if r.random() < 0.4: f.update(rho_oil=u(r, 750, 950), rho_water=u(r, 990, 1150), rho_gas=u(r, 0.7, 1.4))
    if not use_pvt and r.random() < 0.7:
        f.update(c_oil=sig(10 ** r.uniform(-5, -3)), c_water=sig(10 ** r.uniform(-5, -3.3)), c_gas=sig(10 ** r.uniform(-3, -2)),
                 c_rock=sig(10 ** r.uniform(-5, -4)))
    if use_pvt: world['pvt'] = gen_pvt(r)
    rp = dict(sw_cr=sw_cr, so_r=so_r, sg_cr=sg_cr)
    if r.random() < 0.6: rp.update(nw=r.choice([1, 2, 3, 1.5]), no=r.choice([1, 2, 3, 2.5]), ng=r.choice([1, 2, 3]))
    if three and r.random() < 0.25:
        rp.update(model='stone2', ko_end_w=r.choice([1.0, 0.8]), ko_end_g=r.choice([1.0, 0.9]))
        if r.random() < 0.4: rp.update({k: r.choice([1, 1.5, 2, 3]) for k in r.sample(['now', 'nog'], r.randint(1, 2))})
    if r.random() < 0.25: rp.update({k: r.choice([0.2, 0.5, 0.9]) for k in r.sample(['krw_end', 'krg_end'], r.randint(1, 2))})
    f['relative_permeability'] = rp
    if caps and r.random() < 0.25: f['capillary_pressure'] = dict(pc_scale=sig(r.uniform(1e3, 2e4)), pc_exponent=r.choice([0.5, 1.0, 1.5]))
    if caps and three and r.random() < 0.3: f['capillary_pressure_og'] = dict(pc_scale=sig(r.uniform(1e3, 2e4)), pc_exponent=r.choice([0.5, 1.0, 1.5]))
    world['fluid'] = f
    dt = sig(r.choice([0.01, 0.05, 0.2, 0.5, 1.0, 1.0, 2.0]))
    world['dt'] = dt
    sim = dict(solver_type=solver, time_step_days=dt, total_time_days=10 * dt)
    if solver == 'impes' and r.random() < 0.5: sim['max_saturation_change'] = r.choice([0.02, 0.05, 0.1, 0.5])
    if r.random() < 0.3: sim['max_substeps'] = r.choice([1, 5, 50])
    world['sim'] = sim
    world['wells'] = gen_wells(r, dims, g, pvol, dt, f, use_pvt, three, wells, rate, limits)
    if init and r.random() < 0.6:
        world['init'] = dict(seed=r.randrange(1 << 30), dp=r.choice([0.05, 0.5, 2.0]), ds=r.choice([0.0, 0.05, 0.15]))
        if solver == 'impes' and r.random() < 0.5: world['init']['sync'] = False
    return world


def gen_wells(r, dims, g, pvol, dt, f, use_pvt, three, kind='any', rate=(0.005, 0.12), limits=True):
    n = r.choice([0, 1, 2, 2, 3, 4]) if kind == 'any' else r.choice([1, 2, 3])
    cells = []
    ws = []
    for i in range(n):
        c = [r.randrange(d) for d in dims]
        if cells and r.random() < 0.08: c = list(r.choice(cells))
        if c in cells and r.random() < 0.8: continue
        cells.append(c)
        if kind == 'inj': t = 'injector'
        elif kind == 'prod': t = 'producer'
        elif kind in ('pair', 'rate'): t = ['injector', 'producer'][i % 2] if r.random() < 0.8 else r.choice(['injector', 'producer'])
        else: t = r.choice(['injector', 'producer'])
        w = dict(name=f'{t[0].upper()}{i}', type=t, radius=u(r, 0.05, 0.15))
        if r.random() < 0.8: w.update(i=c[0], j=c[1], k=c[2])
        else: w['coordinates'] = c
        ctl = 'bhp' if kind == 'any' and r.random() < 0.25 else 'rate'
        q = sig(r.uniform(*rate) * pvol / dt)
        val = q
        if ctl == 'bhp': val = sig(f['pressure'] + (u(r, 0.5, 6) if t == 'injector' else -u(r, 0.5, 6)))
        if r.random() < 0.8: w.update(control_type=ctl, control_value=val)
        else: w['control'] = dict(type=ctl, value=val)
        if t == 'injector' and three and r.random() < 0.4: w['injected_phase'] = 'gas'
        if ctl == 'rate' and use_pvt and limits and kind == 'any' and r.random() < 0.3:
            w['rate_type'] = 'surface'
            if t == 'producer': w['surface_phase'] = r.choice(['oil', 'water', 'gas', 'liquid', None, 'Oil', 'GAS'])
            if t == 'producer' and w['surface_phase'] is None and r.random() < 0.7: del w['surface_phase']      # left out: liquid
            if w.get('injected_phase') == 'gas' or (w.get('surface_phase') or '').lower() == 'gas':
                w['control_value' if 'control_value' in w else 'control'] = sig(q * 100) if 'control_value' in w else dict(type='rate', value=sig(q * 100))
        if ctl == 'rate' and t == 'producer' and use_pvt and limits and kind == 'any' and r.random() < 0.4:
            w['limits'] = {k: sig(q * r.uniform(0.05, 1.5) * (50 if k == 'wgpr' else 1))
                           for k in r.sample(['wopr', 'wlpr', 'wgpr', 'liqr'], r.randint(1, 3))}
        if ctl == 'rate' and t == 'producer' and limits and kind == 'any' and r.random() < 0.2:
            w['bhp_min'] = u(r, f['pressure'] - 8, f['pressure'] + 0.3)
        ws.append(w)
    return ws


def nearly(r, world):
    """A copy that differs in one value, often by very little: whatever is keyed by part of a description or by a rounded value mixes the two up."""
    w = json.loads(json.dumps(world))
    f, rp = w['fluid'], w['fluid'].setdefault('relative_permeability', {})
    k = 1 + r.choice([1e-4, 2e-3, 0.02, 0.3])
    what = r.choice(['kh', 'kh', 'phi', 'kvf', 'grid', 'pressure', 's_w', 'mu_oil', 'rho_oil', 'no', 'pvt', 'well', 'radius', 'c_rock', 'dz'])
    if what in ('kh', 'phi', 'kvf'): w[what] = float(f'{w[what] * k:.8g}')
    elif what == 'grid': w['grid'][r.randrange(3)] *= k
    elif what == 'dz': w['grid'][2] *= k
    elif what == 'pressure': f['pressure'] *= 1 + (k - 1) / 10
    elif what == 's_w': f['s_w'] -= 0.02 * (k - 1)
    elif what in ('mu_oil', 'rho_oil', 'c_rock'): f[what] = f.get(what, dict(mu_oil=1.0, rho_oil=850.0, c_rock=1e-5)[what]) * k
    elif what == 'no': rp['no'] = rp.get('no', 2) * k
    elif what == 'pvt' and w.get('pvt'): c = r.choice(['Bo', 'Bg', 'mu_o_cP']); w['pvt'][c] = [sig(v * k) for v in w['pvt'][c]]
    elif w['wells']:
        x = r.choice(w['wells'])
        if what == 'radius': x['radius'] *= k
        elif 'control' in x: x['control']['value'] *= k
        else: x['control_value'] *= k
    else: w['phi'] *= k
    return w


def crowd(r, world, rate=(0.005, 0.12)):
    """More wells in cells that have one already; producers near their minimum pressure."""
    g = world['grid']; f = world['fluid']
    new = gen_wells(r, world['dims'], g, g[0] * g[1] * g[2] * world['phi'], world['dt'], f, bool(world.get('pvt')), f['s_g'] > 0, 'any', rate)
    for k, w in enumerate(new):
        w['name'] += 'x'
        if world['wells']:
            c = coords(r.choice(world['wells'])); w.pop('coordinates', None); w.update(i=c[0], j=c[1], k=c[2])
        world['wells'].append(w)
    for w in world['wells']:
        if w['type'] == 'producer' and control(w)[0] == 'rate' and r.random() < 0.6: w['bhp_min'] = u(r, f['pressure'] - 3, f['pressure'] + 0.3)


def pvt_file(world):
    """Path of the world's PVT table (written on first use; one file per table), or None."""
    import seams, hashlib
    if not world.get('pvt'): return None
    text = json.dumps(dict(world['pvt'], description='PVT: Шкаповское, И-1'), ensure_ascii=False)
    path = os.path.abspath(f'pvt_world_{hashlib.sha256(text.encode()).hexdigest()[:10]}.json')
    if not os.path.exists(path):
        with seams.REAL_OPEN(path, 'w', encoding='utf-8') as f: f.write(text)
    return path


def rock_maps(world):
    """Factors of the horizontal (x, y) permeability and of the porosity; the vertical permeability has those of x."""
    h = world['het']
    rs = np.random.RandomState(h['seed'])
    shp = tuple(world['dims'])
    def lognorm(): return np.exp(h['k'] * (rs.rand(*shp) * 2 - 1)).astype(np.float32)
    m = lognorm()
    if h.get('barrier'):
        ax = int(np.argmax(shp)); sl = [slice(None)] * 3; sl[ax] = shp[ax] // 2
        m[tuple(sl)] *= 1e-6
    my = lognorm() if h.get('aniso') else m
    ph = (1 + h['phi'] * (rs.rand(*shp) * 2 - 1)).astype(np.float32)
    return m, my, ph


def rock(world):
    """Permeabilities (m2, three directions) and porosity in float64, from the description alone."""
    shp = tuple(world['dims'])
    k = [np.full(shp, world['kh'] * MD), np.full(shp, world['kh'] * MD), np.full(shp, world['kh'] * world['kvf'] * MD)]
    phi = np.full(shp, float(world['phi']))
    if world.get('het'):
        m, my, ph = rock_maps(world)
        k = [k[0] * m, k[1] * my, k[2] * m]; phi = phi * ph
    if world.get('seal'):
        ax, layers = world['seal']
        for l in layers:
            sl = [slice(None)] * 3; sl[ax] = l
            for x in k: x[tuple(sl)] = 0.0
    return k, phi


def pore_volume(world):
    """Pore volume of every cell, from the description alone."""
    dx, dy, dz = [float(np.float32(v)) for v in world['grid']]
    return dx * dy * dz * rock(world)[1]


def build(world, sim_extra=None, sim_params_cls=dict, wells_override=None, live=None):
    """Constructs the real reservoir, fluid, wells and simulator.  live: a dict in which the configuration objects are kept,
    so that several simulators are built from the very same objects."""
    torch = M.torch
    dev = torch.device('cpu')
    rc = dict(dimensions=list(world['dims']), grid_size=list(world['grid']), porosity=world['phi'],
              permeability=world['kh'], k_vertical_fraction=world['kvf'])
    live = {} if live is None else live
    rc = live.setdefault('reservoir', rc)
    R = call(M.reservoir.Reservoir, rc, dev)
    if world.get('het'):
        m, my, ph = rock_maps(world)
        R.permeability_x = R.permeability_x * torch.from_numpy(m)
        R.permeability_y = R.permeability_y * torch.from_numpy(my)
        R.permeability_z = R.permeability_z * torch.from_numpy(m)
        R.porosity = R.porosity * torch.from_numpy(ph)
        R.porous_volume = R.cell_volume * R.porosity
    if world.get('seal'):              # whole layers of impermeable rock: isolated regions
        ax, layers = world['seal']
        for l in layers:
            sl = [slice(None)] * 3; sl[ax] = l
            for k in (R.permeability_x, R.permeability_y, R.permeability_z): k[tuple(sl)] = 0.0
    W = call(M.well.WellManager, world['wells'] if wells_override is None else wells_override, R)
    fc = json.loads(json.dumps(world['fluid']))
    if world.get('pvt'):
        fc['pvt_path'] = pvt_file(world)
    fc = live.setdefault('fluid', fc)
    F = call(M.fluid.Fluid, fc, R, dev)
    it = world.get('init')
    if it:
        rs = np.random.RandomState(it['seed'])
        shp = tuple(world['dims'])
        F.pressure = F.pressure + torch.from_numpy((it['dp'] * 1e6 * (rs.rand(*shp) * 2 - 1)).astype(np.float32))
        rp = fc.get('relative_permeability', {})
        sw_cr, so_r, sg_cr = rp.get('sw_cr', 0.2), rp.get('so_r', 0.2), rp.get('sg_cr', 0.0)
        sw = F.s_w.numpy() + (it['ds'] * (rs.rand(*shp) * 2 - 1)).astype(np.float32)
        sg = F.s_g.numpy() * (1 + (it['ds'] * 3 * (rs.rand(*shp) * 2 - 1)).astype(np.float32))
        sw = np.clip(sw, sw_cr + 0.01, 1 - so_r - 0.03)
        sg = np.clip(sg, 0, np.maximum(0.0, 1 - so_r - 0.02 - sw))
        F.s_w, F.s_g = torch.from_numpy(sw.astype(np.float32)), torch.from_numpy(sg.astype(np.float32))
        F.s_o = 1.0 - F.s_w - F.s_g
        if it.get('sync', True): F.prev_pressure, F.prev_sw, F.prev_sg = F.pressure.clone(), F.s_w.clone(), F.s_g.clone()
    sp = sim_params_cls(world['sim'])
    if sim_extra: sp.update(sim_extra)
    sp = live.setdefault('sim', sp)
    return call(M.simulation.Simulator, R, F, W, sp, dev)


FIELDS = ('pressure', 's_w', 's_g', 's_o')


def snap(S):
    """Everything a user can observe of a simulator's state."""
    F = S.fluid
    d = {n: getattr(F, n).detach().cpu().numpy().copy() for n in FIELDS}
    for n in ('prev_pressure', 'prev_sw', 'prev_sg'):
        v = getattr(F, n, None)
        if v is not None: d[n] = v.detach().cpu().numpy().copy()
    d['mass'] = json.loads(json.dumps(S.mass_balance))
    d['comp'] = json.loads(json.dumps(S.component_balance))
    d['wells'] = [dict(q=w.last_q_total, sr=dict(w.last_surface_rates), mode=w.last_mode, cv=w.control_value, ct=w.control_type)
                  for w in S.well_manager.get_wells()]
    return d


def diff(a, b, keys=None, skip=()):
    """First difference between two snapshots, bitwise; None if equal."""
    for k in (keys or a.keys()):
        if k in skip: continue
        x, y = a.get(k), b.get(k)
        if isinstance(x, np.ndarray):
            if not isinstance(y, np.ndarray) or x.shape != y.shape: return f'{k}: shape changed'
            if x.tobytes() != y.tobytes():
                m = np.nanmax(np.abs(x.astype(np.float64) - y.astype(np.float64)))
                bad = int(np.sum(~((x == y) | (np.isnan(x) & np.isnan(y)))))
                if bad == 0: continue
                return f'{k}: differs in {bad} cells (max {m:.6g})'
        elif json.dumps(x, sort_keys=True) != json.dumps(y, sort_keys=True):
            return f'{k}: {x} != {y}'
    return None


def coords(w):
    return tuple(w['coordinates']) if 'coordinates' in w else (w['i'], w['j'], w['k'])


def control(w):
    return (w['control']['type'], w['control']['value']) if 'control' in w else (w['control_type'], w['control_value'])


def get64(S):
    return [getattr(S.fluid, n).detach().cpu().numpy().astype(np.float64).reshape(-1) for n in FIELDS]
