"""A run is what its configuration file says, or it is refused."""
from props.runs import *
import copy, random
from props import S06

FLAGS = ['ints', 'order', 'comments', 'coordinates', 'flat', 'nothing', 'spell', 'pvt', 'relpath', 'layout', 'old_pc', 'flat_rp', 'omit', 'defaults']
DEF_RES = dict(grid_size=[10.0, 10.0, 10.0], porosity=0.2, permeability=100.0, k_vertical_fraction=0.1)
DEF_FLUID = dict(pressure=20.0, s_w=0.2, s_g=0.0, mu_oil=1.0, mu_water=0.5, mu_gas=0.02, rho_oil=850.0, rho_water=1000.0, rho_gas=1.0, c_oil=1e-5, c_water=1e-5, c_gas=1e-3, c_rock=1e-5)
DEF_RP = dict(model='corey', nw=2, no=2, ng=2, ko_end_w=1.0, ko_end_g=1.0, krw_end=1.0, krg_end=1.0, sw_cr=0.2, so_r=0.2, sg_cr=0.0)
DEF_PC = dict(pc_scale=0.0, pc_exponent=1.5)
DEF_SIM = dict(solver_type='impes', time_step_days=1.0, total_time_days=100, save_interval=10, save_npz=True, write_full_arrays_txt=False, global_rate_scale=1.0, debug_component_balance=False,
               pressure_solver='cg', cg_tolerance=1e-6, cg_max_iter=500, max_time_step_attempts=5, dt_reduction_factor=2.0, dt_increase_factor=1.25, max_saturation_change=0.05, max_substeps=20)
DEF_AMG = dict(max_cycles=20, theta=0.25, max_levels=10, coarsest_size=200)


def plain(cfg):
    """One notation: flat well control, explicit values, pvt_path."""
    c = json.loads(json.dumps(cfg))
    for w in c['wells']:
        if 'coordinates' in w: w['i'], w['j'], w['k'] = w.pop('coordinates')
        if 'control' in w: x = w.pop('control'); w['control_type'], w['control_value'] = x['type'], x['value']
    return c


def ints(x):
    if isinstance(x, dict): return {k: ints(v) for k, v in x.items()}
    if isinstance(x, list): return [ints(v) for v in x]
    if isinstance(x, float) and x == int(x) and abs(x) < 1e9: return int(x)
    return x


def shuffled(x, r):
    if isinstance(x, dict):
        k = list(x); r.shuffle(k)
        return {a: shuffled(x[a], r) for a in k}
    if isinstance(x, list): return [shuffled(v, r) for v in x]
    return x


def notate(cfg, flags, seed):
    """The same configuration written in another way (every transformation keeps its meaning)."""
    r = random.Random(seed)
    c = plain(cfg)
    f, s = c['fluid'], c['simulation']
    if 'coordinates' in flags:
        for w in c['wells']:
            if r.random() < 0.7: w['coordinates'] = [w.pop('i'), w.pop('j'), w.pop('k')]
    if 'flat' in flags:
        for w in c['wells']:
            if r.random() < 0.7: w['control'] = dict(type=w.pop('control_type'), value=w.pop('control_value'))
    if 'nothing' in flags:                 # absent things written as such
        for w in c['wells']:
            if 'limits' not in w and r.random() < 0.5: w['limits'] = r.choice([None, {}])
            if 'bhp_min' not in w and r.random() < 0.5: w['bhp_min'] = None
            if 'surface_phase' not in w and r.random() < 0.3: w['surface_phase'] = None
        if 'pvt_path' not in f: f['pvt'] = {}
        if 'amg' not in s: s['amg'] = r.choice([None, {}])
        if 'capillary_pressure_og' not in f: f['capillary_pressure_og'] = {}
    if 'spell' in flags:                   # the ordinary case written out
        for w in c['wells']:
            w.setdefault('rate_type', 'reservoir')
            if w['type'] == 'injector': w.setdefault('injected_phase', 'water')
        s.setdefault('solver_type', 'impes'); f.setdefault('s_g', 0.0); s.setdefault('pressure_solver', 'cg'); s.setdefault('pressure_float64', False)
        s.setdefault('debug_component_balance', False); s.setdefault('global_rate_scale', 1.0); s.setdefault('save_npz', True)
        f['relative_permeability'].setdefault('model', 'corey')
    where = [(c['reservoir'], DEF_RES), (f, DEF_FLUID), (f.get('relative_permeability', {}), DEF_RP), (f.get('capillary_pressure', {}), DEF_PC), (f.get('capillary_pressure_og', {}), DEF_PC), (s, DEF_SIM), (s.get('amg') or {}, DEF_AMG)]
    for d, df in where:
        for k, v in df.items():
            if 'omit' in flags and k in d and d[k] == v: del d[k]
            elif 'defaults' in flags and r.random() < 0.6: d.setdefault(k, v)
    if 'flat_rp' in flags:                 # model and end saturations directly in the fluid section, as some shipped configurations have them
        for a, b in (('model', 'relperm_model'), ('sw_cr', 's_wr'), ('so_r', 's_or')):
            if a in f.get('relative_permeability', {}) and r.random() < 0.7: f[b] = f['relative_permeability'].pop(a)
    if 'omit' in flags and not f.get('relative_permeability', True): del f['relative_permeability']
    if 'pvt' in flags and 'pvt_path' in f: f['pvt'] = dict(path=f.pop('pvt_path'))
    if 'relpath' in flags:
        if 'pvt_path' in f: f['pvt_path'] = os.path.relpath(f['pvt_path'])
        elif f.get('pvt', {}).get('path'): f['pvt']['path'] = os.path.relpath(f['pvt']['path'])
    if 'old_pc' in flags and 'capillary_pressure' in f: f.update(f.pop('capillary_pressure'))
    if 'ints' in flags: c = ints(c)
    if 'comments' in flags:
        for d in [c, c['reservoir'], c['fluid'], c['simulation']] + c['wells']:
            if r.random() < 0.7: d[r.choice(['_comment', 'note', 'описание', 'author'])] = r.choice(['текст', 'x', 17, None, ['a'], {}, 'скв. #3 // см. /* акт */', '# no', '%s {0} $HOME', 'NaN'])
    if 'order' in flags: c = shuffled(c, r)
    kw = dict(indent=r.choice([None, 1, 4]), ensure_ascii=r.random() < 0.5, separators=r.choice([None, (',', ':'), (' ,  ', ' :\t')])) if 'layout' in flags else {}
    t = json.dumps(c, **kw)
    if 'layout' in flags: t = r.choice(['', '\n\n', '  \t']) + t + r.choice(['', '\n', '\r\n  '])
    return t


def spoil(text, how, at, cfg):
    """A file that is no configuration of anything."""
    if how == 'cut': return text[:int(at * len(text.rstrip().rstrip('}')))]
    if how == 'empty': return ''
    if how == 'junk': return '\x00{' + text
    if how == 'twice': return text + text
    c = plain(cfg)
    W_ = c['wells'][int(at * len(c['wells'])) % len(c['wells'])] if c['wells'] else None
    d = c['reservoir']['dimensions']
    if how in ('reservoir', 'fluid', 'wells'): c.pop(how)
    elif how == 'sum': c['fluid'].update(s_w=0.7, s_g=0.4)
    elif how == 'solver': c['simulation']['solver_type'] = 'imp' + 'licit'
    elif how == 'list': c = [c]
    elif W_ is None: c.pop('wells')
    elif how in ('name', 'type', 'radius', 'control_value', 'j'): W_.pop(how)
    elif how == 'beyond': k = int(at * 3); W_['ijk'[k]] = d[k] + int(at * 30) % 3
    elif how == 'negative': k = int(at * 3); W_['ijk'[k]] = -1 - int(at * 30) % d[k]
    return json.dumps(c)


NAMES = ['out', 'out', 'out', None, 'a.b', 'с пробелом', 'Out_2.npz', 'x[1]', '%d', 'v1.0.final']
HOW = ['cut', 'cut', 'cut', 'empty', 'junk', 'twice', 'reservoir', 'fluid', 'wells', 'sum', 'solver', 'list', 'name', 'type', 'radius', 'control_value', 'j', 'beyond', 'negative', 'negative']


class S21(Check):
    prop = 'S21'
    counts = dict(quick=1500, thorough=40000)
    rule = ('a run is 2-7 invocations of main() in one process and directory, from one or two configuration files that are rewritten in between: the same case in another notation (old and new well formats, '
            'integers for whole numbers, key order, comments, absent things spelled out, PVT path forms, layout), another case, or a spoilt file (cut at any byte, sections or keys missing, wells outside the grid, '
            'unknown scheme), with read faults (open error, read error, early end, short reads); accepted runs must give the arrays and summary of a twin built directly from the values in a process of its own, '
            'refused ones must raise and leave nothing but earlier results; non-trivial = a spoilt or faulted file or a second notation was run; distinct = sequence of (notation, damage, fault, outcome)')
    real = REAL_CORE + ['main (load_config, parse_args)', 'Simulator.run']
    stub = ['disk reads of the configuration (errors, early end, short reads)', 'matplotlib drawing (recorded)', 'wall clock']

    def gen(self, r, i, tier):
        ws = []
        for _ in range(r.choice([1, 2, 2])):
            w = strip_world(W.gen_world(r, max_cells=r.choice([2, 4, 8]), pvt=r.random() < 0.3))
            f = w['fluid']
            if r.random() < 0.4: f['pressure'] = float(round(f['pressure']))
            if r.random() < 0.3: f['s_g'] = 0.0
            for k in ('mu_oil', 'rho_oil', 'rho_water'):
                if k in f and r.random() < 0.5: f[k] = float(max(1, round(f[k])))
            if r.random() < 0.3: w['grid'] = [float(round(g)) for g in w['grid']]
            if r.random() < 0.3: w['kh'] = float(max(1, round(w['kh'])))
            if r.random() < 0.2: w['kvf'] = 1.0
            for x in w['wells']:
                t, v = W.control(x)
                if r.random() < 0.4 and abs(v) >= 1:
                    if 'control_value' in x: x['control_value'] = float(round(v))
                    else: x['control']['value'] = float(round(v))
            if r.random() < 0.05: f['s_w'], f['s_g'] = r.choice([(1.0, 0.0), (0.0, 0.0), (0.0, 1.0)])
            self.plainer(r, w)
            n = r.choice([0, 1, 1, 2, 3])
            dt = float(max(1, round(w['dt']))) if r.random() < 0.4 else w['dt']
            if r.random() < 0.1: dt = 1.0
            elif r.random() < 0.05: n, dt = r.choice([(1, 100.0), (2, 50.0), (4, 25.0)])
            w['sim'].update(time_step_days=dt, total_time_days=n * dt, save_interval=r.choice([1, 10]), animation_fps=0)
            w['n'] = n
            w['name'] = r.choice(NAMES)
            if ws and r.random() < 0.6:            # nearly the same case
                w = copy.deepcopy(ws[0])
                if r.random() < 0.5: w['fluid']['pressure'] = round(w['fluid']['pressure'] + r.choice([-1, 1, 2, 0.5]), 6)
                else: w = W.nearly(r, w)
            ws.append(w)
        ops = []
        same = r.random() < 0.4
        files = ['config.json', 'cfg/b.json'][:r.choice([1, 1, 2])]
        for _ in range(r.randint(2, 7)):
            o = dict(f=r.choice(files), w=r.randrange(len(ws)), nota=sorted(r.sample(FLAGS, r.choice([0, 1, 2, 4, 7, len(FLAGS)]))), seed=r.randrange(1 << 30), vtk=r.random() < 0.1)
            o['locale'] = r.choice([None, None, None, 'cp1251', 'ascii', 'latin-1'])
            if same: o.update(nota=[]); o['vtk'] = False
            x = r.random()
            if x < 0.12: o['keep'] = True                 # run the file as the last invocation left it
            elif x < 0.4:
                o['spoil'] = [r.choice(HOW), round(r.random(), 5)]
                if o['spoil'][0] == 'solver' and not ws[o['w']]['n']: o['spoil'][0] = 'sum'      # a scheme is looked up by the first step
            elif x < 0.43: o['spoil'] = ['missing', 0.0]
            if r.random() < 0.25:
                k = r.choice(['openr', 'read', 'read', 'read'])
                o['fault'] = dict(op=k, n=r.choice([1, 1, 1, 2]) if k == 'read' else 1, match=o['f'], err=r.choice(['EIO', 'EACCES', 'EMFILE', 'ENOENT'] if k == 'openr' else ['EIO', 'eof', 'short', 'short']), partial=r.choice([1, 7, 100, 300]))
            ops.append(o)
        return dict(worlds=ws, ops=ops, clock=gen_clock(r), t0=1.7e9, _shrink=['ops'])

    @staticmethod
    def plainer(r, w):
        """Zeros where zero is a value, and values that are the default."""
        f, rp = w['fluid'], w['fluid']['relative_permeability']
        if r.random() < 0.12: w['kvf'] = 0.0
        if r.random() < 0.25: w['phi'] = 0.2
        if r.random() < 0.2: w['kh'] = 100.0
        if r.random() < 0.2: w['kvf'] = 0.1
        if r.random() < 0.2: w['grid'] = list(DEF_RES['grid_size'])
        for k in ('cg_tolerance', 'cg_max_iter', 'max_time_step_attempts', 'dt_reduction_factor', 'dt_increase_factor', 'max_saturation_change', 'max_substeps'):
            if r.random() < 0.1: w['sim'][k] = DEF_SIM[k]
        for k in w['sim'].get('amg') or {}:
            if k in DEF_AMG and r.random() < 0.2: w['sim']['amg'][k] = DEF_AMG[k]
        for k in ('c_oil', 'c_water', 'c_gas', 'c_rock'):
            if r.random() < 0.12 and (k != 'c_rock' or not w.get('pvt')): f[k] = 0.0
        if not w.get('pvt') and not any(f.get(k, 1) for k in ('c_oil', 'c_water', 'c_gas', 'c_rock')): del f['c_oil']
        for k in ('sw_cr', 'so_r', 'sg_cr'):
            if r.random() < 0.1: rp[k] = 0.0
        if r.random() < 0.08: rp.update(sw_cr=0.0); f['s_w'] = 0.0
        for k in ('s_w', 'pressure', 'mu_oil', 'mu_water', 'mu_gas', 'rho_oil', 'rho_water', 'rho_gas'):
            if r.random() < 0.12 and (k != 's_w' or f['s_g'] < 0.5): f[k] = DEF_FLUID[k]
        for x in w['wells']:
            if W.control(x)[0] == 'rate':
                if r.random() < 0.08:
                    if 'control_value' in x: x['control_value'] = 0.0
                    else: x['control']['value'] = 0.0
                if x['type'] == 'producer' and w.get('pvt'):
                    if r.random() < 0.3: x.setdefault('limits', {})[r.choice(['wopr', 'wlpr', 'wgpr', 'liqr'])] = 0.0
                if x['type'] == 'producer' and r.random() < 0.08: x['bhp_min'] = 0.0

    @staticmethod
    def cfg(w):
        c = config_of(w, w['sim'], w.get('name'), W.pvt_file(w))
        if not w.get('name'): del c['output_filename']
        return c

    def run(self, case, p):
        root = os.path.realpath(os.getcwd())
        for w in case['worlds']: W.pvt_file(w)

        def twin(i):
            w = copy.deepcopy(case['worlds'][i])
            T = W.build(w)
            ok = 0
            values_used(w, T)
            ref = RF.Ref(w)
            for n in range(w['n']):
                pre = get(T)
                good, _, tr = traced(T, w['sim']['time_step_days'] * 86400, Quiet())
                if not good: break
                ok += 1
                for k, (a, b, dt) in enumerate(tr[:3]): equations(ref, w, a['f'], b['f'], dt, f'{n}.{k}')
            return [getattr(T.fluid, f).numpy().tobytes() for f in W.FIELDS], ok, json.loads(json.dumps(T.mass_balance))
        used = sorted({o['w'] for o in case['ops']})
        zy = {i: Zygote(twin) for i in used}
        want = {i: z.ask(i) for i, z in zy.items()}
        clock(case)
        text, owner, sums, sig = {}, {}, {}, []
        for n, o in enumerate(case['ops']):
            f, tag = o['f'], f'run {n}'
            w = case['worlds'][o['w']]
            if not (o.get('keep') and f in text):
                cfg = self.cfg(w); cfg['save_vtk'] = o['vtk']
                t = notate(cfg, o['nota'], o['seed'])
                owner[f] = o['w']
                if o.get('spoil'):
                    owner[f] = None
                    t = None if o['spoil'][0] == 'missing' else spoil(t, *o['spoil'], cfg)
                text[f] = t
                os.makedirs(os.path.dirname(f) or '.', exist_ok=True)
                if t is None:
                    if os.path.exists(f): os.remove(f)
                else:
                    with seams.REAL_OPEN(f, 'wb') as fh: fh.write(t.encode())
            before = tree('results') if os.path.isdir('results') else {}
            dirs = set(result_dirs())
            seams.OUT.take()
            disk = seams.Disk(root, [o['fault']] if o.get('fault') else [], p)
            import sys
            old, ex = sys.argv, None
            sys.argv = ['main.py', '--config', f]; seams.DISK = disk; seams.LOCALE = o.get('locale')
            with PlotRecorder(root):
                try: M.main.main()
                except Exception as e: ex = e
                finally: sys.argv = old; seams.DISK = None; seams.LOCALE = None
            after = tree('results') if os.path.isdir('results') else {}
            new = {k: v for k, v in after.items() if k not in before}
            need(all(after.get(k) == v for k, v in before.items()), 'earlier-results', f'{tag}: results of an earlier run changed')
            now = read(f, 'rb') if os.path.exists(f) else None
            need(now == (None if text[f] is None else text[f].encode()), 'configuration-changed', f'{tag}: the configuration file was changed by the run')
            i = owner[f]
            sig.append((tuple(o['nota']), (o.get('spoil') or [None])[0], str(disk.fired), ex is None)); p.log(str(sig[-1]))
            hard = [x for x in disk.fired if x[2] != 'short']
            if ex is not None:
                need(hard or i is None, 'raised', lambda: f'{tag}: a good configuration ({", ".join(o["nota"])}) was refused: {type(ex).__name__}: {ex}')
                need(not [k for k in new if k.endswith(('.txt', '.npz', '.png', '.gif', '.vtr', '.vtk'))], 'results-of-nothing', lambda: f'{tag}: the configuration was refused ({type(ex).__name__}: {ex}) but left results {sorted(new)[:4]}')
                p.hit('refused'); continue
            need(i is not None, 'accepted', lambda: f'{tag}: a configuration file that was {o["spoil"][0] if o.get("spoil") else "damaged before"} was run (results {sorted(new)[:4]})')
            state, done, mb = want[i]
            w = case['worlds'][i]
            p.steps += done; p.sim_seconds += done * w['sim']['time_step_days'] * 86400
            nd = sorted(set(result_dirs()) - dirs)
            need(len(nd) == 1, 'results', f'{tag}: one run made result directories {nd}')
            R = os.path.join('results', nd[0]); name = w.get('name') or 'simulation_output'
            for k in (name + '.npz', name + '.txt'): need(os.path.exists(os.path.join(R, k)), 'results', lambda: f'{tag}: {k} is not among the results {sorted(os.listdir(R))}')
            with seams.REAL_OPEN(os.path.join(R, name + '.npz'), 'rb') as fh:
                z = np.load(fh)
                for k, a in zip(('pressure', 'sw', 'sg', 'so'), state):
                    need(z[k].tobytes() == a, 'meaning', lambda: f'{tag}: written as [{", ".join(o["nota"])}] the case gives another {k} than its values do ({diff_of(z[k], a)})')
            txt = read(os.path.join(R, name + '.txt'))
            if i in sums: need(txt == sums[i], 'meaning', lambda: f'{tag}: the summary differs from that of the same case in another notation: {first_diff(sums[i], txt)}')
            sums[i] = txt
            p.hit('accepted'); p.hit('complete' if done == w['n'] else 'stopped')
            for x in o['nota']: p.hit('nota.' + x)
            if disk.fired: p.hit('short_reads')
            if o.get('locale'): p.fault('locale.' + o['locale'])
        seams.CLOCK.active = False
        if len(sig) > 1: p.sign(str(sig))


class Quiet:
    """A probe whose counters nobody reads (the twin lives in a process of its own)."""
    steps = sim_seconds = 0
    def hit(self, *a, **k): pass
    log = sign = measure = hit


def values_used(w, T):
    """The initial state is the configured one."""
    f = w['fluid']
    P, sw, sg, so = get(T)
    for name, a, v in (('pressure', P, f['pressure'] * 1e6), ('water saturation', sw, f['s_w']), ('gas saturation', sg, f['s_g']), ('oil saturation', so, 1 - f['s_w'] - f['s_g'])):
        need(a.size == int(np.prod(w['dims'])) and np.max(np.abs(a - v)) <= 1e-6 * max(1, abs(v)), 'values', lambda: f'initial {name} is {a[0]:.7g}, configured is {v:.7g}')


def equations(ref, w, pre, post, dt, tag):
    """The step is one of the reservoir, fluid and wells whose values are in the file."""
    if not all(finite(x) for x in post) or np.max(np.abs(post[0])) > 3e8: return
    vals = [W.control(x)[1] for x in w['wells']]
    sy = ref.pressure_system(pre[0], pre[1], pre[2], dt, vals)
    if 'switch?' in sy['modes']: return
    tol = w['sim'].get('cg_tolerance', 1e-6)
    S06.check_pressure(ref, sy, pre, post[0], dt, vals, tol, tol if w['sim'].get('pressure_solver') == 'amg' else 0, Quiet(), f'step {tag} of the twin')
    S06.check_transport(ref, sy, pre, post, dt, vals, Quiet(), f'step {tag} of the twin')


def diff_of(a, b):
    b = np.frombuffer(b, dtype=a.dtype) if len(b) == a.nbytes else None
    return 'another shape or type' if b is None else f'by up to {np.max(np.abs(a.reshape(-1).astype(np.float64) - b.astype(np.float64))):.6g}'


def first_diff(a, b):
    for x, y in zip(a.splitlines(), b.splitlines()):
        if x != y: return f'{x!r} / {y!r}'
    return 'lines missing'


CHECK = S21()
