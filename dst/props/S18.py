"""PVT tables: read whole or not at all, writing failures reported."""
from props.runs import *
import sys

COLS = ['pressure_MPa', 'Bo', 'Bw', 'Bg', 'mu_o_cP', 'mu_w_cP', 'mu_g_cP', 'Rs_m3m3', 'Rv_m3m3']
KEYS = dict(Bo='Bo', Bw='Bw', Bg='Bg', mu_o='mu_o_cP', mu_w='mu_w_cP', mu_g='mu_g_cP', Rs='Rs_m3m3', Rv='Rv_m3m3')

GEN = dict(p_min=5.0, p_max=60.0, n=50, temp=90.0, api=35.0, gas_sg=0.7, salinity=100.0, pb=20.0)      # what the command line documents
GENARGS = dict(p_min='p_min_mpa', p_max='p_max_mpa', n='n_points', temp='temperature_c', api='oil_api', gas_sg='gas_sg', salinity='salinity_gpl', pb='bubble_point_mpa')


def usable(data):
    """The table in the file's bytes, or None when it is missing, torn or inconsistent."""
    if data is None: return None
    try: t = json.loads(data.decode('utf-8'))
    except ValueError: return None
    if not isinstance(t, dict) or 'pressure_MPa' not in t: return None
    out = {}
    for c in COLS:
        v = t.get(c)
        if c == 'Rv_m3m3' and v is None: v = [0.0] * len(t['pressure_MPa'])
        if not isinstance(v, list) or len(v) != len(t['pressure_MPa']) or not v: return None
        if not all(isinstance(x, (int, float)) and not isinstance(x, bool) and math.isfinite(x) for x in v): return None
        out[c] = np.array(v, dtype=np.float64)
    if np.any(np.diff(out['pressure_MPa']) < 0): return None
    return out


class S18(Check):
    prop = 'S18'
    counts = dict(quick=3000, thorough=60000)
    rule = ('a run is 3-12 operations on one or two table files: generate (with write faults, short writes, full disk, crash), damage (truncate at a byte, drop/shorten/extend a column, swap nodes, blank a value, junk, remove), replace by another good table of the same or another size, '
            'load with PVTTable, load through Fluid and step with it, each with read faults (open error, read error, early end of file, short reads); non-trivial = a damaged or faulted file was loaded or a fault hit the writer; '
            'distinct = operation kinds x faults x outcomes')
    real = ['PVTTable', 'pvt_generator (main and generate_black_oil_pvt)', 'Fluid', 'Simulator core (loaded fluids are stepped)']
    stub = ['disk (errors, short reads and writes, full disk, crash)']

    def gen(self, r, i, tier):
        ops = []
        files = ['a.json', 'tables/b.json']
        for _ in range(r.randint(3, 12)):
            f = r.choice(files[:r.choice([1, 1, 2])])
            x = r.random()
            if x < 0.2:
                o = dict(op='gen', f=f, args=dict(p_min=W.u(r, 1, 10), p_max=W.u(r, 20, 70), n=r.choice([1, 2, 5, 50]), api=W.u(r, 20, 45), gas_sg=W.u(r, 0.6, 1.0), pb=W.u(r, 8, 40), temp=W.u(r, 40, 140), salinity=W.u(r, 0, 250)))
                for k in list(o['args']):
                    if r.random() < 0.15: del o['args'][k]
                if r.random() < 0.45:
                    k = r.choice(['open', 'write', 'write', 'close', 'mkdir'])
                    o['fault'] = dict(op=k, n=1, err=r.choice(['EIO', 'ENOSPC', 'crash']), partial=r.choice([0, 1, 100, 2000]) if k == 'write' else 0)
            elif x < 0.3: o = dict(op='table', f=f, t=W.gen_pvt(r))
            elif x < 0.4: o = dict(op='retouch', f=f, at=round(r.random(), 5), col=r.choice(COLS[1:]), d=r.randint(1, 9))
            elif x < 0.55:
                o = dict(op='damage', f=f, how=r.choice(['cut', 'cut', 'cut', 'drop', 'short', 'long', 'null', 'swap', 'junk', 'remove', 'empty', 'text', 'norv', 'zero', 'nan', 'dip', 'dip', 'flat']), at=round(r.random(), 5), col=r.choice(COLS))
            else: o = dict(op='load' if x < 0.78 else 'fluid', f=f, key=r.choice(['pvt_path', 'pvt_path', 'pvt']))
            if o['op'] in ('load', 'fluid') and r.random() < 0.45:
                k = r.choice(['openr', 'read', 'read'])
                o['fault'] = dict(op=k, n=r.randint(1, 2 if k == 'read' else 1), err=r.choice(['EIO', 'EACCES', 'EMFILE', 'ENOENT'] if k == 'openr' else ['EIO', 'eof', 'short', 'short']), partial=r.choice([1, 7, 100]))
            ops.append(o)
        if r.random() < 0.35:
            # the same file read, replaced by another good one (often of the same size) and read again
            f = r.choice(files)
            kind = lambda: dict(op=r.choice(['load', 'fluid', 'fluid']), f=f, key=r.choice(['pvt_path', 'pvt']))
            tail = [dict(op='table', f=f, t=W.gen_pvt(r)), kind()]
            for _ in range(r.randint(1, 3)):
                tail += [r.choice([dict(op='table', f=f, t=W.gen_pvt(r))] + 2 * [dict(op='retouch', f=f, at=round(r.random(), 5), col=r.choice(COLS[1:]), d=r.randint(1, 9))]), kind()]
            ops = ops[:r.randint(0, 5)] + tail
        w = strip_world(W.gen_world(r, max_cells=4, pvt=False, limits=False))
        return dict(world=w, ops=ops, pm=W.u(r, 0.5, 70), first=W.gen_pvt(r), _shrink=['ops'])

    def run(self, case, p):
        root = os.path.realpath(os.getcwd())
        kinds = []
        def get_bytes(f):
            try: return read(f, 'rb')
            except OSError: return None
        def put(f, b):
            d = os.path.dirname(f)
            if d: os.makedirs(d, exist_ok=True)
            with seams.REAL_OPEN(f, 'wb') as fh: fh.write(b)
        put('a.json', json.dumps(case['first'], indent=1).encode())
        for n, o in enumerate(case['ops']):
            f = o['f']; tag = f'op {n}'
            disk = seams.Disk(root, [o['fault']] if o.get('fault') else [], p)
            if o['op'] == 'table': put(f, json.dumps(o['t'], indent=2).encode()); continue
            if o['op'] == 'retouch': self.retouch(o, f, get_bytes, put); kinds.append('retouch'); continue
            if o['op'] == 'damage': self.damage(o, f, get_bytes, put); kinds.append(o['how']); continue
            if o['op'] == 'gen':
                a = o['args']
                argv = ['g', '--out', f] + [x for k in a for x in ('--' + k.replace('_', '-'), str(a[k]))]
                old, ex = sys.argv, None
                sys.argv = argv; seams.DISK = disk
                try: call(M.pvtgen.main)
                except (OSError, seams.SimCrash) as e: ex = e
                finally: sys.argv = old; seams.DISK = None
                kinds.append(('gen', str(disk.fired), ex is None)); p.log(str(kinds[-1]))
                if ex is not None:
                    need(disk.fired, 'raised', f'{tag}: generator: {ex}'); p.hit('write_fault_reported'); continue
                want = call(M.pvtgen.generate_black_oil_pvt, M.pvtgen.PVTParams(**{full: a.get(k, GEN[k]) for k, full in GENARGS.items()}))
                t = usable(get_bytes(f))
                need(t is not None, 'write-lost', f'{tag}: the generator reported success but left no readable table' + (f' (disk fault {disk.fired})' if disk.fired else ''))
                need(json.loads(get_bytes(f).decode('utf-8')) == json.loads(json.dumps(want)), 'round-trip', f'{tag}: the file is not the generated table of these arguments')
                for c in COLS: need(t[c].tolist() == [float(x) for x in want[c]], 'round-trip', f'{tag}: column {c} in the file is not the generated one')
                p.hit('generated'); continue
            data = get_bytes(f)
            t = usable(data)
            key = o['key']
            if o['op'] == 'load':
                ex = T = None
                seams.DISK = disk
                try: T = M.pvt.PVTTable(f)
                except Exception as e: ex = e
                finally: seams.DISK = None
                hard = [x for x in disk.fired if x[2] not in ('short', 'eof')]
                kinds.append(('load', str(disk.fired), t is not None, ex is None)); p.log(str(kinds[-1]))
                if ex is not None:
                    need(hard or t is None or any(x[2] == 'eof' for x in disk.fired), 'rejected', f'{tag}: a good table was refused: {type(ex).__name__}: {ex} (disk {disk.fired})')
                    p.hit('refused'); continue
                need(t is not None, 'partly-read', f'{tag}: the file is {self.why(data)}, but the table was accepted')
                self.check_table(T, t, case, tag); p.hit('loaded')
                if disk.fired: p.hit('loaded_despite_short_reads')
            else:
                w = case['world']
                fc = json.loads(json.dumps(w['fluid']))
                base = self.make(w, fc)
                if key == 'pvt': fc['pvt'] = dict(path=os.path.abspath(f))
                else: fc['pvt_path'] = os.path.abspath(f)
                seams.OUT.take()
                seams.DISK = disk
                try: S = self.make(w, fc)
                finally: seams.DISK = None
                said = seams.OUT.take()
                F = S.fluid
                kinds.append(('fluid', str(disk.fired), t is not None, F.pvt is None)); p.log(str(kinds[-1]))
                if F.pvt is None:
                    hard = [x for x in disk.fired if x[2] != 'short']
                    need(hard or t is None, 'rejected', f'{tag}: a good table was refused by Fluid (disk {disk.fired})')
                    need(os.path.basename(f) in said, 'silent', f'{tag}: the table could not be used but nothing was said')
                    B = base.fluid
                    self.same_fluid(F, B, tag)
                    ok1, _ = step(S, w['dt'] * W.DAY, p); ok2, _ = step(base, w['dt'] * W.DAY, p)
                    need(ok1 == ok2 and W.diff(W.snap(S), W.snap(base)) is None, 'fallback', f'{tag}: a simulator whose table could not be read does not run like one without a table')
                    p.hit('fallback'); continue
                need(t is not None, 'partly-read', f'{tag}: the file is {self.why(data)}, but the fluid uses it')
                self.check_table(F.pvt, t, case, tag)
                P = F.pressure.numpy().astype(np.float64) / 1e6
                for prop, col in (('mu_w', 'mu_w_cP'), ('mu_o', 'mu_o_cP'), ('mu_g', 'mu_g_cP')):
                    want = np.interp(P, t['pressure_MPa'], t[col]) * 1e-3
                    got = getattr(F, prop).numpy().astype(np.float64)
                    need(np.allclose(got, want, rtol=self.slack(t, col, P), atol=0), 'fluid-values', f'{tag}: {prop} of the fluid is not that of the table')
                p.hit('fluid_loaded')
                # nothing that happens to the file later changes the fluid
                if o.get('key') == 'pvt':
                    m = F.mu_o.numpy().tobytes(); put(f, b'{'); 
                    need(F.mu_o.numpy().tobytes() == m, 'fluid-values', f'{tag}: the fluid changed when its file was damaged afterwards')
                    if data is not None: put(f, data)
        if any(k not in ('norv', 'retouch') and (isinstance(k, str) or '[]' not in k[1]) for k in kinds): p.sign(str(kinds))

    @staticmethod
    def slack(t, col, P):
        """float32 pressure and result; a steep table amplifies the rounding of the pressure."""
        x, y = t['pressure_MPa'], t[col]
        if len(x) < 2: return 1e-6
        dx = np.diff(x); s = np.max(np.abs(np.diff(y))[dx > 0] / dx[dx > 0]) if (dx > 0).any() else 0.0
        return 1e-6 + 4e-7 * float(P.max()) * s / max(1e-300, float(np.min(np.abs(y)))) if np.min(np.abs(y)) > 0 else 1.0

    @staticmethod
    def make(w, fc):
        dev = M.torch.device('cpu')
        R = call(M.reservoir.Reservoir, dict(dimensions=list(w['dims']), grid_size=list(w['grid']), porosity=w['phi'], permeability=w['kh'], k_vertical_fraction=w['kvf']), dev)
        Wm = call(M.well.WellManager, w['wells'], R)
        F = call(M.fluid.Fluid, json.loads(json.dumps(fc)), R, dev)
        return call(M.simulation.Simulator, R, F, Wm, dict(w['sim']), dev)

    @staticmethod
    def same_fluid(F, B, tag):
        for n in ('pressure', 's_w', 's_g', 's_o', 'rho_w', 'rho_o', 'rho_g', 'cf'):
            need(getattr(F, n).numpy().tobytes() == getattr(B, n).numpy().tobytes(), 'fallback', f'{tag}: {n} differs from a fluid without a table')
        for n in ('mu_w', 'mu_o', 'mu_g', 'mu_water', 'mu_oil', 'mu_gas'):
            need(getattr(F, n) == getattr(B, n), 'fallback', f'{tag}: {n} differs from a fluid without a table')

    @staticmethod
    def check_table(T, t, case, tag):
        x = t['pressure_MPa']
        rs = np.random.RandomState(int(case['pm'] * 1e6) % (1 << 31))
        q = np.concatenate([x, rs.uniform(x[0] - 5, x[-1] + 5, 20), [case['pm'], x[0] - 1, x[-1] + 1]])
        e = call(T.eval, q)
        need(set(KEYS) <= set(e), 'columns', f'{tag}: eval returns {sorted(e)}')
        for k, c in KEYS.items():
            need(len(e[k]) == len(q), 'columns', f'{tag}: {k} has {len(e[k])} values')
            want = np.interp(q, x, t[c])
            got = np.asarray(e[k], dtype=np.float64)
            err = np.abs(got - want); lim = 1e-9 * np.maximum(np.abs(want), np.max(np.abs(t[c])))
            dup = np.isin(q, x[1:][np.diff(x) == 0]) if len(x) > 1 else np.zeros(len(q), bool)
            bad = (err > lim) & ~dup
            need(not bad.any(), 'values', lambda: f'{tag}: {k}({q[np.argmax(bad)]:.6g} MPa) = {got[np.argmax(bad)]:.9g}, the file says {want[np.argmax(bad)]:.9g}')

    @staticmethod
    def why(data):
        if data is None: return 'missing'
        try: json.loads(data.decode())
        except ValueError: return 'not a complete JSON document'
        return 'inconsistent (columns missing, of other lengths, with gaps, or pressures out of order)'

    @staticmethod
    def retouch(o, f, get_bytes, put):
        """Another good table of exactly the same length: one leading digit of each number of a column changes."""
        b = get_bytes(f)
        try: t = json.loads(b.decode())
        except (AttributeError, ValueError): return
        v = t.get(o['col']) if isinstance(t, dict) else None
        if not isinstance(v, list): return
        for i, x in enumerate(v):
            if isinstance(x, bool) or not isinstance(x, float): continue
            s = json.dumps(x)
            k = next((j for j, c in enumerate(s) if c in '123456789'), None)
            if k is None: continue
            y = float(s[:k] + str(1 + (int(s[k]) - 1 + o['d']) % 9) + s[k + 1:])
            if len(json.dumps(y)) == len(s): v[i] = y
        c = json.dumps(t, indent=1 if b.count(b'\n  ') == 0 else 2).encode()
        put(f, c)

    @staticmethod
    def damage(o, f, get_bytes, put):
        b = get_bytes(f)
        h = o['how']
        if h == 'remove':
            if b is not None: os.remove(f)
            return
        if h == 'junk': put(f, b'\x00\xff\x00 not json'); return
        if h == 'empty': put(f, b''); return
        if b is None: return
        if h == 'cut': put(f, b[:int(o['at'] * len(b))]); return
        try: t = json.loads(b.decode())
        except ValueError: return
        if not isinstance(t, dict): return
        c = o['col']
        v = t.get(c)
        if h == 'norv': t.pop('Rv_m3m3', None)
        elif h == 'zero': t = {k: [] if k in COLS else x for k, x in t.items()}
        elif v is None or not isinstance(v, list) or not v: return
        elif h == 'drop':
            if c == 'Rv_m3m3': return
            t.pop(c)
        elif h == 'short': v.pop(int(o['at'] * len(v)))
        elif h == 'long': v.append(v[-1])
        elif h == 'null': v[int(o['at'] * len(v))] = None
        elif h == 'nan': v[int(o['at'] * len(v))] = float('nan')
        elif h == 'text': v[int(o['at'] * len(v))] = 'x'
        elif h in ('dip', 'flat'):             # barely out of order / two nodes at one pressure
            v = t.get('pressure_MPa') or []
            if len(v) >= 2 and all(isinstance(x, (int, float)) for x in v):
                i = int(o['at'] * (len(v) - 1)); v[i + 1] = v[i] - (10.0 ** -(1 + int(o['at'] * 1e4) % 9) if h == 'dip' else 0)
        elif h == 'swap':
            v = t.get('pressure_MPa') or []
            if len(v) >= 2:
                i = int(o['at'] * (len(v) - 1)); v[i], v[i + 1] = v[i + 1], v[i]
        put(f, json.dumps(t, indent=2).encode())


CHECK = S18()
