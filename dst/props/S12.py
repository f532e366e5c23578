"""Saved results: faithful, in a directory of their own, errors reported."""
from props.runs import *
from props.S13 import gif_frames, near
import gc, types, sys, struct, xml.etree.ElementTree as ET


# ----------------------------------------------------------------- a stand-in for the absent vtk package
class _Array:
    def __init__(self, a): self.a = np.array(a); self.n = None
    def SetName(self, n): self.n = n


class _PD:
    def __init__(self): self.arr = []
    def AddArray(self, a): self.arr.append(a)
    SetScalars = AddArray


class _Points:
    def __init__(self): self.p = []
    def InsertNextPoint(self, *x): self.p.append([float(v) for v in (x[0] if len(x) == 1 else x)])


class _Grid:
    def __init__(self): self.pd, self.cd = _PD(), _PD()
    def SetDimensions(self, *d): self.dim = [int(v) for v in (d[0] if len(d) == 1 else d)]
    def SetPoints(self, p): self.points = p
    def GetPointData(self): return self.pd
    def GetCellData(self): return self.cd


class _Writer:
    def SetFileName(self, f): self.f = f
    def SetInputData(self, g): self.g = g
    def Write(self):
        """Like the real writer: reports failure by its return value, not by raising."""
        g = self.g
        data = json.dumps(dict(dim=g.dim, points=g.points.p, data={a.n: [float(x) for x in a.a] for a in g.pd.arr + g.cd.arr}))
        try:
            with open(self.f, 'w') as f: f.write(data)
        except OSError:
            return 0
        return 1


def fake_vtk():
    v = types.ModuleType('vtk')
    v.vtkStructuredGrid, v.vtkPoints, v.vtkXMLStructuredGridWriter = _Grid, _Points, _Writer
    m, u = types.ModuleType('vtkmodules'), types.ModuleType('vtkmodules.util')
    n = types.ModuleType('vtkmodules.util.numpy_support')
    n.numpy_to_vtk = lambda a, *k, **kw: _Array(a)
    m.util, u.numpy_support = u, n
    sys.modules.update({'vtk': v, 'vtkmodules': m, 'vtkmodules.util': u, 'vtkmodules.util.numpy_support': n})


def read_vtr(path):
    """Appended-raw rectilinear grid as pyevtk writes it."""
    raw = read(path, 'rb')
    k = raw.index(b'<AppendedData'); k2 = raw.index(b'_', raw.index(b'>', k)) + 1
    head = ET.fromstring(raw[:k].decode() + '</VTKFile>')
    g = head.find('RectilinearGrid'); ext = [int(x) for x in g.attrib['WholeExtent'].split()]
    out = {}
    ty = dict(Float32=np.float32, Float64=np.float64, Int64=np.int64, Int32=np.int32)
    for d in g.iter('DataArray'):
        off = int(d.attrib['offset'])
        n = struct.unpack('<Q', raw[k2 + off:k2 + off + 8])[0]
        out[d.attrib['Name']] = np.frombuffer(raw[k2 + off + 8:k2 + off + 8 + n], dtype=ty[d.attrib['type']])
    return ext, out


LABELS = {'Pressure MPa': (0, 1e-6, 0.0051), 'Sw': (1, 1, 0.000051), 'Sg': (2, 1, 0.000051), 'So': (3, 1, 0.000051)}


def check_summary(txt, fields, mass, tag):
    for lab, (i, f, tol) in LABELS.items():
        m = re.search(rf'^{re.escape(lab)}:\s*min=(\S+?),\s*max=(\S+?),\s*mean=(\S+)\s*$', txt, re.M)
        need(m, 'summary', f'{tag}: no line for {lab}')
        a = fields[i].astype(np.float64) * f
        for name, got, want in zip(('min', 'max', 'mean'), map(float, m.groups()), (a.min(), a.max(), a.mean())):
            need(abs(got - want) <= tol + 2e-6 * abs(want), 'summary', f'{tag}: {lab} {name} is {want:.6g} in the final state, the summary says {got}')
    tot = 0.0
    for ph in ('water', 'gas', 'oil'):
        m = re.search(rf'^{ph}:\s*in=(\S+?),\s*out=(\S+?),\s*net=(\S+)\s*$', txt, re.M)
        need(m, 'summary', f'{tag}: no mass balance line for {ph}')
        i, o = mass[ph]['in'], mass[ph]['out']; tot += i - o
        for name, got, want in zip(('in', 'out', 'net'), map(float, m.groups()), (i, o, i - o)):
            need(abs(got - want) <= 1e-6 * abs(want) + 1e-12, 'summary', f'{tag}: {ph} {name} is {want:.7e}, the summary says {got:.7e}')
    m = re.search(r'^total net=(\S+)\s*$', txt, re.M)
    if m: need(abs(float(m.group(1)) - tot) <= 1e-6 * abs(tot) + 1e-12 + 1e-7 * max(abs(mass[p][k]) for p in mass for k in mass[p]), 'summary', f'{tag}: total net is {tot:.7e}, the summary says {m.group(1)}')


ARR = [('Final Pressure (MPa):', 0, 1e-6, 0.0051), ('Final Water Saturation:', 1, 1, 0.000051), ('Final Gas Saturation:', 2, 1, 0.000051), ('Final Oil Saturation:', 3, 1, 0.000051)]


def check_arrays(txt, fields, tag):
    pos = [txt.find(a[0]) for a in ARR] + [len(txt)]
    for k, (lab, i, f, tol) in enumerate(ARR):
        need(pos[k] >= 0, 'txt-arrays', f'{tag}: {lab} missing')
        got = np.array([float(x) for x in re.findall(r'-?\d+\.\d+(?:e[-+]?\d+)?|nan|inf', txt[pos[k] + len(lab):pos[k + 1]])])
        a = fields[i].astype(np.float64).reshape(-1) * f
        need(got.size == a.size, 'txt-arrays', f'{tag}: {lab} has {got.size} values for {a.size} cells')
        need(float(np.max(np.abs(got - a) - 2e-6 * np.abs(a))) <= tol, 'txt-arrays', f'{tag}: {lab} does not list the final state')


class S12(Check):
    prop = 'S12'
    counts = dict(quick=900, thorough=18000)
    rule = ('a run is 1-4 whole simulations one after another (names drawn from a small set, frozen or jumping clock) with random save options, then exports with output.vtk_writer; one simulation may meet a disk fault '
            '(error, short write, full disk, failing close, crash, another process taking the directory first) at a random file operation, and a second whole run may take place at one file operation of another; every file (and the console) is decoded and compared with the final state, every file of the '
            'other simulations must keep its bytes; non-trivial = 2 or more simulations, a fault or a run inside a run; distinct = names x options x faults x outcomes')
    real = ['Simulator.run and its writers', 'main', 'numpy savez', 'output.vtk_writer and pyevtk', 'imageio', 'Simulator core']
    stub = ['matplotlib drawing (recorded, writes a tiny PNG)', 'the absent vtk package (recording stand-in with the documented point order)', 'disk faults', 'wall clock', 'solver iteration budgets']

    def gen(self, r, i, tier):
        runs = []
        names = r.sample(['out', 'res', 'sim_output', 'a b', 'пласт', 'out_1', 'x[1]'], r.randint(1, 2))
        for k in range(r.choice([1, 2, 2, 3, 4])):
            w = strip_world(W.gen_world(r, max_cells=r.choice([2, 6, 12]), pvt=r.random() < 0.25, caps=False))
            n = r.choice([1, 2, 3, 5])
            w['sim'].update(time_step_days=w['dt'], total_time_days=w['dt'] * n, save_interval=r.choice([1, 2, 10]), animation_fps=r.choice([0, 0, 5]), max_time_step_attempts=2)
            if r.random() < 0.4: w['sim']['write_full_arrays_txt'] = True
            if r.random() < 0.2: w['sim']['save_npz'] = False
            q = dict(world=w, n=n, name=r.choice(names), via=r.choice(['run', 'run', 'main']), vtk=r.random() < 0.4)
            if r.random() < 0.15: q['attempts'] = [None] * r.randint(0, n) + [0] * 400
            runs.append(q)
        case = dict(runs=runs, clock=r.choice([[], [], [0.0], [0.2], [-0.7], [1.0, -1.0]]), t0=r.choice([1.7e9, 1.7e9 + 86399.9]), fakevtk=r.random() < 0.6, _shrink=['runs'])
        if r.random() < 0.6:
            op = r.choice(['open', 'open', 'write', 'write', 'write', 'close', 'mkdir', 'mkdir'])
            f = dict(op=op, n=r.randint(1, dict(open=9, write=10, close=6, mkdir=3)[op]),
                     err=r.choice(['EIO', 'ENOSPC', 'crash'] if op in ('write', 'close') else ['EACCES', 'ENOSPC', 'EMFILE', 'crash'] if op == 'open' else ['ENOSPC', 'EACCES', 'crash', 'race', 'race']))
            if op == 'write': f['partial'] = r.choice([0, 1, 10, 500])
            if f['err'] == 'ENOSPC' and r.random() < 0.6: f['sticky'] = True
            case['fault'] = f; case['frun'] = r.randrange(len(runs))
        if r.random() < 0.3:                # a second run in the middle of the first
            w = strip_world(W.gen_world(r, max_cells=4, pvt=False, caps=False))
            w['sim'].update(time_step_days=w['dt'], total_time_days=w['dt'] * 2, save_interval=r.choice([1, 10]), animation_fps=r.choice([0, 5]))
            op = r.choice(['mkdir', 'mkdir', 'open', 'write', 'close'])
            case['nest'] = dict(at=r.randrange(len(runs)), op=op, n=r.randint(1, dict(open=9, write=10, close=6, mkdir=3)[op]), run=dict(world=w, n=2, name=r.choice(names), via=r.choice(['run', 'main']), vtk=r.random() < 0.3))
        if r.random() < 0.35: case['export'] = dict(name=r.choice(['v', 'a b']), fault=r.random() < 0.4 and dict(op=r.choice(['open', 'write', 'write', 'close', 'mkdir']), n=r.randint(1, 3), err=r.choice(['EIO', 'ENOSPC']), partial=r.choice([0, 5])))
        return case

    def run(self, case, p):
        import shutil
        if case['fakevtk']: fake_vtk()
        clock(case)
        root = os.path.realpath(os.getcwd())
        seen, outcome = {}, []
        S = ex = None
        for k, q in enumerate(case['runs']):
            w = q['world']; name = q['name']
            tag = f'run {k} ({name})'
            if k:       # half-written files of a failed run are closed before the next one starts
                S = T = None; box = []
                if ex is not None: ex = None; gc.collect()
            before = tree('results') if os.path.isdir('results') else {}
            dirs0 = set(result_dirs())
            disk = seams.Disk(os.path.join(root, 'results'), [case['fault']] if case.get('fault') and case['frun'] == k else [], p)
            nb = {}
            if case.get('nest') and case['nest']['at'] == k:
                disk.plan.append(dict(op=case['nest']['op'], n=case['nest']['n'], err='call', do=lambda: self.inside(case, nb, root, tag, p)))
            seams.OUT.take()
            ex, S, box, rec = self.launch(q, disk, root, p)
            out = seams.OUT.take()
            if nb.get('err'): raise nb['err']
            p.steps += q['n']
            fired = [f for f in disk.fired if f[2] not in ('race', 'call')]
            after = tree('results') if os.path.isdir('results') else {}
            for f, b in before.items():
                need(after.get(f) == b, 'overwrote', f'{tag}: changed {f} of an earlier run' + (f' (disk fault {disk.fired})' if disk.fired else ''))
            for f, b in nb.get('files', {}).items(): need(after.get(f) == b, 'overwrote', f'{tag}: changed {f} of a run that took place meanwhile')
            raced = [f for f in after if f.endswith('other_process.txt')]
            for f in raced: need(after[f] == b'mine', 'overwrote', f'{tag}: changed a file of another process')
            new = set(result_dirs()) - dirs0 - {nb.get('dir')} - {os.path.dirname(f) for f in raced if f.count(os.sep) == 1}
            p.log(k, sorted(new), str(disk.fired), type(ex).__name__)
            for f in raced:
                d = os.path.dirname(f)
                if d and os.path.dirname(d) == '':     # the run's directory itself was taken
                    mates = [x for x in after if x.startswith(d + os.sep) and x != f]
                    need(not mates, 'shared-directory', f'{tag}: wrote {mates[:3]} into a directory another process had created first')
            if ex is not None:
                need(fired, 'raised', f'{tag}: {type(ex).__name__}: {ex} without an injected fault')
                p.hit('fault_reported'); outcome.append('x'); continue
            # a fault that was retried (zip files are) is fine as long as everything on disk is right
            if fired: tag += f', disk fault {fired} not reported'; p.hit('fault_absorbed')
            need(len(new) == 1, 'own-directory', f'{tag}: the run used directories {sorted(new)}')
            D = os.path.join('results', new.pop())
            need(not any(f.startswith(os.path.basename(D) + os.sep) for f in before), 'own-directory', f'{tag}: wrote into the directory of an earlier run')
            T = box[0]
            self.verify(D, T, q, rec, case, tag, p, None if nb else out)
            outcome.append('o'); p.hit('runs_checked')
            # nothing may be left outside the run's directory
            extra = [f for f in after if f not in before and not f.startswith(os.path.basename(D) + os.sep) and f not in raced and f not in nb.get('files', {})]
            need(not extra, 'own-directory', f'{tag}: wrote {extra[:3]} outside its directory')
        if S is not None and case.get('export'): self.export(case['export'], S, root, p)
        seams.CLOCK.active = False
        if len(case['runs']) > 1 or case.get('fault') or case.get('nest'):
            p.sign([q['name'] for q in case['runs']], outcome, str(case.get('fault')), [case['nest'][k] for k in ('at', 'op', 'n')] if case.get('nest') else None, case['clock'], [q['vtk'] for q in case['runs']])

    def launch(self, q, disk, root, p):
        """One whole run, through Simulator.run or main."""
        w = q['world']
        ex, S, box = None, None, []
        orig = M.simulation.Simulator.run
        def spy(self, *a, **kw):
            box.append(self); return orig(self, *a, **kw)
        prev = seams.DISK
        with PlotRecorder(root) as rec, Solver((), p, attempts=q.get('attempts')):
            try:
                if q['via'] == 'main':
                    cfg = config_of(w, w['sim'], q['name'], W.pvt_file(w), q['vtk'])
                    M.simulation.Simulator.run = spy
                    seams.DISK = disk
                    call(run_main, cfg)
                else:
                    S = W.build(w); box.append(S)
                    seams.DISK = disk
                    call(S.run, q['name'], q['vtk'])
            except seams.SimCrash as e: ex = e
            except OSError as e: ex = e
            except Violation as v:
                if not disk or not [f for f in disk.fired if f[2] != 'call']: raise
                ex = v
            finally:
                seams.DISK = prev; M.simulation.Simulator.run = orig
        return ex, S, box, rec

    def inside(self, case, nb, root, tag, p):
        """A second run from beginning to end at one disk operation of the first."""
        q = case['nest']['run']; tag += ', the run inside it'
        prev, seams.DISK = seams.DISK, None
        try:
            before = tree('results') if os.path.isdir('results') else {}
            dirs = set(result_dirs())
            ex, S, box, rec = self.launch(q, None, root, p)
            if ex is not None: raise ex
            after = tree('results')
            for f, b in before.items(): need(after.get(f) == b, 'overwrote', f'{tag}: changed {f} of the run it interrupts')
            new = sorted(set(result_dirs()) - dirs)
            need(len(new) == 1, 'own-directory', f'{tag}: used directories {new}')
            self.verify(os.path.join('results', new[0]), box[0], q, rec, case, tag, p, None)
            nb.update(dir=new[0], files={f: b for f, b in after.items() if f not in before})
            p.hit('run_inside_a_run')
        except BaseException as e: nb['err'] = e
        finally: seams.DISK = prev

    @staticmethod
    def console(out, fields, tag):
        """What the console says about the final state."""
        for lab, (i, f, tol) in {'Итоговое давление': LABELS['Pressure MPa'], 'Итоговая водонасыщенность': LABELS['Sw'], 'Итоговая газонасыщенность': LABELS['Sg'], 'Итоговая нефтенасыщенность': LABELS['So']}.items():
            a = fields[i].astype(np.float64) * f
            for l in out.splitlines():
                v = [float(x) for x in re.findall(r'-?\d+(?:\.\d+)?', l)]
                if lab in l and len(v) == 2:
                    need(all(abs(x - y) <= tol + 2e-6 * abs(y) for x, y in zip(v, (a.min(), a.max()))), 'console', lambda: f'{tag}: the console says {l!r}, the final state has {a.min():.6g}..{a.max():.6g}')

    def verify(self, D, T, q, rec, case, tag, p, out):
        """Every file of a finished run against the final state."""
        w, name = q['world'], q['name']
        fields = [getattr(T.fluid, n).numpy() for n in W.FIELDS]
        txt = read(os.path.join(D, name + '.txt'))
        check_summary(txt, fields, T.mass_balance, tag)
        if w['sim'].get('write_full_arrays_txt'): check_arrays(txt, fields, tag); p.hit('txt_arrays')
        if w['sim'].get('save_npz', True):
            with seams.REAL_OPEN(os.path.join(D, name + '.npz'), 'rb') as fh:
                z = np.load(fh)
                for key, a in zip(('pressure', 'sw', 'sg', 'so'), fields):
                    need(key in z.files and z[key].shape == a.shape and z[key].tobytes() == a.tobytes(), 'npz', f'{tag}: array {key} is not the final state')
        fin = [c for c in rec.calls if '_final' in os.path.basename(c['file'])]
        need(len(fin) == 1 and fin[0]['p'].tobytes() == fields[0].tobytes() and fin[0]['sw'].tobytes() == fields[1].tobytes()
             and (fin[0]['sg'] is None or fin[0]['sg'].tobytes() == fields[2].tobytes()), 'picture', f'{tag}: the final picture does not show the final state')
        need(os.path.exists(fin[0]['file']) and fin[0]['file'].startswith(D), 'picture', f'{tag}: the final picture is stored at {fin[0]["file"]}')
        for c in rec.calls: need(c['file'].startswith(D + os.sep), 'own-directory', f'{tag}: picture written to {c["file"]}')
        if q['vtk'] and case['fakevtk']:
            v = json.loads(read(os.path.join(D, name + '.vts')))
            self.check_vts(v, T, fields, tag); p.hit('vts')
        si = w['sim']['save_interval']
        if si < q['n'] and w['sim']['animation_fps'] > 0:
            gif = os.path.join(D, name + '.gif')
            need(os.path.exists(gif), 'gif', f'{tag}: no animation was written')
            want = [frame_level(i + 1) for i in range(len(rec.calls))]
            got = gif_frames(gif)
            need(len(got) == len(want) and all(near(a, b) for a, b in zip(got, want)), 'gif', f'{tag}: the animation does not show the {len(want)} pictures of the run')
            p.hit('gif')
        for k2, c in enumerate(rec.calls): need(os.path.exists(c['file']) and read(c['file'], 'rb') == png(k2 + 1), 'picture', f'{tag}: {c["file"]} is not the picture drawn')
        if out is not None: self.console(out, fields, tag)

    @staticmethod
    def check_vts(v, T, fields, tag):
        n = T.reservoir.dimensions
        need(list(v['dim']) == [int(x) for x in n] and len(v['points']) == int(np.prod(n)), 'vtk', f'{tag}: VTK grid {v["dim"]} for {n}')
        # point number i + nx*(j + ny*k) carries the data value of the same number
        for nm, a in (('Pressure', fields[0]), ('Water_Saturation', fields[1])):
            d = v['data'].get(nm)
            need(d is not None and len(d) == a.size, 'vtk', f'{tag}: VTK array {nm} missing or short')
            f = 1.0
            flat = a.astype(np.float64).reshape(-1, order='F')
            if nm == 'Pressure' and abs(flat[0]) > 0 and abs(d[0] * 1e6 / flat[0] - 1) < 0.5 and abs(d[0] / flat[0] - 1) > 0.5: f = 1e6
            need(np.allclose(np.array(d) * f, flat, rtol=1e-6, atol=0), 'vtk', f'{tag}: VTK {nm} does not belong to the cells it is attached to')

    def export(self, e, S, root, p):
        before = tree('results') if os.path.isdir('results') else {}
        disk = seams.Disk(os.path.join(root, 'results'), [e['fault']] if e.get('fault') else [], p)
        ex = None
        seams.DISK = disk
        try: call(M.vtk.save_to_vtk, S.reservoir, S.fluid, e['name'])
        except OSError as x: ex = x
        except Violation as v:
            if not disk.fired: raise
            ex = v
        finally: seams.DISK = None
        after = tree('results') if os.path.isdir('results') else {}
        for f, b in before.items(): need(after.get(f) == b, 'overwrote', f'the VTK export changed {f}')
        if ex is not None:
            need(disk.fired, 'raised', f'VTK export: {ex}'); p.hit('export_fault_reported'); return
        ext, d = read_vtr(os.path.join('results', e['name'] + '.vtr'))
        n = [int(x) for x in S.reservoir.dimensions]
        need(ext == [0, n[0], 0, n[1], 0, n[2]], 'vtk', f'VTK extent {ext} for grid {n}')
        g = S.reservoir.grid_size.numpy().astype(np.float64)
        F, R = S.fluid, S.reservoir
        for ax, key in enumerate('xyz'):
            c = [v for k, v in d.items() if k.lower().startswith(key)][0]
            need(np.allclose(c, np.arange(n[ax] + 1) * g[ax], rtol=1e-6), 'vtk', f'VTK {key} coordinates are wrong')
        for key, a, f in (('Pressure_MPa', F.pressure, 1e6), ('Water_Saturation', F.s_w, 1), ('Oil_Saturation', F.s_o, 1), ('Permeability_H', R.permeability_x, 1), ('Permeability_V', R.permeability_z, 1)):
            need(key in d, 'vtk', f'VTK file lacks {key}')
            a = a.numpy().astype(np.float64).reshape(-1, order='F')
            need(d[key].size == a.size and np.allclose(d[key].astype(np.float64) * f, a, rtol=1e-6, atol=1e-30), 'vtk', f'VTK {key} is not the state of the simulator')
        p.hit('vtr')


CHECK = S12()
