"""Saved pictures show the state they are named after."""
from props.runs import *
import re

DAY_RE = re.compile(r'День ([-+\d.e]+)')
LAYER = re.compile(r'Срез Z=(\d+)')


class Camera:
    """Real matplotlib figures; what is on the figure when it is saved is recorded, and instead of being rasterised (1 s per
    picture) it is written as a tiny PNG through the simulated disk.  fail: {call number: exception} for layout and saving."""
    def __init__(self, plan, p):
        import matplotlib.figure as F
        self.F, self.plan, self.p = F, plan, p
        self.shots, self.k = [], 0

    def due(self, what):
        self.k += 1
        kind = self.plan.get(str(self.k))
        if kind is None: return
        self.fired = kind
        self.p.fault(f'picture.{what}.{kind}')
        raise seams.InjectedMemoryError('injected') if kind == 'memory' else seams.InjectedError('injected')

    def __enter__(self):
        cam = self
        self.real = self.F.Figure.savefig, self.F.Figure.tight_layout
        self.fired = None

        def savefig(fig, fname, *a, **k):
            cam.due('save')
            panels = []
            for ax in fig.axes:
                for im in ax.images:
                    panels.append(dict(title=ax.get_title(), x=ax.get_xlabel(), y=ax.get_ylabel(), a=np.asarray(im.get_array(), dtype=np.float64).copy(), lo=im.norm.vmin, hi=im.norm.vmax, origin=im.origin))
            cam.shots.append(dict(file=os.fspath(fname), panels=panels))
            with open(fname, 'wb') as f: f.write(png(len(cam.shots)))
            cam.shots[-1]['written'] = True

        def tight_layout(fig, *a, **k): cam.due('layout')
        self.F.Figure.savefig, self.F.Figure.tight_layout = savefig, tight_layout
        return self

    def __exit__(self, *a): self.F.Figure.savefig, self.F.Figure.tight_layout = self.real


class S20(Check):
    prop = 'S20'
    counts = dict(quick=400, thorough=8000)
    rule = ('a run is either a whole simulation with pictures (any save interval, failing solver attempts, step lengths of any decimal form) or a series of direct save_plots calls on random fields, with real matplotlib figures '
            'inspected at the moment they are saved, while rendering or writing of chosen pictures fails (allocation failure, error, disk full or unwritable); every picture is decoded against the states of a twin; '
            'non-trivial = at least two pictures or one fault; distinct = (grid, pictures, layers shown, faults)')
    real = ['Plotter with real matplotlib figures', 'Simulator.run'] + REAL_CORE
    stub = ['rasterisation (the finished figure is inspected, a tiny PNG is written instead)', 'file system failures', 'solver iteration budgets']

    def gen(self, r, i, tier):
        w = strip_world(W.gen_world(r, max_cells=r.choice([4, 12, 30]), pvt=r.random() < 0.2, caps=False))
        plan, disk = {}, []
        x = r.random()
        if x < 0.3: plan = {str(r.randint(1, 8)): r.choice(['memory', 'error']) for _ in range(r.randint(1, 2))}
        elif x < 0.5: disk = [dict(op=r.choice(['open', 'write', 'close']), n=r.randint(1, 4), err=r.choice(['ENOSPC', 'EIO', 'EACCES', 'EMFILE']), match='.png', partial=r.choice([0, 9]))]
        case = dict(world=w, plan=plan, disk=disk, tseed=1, _shrink=['shots', 'disk'])
        if r.random() < 0.45:
            tot, dt, n = gen_time(r, 12)
            sim = w['sim']; sim.update(total_time_days=tot, time_step_days=dt, save_interval=r.choice([1, 1, 2, 3]), animation_fps=0, save_npz=False)
            k = dt / w['dt']
            for q in w['wells']:
                if W.control(q)[0] == 'rate':
                    if 'control_value' in q: q['control_value'] = W.sig(q['control_value'] / k / 3)
                    else: q['control']['value'] = W.sig(q['control']['value'] / k / 3)
            sim['max_time_step_attempts'] = r.choice([1, 2])
            if r.random() < 0.3: case['attempts'] = [None] * r.randint(0, n) + [0] * r.randint(1, 3)
            case.update(kind='run', n=n, t0=1.7e9, clock=gen_clock(r), name=r.choice(['out', 'a b']))
        else:
            shots = []
            for _ in range(r.randint(1, 5)):
                shots.append(dict(seed=r.randrange(1 << 30), gas=r.choice(['none', 'zero', 'some', 'some', 'trace', 'one', 'even']), time=r.choice([None, 'День 3', 'День 0.25 (Final)', 'start']), flat=r.random() < 0.25, layer=r.random() < 0.5))
            case.update(kind='plot', shots=shots)
        return case

    def fields(self, w, s):
        rs = np.random.RandomState(s['seed'])
        shp = tuple(w['dims'])
        P = (2e7 * (1 + 0.3 * (rs.rand(*shp) - 0.5))).astype(np.float32)
        sw = (0.2 + 0.4 * rs.rand(*shp)).astype(np.float32)
        if s['flat']: sw[...] = np.float32(rs.rand())
        if s['layer']:                                  # one layer differs most
            k = rs.randint(shp[2]); sw = (0.5 + 0.02 * (sw - 0.4)).astype(np.float32); sw[:, :, k] += (0.2 * (rs.rand(shp[0], shp[1]) - 0.5)).astype(np.float32)
        sg = {'none': None, 'zero': np.zeros(shp, np.float32), 'some': (0.3 * rs.rand(*shp)).astype(np.float32), 'trace': np.full(shp, 1e-8, np.float32), 'even': np.full(shp, 0.15 * rs.rand(), np.float32)}.get(s['gas'], 0)
        if s['gas'] == 'one': sg = np.zeros(shp, np.float32); sg.flat[rs.randint(sg.size)] = 1e-3 + 0.2 * rs.rand()
        return P, sw, sg

    def judge(self, shot, P, sw, sg, time, tag, p):
        """One picture against the state it should show."""
        pan = {}
        for q in shot['panels']:
            key = 'p' if 'авлен' in q['title'] else 'w' if 'вод' in q['title'] else 'g' if 'газ' in q['title'] else q['title']
            need(key not in pan, 'panels', lambda: f'{tag}: two panels titled {q["title"]!r}')
            pan[key] = q
        gas = sg is not None and bool((sg > 1e-6).any())
        need(set(pan) == ({'p', 'w', 'g'} if gas else {'p', 'w'}), 'panels', lambda: f'{tag}: panels {[q["title"] for q in shot["panels"]]}, gas in place: {gas}')
        layers = {m.group(1) for q in pan.values() for m in [LAYER.search(q['title'])] if m}
        need(len(layers) == 1, 'layer', lambda: f'{tag}: titles name layers {layers}')
        z = int(layers.pop())
        need(0 <= z < P.shape[2], 'layer', f'{tag}: layer {z} of {P.shape[2]}')
        std = [float(np.std(sw[:, :, k].astype(np.float64))) for k in range(sw.shape[2])]
        need(std[z] >= max(std) - 1e-6, 'layer', lambda: f'{tag}: layer {z} shown, the water saturation varies most in layer {int(np.argmax(std))} ({std})')
        want = dict(p=P[:, :, z].astype(np.float64) / 1e6, w=sw[:, :, z].astype(np.float64), g=None if sg is None else sg[:, :, z].astype(np.float64))
        ori = set()
        for key, q in pan.items():
            x = 'X' in q['x'] or not ('Y' in q['x'] or 'X' in q['y'])       # is the horizontal axis labelled X (the default)
            exp = want[key].T if x else want[key]
            ori.add(x)
            need(q['a'].shape == exp.shape and bool(np.all(np.abs(q['a'] - exp) <= 1e-6 * np.maximum(1e-3, np.abs(exp)))), 'content', lambda: f'{tag}: panel {q["title"]!r} (axes {q["x"]!r}, {q["y"]!r}) does not show layer {z} of the state')
            if q['lo'] is not None: need(q['lo'] <= float(exp.min()) + 1e-6 * abs(float(exp.min())) and q['hi'] >= float(exp.max()) - 1e-6 * abs(float(exp.max())), 'range', lambda: f'{tag}: panel {q["title"]!r} values {exp.min():.6g}..{exp.max():.6g}, colours {q["lo"]:.6g}..{q["hi"]:.6g}')
            if isinstance(time, float):
                m = DAY_RE.search(q['title'])
                need(m and abs(float(m.group(1)) - time) <= 1e-5 * max(1e-3, abs(time)), 'day', lambda: f'{tag}: title {q["title"]!r}, the state is that of day {time:.9g}')
            elif time: need(time in q['title'], 'day', lambda: f'{tag}: title {q["title"]!r}, asked for {time!r}')
        need(len(ori) == 1, 'content', f'{tag}: panels differ in orientation')
        p.hit('pictures'); p.hit('with_gas' if gas else 'without_gas')
        return z

    def run(self, case, p):
        import matplotlib.pyplot as plt
        w = case['world']
        disk = seams.Disk(os.path.realpath(os.getcwd()), case['disk'], p)
        cam = Camera(case['plan'], p)
        need(not plt.get_fignums(), 'leak', 'figures open before anything was drawn')
        seen = []
        if case['kind'] == 'plot':
            R = W.build(w).reservoir
            pl = M.plotter.Plotter(R)
            for n, s in enumerate(case['shots']):
                P, sw, sg = self.fields(w, s)
                keep = [x.copy() if x is not None else None for x in (P, sw, sg)]
                kw = {}
                if s['time']: kw['time_info'] = s['time']
                if sg is not None: kw['gas_saturation'] = sg
                f = f'pic_{n}.png'; cam.fired = None; nf = len(disk.fired); ns = len(cam.shots); ex = None
                seams.DISK = disk
                try:
                    with cam: call(pl.save_plots, P, sw, f, **kw)
                except seams.INJECTED as e: ex = e
                except OSError as e:
                    if not getattr(e, 'injected', False): raise
                    ex = e
                finally: seams.DISK = None
                bad = cam.fired or len(disk.fired) > nf
                need(bool(bad) == (ex is not None), 'swallowed', lambda: f'picture {n}: {bad} failed, save_plots {"returned normally" if ex is None else "raised " + str(ex)}')
                need(not plt.get_fignums(), 'leak', lambda: f'picture {n}: {len(plt.get_fignums())} figures stay open after save_plots {"raised " + type(ex).__name__ if ex else "returned"}')
                need(all((a is None and b is None) or a.tobytes() == b.tobytes() for a, b in zip(keep, (P, sw, sg))), 'modified', f'picture {n}: drawing changed the arrays')
                if ex is None:
                    need(len(cam.shots) == ns + 1 and os.path.exists(f), 'missing', f'picture {n}: {len(cam.shots) - ns} files written')
                    seen.append(self.judge(cam.shots[-1], P, sw, sg, s['time'], f'picture {n}', p))
                else: seen.append('x')
        else: self.whole(case, w, cam, disk, seen, plt, p)
        p.log([str(s) for s in seen], [[q['title'] for q in s['panels']] for s in cam.shots], [q['a'] for s in cam.shots for q in s['panels']])
        if len(seen) >= 2 or 'x' in seen: p.sign(w['dims'], case['kind'], seen)

    def whole(self, case, w, cam, disk, seen, plt, p):
        sim = w['sim']; dt = sim['time_step_days'] * W.DAY
        clock(case)
        T = W.build(w)
        states = []
        with Solver((), p, attempts=case.get('attempts')):
            for _ in range(case['n']):
                if not call(T.run_step, dt): break
                states.append([getattr(T.fluid, f).numpy().copy() for f in W.FIELDS]); p.steps += 1; p.sim_seconds += dt
        end = [getattr(T.fluid, f).numpy().copy() for f in W.FIELDS]
        S = W.build(w)
        ex = None
        seams.DISK = disk
        try:
            with cam, Solver((), None, attempts=case.get('attempts')): call(S.run, case['name'])
        except seams.INJECTED as e: ex = e
        except OSError as e:
            if not getattr(e, 'injected', False): raise
            ex = e
        finally: seams.DISK = None; seams.CLOCK.active = False
        bad = cam.fired or disk.fired
        need(bool(bad) == (ex is not None), 'swallowed', lambda: f'{bad} failed, run {"returned normally" if ex is None else "raised " + str(ex)}')
        need(not plt.get_fignums(), 'leak', lambda: f'{len(plt.get_fignums())} figures stay open after the run')
        si, n = sim['save_interval'], case['n']
        due = [(k, states[k - 1], k * sim['time_step_days']) for k in range(1, len(states) + 1) if k % si == 0] if si < n else []
        due.append(('final', end, len(states) * sim['time_step_days']))
        done = [s for s in cam.shots if s.get('written')]
        need(len(done) == len(due) if ex is None else len(done) < len(due) or disk.fired, 'missing', lambda: f'{len(due)} pictures are due, {len(done)} were saved')
        for s, (k, st, day) in zip(done, due):
            b = os.path.basename(s['file'])
            need(b == f'{case["name"]}_final.png' if k == 'final' else b == f'{case["name"]}_step_{k}.png', 'file', f'picture of step {k} saved as {b}')
            seen.append(self.judge(s, st[0], st[1], st[2], float(day), b, p))
        if ex is not None: seen.append('x')
        p.hit('whole_runs')


CHECK = S20()
