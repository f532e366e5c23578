"""A run covers the requested time or says that it did not."""
from props.runs import *


class S03(Check):
    prop = 'S03'
    counts = dict(quick=900, thorough=18000)
    rule = ('a run is a whole simulation (Simulator.run or main with a configuration file) with a random total time / step pair, save interval, clock script, and a seeded pattern '
            'of failing solver attempts (temporary, or for good from some attempt on, or an exception in a tensor operation); the saved arrays, frames and summary are compared with a '
            'twin that takes exact-arithmetic many plain steps under the same failures; non-trivial = at least 2 steps were due; distinct = (steps due, steps done, save interval, path, faults)')
    stub = ['solver iteration budgets (starved through guarded hooks)', 'matplotlib drawing (recorded, writes a tiny PNG)', 'wall clock']

    def gen(self, r, i, tier):
        w = strip_world(W.gen_world(r, max_cells=r.choice([2, 6, 12]), pvt=r.random() < 0.2, caps=False))
        tot, dt, n = gen_time(r, 24 if tier == 'quick' else 60)
        sim = w['sim']
        sim.update(total_time_days=tot, time_step_days=dt, save_interval=r.choice([1, 2, 3, 5, 10, 10, 100]), animation_fps=r.choice([0, 0, 5]))
        k = dt / w['dt']
        for x in w['wells']:
            if W.control(x)[0] == 'rate':
                if 'control_value' in x: x['control_value'] = W.sig(x['control_value'] / k / 3)
                else: x['control']['value'] = W.sig(x['control']['value'] / k / 3)
        ma = r.choice([1, 2, 3, 5]); sim['max_time_step_attempts'] = ma
        case = dict(world=w, n=n, ma=ma, via=r.choice(['run', 'run', 'main']), clock=gen_clock(r), t0=r.choice([1.7e9, 1.7e9 + 86399.5, 951827199.0]), tseed=1, name=r.choice(['out', 'sim_output', 'a b', 'x_step_3']))
        x = r.random()
        m = max(1, n)
        if x < 0.35: case['attempts'] = [None] * r.randint(0, m) + [0] * r.randint(1, ma)       # around one failing step
        elif x < 0.55: case['attempts'] = [None] * r.randint(0, m) + [0] * 4000                 # dead for good
        elif x < 0.7: case['attempts'] = [r.choice([None, None, 0]) for _ in range(r.randint(1, 2 * m))]
        elif x < 0.8: case['bomb'] = round(r.random(), 4)
        if r.random() < 0.15: sim['save_npz'] = False
        if r.random() < 0.25 and case['via'] == 'run' and 'bomb' not in case: case['again'] = True
        return case

    @staticmethod
    def variants(case):
        import copy
        a = case.get('attempts')
        if a and len(a) > 60: c = copy.deepcopy(case); c['attempts'] = a[:60]; yield c
        if a:
            for i, v in enumerate(a[:40]):
                if v == 0: c = copy.deepcopy(case); c['attempts'][i] = None; yield c
        if case['clock']: c = copy.deepcopy(case); c['clock'] = []; yield c
        if case.get('again'): c = copy.deepcopy(case); c.pop('again'); yield c
        from core import _variants
        yield from _variants(case)

    def run(self, case, p):
        w = case['world']; sim = w['sim']
        n = case['n']
        seams.OUT.take()
        clock(case)
        # the twin: that many plain steps, stop at the first that fails
        T = W.build(w)
        pat = case.get('attempts')
        rounds = 2 if case.get('again') else 1            # the same simulator may be run once more from where it is
        dt = sim['time_step_days'] * 86400
        twin = []
        with Solver((), p, attempts=pat) as ht:
            for _ in range(rounds):
                states, done = [], 0
                for _ in range(n):
                    if not call(T.run_step, dt): break
                    done += 1; p.steps += 1; p.sim_seconds += dt
                    states.append([getattr(T.fluid, f).numpy().copy() for f in W.FIELDS])
                twin.append((states, done, [getattr(T.fluid, f).numpy().copy() for f in W.FIELDS]))
        total_ops = None
        bomb = None
        if case.get('bomb') is not None and n:
            C = W.build(w)
            b = op_bomb(-1, None)
            with b:
                for _ in range(n): call(C.run_step, dt)
            total_ops = b.k
            bomb = op_bomb(1 + int(case['bomb'] * total_ops), seams.InjectedError('injected'))
        seams.OUT.take()
        cwd = os.getcwd()
        marks = []
        with PlotRecorder(cwd) as rec, Solver((), None, attempts=pat) as hs:
            ex = None
            try:
                from contextlib import nullcontext
                with bomb or nullcontext():
                    if case['via'] == 'main':
                        call(run_main, config_of(w, sim, case['name'], W.pvt_file(w)))
                    else:
                        S = W.build(w)
                        for _ in range(rounds):
                            call(S.run, case['name'])
                            marks.append((len(rec.calls), seams.OUT.take(), result_dirs()))
            except seams.INJECTED as e: ex = e
        if case['via'] == 'main': marks.append((len(rec.calls), seams.OUT.take(), result_dirs()))
        seams.CLOCK.active = False
        dirs = result_dirs()
        p.log(dirs, [t[1] for t in twin], len(hs.dts), [m[1].replace(cwd, '.') for m in marks])
        if bomb is not None and bomb.fired:
            p.fault('op.error')
            need(ex is not None, 'exception-lost', f'a tensor operation failed during the run but run() returned normally')
            for d in dirs:
                for f in glob.glob(os.path.join('results', d, '*.txt')):
                    raise Violation('incomplete-looks-complete', 'the run was interrupted by an exception but left a final summary')
            p.sign('bomb', n, w['dims']); p.hit('run_interrupted')
            return
        need(len(hs.dts) == len(ht.dts), 'steps', lambda: f'{n} steps of {sim["time_step_days"]} d are due in {sim["total_time_days"]} d; plain stepping makes {len(ht.dts)} solver attempts, the run {len(hs.dts)}')
        need(all(abs(a - b) <= 1e-9 * abs(b) for a, b in zip(hs.dts, ht.dts)), 'steps', lambda: f'attempted step lengths differ: run {hs.dts[:12]}, plain steps {ht.dts[:12]}')
        seen, at = set(), 0
        for k, ((states, done, end), (calls, out, dirs)) in enumerate(zip(twin, marks)):
            new = set(dirs) - seen; seen = set(dirs)
            need(len(new) == 1, 'results', f'run {k} left result directories {sorted(new)}')
            self.saved(case, os.path.join('results', new.pop()), states, done, end, rec.calls[at:calls], out)
            at = calls
            if n >= 2: p.sign(n, done, sim['save_interval'], case['via'], len(ht.dts), w['dims'], k)
            if done < n: p.hit('stopped_early')
            if k: p.hit('run_again')
        p.hit('via_' + case['via']); p.hit('runs')

    @staticmethod
    def saved(case, R, states, done, end, calls, out):
        sim, n = case['world']['sim'], case['n']
        # what was saved
        if sim.get('save_npz', True):
            with seams.REAL_OPEN(os.path.join(R, case['name'] + '.npz'), 'rb') as fh:
                z = np.load(fh)
                for k, a in zip(('pressure', 'sw', 'sg', 'so'), end):
                    need(k in z.files and z[k].tobytes() == a.tobytes(), 'final-state', lambda: f'saved {k} is not the state after {done} steps')
        txt = read(os.path.join(R, case['name'] + '.txt'))
        days = done * sim['time_step_days']
        nums = lambda s: [float(x) for x in re.findall(r'-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?', s)]
        def says(text):
            for l in text.splitlines():
                v = nums(l)
                if any(abs(x - days) <= 1e-4 * max(1, days) for x in v) and any(abs(x - sim['total_time_days']) <= 1e-4 * sim['total_time_days'] for x in v): return True
            return False
        body = out[out.find('Запуск симуляции') if 'Запуск симуляции' in out else 0:]
        if done < n:
            need('INCOMPLETE' in txt.upper() and says(txt), 'incomplete-looks-complete', lambda: f'stopped after {done} of {n} steps but the summary does not say at which day: {txt[:200]!r}')
            need(says(body), 'incomplete-looks-complete', lambda: f'stopped after {done} of {n} steps but the console does not say so')
        else:
            need('INCOMPLETE' not in txt.upper(), 'complete-looks-incomplete', f'all {n} steps done but the summary says incomplete')
            need('остановлена' not in body, 'complete-looks-incomplete', f'all {n} steps done but the console says the run stopped')
        # frames
        si = sim['save_interval']
        want = [k for k in range(1, done + 1) if k % si == 0] if si < n else []
        frames = [c for c in calls if '_final' not in os.path.basename(c['file'])]
        need(len(frames) == len(want), 'frames', lambda: f'{len(want)} intermediate frames due ({want}), {len(frames)} saved')
        for k, c in zip(want, frames):
            need(os.path.basename(c['file']).endswith(f'_step_{k}.png'), 'frames', f'frame of step {k} saved as {c["file"]}')
            a = states[k - 1]
            need(c['p'].tobytes() == a[0].tobytes() and c['sw'].tobytes() == a[1].tobytes() and (c['sg'] is None or c['sg'].tobytes() == a[2].tobytes()), 'frames', f'frame of step {k} does not show the state after {k} steps')
        fin = [c for c in calls if '_final' in os.path.basename(c['file'])]
        need(len(fin) == 1 and fin[0]['p'].tobytes() == end[0].tobytes() and fin[0]['sw'].tobytes() == end[1].tobytes(), 'frames', 'the final picture does not show the final state')

CHECK = S03()
