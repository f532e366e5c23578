"""Reproducibility: the same calls give the same results, whatever surrounds them."""
import os, sys, random, subprocess
if __name__ == '__main__':                       # the other interpreter of a hash-seed batch
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import seams as _seams
    _seams.load_repo()
from props.runs import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def surroundings(e, amg):
    """Everything the result must not depend on."""
    random.seed(e['rng']); np.random.seed(e['rng'] & 0xffffffff)
    M.torch.manual_seed(e['tseed'] if amg else e['rng'])
    c = seams.CLOCK
    c.active = True; c.t = e['t0']; c.script = e['clock']; c.reads = 0
    o = random.Random(e['order'])
    seams.LIST_ORDER = lambda l: o.sample(list(l), len(l))
    seams.LOCALE = e.get('locale')
    # freed memory with recognisable contents, so that reading memory before writing it shows
    junk = [M.torch.full((n,), float('nan') if e['rng'] % 2 else 1e30, dtype=d) for n in (8, 64, 200, 1000, 4000) for d in (M.torch.float32, M.torch.float64) for _ in range(6)]
    del junk


def calm():
    seams.CLOCK.active = False; seams.LIST_ORDER = None; seams.LOCALE = None


def history(w, ops, p=None):
    """The steps of one simulator: outcome, sub-steps and everything observable after each."""
    from core import Probe
    S = W.build(w)
    Solver.newton_cap = 6 if w['sim']['solver_type'] == 'fully_implicit' else None
    out = []
    for op in ops:
        apply_ctl(S, op)
        ok, h = step(S, op['dt'] * W.DAY, p or Probe(), op.get('starve', ()), attempts=op.get('attempts'))
        out.append((bool(ok), list(h.dts), W.snap(S)))
    return out


def whole_run(cfg, where):
    """One call of main() in its own directory: everything it leaves behind, without the timestamp."""
    os.makedirs(where); here = os.getcwd(); os.chdir(where)
    try:
        root = os.path.realpath('.')
        with PlotRecorder(root) as rec: call(run_main, cfg)
        dirs = result_dirs()
        need(len(dirs) == 1, 'results', f'one run left {dirs}')
        out = {}
        for k, v in tree(os.path.join('results', dirs[0])).items():
            if k.endswith('.npz'):
                z = np.load(os.path.join('results', dirs[0], k))
                v = b'|'.join(a.encode() + z[a].tobytes() for a in sorted(z.files))
            out[k] = v
        plots = [(os.path.basename(c['file']), c['time'], c['p'].tobytes(), c['sw'].tobytes(), None if c['sg'] is None else c['sg'].tobytes()) for c in rec.calls]
        return out, plots
    finally: os.chdir(here)


def episodes(cfg, acts, name, seed):
    with seams.REAL_OPEN(name, 'w', encoding='utf-8') as f: json.dump(cfg, f, ensure_ascii=False)
    env = call(M.rl.ReservoirEnv, name, max_steps=50, device=M.torch.device('cpu'))
    out = []
    for ep in acts:
        o, _ = env.reset(seed=seed)
        tr = [np.asarray(o).tobytes()]
        for a in ep:
            a = np.array((a * 4)[:env.action_space.shape[0]], dtype=np.float32)
            o, r, te, tu, info = env.step(a)
            tr.append((np.asarray(o).tobytes(), repr(r), bool(te), bool(tu)))
            if te or tu: break
        out.append(tr)
    return out


class S10(Check):
    prop = 'S10'
    counts = dict(quick=1100, thorough=20000)
    rule = ('a run executes the same seeded history twice: once in a fresh process under one wall clock, directory order and random state, once under others (clock jumps between any two reads) and - without '
            'AMG - after other work in the process: simulators of the same or another size, failed and interrupted steps, environments; fields, balances, well diagnostics, outcomes and sub-steps must be '
            'bitwise equal after every step; whole main() runs must leave the same files and pictures, RL episodes the same observations and rewards; batches are repeated in an interpreter with another hash '
            'seed; non-trivial = both executions advanced at least one step; distinct = (world, history, kind)')
    real = REAL_CORE + ['AMG', 'fully implicit scheme', 'main.py / Simulator.run', 'ReservoirEnv']
    stub = ['wall clock', 'directory listing order', 'random states', 'process history', 'hash seed', 'matplotlib drawing in whole runs (recorded)']
    det_sample = dict(quick=40, thorough=200)

    def fixed_cases(self):
        return [dict(kind='hash', base=b, hs=hs, n=14) for b, hs in ((0, 77), (100, 4242), (200, 31))]

    def env(self, r): return dict(rng=r.randrange(1 << 30), t0=round(r.uniform(0, 4e9), 3), clock=r.choice([[], [0.001], [1.0, 86400.0], [-3600.0, 1.0], [1e6], [-1e-3, 0.5, 400.0]]), order=r.randrange(1 << 30), locale=r.choice([None, None, 'cp1251', 'ascii', 'latin-1', 'cp932']))

    def gen(self, r, i, tier):
        x = r.random()
        kind = 'steps' if x < 0.75 else 'run' if x < 0.9 else 'rl'
        fi = kind == 'steps' and r.random() < 0.06
        cells = 4 if fi else r.choice([4, 20, 60])
        w = W.gen_world(r, max_cells=cells, **(dict(solver='fully_implicit', pvt=False, three=False) if fi else {}))
        if not fi: w['sim'].update(solver_variant(r))
        a, b = self.env(r), self.env(r)
        ts = r.randrange(1 << 30)
        a['tseed'] = b['tseed'] = ts
        case = dict(kind=kind, a=a, b=b, _shrink=['ops', 'before'])
        if kind == 'steps':
            ops = []
            for _ in range(r.randint(1, 5)):
                op = dict(dt=W.sig(w['dt'] * r.choice([1, 0.5, 2])))
                if r.random() < 0.25 and not fi: op['starve'] = gen_starve(r, 'few')
                if r.random() < 0.1: op['attempts'] = [0] * r.randint(1, 6)
                if r.random() < 0.3: op['ctl'] = [[r.randrange(4), r.choice([0.5, 1.2])]]
                ops.append(op)
            before = []
            for _ in range(r.randint(1, 3)):
                y = r.random()
                v = 'same' if y < 0.3 else W.gen_world(r, max_cells=cells, dims=w['dims']) if y < 0.7 else W.gen_world(r, max_cells=cells)
                if v != 'same' and r.random() < 0.3: v['sim'].update(pressure_solver='amg', amg=dict(coarsest_size=16, max_cycles=5, theta=0.25))
                bo = []
                for _ in range(r.randint(1, 3)):
                    o = dict(dt=W.sig(w['dt'] * r.choice([1, 0.5, 2])))
                    if r.random() < 0.3: o['starve'] = gen_starve(r, 'burst')
                    if r.random() < 0.3: o['bomb'] = int(10 ** r.uniform(0.5, 3.8))
                    bo.append(o)
                before.append(dict(world=v, ops=bo))
            case.update(world=w, ops=ops, before=before)
        else:
            strip_world(w)
            if kind == 'run':
                n = r.choice([1, 2, 4, 6])
                w['sim'].update(time_step_days=w['dt'], total_time_days=w['dt'] * n, save_interval=r.choice([1, 2, 3]), animation_fps=r.choice([0, 5]), write_full_arrays_txt=r.random() < 0.3)
            else:
                case['acts'] = [[[round(r.uniform(-1, 1), 3) for _ in range(4)] for _ in range(r.randint(1, 4))] for _ in range(r.randint(1, 3))]
                case['seed'] = r.choice([None, 3])
            case['world'] = w
        return case

    def run(self, case, p):
        if case['kind'] == 'hash': return self.hashes(case, p)
        w = case['world']
        amg = w['sim'].get('pressure_solver') == 'amg'
        if case['kind'] == 'steps':
            def fresh(e):
                surroundings(e, amg); M.hooks.handler = None
                try: return history(w, case['ops'])
                finally: calm()
            first = Zygote(fresh)
            second = Zygote(fresh) if amg else None
            got = first.ask(case['a'])
            if amg: again = second.ask(case['b'])
            else:
                for b in case['before']:
                    v = w if b['world'] == 'same' else b['world']
                    S = W.build(v)
                    for o in b['ops']:
                        try:
                            with Solver(o.get('starve', ())):
                                if 'bomb' in o:
                                    with LineBomb(o['bomb'], seams.InjectedError('injected')): call(S.run_step, o['dt'] * W.DAY)
                                else: call(S.run_step, o['dt'] * W.DAY)
                            p.fault('earlier_work')
                        except seams.INJECTED: p.fault('earlier_step_killed')
                    del S
                surroundings(case['b'], amg)
                try: again = history(w, case['ops'], p)
                finally: calm()
            need(len(got) == len(again), 'length', 'histories of different length')
            for n, (x, y) in enumerate(zip(got, again)):
                need(x[0] == y[0], 'outcome', f'step {n}: {x[0]} first, {y[0]} when repeated')
                need(x[1] == y[1], 'substeps', f'step {n}: sub-steps {x[1]} first, {y[1]} when repeated')
                d = W.diff(x[2], y[2])
                need(d is None, 'differs', f'step {n}: repeated under another clock, random state and process history: {d}')
                p.log(x[2]['pressure'], x[2]['s_w'])
            if any(x[0] for x in got): p.sign(w['dims'], [(x[0], len(x[1])) for x in got], amg, w['sim'].get('solver_type'), [b['world'] == 'same' for b in case['before']])
            p.hit('amg_repeated' if amg else 'repeated')
            return
        cfg = config_of(w, w['sim'], 'out', W.pvt_file(w))
        def fresh(x):
            e, where = x
            surroundings(e, amg)
            try: return whole_run(cfg, where) if case['kind'] == 'run' else episodes(cfg, case['acts'], where + '.json', case['seed'])
            finally: calm()
        za, zb = Zygote(fresh), (Zygote(fresh) if amg else None)
        got = za.ask((case['a'], 'A'))
        if amg: again = zb.ask((case['b'], 'B'))
        else:
            try: again = (whole_run(cfg, 'junk') if case['kind'] == 'run' else episodes(cfg, case['acts'][::-1], 'junk.json', 9)) and fresh((case['b'], 'B'))
            finally: calm()
        if case['kind'] == 'run':
            need(sorted(got[0]) == sorted(again[0]), 'files', f'{sorted(got[0])} first, {sorted(again[0])} when repeated')
            for k in got[0]: need(got[0][k] == again[0][k], 'differs', f'file {k} differs when the run is repeated')
            need(got[1] == again[1], 'differs', 'the pictures differ when the run is repeated')
            p.log(sorted(got[0])); p.hit('runs_repeated'); p.steps += 1
            p.sign('run', w['dims'], sorted(got[0]), len(got[1]), amg)
        else:
            for n, (x, y) in enumerate(zip(got, again)):
                need(len(x) == len(y), 'differs', f'episode {n}: {len(x) - 1} steps first, {len(y) - 1} when repeated')
                for k, (u, v) in enumerate(zip(x, y)): need(u == v, 'differs', f'episode {n} call {k}: differs when repeated')
            p.log(repr(got)[:200]); p.hit('episodes_repeated'); p.steps += 1
            p.sign('rl', w['dims'], len(got), amg)

    # ------------------------------------------------ another hash seed needs another interpreter
    def hashes(self, case, p):
        got = self.batch(case)
        env = dict(os.environ, PYTHONHASHSEED=str(case['hs']))
        with seams.REAL_OPEN('batch.json', 'w') as f: json.dump(case, f)
        pr = subprocess.run([sys.executable, os.path.join(HERE, 'props', 'S10.py'), os.path.abspath('batch.json')], env=env, capture_output=True, text=True)
        line = [l for l in pr.stdout.splitlines() if l.startswith('BATCH ')]
        if not line: raise RuntimeError('no answer from the other interpreter: ' + pr.stderr[-1500:])
        other = json.loads(line[0][6:])
        for n, (a, b) in enumerate(zip(got, other)):
            need(a == b, 'hash-seed', f'history {n} of the batch: another hash seed gives other results')
        p.fault('hash_seed'); p.hit('other_interpreter', len(got)); p.steps += len(got)
        p.sign('hash', case['base'])

    def batch(self, case):
        import hashlib
        from core import case_rng
        out = []
        k = case['base']
        while len(out) < case['n']:
            c = self.gen(case_rng('S10h', 0, k), k, 'quick'); k += 1
            if c['kind'] != 'steps': continue
            amg = c['world']['sim'].get('pressure_solver') == 'amg'
            def fresh(_):
                surroundings(c['a'], amg); M.hooks.handler = None
                try: return history(c['world'], c['ops'])
                finally: calm()
            h = Zygote(fresh).ask(0)
            out.append(hashlib.sha256(repr([(x[0], x[1], {k2: (v.tobytes() if isinstance(v, np.ndarray) else json.dumps(v, sort_keys=True)) for k2, v in x[2].items()}) for x in h]).encode()).hexdigest()[:16])
        return out


CHECK = S10()

if __name__ == '__main__':
    seams.quiet()
    with seams.REAL_OPEN(sys.argv[1]) as f: _case = json.load(f)
    _out = CHECK.batch(_case)
    os.write(1, ('BATCH ' + json.dumps(_out) + '\n').encode())
    os._exit(0)
