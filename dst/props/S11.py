"""RL environment: episodes against a harness-driven twin simulator."""
from props.runs import *
import copy


class Twin:
    """What an episode should be: the real simulator classes driven by the harness from the same configuration."""
    def __init__(self, cfg):
        self.cfg = copy.deepcopy(cfg)
        dev = M.torch.device('cpu')
        R = call(M.reservoir.Reservoir, cfg['reservoir'], dev)
        Wm = call(M.well.WellManager, cfg['wells'], R)
        F = call(M.fluid.Fluid, copy.deepcopy(cfg['fluid']), R, dev)
        self.S = call(M.simulation.Simulator, R, F, Wm, copy.deepcopy(cfg['simulation']), dev)
        rc = cfg['reservoir']; g = [float(np.float32(v)) for v in rc['grid_size']]
        self.pv = np.full(rc['dimensions'], g[0] * g[1] * g[2] * rc['porosity'])
        self.dt = cfg['simulation'].get('time_step_days', 1.0) * 86400.0
        self.cv = [w.control_value for w in self.S.well_manager.get_wells()]
        self.m0 = self.m = self.mass()
        self.total = 0.0
        self.steps = self.good = 0

    def mass(self):
        """Oil in place (kg), float64, from the state and the documented density."""
        S = self.S; F = S.fluid
        pv = self.pv
        return float(np.sum(pv * F.s_o.numpy().astype(np.float64) * F.rho_o.numpy().astype(np.float64)))

    def obs(self):
        F = self.S.fluid
        return np.concatenate([F.pressure.numpy().astype(np.float64).reshape(-1) / 1e7, F.s_w.numpy().astype(np.float64).reshape(-1)])


def state(S): return [getattr(S.fluid, n).numpy().copy() for n in W.FIELDS] + [json.dumps([S.mass_balance, S.component_balance])]


def same(a, b):
    for n, x, y in zip(W.FIELDS + ('balances',), a, b):
        if (x != y) if isinstance(x, str) else x.tobytes() != y.tobytes(): return n + (f' ({x} / {y})' if isinstance(x, str) else '')
    return None


class S11(Check):
    prop = 'S11'
    counts = dict(quick=700, thorough=14000)
    rule = ('a run is 1-3 environments on one or two configuration files and 6-30 interleaved calls: reset, step with an action, step while the solver fails (some or all attempts), step during which a '
            'tensor operation fails, reset whose file read fails or whose construction runs out of memory, rewriting of the configuration file; every returned value is compared with a twin simulator '
            'built from the file in force and driven with the documented actions; non-trivial = at least 3 successful steps and one reset after the first step; distinct = call kinds x outcomes x world')
    real = REAL_CORE + ['ReservoirEnv']
    stub = ['solver iteration budgets (starved through guarded hooks)', 'file reads (injected failures)']

    def gen(self, r, i, tier):
        cfgs = []
        base = None
        for k in range(r.choice([1, 1, 2])):
            w = strip_world(W.gen_world(r, max_cells=r.choice([2, 8, 18]), pvt=r.random() < 0.3, limits=r.random() < 0.5))
            w['sim']['max_time_step_attempts'] = r.choice([1, 2, 3])
            if r.random() < 0.1: w['sim'].pop('time_step_days')
            elif r.random() < 0.08: w['sim']['time_step_days'] = r.choice([31, 90, 365, 7, 0.0001])
            cfgs.append(w)
        ne = r.choice([1, 1, 2, 3])
        envs = [dict(file=r.randrange(len(cfgs)), max=r.choice([1, 2, 3, 5, 8, 365])) for _ in range(ne)]
        ops = []
        for _ in range(r.randint(6, 30 if tier == 'thorough' else 20)):
            e = r.randrange(ne)
            x = r.random()
            act = [round(r.choice([-1, 1, 0, r.uniform(-1, 1), r.uniform(-1, 1)]), 4) for _ in range(4)]
            if x < 0.58: ops.append(dict(op='step', e=e, a=act))
            elif x < 0.66: ops.append(dict(op='step', e=e, a=act, attempts=r.choice([[0] * 5, [0], [0, 0], [None, 0, 0, 0]])))
            elif x < 0.70: ops.append(dict(op='step', e=e, a=act, bomb=round(r.random(), 4)))
            elif x < 0.86: ops.append(dict(op='reset', e=e, seed=r.choice([None, 1, 7])))
            elif x < 0.91: ops.append(dict(op='reset', e=e, disk=r.choice(['EIO', 'EACCES', 'EMFILE'])))
            elif x < 0.95: ops.append(dict(op='reset', e=e, bomb=round(r.random(), 4)))
            else:
                ops.append(dict(op='rewrite', f=r.randrange(len(cfgs)), scale=r.choice([0.5, 1.2]), dp=r.choice([-2, 1]), w=r.randrange(len(cfgs))))
                if r.random() < 0.5: ops.append(dict(op='reset', e=e, seed=None))
        return dict(cfgs=cfgs, envs=envs, ops=ops, _shrink=['ops', 'envs'])

    @staticmethod
    def variants(case):
        from core import _variants
        for c in _variants(case):
            if c['envs']: yield c

    def conf(self, w, k, scale=1.0, dp=0.0):
        w = copy.deepcopy(w)
        for x in w['wells']:
            if W.control(x)[0] == 'rate':
                if 'control_value' in x: x['control_value'] = W.sig(x['control_value'] * scale)
                else: x['control']['value'] = W.sig(x['control']['value'] * scale)
        w['fluid']['pressure'] = W.sig(w['fluid']['pressure'] + dp)
        pvt = None
        if w.get('pvt'):
            pvt = os.path.abspath(f'pvt_{k}.json')
            with seams.REAL_OPEN(pvt, 'w') as f: json.dump(w['pvt'], f)
        return config_of(w, w['sim'], 'rl', pvt)

    def write(self, cfg, k):
        with seams.REAL_OPEN(f'cfg{k}.json', 'w') as f: json.dump(cfg, f)

    def run(self, case, p):
        cfg = [self.conf(w, k) for k, w in enumerate(case['cfgs'])]
        for k, c in enumerate(cfg): self.write(c, k)
        root = os.path.realpath(os.getcwd())
        E, T, what = [], [], []
        for e in case['envs']:
            env = call(M.rl.ReservoirEnv, f"cfg{e['file']}.json", max_steps=e['max'], device=M.torch.device('cpu'))
            E.append(env); T.append(Twin(cfg[e['file']]))
            n = len(T[-1].cv)
            need(env.action_space.shape == (n,) and float(np.min(env.action_space.low, initial=-1)) == -1 and float(np.max(env.action_space.high, initial=1)) == 1, 'spaces', 'action space does not match the wells')
            need(env.observation_space.shape == (T[-1].obs().size,), 'spaces', 'observation space does not match the grid')
        steps_ok = late_reset = 0
        for n, op in enumerate(case['ops']):
            if op['op'] == 'rewrite':
                k = op['f']
                v = op.get('w', k) % len(case['cfgs'])            # the same case with other values, or the other case
                cfg[k] = self.conf(case['cfgs'][v], v, op['scale'], op['dp']); self.write(cfg[k], k)
                what.append('w'); continue
            i = op['e'] % len(E)
            env, t, spec = E[i], T[i], case['envs'][i]
            tag = f'call {n} (env {i})'
            others = [(j, state(x.simulator)) for j, x in enumerate(E) if j != i]
            if op['op'] == 'reset':
                before = state(env.simulator)
                failed = None
                if op.get('disk'):
                    seams.DISK = seams.Disk(root, [dict(op='openr', n=1, err=op['disk'])], p)
                    try: env.reset()
                    except OSError as ex: failed = ex
                    finally: seams.DISK = None
                    need(failed is not None, 'fault-lost', f'{tag}: the configuration could not be read but reset returned')
                elif 'bomb' in op:
                    b = op_bomb(-1, None)
                    with b: Twin(cfg[spec['file']])
                    b2 = op_bomb(1 + int(op['bomb'] * b.k), seams.InjectedMemoryError('injected'))
                    try:
                        with b2: obs, _ = env.reset()
                    except seams.InjectedMemoryError as ex: failed = ex
                    if b2.fired: p.fault('op.memory')
                else: obs, info = call(env.reset, seed=op.get('seed'))
                if failed is not None:
                    what.append('x'); p.hit('reset_failed')
                    # the old episode goes on undisturbed
                    o = call(env._get_observation) if hasattr(env, '_get_observation') else None
                    d = same(before, state(env.simulator))
                    need(d is None and env.fluid is env.simulator.fluid and env.reservoir is env.simulator.reservoir, 'half-reset',
                         f'{tag}: reset failed ({failed}) and left the environment half rebuilt' + (f': {d} changed' if d else ''))
                    if o is not None: self.check_obs(o, t, tag)
                else:
                    if t.steps: late_reset += 1
                    t = T[i] = Twin(cfg[spec['file']])
                    self.check_obs(obs, t, tag)
                    need(env.max_steps == spec['max'] and env.action_space.shape == (len(t.cv),) and env.observation_space.shape == (t.obs().size,), 'reset', f'{tag}: after reset the environment has max_steps {env.max_steps}, spaces {env.action_space.shape} / {env.observation_space.shape}')
                    d = same(state(env.simulator), state(t.S))
                    need(d is None, 'reset', f'{tag}: after reset {d} differs from a newly built simulator on the same file')
                    what.append('r'); p.hit('reset')
            else:
                a = np.asarray(op['a'][:len(t.cv)], dtype=np.float32)
                want = []
                for w, cv, x in zip(t.S.well_manager.get_wells(), [w.control_value for w in t.S.well_manager.get_wells()], a):
                    want.append(cv * (1 + 0.2 * float(x)) if w.control_type == 'rate' else cv + 5.0 * float(x))
                before = state(env.simulator)
                exc = None
                bomb = None
                if 'bomb' in op:
                    C = self.clone(t, t.cfg)
                    b = op_bomb(-1, None)
                    with b: call(C.run_step, t.dt)
                    bomb = op_bomb(1 + int(op['bomb'] * b.k), seams.InjectedError('injected'))
                from contextlib import nullcontext
                with Solver((), p, attempts=op.get('attempts')) as h:
                    try:
                        with bomb or nullcontext(): out = call(env.step, a)
                    except seams.INJECTED as ex: exc = ex
                p.steps += 1
                got = [w.control_value for w in env.well_manager.get_wells()]
                for w, g, v in zip(t.S.well_manager.get_wells(), got, want):
                    need(abs(g - v) <= 2e-6 * max(1.0, abs(v)), 'action', f'{tag}: well {w.name} ({w.control_type}): action {a.tolist()} should set {v:.6g}, is {g:.6g}')
                    w.control_value = g
                if exc is not None:
                    p.fault('op.error'); what.append('X')
                    d = same(before, state(env.simulator))
                    if d is None: continue
                    # the failure hit the observation or reward after the step itself was done
                    call(t.S.run_step, h.dts[0])
                    d2 = same(state(env.simulator), state(t.S))
                    need(d2 is None, 'failed-step', f'{tag}: the step raised; {d} changed, and {d2} is not that of a completed step either')
                    p.hit('failed_after_step'); return
                need(h.dts and abs(h.dts[0] - t.dt) <= 1e-9 * t.dt, 'time', f'{tag}: one step of {t.dt:.9g} s is due, the simulator was asked for {h.dts[:1]}')
                with Solver((), None, attempts=op.get('attempts')): ok = call(t.S.run_step, h.dts[0])
                obs, rew, term, trunc, info = out
                t.steps += 1
                d = same(state(env.simulator), state(t.S))
                if bomb is not None and bomb.fired: p.hit('fault_absorbed'); return
                need(d is None, 'step', f'{tag}: after the step {d} differs from a simulator stepped once with the same controls')
                self.check_obs(obs, t, tag)
                need(trunc is False or trunc == False, 'flags', f'{tag}: truncated={trunc}')
                if not ok:
                    p.hit('failed_step'); what.append('f')
                    need(bool(term) and info.get('converged') is False and rew <= -1e3, 'failed-step', f'{tag}: the solver failed but step returned reward {rew}, terminated {term}, info {info}')
                    d = same(before, state(env.simulator))
                    need(d is None, 'failed-step', f'{tag}: the step failed but {d} changed')
                else:
                    steps_ok += 1; t.good += 1; p.sim_seconds += t.dt; what.append('s')
                    need(info.get('converged') is True, 'flags', f'{tag}: the step succeeded but info is {info}')
                    need(bool(term) == (t.good >= spec['max']), 'flags', f'{tag}: {t.good} steps of {spec["max"]} done, terminated={term}')
                    m = t.mass()
                    lim = 64 * RF.EPS32 * max(abs(t.m0), abs(t.m), abs(m)) / 1e6 + 1e-12
                    want_r = (t.m - m) / 1e6
                    p.measure('reward_err/bound', abs(rew - want_r) / lim)
                    need(abs(rew - want_r) <= lim, 'reward', f'{tag}: reward {rew:.9g}, oil produced in the step {want_r:.9g} (bound {lim:.2g})')
                    if abs(want_r) > 20 * lim: p.hit('reward_resolved')
                    t.m = m; t.total += float(rew)
                    need(abs(t.total - (t.m0 - m) / 1e6) <= 4 * lim, 'reward-sum', f'{tag}: rewards sum to {t.total:.9g}, oil in place fell by {(t.m0 - m) / 1e6:.9g}')
                p.log(np.asarray(obs), float(rew))
            for j, s in others:
                d = same(s, state(E[j].simulator))
                need(d is None, 'isolation', f'{tag}: changed {d} of environment {j}')
        if steps_ok >= 3 and late_reset: p.sign(''.join(what), [w['dims'] for w in case['cfgs']], len(E))

    @staticmethod
    def check_obs(obs, t, tag):
        w = t.obs(); o = np.asarray(obs, dtype=np.float64)
        need(o.shape == w.shape, 'observation', f'{tag}: observation has shape {o.shape}')
        need(str(np.asarray(obs).dtype) == 'float32', 'observation', f'{tag}: observation dtype {np.asarray(obs).dtype}')
        bad = np.abs(o - w) > 4e-7 * np.maximum(1e-3, np.abs(w))
        need(not bad.any(), 'observation', lambda: f'{tag}: observation [{int(np.argmax(bad))}] is {o[np.argmax(bad)]:.8g}, the state says {w[np.argmax(bad)]:.8g}')

    @staticmethod
    def clone(t, cfg):
        C = Twin(cfg).S
        for n in W.FIELDS + ('prev_pressure', 'prev_sw', 'prev_sg'):
            if getattr(t.S.fluid, n, None) is not None: setattr(C.fluid, n, getattr(t.S.fluid, n).clone())
        for a, b in zip(C.well_manager.get_wells(), t.S.well_manager.get_wells()): a.control_value = b.control_value
        return C


CHECK = S11()
