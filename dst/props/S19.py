"""The component debug log never changes or breaks the simulation, and says what was done."""
import re
from props.runs import *

PART = re.compile(r'(oil|gas)_(in|out)\+= *(\S+)')
SUMM = re.compile(r'SUMMARY OIL in=(\S+) out=(\S+) accum=(\S+) residual=(\S+) GAS in=(\S+) out=(\S+) accum=(\S+) residual=(\S+)')
WELL = re.compile(r'^WELL_(?:IN|OUT) name=(.*?) mode=(\S+) cell=\((\d+),(\d+),(\d+)\) q_total=(\S+)')
FRAC = re.compile(r'\bfw=(\S+) fg=(\S+) fo=(\S+)')
FACT = re.compile(r'\b(Bo|Bg|Rs|Rv)=(\S+)')


class S19(Check):
    prop = 'S19'
    counts = dict(quick=1400, thorough=28000)
    rule = ('a run is one seeded history of steps (wells of all kinds, operator changes, solver failures) executed twice: with the debug log switched on (by configuration or environment variable; log in a '
            'directory, in the working directory or at its default place) while the simulated disk fails chosen opens, writes and closes of the log or its directory disappears, and with the log off in a '
            'process of its own; outcomes, sub-steps, fields, balances and well diagnostics must be bitwise equal after every step; the lines that reached the file must add up to the balances and repeat the '
            'reported rates; non-trivial = at least one well line was written or one disk fault fired; distinct = (wells, lines per step, faults)')
    real = REAL_CORE + ['Simulator._dbg']
    stub = ['solver budgets', 'log file system (injected failures)', 'wall clock']

    def gen(self, r, i, tier):
        w = W.gen_world(r, max_cells=r.choice([4, 12, 30]), pvt=r.random() < 0.85, limits=r.random() < 0.6)
        for _ in range(6):
            if w['wells']: break
            g = w['grid']
            w['wells'] = W.gen_wells(r, w['dims'], g, g[0] * g[1] * g[2] * w['phi'], w['dt'], w['fluid'], bool(w.get('pvt')), w['fluid']['s_g'] > 0, 'any')
        w['sim'].update(solver_variant(r))
        for n, q in enumerate(w['wells']):
            if r.random() < 0.1: q['name'] = r.choice(['', 'w 1', 'name=x', 'скв', 'a\nb', 'oil_in+= 5']) + str(n)
        ops = []
        for _ in range(r.randint(1, 5)):
            op = dict(dt=W.sig(w['dt'] * r.choice([1, 0.5, 2])))
            if r.random() < 0.25: op['starve'] = gen_starve(r, 'few')
            if r.random() < 0.1: op['attempts'] = [None] * r.randint(0, 1) + [0] * r.randint(1, 6)
            if r.random() < 0.3: op['ctl'] = [[r.randrange(4), r.choice([0.5, 1.2])]]
            if r.random() < 0.08: op['gone'] = True                      # somebody removes the log directory
            ops.append(op)
        plan = []
        if r.random() < 0.6:
            for _ in range(r.randint(1, 4)):
                f = dict(op=r.choice(['open', 'write', 'write', 'close']), n=int(10 ** r.uniform(0, 1.5)), err=r.choice(['ENOSPC', 'EIO', 'EACCES', 'EMFILE']))
                if f['op'] == 'write': f['partial'] = r.choice([0, 1, 7, 40])
                if r.random() < 0.25: f['sticky'] = True
                plan.append(f)
        return dict(world=w, ops=ops, plan=plan, how=r.choice(['cfg', 'cfg', 'env']), path=r.choice(['logs/d.log', 'd.log', 'a/b/c.log', None]), other=r.random() < 0.3, tseed=r.randrange(1 << 30), t0=1.7e9, clock=gen_clock(r),
                    _shrink=['ops', 'plan'])

    def run(self, case, p):
        w = case['world']
        def off(_):
            M.hooks.handler = None
            M.torch.manual_seed(case['tseed'])
            S = W.build(w)
            out = []
            for op in case['ops']:
                apply_ctl(S, op)
                with Solver(op.get('starve', ()), attempts=op.get('attempts')) as h: ok = bool(call(S.run_step, op['dt'] * W.DAY))
                out.append((ok, list(h.dts), W.snap(S)))
            return out
        zy = Zygote(off)
        M.torch.manual_seed(case['tseed'])
        clock(case)
        extra = {}
        if case['how'] == 'cfg': extra['debug_component_balance'] = True
        else: os.environ['OIL_DEBUG_COMPONENT'] = '1'
        if case['path']: extra['debug_log_path'] = case['path']
        other = None
        try:
            if case.get('other') and w['sim'].get('pressure_solver') != 'amg':            # another simulator with a log of its own, created just before
                ex = dict(extra)
                if case['path']: ex['debug_log_path'] = case['path'] + '.other'
                other = W.build(w, sim_extra=ex)
                call(other.run_step, case['ops'][0]['dt'] * W.DAY)
                oth = other.debug_log_path, read(other.debug_log_path)
            S = W.build(w, sim_extra=extra)
        finally: os.environ.pop('OIL_DEBUG_COMPONENT', None)
        path = getattr(S, 'debug_log_path', None)
        need(path and os.path.isfile(path), 'no-log', lambda: f'debug log switched on by {case["how"]}, no log file at {path}')
        if case['path']: need(os.path.realpath(path) == os.path.realpath(case['path']), 'no-log', lambda: f'log at {path}, asked for {case["path"]}')
        root = os.path.realpath(os.getcwd())
        disk = seams.Disk(root, case['plan'], p)
        got, counts = [], []
        pos = len(read(path))
        clean = True
        for n, op in enumerate(case['ops']):
            apply_ctl(S, op)
            if op.get('gone'):
                import shutil
                if os.path.dirname(path) and os.path.isdir(os.path.dirname(path)): shutil.rmtree(os.path.abspath(os.path.dirname(path)))
                elif os.path.exists(path): os.remove(os.path.abspath(path))
                p.fault('log_removed'); clean = False
            before = json.loads(json.dumps(S.component_balance))
            seams.DISK = disk
            try: ok, h = step(S, op['dt'] * W.DAY, p, op.get('starve', ()), attempts=op.get('attempts'))
            except OSError as e:
                if not getattr(e, 'injected', False): raise
                raise Violation('escaped', f'step {n}: the failing log interrupts the step: {e}')
            finally: seams.DISK = None
            got.append((bool(ok), list(h.dts), W.snap(S)))
            if disk.fired: clean = False
            if clean:
                text = read(path); new = text[pos:]; pos = len(text)
                counts.append(self.judge(case, S, new, before, ok, h, f'step {n}', p))
        seams.CLOCK.active = False
        if other is not None and not any(op.get('gone') for op in case['ops']):
            now = read(oth[0]) if os.path.exists(oth[0]) else None
            need(now == oth[1], 'mixed-logs', lambda: f'the log {oth[0]} of another simulator changed (it had {len(oth[1])} bytes, now {None if now is None else len(now)}; this one logs to {path})')
            p.hit('other_log_kept')
        ref = zy.ask(0)
        for n, (x, y) in enumerate(zip(ref, got)):
            need(x[0] == y[0], 'outcome', f'step {n}: {y[0]} with the log, {x[0]} without')
            need(x[1] == y[1], 'substeps', f'step {n}: sub-steps {y[1]} with the log, {x[1]} without')
            d = W.diff(x[2], y[2])
            need(d is None, 'changed', lambda: f'step {n}: the debug log changes the simulation: {d}')
            p.log(x[2]['pressure'], x[2]['s_w'])
        if disk.fired: p.hit('faulted_runs')
        if disk.fired or any(counts): p.sign(w['dims'], [(q['type'], W.control(q)[0]) for q in w['wells']], counts, sorted(set(map(str, disk.fired))), [x[0] for x in got])

    def judge(self, case, S, new, before, ok, h, tag, p):
        w = case['world']
        odd = any('\n' in q['name'] or '+=' in q['name'] or '=' in q['name'] for q in w['wells'])
        lines = [l for l in new.split('\n') if l]
        need(new == '' or new.endswith('\n'), 'torn', f'{tag}: the log ends in the middle of a line')
        if odd or not w.get('pvt'): return len(lines)
        wl = [l for l in lines if l.startswith('WELL_')]
        wells = {}
        for k, x in enumerate(S.well_manager.get_wells()): wells.setdefault(w['wells'][k]['name'], []).append((x, w['wells'][k]))
        add = {(c, d): [0.0, 0.0] for c in ('oil', 'gas') for d in ('in', 'out')}
        last = {}
        for l in wl:
            m = WELL.match(l)
            need(m is not None, 'format', lambda: f'{tag}: line {l!r}')
            name, mode, i, j, k, q = m.groups()
            need(name in wells, 'line', lambda: f'{tag}: line about an unknown well {name!r}')
            need(any((int(i), int(j), int(k)) == tuple(W.coords(c)) for _, c in wells[name]), 'line', lambda: f'{tag}: line {l!r} gives another cell than the well has')
            parts = PART.findall(l)
            for c, d, v in parts:
                add[c, d][0] += float(v); add[c, d][1] += abs(float(v))
            f = FRAC.search(l)
            if f: need(abs(sum(map(float, f.groups())) - 1) < 5e-3 or float(q) == 0, 'line', lambda: f'{tag}: fractions in {l!r} do not add up to one')
            # the printed fractions and table values are those the component volumes were made of (both lines' precision considered)
            t = dict(FACT.findall(l)); v = {(c, d): float(x) for c, d, x in parts}
            if f and len(t) == 4 and len({d for _, d in v}) == 1 and len(v) == 2:
                fg, fo = float(f.group(2)), float(f.group(3)); B = {a: float(b) for a, b in t.items()}
                o, g = [v[c, next(iter(v))[1]] for c in ('oil', 'gas')]
                so = fo / B['Bo'] + fg * B['Rv'] / B['Bg']; sg = fg / B['Bg'] + fo * B['Rs'] / B['Bo']
                eo = 6e-4 * (1 / B['Bo'] + B['Rv'] / B['Bg']) + 3e-3 * so; eg = 6e-4 * (1 / B['Bg'] + B['Rs'] / B['Bo']) + 3e-3 * sg
                need(abs(o * sg - g * so) <= o * eg + g * eo + 1e-12, 'line', lambda: f'{tag}: {l!r}: oil {o:.6g} and gas {g:.6g} do not follow from the printed fractions and table values')
                if o + g > 0: p.hit('lines_recomputed')
            last[name] = (mode, float(q))
        # pressure-controlled gas injectors write no line
        quiet = any(q['type'] == 'injector' and q.get('injected_phase') == 'gas' and W.control(q)[0] == 'bhp' for q in w['wells'])
        if ok:
            for (c, d), (s, a) in add.items():
                due = S.component_balance[c][d] - before[c][d]
                bd = 2e-6 * a + 1e-9 * abs(S.component_balance[c][d]) + 1e-12
                need(s <= due + bd and (quiet or s >= due - bd), 'sums', lambda: f'{tag}: log lines say {c} {d} {s:.9g}, the balance changed by {due:.9g}')
            for name, (mode, q) in last.items():
                if len(wells[name]) != 1: continue
                x, c = wells[name][0]
                if c['type'] == 'producer' and x.last_q_total is not None and W.control(c)[0] == 'rate':
                    need(abs(q - x.last_q_total) <= 2e-6 * abs(q) + 1e-15, 'rate', lambda: f'{tag}: log says q_total {q:.8g} for {name}, the well reports {x.last_q_total:.8g}')
                    p.hit('rate_lines')
            sm = [m for m in map(SUMM.search, lines) if m]
            need(sm, 'no-summary', f'{tag}: no summary line')
            v = list(map(float, sm[-1].groups())); cb = S.component_balance
            for k, (c, d) in ((0, ('oil', 'in')), (1, ('oil', 'out')), (2, ('oil', 'accum')), (4, ('gas', 'in')), (5, ('gas', 'out')), (6, ('gas', 'accum'))):
                need(abs(v[k] - cb[c][d]) <= 2e-6 * abs(cb[c][d]) + 1e-12, 'summary', lambda: f'{tag}: summary line gives {c} {d} {v[k]:.8g}, the balance is {cb[c][d]:.8g}')
            p.hit('summaries')
        p.hit('well_lines', len(wl))
        return len(lines)


CHECK = S19()
