"""Core of the deterministic simulator: seeds, forked runs, minimiser, replay, evidence.

One case is a plain JSON value (world + operations + faults + schedule).  `run(case)` is a pure
function of the case and of the code in /repo: every case is executed in its own child forked from
a pristine parent (so no module-level state of the code under test survives from case to case).
"""
import os, sys, json, time, random, hashlib, signal, select, pickle, traceback, io, copy, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_TIMEOUT = 180          # wall seconds for a single case; normally a case takes well under a second


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(f'{cls}: {msg}')
        self.cls, self.msg = cls, msg


class HarnessError(Exception):
    pass


def need(cond, cls, msg):
    if not cond:
        raise Violation(cls, msg() if callable(msg) else msg)


class Probe:
    """Counters of one run.  Never draws random numbers, never reads a clock."""
    def __init__(self):
        self.faults, self.hits, self.meas = {}, {}, {}
        self.sim_seconds = 0.0
        self.steps = 0
        self.h = hashlib.sha256()
        self.sig = []

    def fault(self, kind, n=1): self.faults[kind] = self.faults.get(kind, 0) + n
    def hit(self, name, n=1): self.hits[name] = self.hits.get(name, 0) + n
    def measure(self, name, v):
        v = float(v)
        if v == v: self.meas[name] = max(self.meas.get(name, v), v)
    def log(self, *xs):
        for x in xs:
            if hasattr(x, 'numpy'): x = x.detach().cpu().numpy().tobytes()
            elif hasattr(x, 'tobytes'): x = x.tobytes()
            elif not isinstance(x, bytes): x = repr(x).encode()
            self.h.update(x); self.h.update(b'|')
    def sign(self, *xs): self.sig.append(repr(xs))
    def result(self):
        return dict(faults=self.faults, hits=self.hits, meas=self.meas, sim_seconds=self.sim_seconds, steps=self.steps,
                    digest=self.h.hexdigest()[:24],
                    sig=hashlib.sha256('\n'.join(self.sig).encode()).hexdigest()[:16] if self.sig else '')


def case_rng(prop, seed, index):
    return random.Random(f'{prop}/{seed}/{index}')


# ----------------------------------------------------------------- running one case in a child
def _child(check, case, wfd, scratch):
    out = None
    try:
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        os.makedirs(scratch, exist_ok=True)
        os.chdir(scratch)
        p = Probe()
        try:
            import seams
            seams.quiet()
            check.run(copy.deepcopy(case), p)
            out = ('ok', None, None, p.result())
        except Violation as v:
            out = ('violation', v.cls, v.msg, p.result())
        except BaseException as e:
            out = escaped(e, p) or ('error', traceback.format_exc()[-3000:], None, p.result())
    except BaseException:
        out = ('error', traceback.format_exc()[-3000:], None, None)
    try:
        data = pickle.dumps(out)
        with os.fdopen(wfd, 'wb') as f: f.write(data)
    finally:
        os._exit(0)


def escaped(e, p):
    """An exception that started in the code under test, was not injected and was not expected by the check."""
    import seams
    x = e
    while x is not None:
        if isinstance(x, seams.INJECTED): return None
        x = x.__cause__ or x.__context__
    if isinstance(e, (HarnessError, MemoryError)): return None       # genuine memory shortage of the machine
    own = None
    for fr in traceback.extract_tb(e.__traceback__):
        f = os.path.realpath(fr.filename)
        if f.startswith(os.path.realpath(seams.SRC) + os.sep): own = fr
        elif f.startswith(os.path.join(VERIF, 'dst') + os.sep): own = None
    if own is None: return None
    return ('violation', 'raised', f'{type(e).__name__}: {str(e)[:300]} (in {os.path.basename(own.filename)}:{own.name}), not expected here', p.result())


class Child:
    def __init__(self, check, case, tag, timeout=RUN_TIMEOUT):
        self.case, self.tag = case, tag
        r, w = os.pipe()
        self.scratch = os.path.join(check.scratch_root, f'c{tag}_{os.urandom(3).hex()}')
        sys.stdout.flush(); sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(r)
            _child(check, case, w, self.scratch)
        os.close(w)
        self.r, self.buf, self.t0, self.timeout = r, b'', time.monotonic(), timeout
        self.killed = False

    def pump(self):
        """True when finished."""
        try: d = os.read(self.r, 1 << 20)
        except OSError: d = b''
        if d:
            self.buf += d
            return False
        return True

    def finish(self):
        os.close(self.r)
        _, status = os.waitpid(self.pid, 0)
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.killed:
            return ('hang', f'no result within {self.timeout} s of wall time (a run normally takes well under a second)', None, None)
        try: return pickle.loads(self.buf)
        except Exception:
            return ('error', f'child died, status {status}', None, None)

    def kill(self):
        self.killed = True
        try: os.kill(self.pid, signal.SIGKILL)
        except OSError: pass


def run_many(check, cases, jobs, stop=None, deadline=None, timeout=RUN_TIMEOUT):
    """Runs (tag, case) pairs in forked children, at most `jobs` at once; yields (tag, case, result)."""
    it = iter(cases)
    live, done = {}, False
    while True:
        while not done and len(live) < jobs:
            if deadline is not None and time.monotonic() > deadline: done = True; break
            if stop is not None and stop(): done = True; break
            try: tag, case = next(it)
            except StopIteration: done = True; break
            c = Child(check, case, tag, timeout)
            live[c.r] = c
        if not live: return
        rl, _, _ = select.select(list(live), [], [], 1.0)
        for fd in rl:
            c = live[fd]
            if c.pump():
                del live[fd]
                yield c.tag, c.case, c.finish()
        now = time.monotonic()
        for c in live.values():
            if not c.killed and now - c.t0 > c.timeout: c.kill()


def run_one(check, case, timeout=RUN_TIMEOUT):
    for _, _, r in run_many(check, [(0, case)], 1, timeout=timeout): return r


# ----------------------------------------------------------------- minimisation
def _variants(case):
    """Smaller cases: drop list elements of the keys named in case['_shrink'], then shrink numbers."""
    for key in case.get('_shrink', []):
        seq = case.get(key)
        if not isinstance(seq, list): continue
        n = len(seq)
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                c = copy.deepcopy(case); c[key] = seq[:a] + seq[a + size:]
                yield c
            size //= 2
        for a, op in enumerate(seq):
            if isinstance(op, dict) and op.get('fault'):
                c = copy.deepcopy(case); c[key][a].pop('fault'); yield c
    w = case.get('world')
    if isinstance(w, dict):
        for k in list(w.get('wells', [])):
            c = copy.deepcopy(case); c['world']['wells'].remove(k); yield c
        if w.get('het'):
            c = copy.deepcopy(case); c['world'].pop('het'); yield c
        if w.get('init'):
            c = copy.deepcopy(case); c['world'].pop('init'); yield c
        for k in list(w.get('fluid', {})):
            if k in ('pressure', 's_w', 's_g'): continue
            c = copy.deepcopy(case); c['world']['fluid'].pop(k); yield c


def minimise(check, case, cls, jobs, budget_s=60, budget_runs=400):
    t0 = time.monotonic(); runs = 0
    best = case
    smaller = getattr(check, 'variants', None) or _variants
    progress = True
    while progress and time.monotonic() - t0 < budget_s and runs < budget_runs:
        progress = False
        found = []
        cand = []
        for v in smaller(best):
            cand.append((len(cand), v))
            if len(cand) > 120: break
        for tag, c, r in run_many(check, cand, jobs, stop=lambda: bool(found) or runs >= budget_runs,
                                  deadline=t0 + budget_s, timeout=60):
            runs += 1
            if r[0] == 'violation' and r[1] == cls: found.append((tag, c))
        if found:
            best = min(found, key=lambda t: t[0])[1]
            progress = True
    return best, runs


# ----------------------------------------------------------------- known findings
def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    with open(path) as f: data = json.load(f)
    return [k for k in data.get('findings', []) if k['property'] == prop]


# ----------------------------------------------------------------- main
def _jobs():
    try: return max(1, min(8, len(os.sched_getaffinity(0))))
    except Exception: return 4


def main(check, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--replay'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--digests', help='internal: JSON list of cases -> prints digests')
    ap.add_argument('--count', type=int); ap.add_argument('--jobs', type=int, default=_jobs())
    ap.add_argument('--no-min', action='store_true')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    prop = check.prop
    import tempfile
    check.scratch_root = tempfile.mkdtemp(prefix=f'dst_{prop}_')
    try:
        if a.replay: return _replay(check, a.replay)
        if a.digests: return _digests(check, a.digests, a.jobs)
        return _explore(check, seed, tier, a)
    finally:
        shutil.rmtree(check.scratch_root, ignore_errors=True)


def _replay(check, path):
    with open(path) as f: d = json.load(f)
    r = run_one(check, d['case'])
    if r[0] in ('violation', 'hang'):
        print(f'replayed {r[0]} class={r[1]}: {r[2]}')
        if r[3]: print('digest', r[3]['digest'], 'recorded', d.get('digest'))
        print(f'VIOLATION property={check.prop} replay={path}')
        return 1
    if r[0] == 'ok':
        print('replay: property held'); return 0
    print('replay: harness error\n' + r[1]); return 2


def _digests(check, path, jobs):
    with open(path) as f: cases = json.load(f)
    out = {}
    for tag, _, r in run_many(check, list(enumerate(cases)), jobs):
        out[tag] = [r[0], r[3]['digest'] if r[3] else None]
    print('DIGESTS ' + json.dumps([out.get(i) for i in range(len(cases))]))
    return 0


def _explore(check, seed, tier, a):
    prop = check.prop
    t0 = time.monotonic()
    n = a.count or check.counts[tier]
    cap = (420 if tier == 'quick' else 5400)
    print(f'{prop}: seed={seed} tier={tier} runs={n} jobs={a.jobs}', flush=True)

    known = []
    for k in known_findings(prop):
        r = run_one(check, k['case'])
        if r[0] == 'violation' and r[1] == k['class']:
            known.append(k)
            print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)
        elif r[0] == 'error':
            print('harness error in known finding:\n' + r[1]); return 2

    def gen():
        for i, case in enumerate(getattr(check, 'fixed_cases', lambda: [])()):
            yield f'f{i}', case
        for i in range(n):
            case = check.gen(case_rng(prop, seed, i), i, tier)
            case['_id'] = [prop, seed, i]
            yield i, case

    agg = dict(faults={}, hits={}, meas={}); sims = steps = 0.0
    evals = 0; sigs = set(); errors = []; bad = []; samples = []; digests = {}
    nontrivial = 0
    for tag, case, r in run_many(check, gen(), a.jobs, stop=lambda: bool(bad) or len(errors) > 5, deadline=t0 + cap):
        evals += 1
        if r[0] == 'violation': bad.append((tag, case, r[1], r[2], r[3]))
        elif r[0] == 'hang':
            r2 = run_one(check, case)
            if r2[0] == 'hang': bad.append((tag, case, 'hang', r[1], None))
        elif r[0] == 'error': errors.append((tag, case, r[1]))
        res = r[3]
        if res:
            for k in ('faults', 'hits'):
                for x, c in res[k].items(): agg[k][x] = agg[k].get(x, 0) + c
            for x, v in res['meas'].items(): agg['meas'][x] = max(agg['meas'].get(x, v), v)
            sims += res['sim_seconds']; steps += res['steps']
            if res['sig']:
                nontrivial += 1
                sigs.add(res['sig'])
            digests[tag] = res['digest']
            if len(samples) < 3 and res['sig'] and r[0] == 'ok':
                samples.append({k: v for k, v in case.items() if not k.startswith('_') or k == '_id'})
    wall = time.monotonic() - t0

    # determinism: same cases, fresh interpreter, other hash seed, other worker count
    det = None
    if not bad and not errors:
        det = _determinism(check, seed, tier, digests, a)

    rc = 0
    replay_path = None
    if bad:
        bad.sort(key=lambda b: (isinstance(b[0], int), b[0] if isinstance(b[0], int) else 0))
        tag, case, cls, msg, res = bad[0]
        small, nmin = case, 0
        if not a.no_min and cls != 'hang':
            small, nmin = minimise(check, case, cls, a.jobs)
        r = run_one(check, small)
        if r[0] not in ('violation', 'hang') or (r[0] == 'violation' and r[1] != cls):
            small = case; r = run_one(check, small)
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        replay_path = os.path.join(VERIF, 'replays', f'{prop}-{seed}-{tag}.json')
        with open(replay_path, 'w') as f:
            json.dump(dict(property=prop, seed=seed, index=tag, cls=cls,
                           message=(r[2] if r[0] == 'violation' else msg),
                           digest=r[3]['digest'] if r[3] else None, minimise_runs=nmin, case=small,
                           original_case=case), f, indent=1)
        print(f'{prop}: {cls}: {r[2] if r[0] == "violation" else msg}')
        rc = 1
    elif errors:
        for tag, case, e in errors[:2]: print(f'HARNESS ERROR in run {tag}:\n{e}')
        rc = 2
    elif evals < max(1, n // 8):
        print(f'only {evals} of {n} runs finished within {cap} s'); rc = 2

    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(time.monotonic() - t0, 2),
              violations=len(bad),
              coverage=dict(
                  evaluations=evals, distinct_nontrivial=len(sigs), rule=check.rule,
                  samples=samples or [{'note': 'no non-trivial run'}],
                  seeds_per_hour=int(evals / max(wall, 1e-3) * 3600),
                  nontrivial_runs=nontrivial,
                  simulated_days=round(sims / 86400.0, 3), simulated_steps=int(steps),
                  faults_injected=dict(sorted(agg['faults'].items())), reached=dict(sorted(agg['hits'].items())),
                  measured_max={k: float(f'{v:.4g}') for k, v in sorted(agg['meas'].items())},
                  determinism_selfcheck=det, requested_runs=n, planned_all_ran=bool(evals >= n),
                  known_findings_reported=[k['what'] for k in known],
                  real_components=check.real, stubbed_components=check.stub,
                  harness_errors=len(errors)),
              assumptions=check.assumptions)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    print(f'{prop}: {evals} runs, {len(sigs)} distinct non-trivial, {steps:.0f} steps, {sims/86400:.0f} simulated days, '
          f'{wall:.1f} s; faults {agg["faults"]}; reached {agg["hits"]}; max {({k: float(f"{v:.3g}") for k, v in agg["meas"].items()})}; '
          f'determinism {det}', flush=True)
    if rc == 1: print(f'VIOLATION property={prop} replay={replay_path}', flush=True)
    return rc


def _determinism(check, seed, tier, digests, a):
    import subprocess
    k = check.det_sample[tier]
    idx = [i for i in sorted(t for t in digests if isinstance(t, int))][:k]
    if not idx: return None
    cases = [check.gen(case_rng(check.prop, seed, i), i, tier) for i in idx]
    path = os.path.join(check.scratch_root, 'det.json')
    with open(path, 'w') as f: json.dump(cases, f)
    env = dict(os.environ, PYTHONHASHSEED=str(1000 + seed % 97))
    pr = subprocess.run([sys.executable, os.path.join(VERIF, 'dst', 'check.py'), check.prop, '--digests', path, '--jobs', str(max(1, a.jobs - 3))],
                        env=env, capture_output=True, text=True)
    line = [l for l in pr.stdout.splitlines() if l.startswith('DIGESTS ')]
    if not line: return dict(runs=0, note='re-run failed', err=pr.stderr[-400:])
    ds = json.loads(line[0][8:])
    same = sum(1 for i, d in zip(idx, ds) if d and d[1] == digests[i])
    return dict(runs=len(idx), identical=same, other_hashseed=True, fresh_interpreter=True, other_worker_count=True)
