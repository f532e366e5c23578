"""Plants a bug: plant.py FILE where FILE defines BUGS = {id: dict(property, edits=[(file, old, new[, nth])], demo, needs, breaks)}.
Each is tried in a scratch copy of /repo (build checks, the 16 stable tests, demo both ways, patch touches an original line) and, if
all is well, written to /verif/seeded/<id>/.  `plant.py --recheck [id..]` re-validates what is there against the current /repo."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R, BASE, PY = '/repo', 'c4d65e2', '/opt/venv/bin/python'
PRELUDE = '''import os, sys, tempfile, shutil, io, contextlib, atexit, json, copy
REPO = os.getcwd(); HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(REPO, 'src'))
sys.dont_write_bytecode = True
SCRATCH = tempfile.mkdtemp(prefix='demo_'); atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True)); os.chdir(SCRATCH)
import torch, numpy as np
torch.set_num_threads(1)
DAY = 86400.0


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()): return f(*a, **k)


def make(res=None, fluid=None, wells=(), sim=None, perm=None):
    """A simulator; perm: function (i,j,k) -> factor on the permeability of a cell."""
    from simulator.reservoir import Reservoir
    from simulator.fluid import Fluid
    from simulator.well import WellManager
    from simulator.simulation import Simulator
    dev = torch.device('cpu')

    def go():
        r = Reservoir(dict(dict(dimensions=[5, 1, 1], grid_size=[20.0, 20.0, 5.0], porosity=0.2, permeability=100.0), **(res or {})), dev)
        if perm:
            for i in range(r.nx):
                for j in range(r.ny):
                    for k in range(r.nz):
                        for t in (r.permeability_x, r.permeability_y, r.permeability_z): t[i, j, k] *= perm(i, j, k)
        w = WellManager([dict(dict(radius=0.1), **x) for x in wells], r)
        f = Fluid(dict(dict(pressure=20.0, s_w=0.3, s_g=0.0), **(fluid or {})), r, dev)
        return Simulator(r, f, w, dict(dict(solver_type='impes', time_step_days=1.0), **(sim or {})), dev)
    return quiet(go)


def step(S, days): return quiet(S.run_step, days * DAY)


def state(S):
    f = S.fluid
    return [x.detach().numpy().copy() for x in (f.pressure, f.s_w, f.s_g, f.s_o)]


def same(a, b): return all(np.array_equal(x, y) for x, y in zip(a, b))


def pvt(**cols):
    P = [5.0, 10.0, 15.0, 20.0, 25.0, 30.0, 40.0]
    t = dict(pressure_MPa=P, Bo=[1.18 + 0.004 * p for p in P], Bw=[1.03 - 0.0005 * p for p in P], Bg=[0.12 / p for p in P], mu_o_cP=[2.0 - 0.02 * p for p in P], mu_w_cP=[0.5] * len(P),
             mu_g_cP=[0.015 + 0.0003 * p for p in P], Rs_m3m3=[3.0 * p for p in P], Rv_m3m3=[0.0002 * p for p in P])
    t.update(cols)
    json.dump(t, open('pvt.json', 'w')); return os.path.abspath('pvt.json')


def check(ok, what):
    if not ok: print('BROKEN:', what); sys.exit(1)
    print('ok:', what)


'''
SH = '#!/bin/bash\n# run with cwd = the repository; exit 0: property holds\nexport MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=2 PYTHONDONTWRITEBYTECODE=1\nunset OILSIM_SIM_HOOKS\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
ENV = dict(os.environ, MPLBACKEND='Agg', CUDA_VISIBLE_DEVICES='', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='4')


def sh(*a, cwd=None, **k): return subprocess.run(a, cwd=cwd, capture_output=True, text=True, env=ENV, **k)


def fresh(root):
    d = os.path.join(root, 'repo')
    shutil.rmtree(d, ignore_errors=True)
    sh('git', 'clone', '-q', R, d)
    return d


def tests(d):
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    r = sh(PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-rA', 'tests', cwd=d)
    ok = {l.split()[1].replace('/', '.').replace('.py::', '::') for l in r.stdout.splitlines() if l.startswith('PASSED')}
    return base - ok


def original(d):
    """True if a removed line of the working-tree diff comes from the base commit."""
    for f in sh('git', 'diff', '--name-only', cwd=d).stdout.split():
        if f.startswith('tests'): return False
        for h in sh('git', 'diff', '-U0', f, cwd=d).stdout.splitlines():
            if not h.startswith('@@'): continue
            a = h.split()[1][1:].split(',')
            n = int(a[1]) if len(a) > 1 else 1
            if not n: continue
            bl = sh('git', 'blame', '-s', '-l', '-L', f'{a[0]},+{n}', 'HEAD', '--', f, cwd=d).stdout
            if any(l.lstrip('^').startswith(sh('git', 'rev-parse', BASE, cwd=d).stdout.strip()[:30]) for l in bl.splitlines()): return True
    return False


def demo(dirn, d): return sh('bash', os.path.join(dirn, 'demo.sh'), cwd=d, timeout=300)


def try_bug(k, b, root):
    d = fresh(root)
    for e in b['edits']:
        p = os.path.join(d, e[0]); s = open(p, encoding='utf-8').read()
        parts = s.split(e[1])
        if len(parts) < 2: return f'text not found in {e[0]}: {e[1][:60]!r}'
        if len(parts) > 2 and len(e) < 4: return f'text occurs {len(parts) - 1} times: {e[1][:60]!r}'
        n = e[3] if len(e) > 3 else 0
        if n == 'all': s = e[2].join(parts)
        else: s = e[1].join(parts[:n + 1]) + e[2] + e[1].join(parts[n + 1:])
        open(p, 'w', encoding='utf-8').write(s)
    patch = sh('git', 'diff', cwd=d).stdout
    if not original(d): return 'touches no original line'
    t = os.path.join(root, 'seed'); shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    open(t + '/patch.diff', 'w').write(patch); open(t + '/demo.py', 'w').write(PRELUDE + b['demo'].lstrip('\n')); open(t + '/demo.sh', 'w').write(SH); os.chmod(t + '/demo.sh', 0o755)
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(t + '/meta.json', 'w'), indent=1, ensure_ascii=False)
    r = validate(t, root)
    if r: return r
    out = os.path.join(V, 'seeded', k); shutil.rmtree(out, ignore_errors=True); shutil.copytree(t, out)
    return None


def validate(t, root):
    d = fresh(root)
    r = demo(t, d)
    if r.returncode: return 'demo fails on the unchanged tree: ' + (r.stdout + r.stderr)[-1500:]
    a = sh('git', 'apply', os.path.join(t, 'patch.diff'), cwd=d)
    if a.returncode: return 'patch: ' + a.stderr
    r = demo(t, d)
    if not r.returncode: return 'demo passes with the patch: ' + (r.stdout + r.stderr)[-800:]
    print('   demo:', (r.stdout + r.stderr).strip().splitlines()[-1][:200])
    miss = tests(d)
    if miss: return f'tests fail: {sorted(miss)}'


if __name__ == '__main__':
    root = tempfile.mkdtemp(prefix='plant_')
    try:
        if sys.argv[1] == '--recheck':
            for k in sys.argv[2:] or sorted(os.listdir(V + '/seeded')): print(k, validate(os.path.join(V, 'seeded', k), root) or 'ok', flush=True)
        else:
            bugs = runpy.run_path(sys.argv[1])['BUGS']
            for k in sys.argv[2:] or bugs: print(k, try_bug(k, bugs[k], root) or 'ok', flush=True)
    finally: shutil.rmtree(root, ignore_errors=True)
