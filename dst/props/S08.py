"""AMG: a reported solution is a solution, whatever happened before in the process."""
from props.common import *


def gen_sys(r, dims=None):
    if dims is None:
        d = r.choice([[1, 1, 1], [2, 1, 1], [3, 4, 1], [4, 3, 1], [2, 6, 1], [12, 1, 1], [5, 5, 5], [8, 8, 1], [4, 4, 4], [16, 4, 1],
                      [6, 6, 4], [12, 12, 1], [3, 3, 16], [250, 1, 1], [9, 8, 4], [r.randint(1, 9), r.randint(1, 9), r.randint(1, 5)]])
    else: d = dims
    return dict(dims=d, seed=r.randrange(1 << 30), contrast=r.choice([0, 0.5, 2, 4]), acc=10 ** r.uniform(-4, 1) if r.random() < 0.8 else 30.0,
                scale=10 ** r.choice([0, 0, -3, -9, -12, -18, 4]), aniso=r.choice([1, 1, 10, 0.01]), barrier=r.random() < 0.15,
                rhs=r.choice(['random', 'smooth', 'point', 'pressure', 'zero'] if r.random() < 0.2 else ['random', 'smooth', 'point', 'pressure']))


def make(s):
    """Dense SPD matrix of an implicit flow problem and a right-hand side."""
    rs = np.random.RandomState(s['seed'])
    nx, ny, nz = s['dims']; N = nx * ny * nz
    k = np.exp(s['contrast'] * rs.randn(nx, ny, nz))
    if s['barrier']:
        ax = int(np.argmax(s['dims'])); sl = [slice(None)] * 3; sl[ax] = s['dims'][ax] // 2
        k[tuple(sl)] *= 1e-9
    idx = np.arange(N).reshape(nx, ny, nz)
    A = np.zeros((N, N)); T = 0.0
    for ax, f in ((0, 1.0), (1, s['aniso']), (2, 0.1)):
        a = np.take(idx, range(s['dims'][ax] - 1), axis=ax).reshape(-1); b = np.take(idx, range(1, s['dims'][ax]), axis=ax).reshape(-1)
        ka, kb = k.reshape(-1)[a], k.reshape(-1)[b]
        t = f * 2 * ka * kb / (ka + kb)
        A[a, b] -= t; A[b, a] -= t; np.add.at(A, (a, a), t); np.add.at(A, (b, b), t)
    acc = s['acc'] * np.exp(0.3 * rs.randn(N))
    A[np.arange(N), np.arange(N)] += acc
    A *= s['scale']
    x = rs.randn(N)
    if s['rhs'] == 'random': b = rs.randn(N) * s['scale']
    elif s['rhs'] == 'smooth': b = A @ np.linspace(1, 2, N)
    elif s['rhs'] == 'point': b = np.zeros(N); b[rs.randint(N)] = s['scale']
    elif s['rhs'] == 'zero': b = np.zeros(N)
    else: b = A @ (2e7 + 1e5 * x)
    return A, b


class S08(Check):
    prop = 'S08'
    counts = dict(quick=900, thorough=20000)
    rule = ('a run is a history of 2-8 AMG solves in one process, through amg_solve or through a solver object of its own with initial guesses and refreshed matrices (different pressure-like matrices of equal or other sizes, solver parameters, tolerances, cycle budgets, '
            'input layouts and precisions, random tie-breaking, cache kept or cleared) in which some solves are interrupted by an exception or allocation failure at a seeded operation; '
            'every solve that returns is judged against its own matrix: claimed convergence means a finite vector whose residual, recomputed in float64, meets the tolerance; '
            'non-trivial = a solve hit the hierarchy built by an earlier one; distinct = sequence of (size, parameters, outcome)')
    real = ['amg_solve', 'ClassicalAMG (coarsening, interpolation, Galerkin product, smoothing, V-cycle)', 'hierarchy cache']
    stub = ['none: matrices are generated, the solver is called directly']

    def gen(self, r, i, tier):
        ops = []
        base = gen_sys(r)
        par = lambda: dict(theta=r.choice([0.25, 0.25, 0.5, 0.1, 0.9]), coarsest_size=r.choice([200, 4, 16, 64, 1]), max_levels=r.choice([10, 10, 2, 3, 1]))
        P = par()
        for _ in range(r.randint(2, 8)):
            x = r.random()
            if x < 0.4: s = gen_sys(r, base['dims'])
            elif x < 0.55: s = gen_sys(r, sorted(base['dims'], reverse=r.random() < 0.5))
            elif x < 0.65: s = dict(base)
            else: s = gen_sys(r)
            if r.random() < 0.3: P = par()
            op = dict(sys=s, par=dict(P), tol=r.choice([1e-6, 1e-6, 1e-3, 1e-9]), cycles=r.choice([20, 20, 60, 5, 1, 0]),
                      layout=r.choice(['coo', 'coo', 'csr', 'uncoalesced']), dtype=r.choice(['f8', 'f8', 'f4']))
            if r.random() < 0.15: op['rng'] = r.randrange(1 << 30)
            if r.random() < 0.05: op['clear'] = True
            if r.random() < 0.15: op['direct'] = r.choice([None, 'zero', 'random', 'near', 'exact'])          # a solver object of its own, started from a guess
            elif r.random() < 0.04: op['prec'] = True
            if r.random() < 0.2: op['fault'] = dict(kind=r.choice(['line', 'oom', 'interrupt']), n=int(10 ** r.uniform(0, 3.3)))
            ops.append(op)
        return dict(ops=ops, tseed=r.randrange(1 << 30), _shrink=['ops'])

    @staticmethod
    def direct(solvers, key, At, bt, bd, Ad, op):
        torch = M.torch
        C = M.amg.ClassicalAMG
        Ac = At if At.layout == torch.sparse_csr else At.coalesce().to_sparse_csr()
        Ac = torch.sparse_csr_tensor(Ac.crow_indices(), Ac.col_indices(), Ac.values().double(), size=Ac.size())
        if key in solvers: call(solvers[key].update_matrix, Ac)
        else: solvers[key] = call(C, Ac, **op['par'])
        rs = np.random.RandomState(op['sys']['seed'])
        g = op['direct']
        x = np.linalg.solve(Ad, bd) if g in ('near', 'exact') else None
        x0 = None if g is None else dict(zero=np.zeros(len(bd)), random=rs.randn(len(bd)) * (1 + np.abs(bd).max() / np.abs(np.diag(Ad)).max())).get(g) if x is None else x * (1 + 1e-3 * rs.randn(len(bd))) if g == 'near' else x
        t0 = None if x0 is None else torch.tensor(x0)
        keep = None if t0 is None else t0.clone()
        b64 = bt.double(); bk = b64.clone()
        y = call(solvers[key].solve, b64, x0=t0, tol=op['tol'], max_iter=op['cycles'])
        need(torch.equal(b64, bk) and (t0 is None or torch.equal(t0, keep)), 'argument', lambda: f'the solver changed its {"right-hand side" if not torch.equal(b64, bk) else "initial guess"} argument')
        return y.to(bt.dtype), solvers[key].last_converged

    def run(self, case, p):
        torch = M.torch
        torch.manual_seed(case['tseed'])
        hist = []
        seen, solvers = set(), {}
        for n, op in enumerate(case['ops']):
            A, b = make(op['sys']); N = len(b)
            if op.get('rng') is not None: torch.manual_seed(op['rng'])
            if op.get('clear') and hasattr(M.amg, '_AMG_CACHE'): M.amg._AMG_CACHE.clear()
            f4 = op['dtype'] == 'f4'
            td = torch.float32 if f4 else torch.float64
            ii, jj = np.nonzero(A)
            v = A[ii, jj]
            if f4: v = v.astype(np.float32)
            if op['layout'] == 'uncoalesced':
                h = (v * 0.5).astype(v.dtype)
                ii, jj, v = np.concatenate([ii, ii]), np.concatenate([jj, jj]), np.concatenate([h, h])
            At = torch.sparse_coo_tensor(torch.tensor(np.stack([ii, jj])), torch.tensor(v), (N, N), dtype=td)
            if op['layout'] == 'csr': At = At.coalesce().to_sparse_csr()
            bt = torch.tensor(b, dtype=td)
            Ad = At.to_dense().double().numpy(); bd = bt.double().numpy()
            key = (N, tuple(sorted(op['par'].items())))
            hit = key in seen
            f = op.get('fault')
            if op.get('prec'):                      # an AMG preconditioner built in between is nobody else's business
                try: M.amg.amg_preconditioner(At, device='cpu', **{k: v for k, v in op['par'].items()})
                except RuntimeError: pass
                hist.append((N, 'prec'))
            own = 'direct' in op
            if own: hit = key in solvers
            args = dict(tol=op['tol'], max_cycles=op['cycles'], device='cpu', return_converged=True, **op['par'])
            try:
                if f:
                    if f['kind'] == 'oom':
                        with op_bomb(f['n'], seams.InjectedMemoryError('injected')): x, conv = M.amg.amg_solve(At, bt, **args)
                    else:
                        e = seams.InjectedInterrupt('injected') if f['kind'] == 'interrupt' else seams.InjectedError('injected')
                        with LineBomb(f['n'], e, root='amg_solve', depth=0): x, conv = M.amg.amg_solve(At, bt, **args)
                elif own: x, conv = self.direct(solvers, key, At, bt, bd, Ad, op)
                else: x, conv = call(M.amg.amg_solve, At, bt, **args)
            except seams.INJECTED as e:
                p.fault('solve_interrupted.' + f['kind']); hist.append((N, 'interrupted')); continue
            except Violation: raise
            except Exception as e:
                if not f: raise Violation('raised', f'solve {n}: {type(e).__name__}: {e}')
                p.fault('solve_interrupted.' + f['kind'] + '.wrapped'); continue       # an injected failure may surface as another error
            if not own or f: seen.add(key)
            else: p.hit('own_object')
            p.steps += 1
            need(tuple(x.shape) == (N,) and x.dtype == td, 'shape', f'solve {n}: returned {tuple(x.shape)} {x.dtype}')
            xd = x.double().numpy()
            p.log(x, conv)
            conv = bool(conv)
            hist.append((N, op['par']['coarsest_size'], op['cycles'], conv))
            p.hit('converged' if conv else 'not_converged')
            if hit: p.hit('reused_hierarchy')
            dg = np.abs(np.diag(Ad))
            if conv:
                need(finite(xd), 'nonfinite', f'solve {n}: converged with non-finite entries')
                r = Ad @ xd - bd
                mag = np.abs(Ad) @ np.abs(xd)
                eps = (RF.EPS32 if f4 else 0) + 1e-13
                plain = np.linalg.norm(r) - eps * np.linalg.norm(mag)
                s = 1 / np.sqrt(dg)
                scaled = np.linalg.norm(s * r) - eps * np.linalg.norm(s * mag)
                ok = plain <= 1.1 * op['tol'] * np.linalg.norm(bd) + 1e-300 or scaled <= 1.1 * op['tol'] * np.linalg.norm(s * bd) + 1e-300
                q = min(plain / (op['tol'] * np.linalg.norm(bd) + 1e-300), scaled / (op['tol'] * np.linalg.norm(s * bd) + 1e-300))
                p.measure('residual/tol', q)
                need(ok, 'false-convergence', lambda: f'solve {n} (N={N}, {op["par"]}, history {hist}): reported converged, residual is {q:.3g} times the tolerance {op["tol"]}')
            off = np.sum(np.abs(Ad), axis=1) - dg
            if op['cycles'] >= 20 and op['tol'] >= 1e-6 and np.all(dg >= 4 * off) and (dg.max() < 1e-6 or dg.min() >= 0.02) and not (f4 and op['sys']['scale'] < 1e-15):
                p.hit('easy_system')
                need(conv, 'no-progress', lambda: f'solve {n} (N={N}, {op["par"]}, history {hist}): strongly dominant system not solved in {op["cycles"]} cycles')
        if any(h for h in hist) and p.hits.get('reused_hierarchy'): p.sign(hist)


CHECK = S08()
