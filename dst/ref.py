"""Independent float64 reference model of one IMPES step (dense, cell/face lists, no torch).

Written from the documented scheme: implicit pressure with total mobility upwinded by the old pressure,
explicit saturations with phase-potential upwinding, Corey/Stone II relative permeability, black-oil table,
wells by rate / surface rate / BHP with availability choke and surface limits.
"""
import copy, math
import numpy as np
from world import coords, control, rock

G = 9.81
EPS32 = 1.1920929e-07
MD = 9.869233e-16


class Ref:
    def __init__(self, world):
        """Geometry, rock, fluid and wells are taken from the world description, nothing from the simulator."""
        self.w = world
        self.nx, self.ny, self.nz = world['dims']
        self.dx, self.dy, self.dz = [float(np.float32(v)) for v in world['grid']]
        sh = tuple(world['dims'])
        self.shape, self.N = sh, sh[0] * sh[1] * sh[2]
        k, phi = rock(world)
        kx, ky, kz = (v.reshape(-1) for v in k)
        self.PV = self.dx * self.dy * self.dz * phi.reshape(-1)
        idx = np.arange(self.N).reshape(sh)
        fa, fb, ft, fd = [], [], [], []
        area = [self.dy * self.dz / self.dx, self.dx * self.dz / self.dy, self.dx * self.dy / self.dz]
        for ax, k in enumerate((kx, ky, kz)):
            a = np.take(idx, range(sh[ax] - 1), axis=ax).reshape(-1)
            b = np.take(idx, range(1, sh[ax]), axis=ax).reshape(-1)
            fa.append(a); fb.append(b); fd.append(np.full(a.size, ax))
            ft.append(2 * k[a] * k[b] / (k[a] + k[b] + 1e-30) * area[ax])
        self.fa, self.fb, self.ft, self.fd = map(np.concatenate, (fa, fb, ft, fd))
        self.kx = kx
        f = world['fluid']
        self.mu = dict(o=f.get('mu_oil', 1.0) * 1e-3, w=f.get('mu_water', 0.5) * 1e-3, g=f.get('mu_gas', 0.02) * 1e-3)
        self.rho0 = dict(o=f.get('rho_oil', 850.0), w=f.get('rho_water', 1000.0), g=f.get('rho_gas', 1.0))
        self.c = dict(o=f.get('c_oil', 1e-5) / 1e6, w=f.get('c_water', 1e-5) / 1e6, g=f.get('c_gas', 1e-3) / 1e6, r=f.get('c_rock', 1e-5) / 1e6)
        rp = f.get('relative_permeability', {})
        self.rp = rp
        self.sw_cr, self.so_r, self.sg_cr = rp.get('sw_cr', 0.2), rp.get('so_r', 0.2), rp.get('sg_cr', 0.0)
        self.nw, self.no, self.ng = rp.get('nw', 2), rp.get('no', 2), rp.get('ng', 2)
        cp = f.get('capillary_pressure', {})
        self.pcs, self.pce = cp.get('pc_scale', 0.0), cp.get('pc_exponent', 1.5)
        cg = f.get('capillary_pressure_og', {})
        self.pgs, self.pge = cg.get('pc_scale', 0.0), cg.get('pc_exponent', 1.5)
        self.pvt = world.get('pvt')
        self.wells = copy.deepcopy(world['wells'])

    # -- fluid
    def tab(self, p, key):
        t = self.pvt
        if key == 'Rv_m3m3' and key not in t: return np.zeros_like(p)
        return np.interp(p / 1e6, t['pressure_MPa'], t[key])

    def visc(self, P):
        if self.pvt: return {a: self.tab(P, f'mu_{a}_cP') * 1e-3 for a in 'owg'}
        return {a: np.full(self.N, self.mu[a]) for a in 'owg'}

    def rho(self, P):
        r = self.rho0
        if not self.pvt: return {a: r[a] * (1 + self.c[a] * (P - 1e5)) for a in 'owg'}
        return dict(w=r['w'] / self.tab(P, 'Bw'), o=(r['o'] + self.tab(P, 'Rs_m3m3') * r['g']) / self.tab(P, 'Bo'),
                    g=(r['g'] + self.tab(P, 'Rv_m3m3') * r['o']) / self.tab(P, 'Bg'))

    def ct(self, P, sw, sg):
        if not self.pvt: return np.full(self.N, (self.c['o'] + self.c['w'] + self.c['g'] + self.c['r']) / 3)
        def comp(key):
            b = self.tab(P, key); d = (self.tab(P + 1e5, key) - self.tab(P - 1e5, key)) / 2e5
            return -d / b
        return self.c['r'] + sw * comp('Bw') + (1 - sw - sg) * comp('Bo') + sg * comp('Bg')

    def kr(self, sw, sg):
        dn = 1 - self.sw_cr - self.so_r
        s = np.clip((sw - self.sw_cr) / dn, 0, 1)
        krw = self.rp.get('krw_end', 1.0) * s ** self.nw
        if self.rp.get('model') == 'stone2':
            a, b = self.rp.get('ko_end_w', 1.0), self.rp.get('ko_end_g', 1.0)
            sgn = np.clip((sg - self.sg_cr) / (1 - self.sg_cr - self.so_r), 0, 1)
            kro = np.maximum(a * (1 - s) ** self.rp.get('now', float(self.no)) + b * (1 - sgn) ** self.rp.get('nog', float(self.ng)) - min(a, b), 0)
        else: kro = (1 - s) ** self.no
        krg = self.rp.get('krg_end', 1.0) * np.clip((sg - self.sg_cr) / (dn - self.sg_cr), 0, 1) ** self.ng
        return dict(o=kro, w=krw, g=krg)

    def mob(self, P, sw, sg, do=0.0):
        """do: shift of kro in units of its float32 rounding, which in Stone II is absolute (difference of numbers of order one)."""
        k, m = self.kr(sw, sg), self.visc(P)
        if do and self.rp.get('model') == 'stone2': k['o'] = np.maximum(k['o'] + 3e-7 * do, 0)
        d = {a: k[a] / m[a] for a in 'owg'}
        d['t'] = d['o'] + d['w'] + d['g']
        return d

    def wi(self, w):
        i, j, k = coords(w)
        c = (i * self.ny + j) * self.nz + k
        ro = 0.14 * math.hypot(self.dx, self.dy)
        return 2 * math.pi * self.kx[c] * self.dz / math.log(ro / w['radius'])

    def cell(self, w):
        i, j, k = coords(w)
        return (i * self.ny + j) * self.nz + k

    # -- pressure
    def pressure_system(self, P, sw, sg, dt, values=None):
        """Returns diag, face transmissibilities, rhs, and for every well its mode."""
        m = self.mob(P, sw, sg)
        up = np.where(P[self.fa] - P[self.fb] > 0, self.fa, self.fb)
        T = self.ft * m['t'][up]
        acc = self.PV * self.ct(P, sw, sg) / dt
        diag = acc.copy()
        np.add.at(diag, self.fa, T); np.add.at(diag, self.fb, T)
        b = acc * P
        mag = np.abs(b)
        ze = self.fd == 2
        if self.nz > 1:
            rho = self.rho(P)
            a_, b_, u_ = self.fa[ze], self.fb[ze], up[ze]
            fl = self.ft[ze] * G * self.dz * sum(m[x][u_] * rho[x][u_] for x in 'owg')
            np.add.at(b, a_, -fl); np.add.at(b, b_, fl)
            np.add.at(mag, a_, fl); np.add.at(mag, b_, fl)
        if self.pcs > 0:
            s = np.clip((sw - self.sw_cr) / (1 - self.sw_cr - self.so_r), 0, 1)
            pc = self.pcs * (1 - s + 1e-6) ** (-self.pce)
            fl = self.ft * m['o'][up] * (pc[self.fb] - pc[self.fa])
            np.add.at(b, self.fb, fl); np.add.at(b, self.fa, -fl)
            # the curve is singular at the end point: rounding of s is amplified by d(ln pc)/ds
            pcn = np.abs(pc) * (1 + self.pce * 4 / (1 - s + 1e-6))
            big = self.ft * m['o'][up] * (pcn[self.fb] + pcn[self.fa])
            np.add.at(mag, self.fb, big); np.add.at(mag, self.fa, big)
        modes = []
        scale = float(self.w['sim'].get('global_rate_scale', 1.0))
        for n, w in enumerate(self.wells):
            c = self.cell(w); ty, val = control(w)
            if values: val = values[n]
            if ty == 'bhp':
                t = self.wi(w) * m['t'][c]
                diag[c] += t; b[c] += t * val * 1e6; modes.append('bhp'); mag[c] += abs(t * val * 1e6)
                continue
            q = val * scale / 86400.0
            if w['type'] == 'producer' and w.get('bhp_min') is not None:
                t = self.wi(w) * m['t'][c]; pm = w['bhp_min'] * 1e6
                margin = (P[c] - q / max(t, 1e-30)) - pm
                modes.append('switch?' if abs(margin) < 1e-4 * (abs(P[c]) + q / max(t, 1e-30)) else ('bhp' if margin < 0 else 'rate'))
                if margin < 0:
                    if P[c] > pm: diag[c] += t; b[c] += t * pm
                    continue
            else: modes.append('rate')
            b[c] += q if w['type'] == 'injector' else -q
        return dict(T=T, diag=diag, b=b, acc=acc, mag=mag, modes=modes, up=up, m=m)

    def residual(self, sy, P):
        r = sy['diag'] * P - sy['b']
        np.add.at(r, self.fa, -sy['T'] * P[self.fb]); np.add.at(r, self.fb, -sy['T'] * P[self.fa])
        return r

    def dense(self, sy):
        A = np.diag(sy['diag'])
        np.add.at(A, (self.fa, self.fb), -sy['T']); np.add.at(A, (self.fb, self.fa), -sy['T'])
        return A

    # -- saturation (explicit, given the new pressure)
    def transport(self, P, Pprev_unused, sw, sg, dt, modes, values=None):
        m = self.mob(P, sw, sg)
        fa, fb = self.fa, self.fb
        dp = P[fa] - P[fb]
        potw, potg = dp.copy(), dp.copy()
        ze = self.fd == 2
        if self.nz > 1:
            rho = self.rho(P)
            potw[ze] += G * self.dz * 0.5 * (rho['w'][fa[ze]] + rho['w'][fb[ze]])
            potg[ze] += G * self.dz * 0.5 * (rho['g'][fa[ze]] + rho['g'][fb[ze]])
        if self.pgs > 0:
            sgn = np.clip(sg / (1 - self.sw_cr - self.so_r), 0, 1)
            pcg = self.pgs * (1 - sgn + 1e-6) ** (-self.pge)
            potg = potg - (pcg[fb] - pcg[fa])
            pcgn = np.abs(pcg) * (1 + self.pge * 4 / (1 - sgn + 1e-6))
            extra = pcgn[fa] + pcgn[fb]
        else: extra = 0.0
        out = {}
        mag = {}
        noise = {}
        for a, pot in (('w', potw), ('g', potg)):
            upc = np.where(pot > 0, fa, fb)
            fl = self.ft * m[a][upc] * pot
            d = np.zeros(self.N); g = np.zeros(self.N)
            np.add.at(d, fa, fl); np.add.at(d, fb, -fl)
            np.add.at(g, fa, np.abs(fl)); np.add.at(g, fb, np.abs(fl))
            # rounding of the potential (difference of terms of size |P|, gravity head, capillary pressure)
            size = np.abs(dp) + np.abs(pot - dp) + 1.0 + (extra if a == 'g' else 0.0)
            err = self.ft * np.maximum(m[a][fa], m[a][fb]) * size
            e = np.zeros(self.N); np.add.at(e, fa, err); np.add.at(e, fb, err)
            out[a], mag[a], noise[a] = d, g, e
        self.flux_mag = mag
        qs, info = self.well_sources(P, sw, sg, dt, m, modes, values)
        dSw = dt / self.PV * (qs['w'] - out['w']); dSg = dt / self.PV * (qs['g'] - out['g'])
        tol = {a: dt / self.PV * (16 * EPS32 * noise[a] + 16 * EPS32 * np.abs(qs[a]) + self.qnoise) + 4 * EPS32 for a in 'wg'}
        return dSw, dSg, tol, qs, info, m

    def well_sources(self, P, sw, sg, dt, m, modes, values=None):
        q = {a: np.zeros(self.N) for a in 'wgo'}
        info = []
        self.qnoise = np.zeros(self.N)   # a drawdown is a difference of two float32 pressures
        self.ill = False          # the outcome hinges on the last bit of a saturation at its end point
        scale = float(self.w['sim'].get('global_rate_scale', 1.0))
        for n, w in enumerate(self.wells):
            c = self.cell(w); ty, val = control(w)
            if values: val = values[n]
            if ty == 'bhp' or modes[n] == 'bhp': self.qnoise[c] += 2 * EPS32 * self.wi(w) * m['t'][c] * abs(P[c])
            inj = w['type'] == 'injector'
            fr = {a: m[a][c] / (m['t'][c] + 1e-10) for a in 'owg'}
            pv = self.PV[c]
            B = None
            if self.pvt:
                B = {k: float(self.tab(P[c:c + 1], k)[0]) for k in ('Bo', 'Bw', 'Bg', 'Rs_m3m3', 'Rv_m3m3')}
            d = dict(name=w['name'], oil_in=0.0, gas_in=0.0, oil_out=0.0, gas_out=0.0, rates=None, q=None, mode=modes[n])
            gas = w.get('injected_phase', 'water') == 'gas'
            up_w = max(0.0, 1 - self.so_r - sg[c] - sw[c]); up_g = up_w
            if ty == 'bhp':
                Q = self.wi(w) * m['t'][c] * (val * 1e6 - P[c])       # into the reservoir
                if inj: q['g' if gas else 'w'][c] += Q
                else:
                    for a in 'owg': q[a][c] += Q * fr[a]
            else:
                Q = val * scale / 86400.0
                surf = w.get('rate_type', 'reservoir') == 'surface' and self.pvt
                if inj:
                    if surf: Q *= B['Bg'] if gas else B['Bw']
                    room = up_g if gas else up_w
                    want = dt / max(pv, 1e-12) * Q
                    if want > 0: Q *= max(0.0, min(1.0, room / max(want, 1e-12)))
                    q['g' if gas else 'w'][c] += Q
                else:
                    if surf:
                        den = self.den(fr, B)
                        sp = (w.get('surface_phase') or 'liquid').lower()
                        if sp == 'water': Q = Q * B['Bw'] / max(fr['w'], 1e-8)
                        else: Q = Q / max(den[sp if sp in ('oil', 'gas') else 'liquid'], 1e-12)
                    if modes[n] == 'bhp': Q = min(Q, max(self.wi(w) * m['t'][c] * (P[c] - w['bhp_min'] * 1e6), 0.0))
                    if self.pvt:
                        a = 1.0
                        if abs(sg[c] - self.sg_cr) < 2e-5 and self.sg_cr > 0 or abs(sw[c] - self.sw_cr) < 2e-5: self.ill = True
                        ww, wg = dt / max(pv, 1e-12) * Q * fr['w'], dt / max(pv, 1e-12) * Q * fr['g']
                        a = min(a, max(0.0, sw[c] - self.sw_cr) / max(ww, 1e-12))
                        a = min(a, max(0.0, sg[c] - self.sg_cr) / max(wg, 1e-12))
                        Q *= max(0.0, min(1.0, a))
                        den = self.den(fr, B)
                        for key, ph in (('wopr', 'oil'), ('wlpr', 'water'), ('wgpr', 'gas'), ('liqr', 'liquid')):
                            L = (w.get('limits') or {}).get(key)
                            if L is not None and den[ph] > 0: Q = min(Q, L / 86400.0 / den[ph])
                        d['rates'] = {ph: Q * den[ph] * 86400.0 for ph in ('oil', 'water', 'gas', 'liquid')}
                        d['q'] = -Q
                    for a in 'owg': q[a][c] -= Q * fr[a]
                    Q = -Q
            d['Q'] = Q
            if self.pvt:
                # a well flowing against its type counts in the direction of its flow
                if inj and gas:
                    s = abs(Q) / max(B['Bg'], 1e-12) * dt
                    io = 'in' if Q >= 0 else 'out'
                    d['gas_' + io], d['oil_' + io] = s, s * B['Rv_m3m3']
                elif not inj:
                    den = self.den(fr, B)
                    io = 'out' if Q <= 0 or ty == 'rate' else 'in'
                    d['oil_' + io], d['gas_' + io] = abs(Q) * den['oil'] * dt, abs(Q) * den['gas'] * dt
            info.append(d)
        return q, info

    @staticmethod
    def den(fr, B):
        o = fr['o'] / B['Bo'] + fr['g'] * B['Rv_m3m3'] / B['Bg']
        g = fr['g'] / B['Bg'] + fr['o'] * B['Rs_m3m3'] / B['Bo']
        w = fr['w'] / B['Bw']
        return dict(oil=o, gas=g, water=w, liquid=o + w)
