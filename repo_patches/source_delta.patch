From 535b6f62f4f064f9c6d6f4f7675752d8211af347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 01/45] fix: AMG coarse-level solve no longer replaces the
 first unknown by zero

The coarsest level pinned x[0]=0 even for nonsingular matrices, so the V-cycle
solved a different system (first cell pressure ~0 Pa on small grids).
---
 src/solver/classical_amg.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/solver/classical_amg.py b/src/solver/classical_amg.py
index 95b7078..20ece1e 100644
--- a/src/solver/classical_amg.py
+++ b/src/solver/classical_amg.py
@@ -1043,27 +1043,26 @@ class ClassicalAMG:
             print(f"  [V-CYCLE L{lvl}] ВХОД: ||x||={x.norm():.3e}, ||b||={b.norm():.3e}, n={level['n']}")
         
         if level['is_coarsest']:
-            # Прямое решение на coarsest уровне (фиксируем первую степень свободы)
+            # Прямое решение на coarsest уровне. Систему не модифицируем: фиксация степени
+            # свободы дала бы решение другой задачи (x[0] ≡ 0) для невырожденной матрицы.
             n = level['n']
-            A_dense = level['A'].to_dense().clone()
-            b_local = b.clone()
-            x = torch.zeros_like(b_local)
-            if n > 0:
-                A_dense[0, :] = 0.0
-                A_dense[:, 0] = 0.0
-                A_dense[0, 0] = 1.0
-                b_local[0] = 0.0
+            x = torch.zeros_like(b)
 
             if n <= 500:
+                A_dense = level['A'].to_dense()
                 try:
-                    x = torch.linalg.solve(A_dense, b_local)
+                    x = torch.linalg.solve(A_dense, b)
+                    solved = bool((A_dense @ x - b).norm() <= 1e-6 * b.norm())
                 except RuntimeError:
-                    x = torch.linalg.lstsq(A_dense, b_local.unsqueeze(1)).solution.squeeze(1)
+                    solved = False
+                if not solved:
+                    # Вырожденная (чисто неймановская) матрица: решение минимальной нормы
+                    x = torch.linalg.pinv(A_dense, hermitian=True) @ b
             else:
                 inv_relax = level['inv_relax']
                 omega = 0.7
                 for it in range(50):
-                    r = b_local - self._spmv_csr(level['A'], x)
+                    r = b - self._spmv_csr(level['A'], x)
                     delta = omega * inv_relax * r
                     x = x + delta
             return x
-- 
2.43.0


From 8db6920f88ca57b339ec9ea5d5065a518e8246ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 02/45] fix: AMG pressure solve that misses its tolerance is no
 longer accepted as converged

The IMPES step reported success with an unconverged pressure (errors of several
MPa on 12x12x3 and larger grids). amg_solve now reports convergence and the step
falls back to CG, whose own convergence check decides.
---
 src/simulator/simulation.py | 10 ++++++----
 src/solver/classical_amg.py |  2 ++
 src/solver/pressure_amg.py  | 11 ++++++++---
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 6fc5c70..2fa6ca5 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -915,7 +915,7 @@ class Simulator:
             # Импорт локально, чтобы не тянуть зависимости при CG
             from solver.pressure_amg import amg_solve
             # Решаем напрямую AMG V-cycles (внутри float64 и auto device)
-            P_new_flat = amg_solve(
+            P_new_flat, converged = amg_solve(
                 A, Q,
                 tol=amg_tol,
                 max_cycles=amg_max_cycles,
@@ -923,10 +923,12 @@ class Simulator:
                 max_levels=amg_max_levels,
                 coarsest_size=amg_coarsest,
                 device=amg_device,
+                return_converged=True,
             )
-            converged = True
-            P_new = P_new_flat.view(self.reservoir.dimensions)
-            return P_new, converged
+            if converged:
+                P_new = P_new_flat.view(self.reservoir.dimensions)
+                return P_new, converged
+            print("  AMG не сошёлся за заданное число циклов: решаем CG")
 
         # 5. Параметры CG из конфигурации (по умолчанию)
         cg_tol_base = self.sim_params.get("cg_tolerance", 1e-6)
diff --git a/src/solver/classical_amg.py b/src/solver/classical_amg.py
index 20ece1e..0defa99 100644
--- a/src/solver/classical_amg.py
+++ b/src/solver/classical_amg.py
@@ -1133,6 +1133,7 @@ class ClassicalAMG:
             x_scaled = torch.zeros_like(b) if x0 is None else x0.to(self.device)
         
         b_norm = b_scaled.norm()
+        self.last_converged = bool(b_norm == 0)
         
         for cycle in range(max_iter):
             x_scaled = self._v_cycle(0, x_scaled, b_scaled, pre_smooth=3, post_smooth=2,
@@ -1142,6 +1143,7 @@ class ClassicalAMG:
             x_ratio = x_scaled.norm() / (b_norm + 1e-30)
             print(f"  [ClassicalAMG cycle {cycle+1}] rel_res={rel_res:.3e}, ||x||/||b||={x_ratio:.2e}")
             if rel_res < tol:
+                self.last_converged = True
                 break
         
         # Обратное масштабирование (если было)
diff --git a/src/solver/pressure_amg.py b/src/solver/pressure_amg.py
index 70f08d3..c9d18d6 100644
--- a/src/solver/pressure_amg.py
+++ b/src/solver/pressure_amg.py
@@ -43,12 +43,14 @@ def amg_solve(
     coarsest_size: int = 200,
     device: Optional[str] = "auto",
     enable_equilibration: Optional[bool] = None,
-) -> torch.Tensor:
+    return_converged: bool = False,
+):
     """
     Solve A x = b using Classical RS-AMG V-cycles.
     - A: torch sparse (COO or CSR), preferably SPD M-matrix from IMPES pressure discretization
     - b: dense RHS (1-D)
-    Returns x on the same device/dtype as b (float32 by default in simulator).
+    Returns x on the same device/dtype as b (float32 by default in simulator);
+    with return_converged=True returns (x, whether the residual reached tol).
     """
     # Target device selection
     if device == "auto" or device is None:
@@ -86,7 +88,10 @@ def amg_solve(
     x64 = amg.solve(b64, x0=None, tol=tol, max_iter=max_cycles)
 
     # Return to original b's device/dtype (float32 in our pipeline)
-    return x64.to(b.device, dtype=b.dtype)
+    x = x64.to(b.device, dtype=b.dtype)
+    if return_converged:
+        return x, amg.last_converged
+    return x
 
 
 def amg_preconditioner(
-- 
2.43.0


From 2dbad757f34e2e963b4e4cfddcebc033b47a5e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 03/45] fix: serialise use of the process-wide AMG hierarchy
 cache

Two simulators stepping in different threads shared one mutable hierarchy: one
could overwrite the matrix the other was solving with.
---
 src/solver/pressure_amg.py | 39 ++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/solver/pressure_amg.py b/src/solver/pressure_amg.py
index c9d18d6..5ea05c5 100644
--- a/src/solver/pressure_amg.py
+++ b/src/solver/pressure_amg.py
@@ -1,3 +1,5 @@
+import threading
+
 import torch
 from typing import Optional, Dict, Any, Tuple
 
@@ -6,6 +8,9 @@ from .classical_amg import ClassicalAMG
 
 
 _AMG_CACHE: Dict[Tuple[Any, ...], ClassicalAMG] = {}
+# A cached hierarchy is mutable: updating it and solving with it must not interleave
+# with another simulator's solve in the same process.
+_AMG_LOCK = threading.Lock()
 
 
 def _to_csr_double(A: torch.Tensor, device: Optional[torch.device] = None) -> torch.Tensor:
@@ -71,26 +76,28 @@ def amg_solve(
         str(target_device)
     )
 
-    amg = _AMG_CACHE.get(cache_key)
-    if amg is None:
-        print(f"[AMG solve] building hierarchy (cache miss) key={cache_key}")
-        amg = ClassicalAMG(
-            A_csr64,
-            theta=theta,
-            max_levels=max_levels,
-            coarsest_size=coarsest_size,
-        )
-        _AMG_CACHE[cache_key] = amg
-    else:
-        print(f"[AMG solve] reusing hierarchy (cache hit) key={cache_key}")
-        amg.update_matrix(A_csr64)
-    # Solve with V-cycles until tol
-    x64 = amg.solve(b64, x0=None, tol=tol, max_iter=max_cycles)
+    with _AMG_LOCK:
+        amg = _AMG_CACHE.get(cache_key)
+        if amg is None:
+            print(f"[AMG solve] building hierarchy (cache miss) key={cache_key}")
+            amg = ClassicalAMG(
+                A_csr64,
+                theta=theta,
+                max_levels=max_levels,
+                coarsest_size=coarsest_size,
+            )
+            _AMG_CACHE[cache_key] = amg
+        else:
+            print(f"[AMG solve] reusing hierarchy (cache hit) key={cache_key}")
+            amg.update_matrix(A_csr64)
+        # Solve with V-cycles until tol
+        x64 = amg.solve(b64, x0=None, tol=tol, max_iter=max_cycles)
+        converged = amg.last_converged
 
     # Return to original b's device/dtype (float32 in our pipeline)
     x = x64.to(b.device, dtype=b.dtype)
     if return_converged:
-        return x, amg.last_converged
+        return x, converged
     return x
 
 
-- 
2.43.0


From 45eebbd72582bf13d9b035b83799fc911b48ce0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 04/45] fix: a failed or interrupted time step leaves no
 partial effects behind

run_step restored nothing when an error interrupted it between the pressure and
the saturation update, leaving new pressures with old saturations and counted
balances. The step is now all-or-nothing.
---
 src/simulator/simulation.py | 44 ++++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 2fa6ca5..3bf1c77 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -126,13 +126,45 @@ class Simulator:
     def run_step(self, dt):
         """
         Выполняет один временной шаг симуляции, выбирая нужный решатель.
+
+        Шаг атомарен: при неуспехе (False) или исключении состояние и балансы
+        остаются такими, какими были до вызова.
         """
-        if self.solver_type == 'impes':
-            return self._impes_step(dt)
-        elif self.solver_type == 'fully_implicit':
-            return self._fully_implicit_step(dt)
-        else:
-            raise ValueError(f"Неизвестный тип решателя: {self.solver_type}")
+        saved_state = self._save_state()
+        success = False
+        try:
+            if self.solver_type == 'impes':
+                success = self._impes_step(dt)
+            elif self.solver_type == 'fully_implicit':
+                success = self._fully_implicit_step(dt)
+            else:
+                raise ValueError(f"Неизвестный тип решателя: {self.solver_type}")
+        finally:
+            if not success:
+                self._restore_state(saved_state)
+        return success
+
+    _STATE_FIELDS = ('pressure', 's_w', 's_g', 's_o', 'prev_pressure', 'prev_sw', 'prev_sg')
+
+    def _save_state(self):
+        """Копия всего, что меняет временной шаг (поля, балансы, диагностика скважин)."""
+        return {
+            'fields': {name: getattr(self.fluid, name).clone() for name in self._STATE_FIELDS},
+            'mass_balance': {ph: dict(v) for ph, v in self.mass_balance.items()},
+            'component_balance': {c: dict(v) for c, v in self.component_balance.items()},
+            'wells': [(w.last_q_total, w.last_surface_rates, w.last_mode)
+                      for w in self.well_manager.get_wells()],
+        }
+
+    def _restore_state(self, state):
+        for name, value in state['fields'].items():
+            setattr(self.fluid, name, value)
+        self.mass_balance = state['mass_balance']
+        self.component_balance = state['component_balance']
+        for well, (q_total, surface_rates, mode) in zip(self.well_manager.get_wells(), state['wells']):
+            well.last_q_total = q_total
+            well.last_surface_rates = surface_rates
+            well.last_mode = mode
 
     def _fully_implicit_step(self, dt):
         """
-- 
2.43.0


From 75f35572369b442bbf6df000e02f2d54865710d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 05/45] fix: an IMPES step whose dt was cut still advances the
 full requested dt

After a solver failure the step retried with a smaller dt and returned success
having simulated only that part; the rest of the time was silently lost.
---
 src/simulator/simulation.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 3bf1c77..f1fa9c8 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -855,6 +855,7 @@ class Simulator:
         """ Выполняет один временной шаг с использованием схемы IMPES с адаптивным dt. """
         original_dt = dt
         current_dt = dt
+        remaining_dt = dt
         max_attempts = self.sim_params.get("max_time_step_attempts", 5)
         dt_reduction_factor = self.sim_params.get("dt_reduction_factor", 2.0)
         dt_increase_factor = self.sim_params.get("dt_increase_factor", 1.25)
@@ -862,7 +863,9 @@ class Simulator:
         consecutive_success = 0
         last_dt_increased = False
 
-        for attempt in range(max_attempts):
+        attempt = 0
+        while attempt < max_attempts:
+            current_dt = min(current_dt, remaining_dt)
             print(f"Попытка шага IMPES с dt = {current_dt/86400:.2f} дней (Попытка {attempt+1}/{max_attempts})")
 
             P_new, converged = self._impes_pressure_step(current_dt)
@@ -876,6 +879,11 @@ class Simulator:
                 self.fluid.prev_pressure = self.fluid.pressure.clone()
                 self.fluid.prev_sw = self.fluid.s_w.clone()
 
+                # Уменьшенный шаг покрывает лишь часть запрошенного времени: идём до конца
+                remaining_dt -= current_dt
+                if remaining_dt <= 1e-9 * original_dt:
+                    return True
+
                 consecutive_success += 1
 
                 # Попробуем увеличить dt, если успешно несколько раз подряд
@@ -885,10 +893,11 @@ class Simulator:
                 else:
                     last_dt_increased = False
 
-                return True
+                continue
 
             # если не сошлось, уменьшаем шаг
             print("  IMPES не сошелся, уменьшаем dt")
+            attempt += 1
             current_dt /= dt_reduction_factor
             consecutive_success = 0
             last_dt_increased = False
-- 
2.43.0


From 12bbca77ba7d1926a448026c4d6c5bc9c50f8336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 06/45] fix: a diverged Newton solve is no longer reported as a
 successful step

_fully_implicit_newton_step returns (converged, iterations); the non-empty tuple
was tested for truth, so the retry and failure paths were unreachable.
---
 src/simulator/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index f1fa9c8..6205f36 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -195,7 +195,7 @@ class Simulator:
             print(f"Попытка шага с dt = {current_dt/86400:.2f} дней (Попытка {attempt+1}/{max_attempts})")
             
             # Выполняем шаг с текущим значением dt
-            converged = self._fully_implicit_newton_step(current_dt)
+            converged, _ = self._fully_implicit_newton_step(current_dt)
             
             if converged:
                 print(f"Шаг успешно выполнен с dt = {current_dt/86400:.2f} дней.")
-- 
2.43.0


From 3e01502631fd0e6b00ff6f73c3a54a29a0aecbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 07/45] fix: a fully implicit step whose dt was cut still
 advances the full requested dt

---
 src/simulator/simulation.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 6205f36..943691a 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -191,7 +191,10 @@ class Simulator:
         consecutive_success = 0
         last_dt_increased = False
         
-        for attempt in range(max_attempts):
+        remaining_dt = dt
+        attempt = 0
+        while attempt < max_attempts:
+            current_dt = min(current_dt, remaining_dt)
             print(f"Попытка шага с dt = {current_dt/86400:.2f} дней (Попытка {attempt+1}/{max_attempts})")
             
             # Выполняем шаг с текущим значением dt
@@ -205,6 +208,13 @@ class Simulator:
                 self.fluid.prev_pressure = self.fluid.pressure.clone()
                 self.fluid.prev_sw = self.fluid.s_w.clone()
                 
+                # Уменьшенный шаг покрывает лишь часть запрошенного времени: идём до конца
+                remaining_dt -= current_dt
+                if remaining_dt <= 1e-9 * original_dt:
+                    return True
+                initial_pressure = self.fluid.pressure.clone()
+                initial_saturation = self.fluid.s_w.clone()
+                
                 # Если это был уменьшенный шаг и мы успешно сделали несколько шагов подряд,
                 # пробуем увеличить шаг для следующей итерации, но не больше исходного
                 if consecutive_success >= 2 and current_dt < original_dt and not last_dt_increased:
@@ -213,7 +223,7 @@ class Simulator:
                     print(f"Увеличиваем временной шаг до dt = {current_dt/86400:.2f} дней для следующей итерации.")
                 else:
                     last_dt_increased = False
-                return True
+                continue
 
             # Неудачная попытка - восстанавливаем начальное состояние
             self.fluid.pressure = initial_pressure.clone()
@@ -221,6 +231,7 @@ class Simulator:
             self.fluid.s_o = 1.0 - self.fluid.s_w
             
             print("Решатель не сошелся. Уменьшаем шаг времени.")
+            attempt += 1
             current_dt /= dt_reduction_factor
             consecutive_success = 0
             last_dt_increased = False
-- 
2.43.0


From 404490e73e72199787219cb4d402e174f11af2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 08/45] fix: run() stops and says so when a time step fails

A failed IMPES step was ignored (the remaining steps went on and the summary
looked complete); a failed implicit step was replaced by half of it.
---
 src/simulator/simulation.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 943691a..a48a539 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2219,19 +2219,17 @@ class Simulator:
         plotter = Plotter(self.reservoir)
         
         # Основной цикл симуляции
+        completed_steps = 0
         for i in tqdm(range(num_steps), desc="Симуляция"):
             # Выполняем один шаг
             success = self.run_step(dt=time_step_sec)
             
-            # Если шаг не сошелся, пробуем с меньшим шагом
-            if not success and self.solver_type == 'fully_implicit':
-                print(f"  Шаг {i+1} не сошелся. Пробуем с меньшим временным шагом.")
-                reduced_dt = time_step_sec / 2
-                success = self.run_step(dt=reduced_dt)
-                
-                if not success:
-                    print(f"  Шаг {i+1} не сошелся даже с уменьшенным шагом. Завершаем симуляцию.")
-                    break
+            # Шаг сам дробит dt; если и это не помогло, продолжать нельзя:
+            # результат выглядел бы как полная симуляция.
+            if not success:
+                print(f"  Шаг {i+1} не сошелся. Завершаем симуляцию.")
+                break
+            completed_steps += 1
             
             # Сохранение промежуточных результатов
             if (i + 1) % save_interval == 0 and save_interval < num_steps:
@@ -2245,7 +2243,11 @@ class Simulator:
                 
                 plotter.save_plots(p_current, sw_current, filepath, time_info=time_info, gas_saturation=sg_current)
         
-        print("\nСимуляция завершена.")
+        completed_days = completed_steps * time_step_days
+        if completed_steps == num_steps:
+            print("\nСимуляция завершена.")
+        else:
+            print(f"\nСимуляция остановлена на дне {completed_days:g} из {total_time_days:g}.")
         
         # Сохранение и визуализация финальных результатов
         p_final = self.fluid.pressure.cpu().numpy()
@@ -2266,6 +2268,8 @@ class Simulator:
         with open(results_txt_path, 'w') as f:
             # Сводные метрики
             f.write("=== SUMMARY (final) ===\n")
+            if completed_steps != num_steps:
+                f.write(f"INCOMPLETE: stopped at day {completed_days:g} of {total_time_days:g} (solver did not converge)\n")
             f.write(f"Pressure MPa: min={p_final.min()/1e6:.2f}, max={p_final.max()/1e6:.2f}, mean={p_final.mean()/1e6:.2f}\n")
             f.write(f"Sw: min={sw_final.min():.4f}, max={sw_final.max():.4f}, mean={sw_final.mean():.4f}\n")
             f.write(f"Sg: min={sg_final.min():.4f}, max={sg_final.max():.4f}, mean={sg_final.mean():.4f}\n")
@@ -2303,7 +2307,7 @@ class Simulator:
         
         # Сохранение финальных графиков
         final_plot_path = os.path.join(results_dir, f"{output_filename}_final.png")
-        plotter.save_plots(p_final, sw_final, final_plot_path, time_info=f"День {total_time_days} (Final)", gas_saturation=sg_final)
+        plotter.save_plots(p_final, sw_final, final_plot_path, time_info=f"День {completed_days:g} (Final)", gas_saturation=sg_final)
         print(f"Финальные графики сохранены в файл {final_plot_path}")
         
         # Сохранение результатов в VTK (если указано)
-- 
2.43.0


From 591c5c2a4ef70ca197c53a6bac0ed279e97d65bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 09/45] fix: run() no longer drops the last step when
 total/step is not exact in floating point

---
 src/simulator/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index a48a539..00f6895 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2200,7 +2200,7 @@ class Simulator:
         animation_fps = self.sim_params.get('animation_fps', 5)
         
         # Рассчитываем количество шагов
-        num_steps = int(total_time_days / time_step_days)
+        num_steps = int(total_time_days / time_step_days + 1e-9)  # 0.3/0.1 -> 3, а не 2
         
         # Создаем уникальную директорию для данного запуска
         timestamp = datetime.datetime.now().strftime("%Y%m%d_%H%M%S")
-- 
2.43.0


From 73d6d54c15894fb276e62cb51597f301f6aaad59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 10/45] fix: two runs started within one second no longer
 overwrite each other's results

---
 src/simulator/simulation.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 00f6895..d1a58dd 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2204,8 +2204,17 @@ class Simulator:
         
         # Создаем уникальную директорию для данного запуска
         timestamp = datetime.datetime.now().strftime("%Y%m%d_%H%M%S")
-        results_dir = os.path.join("results", f"{output_filename}_{timestamp}")
-        os.makedirs(results_dir, exist_ok=True)
+        base_dir = os.path.join("results", f"{output_filename}_{timestamp}")
+        results_dir = base_dir
+        suffix = 1
+        while True:
+            try:
+                os.makedirs(results_dir)
+                break
+            except FileExistsError:
+                # Другой запуск в ту же секунду: его результаты не трогаем
+                results_dir = f"{base_dir}_{suffix}"
+                suffix += 1
         
         intermediate_results_dir = os.path.join(results_dir, "intermediate")
         if save_interval < num_steps:
-- 
2.43.0


From 541649b4a252230dddb98e12e6c0b2dcb4925586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 11/45] fix: save_to_vtk works again: read the existing
 permeability tensors, exact node count

It used reservoir.perm_h/perm_v, which no longer exist, and np.arange with a float
step, which for some cell sizes yields one node too many.
---
 src/output/vtk_writer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/output/vtk_writer.py b/src/output/vtk_writer.py
index f50e524..0c8d096 100644
--- a/src/output/vtk_writer.py
+++ b/src/output/vtk_writer.py
@@ -17,9 +17,9 @@ def save_to_vtk(reservoir, fluid, filename="simulation_results"):
 
     # Создаем координаты узлов сетки.
     # VTK ожидает координаты узлов, поэтому массив должен быть на 1 больше, чем число ячеек.
-    x = np.arange(0, (nx + 1) * dx, dx)
-    y = np.arange(0, (ny + 1) * dy, dy)
-    z = np.arange(0, (nz + 1) * dz, dz)
+    x = np.arange(nx + 1) * dx
+    y = np.arange(ny + 1) * dy
+    z = np.arange(nz + 1) * dz
 
     # Получаем данные с устройства и конвертируем в NumPy
     pressure_mpa = fluid.pressure.cpu().numpy() / 1e6 # Конвертируем в МПа для удобства
@@ -31,8 +31,8 @@ def save_to_vtk(reservoir, fluid, filename="simulation_results"):
     pressure_reshaped = pressure_mpa.reshape((nx, ny, nz), order='F')
     saturation_w_reshaped = saturation_w.reshape((nx, ny, nz), order='F')
     saturation_o_reshaped = saturation_o.reshape((nx, ny, nz), order='F')
-    perm_h_reshaped = reservoir.perm_h.cpu().numpy().reshape((nx, ny, nz), order='F')
-    perm_v_reshaped = reservoir.perm_v.cpu().numpy().reshape((nx, ny, nz), order='F')
+    perm_h_reshaped = reservoir.permeability_x.cpu().numpy().reshape((nx, ny, nz), order='F')
+    perm_v_reshaped = reservoir.permeability_z.cpu().numpy().reshape((nx, ny, nz), order='F')
     
     # Создаем словарь с данными для ячеек
     cell_data = {
@@ -49,6 +49,6 @@ def save_to_vtk(reservoir, fluid, filename="simulation_results"):
     filepath = os.path.join(results_dir, filename)
 
     # Используем gridToVTK для сохранения данных
-    gridToVTK(filepath, x, y, z, cellData=cell_data)
+    saved_path = gridToVTK(filepath, x, y, z, cellData=cell_data)
     
-    print(f"Результаты успешно сохранены в файл {filepath}.vts") 
\ No newline at end of file
+    print(f"Результаты успешно сохранены в файл {saved_path}") 
\ No newline at end of file
-- 
2.43.0


From 6cc59bf40b4ce50cd94110e5d41d327b5cc69b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 12/45] fix: run(save_vtk=True) failed with NameError on
 results_dir

---
 src/simulator/simulation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index d1a58dd..26806ff 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2322,7 +2322,7 @@ class Simulator:
         # Сохранение результатов в VTK (если указано)
         if save_vtk:
             try:
-                self._save_to_vtk(output_filename)
+                self._save_to_vtk(output_filename, results_dir)
             except ImportError:
                 print("Не удалось сохранить в формате VTK: отсутствуют необходимые модули.")
         
@@ -2335,12 +2335,13 @@ class Simulator:
             except ImportError:
                 print("Не удалось создать анимацию: отсутствует модуль imageio.")
 
-    def _save_to_vtk(self, output_filename):
+    def _save_to_vtk(self, output_filename, results_dir):
         """
         Сохраняет результаты в формате VTK.
         
         Args:
             output_filename: Имя файла для сохранения
+            results_dir: Директория результатов данного запуска
         """
         try:
             import vtk
-- 
2.43.0


From 9ade6f727383efcf58c64f99b99d738f60d73510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 13/45] fix: debug_log_path without a directory part no longer
 prevents construction

---
 src/simulator/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 26806ff..9d73e7b 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -100,7 +100,7 @@ class Simulator:
             ts = datetime.datetime.now().strftime('%Y%m%d_%H%M%S')
             default_path = os.path.join('results', f'component_debug_{ts}.log')
             self.debug_log_path = sim_params.get('debug_log_path', default_path)
-            os.makedirs(os.path.dirname(self.debug_log_path), exist_ok=True)
+            os.makedirs(os.path.dirname(self.debug_log_path) or '.', exist_ok=True)
             with open(self.debug_log_path, 'w') as f:
                 f.write('# Component balance debug log\n')
                 f.write(f'# started {ts}\n')
-- 
2.43.0


From 69f3f82ddf902ee3a2709019464b8b39e14b8aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 14/45] fix: division guard no longer shrinks
 transmissibilities

1e-15 m2 is 1 mD: the guard cut the harmonic mean by 33 % at 1 mD and by 4.8 %
for the default vertical permeability of 10 mD.
---
 src/simulator/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 9d73e7b..40c5938 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -62,15 +62,15 @@ class Simulator:
             
             # Расчет проводимостей
             for i in range(nx-1):
-                k_harmonic = 2 * k_x[i, :, :] * k_x[i+1, :, :] / (k_x[i, :, :] + k_x[i+1, :, :] + 1e-15)
+                k_harmonic = 2 * k_x[i, :, :] * k_x[i+1, :, :] / (k_x[i, :, :] + k_x[i+1, :, :] + 1e-30)
                 self.T_x[i, :, :] = k_harmonic * dy * dz / dx
             
             for j in range(ny-1):
-                k_harmonic = 2 * k_y[:, j, :] * k_y[:, j+1, :] / (k_y[:, j, :] + k_y[:, j+1, :] + 1e-15)
+                k_harmonic = 2 * k_y[:, j, :] * k_y[:, j+1, :] / (k_y[:, j, :] + k_y[:, j+1, :] + 1e-30)
                 self.T_y[:, j, :] = k_harmonic * dx * dz / dy
             
             for k in range(nz-1):
-                k_harmonic = 2 * k_z[:, :, k] * k_z[:, :, k+1] / (k_z[:, :, k] + k_z[:, :, k+1] + 1e-15)
+                k_harmonic = 2 * k_z[:, :, k] * k_z[:, :, k+1] / (k_z[:, :, k] + k_z[:, :, k+1] + 1e-30)
                 self.T_z[:, :, k] = k_harmonic * dx * dy / dz
         
         # Объем пористой среды для расчетов IMPES
-- 
2.43.0


From 616a6027be18a9f04935c8e223e0af3f6768bc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:28 +0000
Subject: [PATCH 15/45] fix: saturation limits can no longer push a saturation
 out of its own range

The water limit could end up below sw_cr (Sw and Sg outside [0,1] were reached),
and cells starting outside [sw_cr, 1-so_r] or below sg_cr were clamped into it,
creating or destroying that phase.
---
 src/simulator/simulation.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 40c5938..b88b95a 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1436,16 +1436,17 @@ class Simulator:
         dSg_sub = dSg / N
         S_w_cur = S_w_old
         S_g_cur = S_g_old
+        sw_min_t = torch.clamp(S_w_old, max=sw_cr)
+        sg_min_t = torch.clamp(S_g_old, max=sg_cr)
+        mob_max_t = torch.clamp(S_w_old + S_g_old, min=1.0 - so_r)
         for _ in range(N):
             S_w_cur = S_w_cur + dSw_sub
             S_g_cur = S_g_cur + dSg_sub
-            # мягкие клампы на случай численной погрешности (min/max как тензоры одной формы)
-            sw_min_t = torch.full_like(S_w_cur, float(sw_cr))
-            sw_max_t = (1.0 - so_r - S_g_cur)
-            S_w_cur = torch.clamp(S_w_cur, min=sw_min_t, max=sw_max_t)
-            sg_min_t = torch.full_like(S_g_cur, float(sg_cr))
-            sg_max_t = (1.0 - so_r - S_w_cur)
-            S_g_cur = torch.clamp(S_g_cur, min=sg_min_t, max=sg_max_t)
+            # мягкие клампы на случай численной погрешности (min/max как тензоры одной формы);
+            # окно всегда непусто и включает исходное состояние ячейки, иначе clamp сам
+            # создаёт или уничтожает фазу (вплоть до Sw < 0)
+            S_w_cur = torch.clamp(S_w_cur, min=sw_min_t, max=torch.maximum(sw_min_t, mob_max_t - torch.maximum(S_g_cur, sg_min_t)))
+            S_g_cur = torch.clamp(S_g_cur, min=sg_min_t, max=mob_max_t - S_w_cur)
 
             # Подшаговая интеграция компонентного баланса с учётом текущих S
             try:
-- 
2.43.0


From a030a6e63895819e80ec4c5f3676567fb9a649e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:52 +0000
Subject: [PATCH 16/45] fix: gas below its critical saturation is immobile

krg ignored sg_cr while the saturation limits honour it, so gas kept flowing out
of cells at sg_cr and was recreated there by the limit.
---
 src/simulator/fluid.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/simulator/fluid.py b/src/simulator/fluid.py
index 4933565..a53ed93 100644
--- a/src/simulator/fluid.py
+++ b/src/simulator/fluid.py
@@ -426,8 +426,8 @@ class Fluid:
             Тензор относительной проницаемости газа
         """
         # Нормализуем газонасыщенность
-        # Газ движется в диапазоне от 0 до (1 - sw_cr - so_r)
-        s_g_norm = s_g / (1.0 - self.sw_cr - self.so_r + 1e-10)
+        # Газ движется в диапазоне от sg_cr до (1 - sw_cr - so_r)
+        s_g_norm = (s_g - self.sg_cr) / (1.0 - self.sw_cr - self.so_r - self.sg_cr + 1e-10)
         s_g_norm = torch.clamp(s_g_norm, 0.0, 1.0)
         
         # Используем показатель Кори для газа (обычно 2-3)
@@ -489,14 +489,14 @@ class Fluid:
             Тензор производной относительной проницаемости газа
         """
         ng = getattr(self, 'ng', 2.0)
-        normalized_range = 1.0 - self.sw_cr - self.so_r
+        normalized_range = 1.0 - self.sw_cr - self.so_r - self.sg_cr
         
         # Нормализованная газонасыщенность
-        s_g_norm = s_g / (normalized_range + 1e-10)
+        s_g_norm = (s_g - self.sg_cr) / (normalized_range + 1e-10)
         s_g_norm = torch.clamp(s_g_norm, 0.0, 1.0)
         
         # Проверяем, находится ли насыщенность в допустимом диапазоне
-        mask = (s_g > 0.0) & (s_g < normalized_range)
+        mask = (s_g > self.sg_cr) & (s_g < self.sg_cr + normalized_range)
         
         # Производная dkrg/dsg = ng * s_g_norm^(ng-1) / normalized_range
         result = torch.zeros_like(s_g)
-- 
2.43.0


From aec4c7f6b23d6bb046fa72ce22d52b2deaef5f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 17/45] fix: upwind gas and water by their own potential in the
 saturation update

Upwinding by the pressure difference alone let gravity or capillarity carry a phase
out of a cell where it is immobile, with the neighbour's mobility; the saturation
limits then recreated the phase there.
---
 src/simulator/simulation.py | 46 +++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index b88b95a..ffe5ae7 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1040,15 +1040,7 @@ class Simulator:
         dp_y = P_new[:,:-1,:] - P_new[:,1:,:]
         dp_z = P_new[:,:,:-1] - P_new[:,:,1:]
 
-        mob_w_x = torch.where(dp_x > 0, mob_w[:-1,:,:], mob_w[1:,:,:])
-        mob_w_y = torch.where(dp_y > 0, mob_w[:,:-1,:], mob_w[:,1:,:])
-        mob_w_z = torch.where(dp_z > 0, mob_w[:,:,:-1], mob_w[:,:,1:])
-
-        mob_g_x = torch.where(dp_x > 0, mob_g[:-1,:,:], mob_g[1:,:,:])
-        mob_g_y = torch.where(dp_y > 0, mob_g[:,:-1,:], mob_g[:,1:,:])
-        mob_g_z = torch.where(dp_z > 0, mob_g[:,:,:-1], mob_g[:,:,1:])
-
-        # 2. Потенциалы с учётом гравитации
+        # 2. Потенциалы фаз с учётом гравитации и капиллярного давления нефть-газ
         _, _, dz = self.reservoir.grid_size
         if dz > 0 and self.reservoir.nz > 1:
             rho_w_avg = 0.5 * (self.fluid.rho_w[:,:,:-1] + self.fluid.rho_w[:,:,1:])
@@ -1058,25 +1050,35 @@ class Simulator:
         else:
             pot_w_z = dp_z
             pot_g_z = dp_z
+        pot_g_x = dp_x
+        pot_g_y = dp_y
 
-        # 3. Расходы воды
-        flow_w_x = self.T_x * mob_w_x * dp_x
-        flow_w_y = self.T_y * mob_w_y * dp_y
-        flow_w_z = self.T_z * mob_w_z * pot_w_z
-
-        # Капиллярное давление нефть-газ: корректируем потенциал газа
         if getattr(self.fluid, 'pc_og_scale', 0.0) > 0:
             pcog = self.fluid.get_capillary_pressure_og(self.fluid.s_g)
             dpcg_x = pcog[1:,:,:] - pcog[:-1,:,:]
             dpcg_y = pcog[:,1:,:] - pcog[:,:-1,:]
             dpcg_z = pcog[:,:,1:] - pcog[:,:,:-1]
-            flow_g_x = self.T_x * mob_g_x * (dp_x - dpcg_x)
-            flow_g_y = self.T_y * mob_g_y * (dp_y - dpcg_y)
-            flow_g_z = self.T_z * mob_g_z * (pot_g_z - dpcg_z)
-        else:
-            flow_g_x = self.T_x * mob_g_x * dp_x
-            flow_g_y = self.T_y * mob_g_y * dp_y
-            flow_g_z = self.T_z * mob_g_z * pot_g_z
+            pot_g_x = dp_x - dpcg_x
+            pot_g_y = dp_y - dpcg_y
+            pot_g_z = pot_g_z - dpcg_z
+
+        # Апстрим по потенциалу самой фазы: фаза течёт из ячейки только со своей мобильностью
+        mob_w_x = torch.where(dp_x > 0, mob_w[:-1,:,:], mob_w[1:,:,:])
+        mob_w_y = torch.where(dp_y > 0, mob_w[:,:-1,:], mob_w[:,1:,:])
+        mob_w_z = torch.where(pot_w_z > 0, mob_w[:,:,:-1], mob_w[:,:,1:])
+
+        mob_g_x = torch.where(pot_g_x > 0, mob_g[:-1,:,:], mob_g[1:,:,:])
+        mob_g_y = torch.where(pot_g_y > 0, mob_g[:,:-1,:], mob_g[:,1:,:])
+        mob_g_z = torch.where(pot_g_z > 0, mob_g[:,:,:-1], mob_g[:,:,1:])
+
+        # 3. Расходы воды и газа
+        flow_w_x = self.T_x * mob_w_x * dp_x
+        flow_w_y = self.T_y * mob_w_y * dp_y
+        flow_w_z = self.T_z * mob_w_z * pot_w_z
+
+        flow_g_x = self.T_x * mob_g_x * pot_g_x
+        flow_g_y = self.T_y * mob_g_y * pot_g_y
+        flow_g_z = self.T_z * mob_g_z * pot_g_z
 
         # 4. Дивергенция
         div_w = torch.zeros_like(S_w_old)
-- 
2.43.0


From 6b594f82e3a915dd201a80407abe08300ebee3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 18/45] fix: well production and injection enter the component
 balance once

The balance was accumulated from the accepted well rates and then again, inside the
saturation sub-steps, from the unlimited target rates.
---
 src/simulator/simulation.py | 111 ------------------------------------
 1 file changed, 111 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index ffe5ae7..1efd482 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1450,117 +1450,6 @@ class Simulator:
             S_w_cur = torch.clamp(S_w_cur, min=sw_min_t, max=torch.maximum(sw_min_t, mob_max_t - torch.maximum(S_g_cur, sg_min_t)))
             S_g_cur = torch.clamp(S_g_cur, min=sg_min_t, max=mob_max_t - S_w_cur)
 
-            # Подшаговая интеграция компонентного баланса с учётом текущих S
-            try:
-                if self.fluid.pvt is not None:
-                    # Обновляем временно насыщенности для расчёта кривых
-                    self.fluid.s_w = S_w_cur
-                    self.fluid.s_g = S_g_cur
-                    self.fluid.s_o = 1.0 - self.fluid.s_w - self.fluid.s_g
-                    # Мобилизации и доли
-                    mu_w = self.fluid._eval_pvt(P_new, 'mu_w')
-                    mu_o = self.fluid._eval_pvt(P_new, 'mu_o')
-                    mu_g = self.fluid._eval_pvt(P_new, 'mu_g')
-                    krw = self.fluid.calc_water_kr(self.fluid.s_w)
-                    kro = self.fluid.calc_oil_kr(self.fluid.s_w, self.fluid.s_g)
-                    krg = self.fluid.calc_gas_kr(self.fluid.s_g)
-                    mob_w_cur = krw / (mu_w + 1e-12)
-                    mob_o_cur = kro / (mu_o + 1e-12)
-                    mob_g_cur = krg / (mu_g + 1e-12)
-                    mob_t_cur = mob_w_cur + mob_o_cur + mob_g_cur
-                    fw_cur = mob_w_cur / (mob_t_cur + 1e-12)
-                    fg_cur = mob_g_cur / (mob_t_cur + 1e-12)
-                    fo_cur = mob_o_cur / (mob_t_cur + 1e-12)
-                    # PVT на текущем P
-                    Bo = self.fluid._eval_pvt(P_new, 'Bo'); Bw = self.fluid._eval_pvt(P_new, 'Bw'); Bg = self.fluid._eval_pvt(P_new, 'Bg')
-                    Rs = self.fluid._eval_pvt(P_new, 'Rs')
-                    try:
-                        Rv = self.fluid._eval_pvt(P_new, 'Rv')
-                    except Exception:
-                        Rv = torch.zeros_like(Bg)
-                    dt_sub = dt / N
-                    # Скважины: вклад за подшаг
-                    for well in self.well_manager.get_wells():
-                        i, j, k = well.i, well.j, well.k
-                        if i >= self.reservoir.nx or j >= self.reservoir.ny or k >= self.reservoir.nz:
-                            continue
-                        Bo_cell = float(Bo[i, j, k]); Bw_cell = float(Bw[i, j, k]); Bg_cell = float(Bg[i, j, k])
-                        Rs_cell = float(Rs[i, j, k])
-                        try:
-                            Rv_cell = float(Rv[i, j, k])
-                        except Exception:
-                            Rv_cell = 0.0
-                        fo_ = float(fo_cur[i, j, k]); fw_ = float(fw_cur[i, j, k]); fg_ = float(fg_cur[i, j, k])
-                        # Вычисляем q_total для подшага по текущим долям
-                        if well.control_type == 'rate':
-                            rate_scale = float(self.sim_params.get('global_rate_scale', 1.0))
-                            q_base = (well.control_value * rate_scale) / 86400.0
-                            if well.type == 'injector':
-                                if getattr(well, 'rate_type', 'reservoir') == 'surface':
-                                    if getattr(well, 'injected_phase', 'water') == 'gas':
-                                        q_total_sub = q_base * Bg_cell
-                                    else:
-                                        q_total_sub = q_base * Bw_cell
-                                else:
-                                    q_total_sub = q_base
-                                q_total_sub *= 1.0
-                                # IN для газа/воды
-                                if getattr(well, 'injected_phase', 'water') == 'gas':
-                                    qg_surf = max(q_total_sub, 0.0) / max(Bg_cell, 1e-12) * 86400.0
-                                    self.component_balance['gas']['in'] += float(qg_surf * (dt_sub / 86400.0))
-                                    self.component_balance['oil']['in'] += float(Rv_cell * qg_surf * (dt_sub / 86400.0))
-                                else:
-                                    qw_surf = max(q_total_sub, 0.0) / max(Bw_cell, 1e-12) * 86400.0
-                                    self.component_balance['oil']['in'] += 0.0
-                                    self.component_balance['gas']['in'] += 0.0
-                            else:
-                                # producer
-                                if getattr(well, 'rate_type', 'reservoir') == 'surface':
-                                    sp = (well.surface_phase or 'liquid').lower()
-                                    if sp == 'oil':
-                                        denom = (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12))
-                                        q_total_sub = - (q_base / max(denom, 1e-12))
-                                    elif sp == 'water':
-                                        q_w_res = q_base * Bw_cell
-                                        q_total_sub = - q_w_res / max(fw_, 1e-12)
-                                    elif sp == 'gas':
-                                        denom = (fg_ / max(Bg_cell, 1e-12) + fo_ * Rs_cell / max(Bo_cell, 1e-12))
-                                        q_total_sub = - (q_base / max(denom, 1e-12))
-                                    else:
-                                        denom = (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12) + fw_ / max(Bw_cell, 1e-12))
-                                        q_total_sub = - (q_base / max(denom, 1e-12))
-                                else:
-                                    q_total_sub = -q_base
-                                qo_res = max((-q_total_sub * fo_), 0.0)
-                                qg_res = max((-q_total_sub * fg_), 0.0)
-                                oil_delta = dt_sub * (qo_res / max(Bo_cell, 1e-12) + Rv_cell * qg_res / max(Bg_cell, 1e-12))
-                                gas_delta = dt_sub * (qg_res / max(Bg_cell, 1e-12) + Rs_cell * qo_res / max(Bo_cell, 1e-12))
-                                self.component_balance['oil']['out'] += float(oil_delta)
-                                self.component_balance['gas']['out'] += float(gas_delta)
-                        elif well.control_type == 'bhp':
-                            # оценим total по текущим долям (Mobility-weighted WI уже учтён на шаге давления)
-                            wi = well.well_index
-                            p_bhp = well.control_value * 1e6
-                            p_block = float(P_new[i, j, k])
-                            # приблизим mob_t по текущим долям (линейно): используем mob_t_cur
-                            mob_t_cell = float(mob_t_cur[i, j, k])
-                            q_total_sub = wi * mob_t_cell * (p_block - p_bhp)
-                            if well.type == 'injector':
-                                if getattr(well, 'injected_phase', 'water') == 'gas':
-                                    qg_surf = max(-q_total_sub, 0.0) / max(Bg_cell, 1e-12) * 86400.0
-                                    self.component_balance['gas']['in'] += float(qg_surf * (dt_sub / 86400.0))
-                                    self.component_balance['oil']['in'] += float(Rv_cell * qg_surf * (dt_sub / 86400.0))
-                            else:
-                                qabs = abs(q_total_sub)
-                                qo_res = qabs * fo_
-                                qg_res = qabs * fg_
-                                oil_delta = dt_sub * (qo_res / max(Bo_cell, 1e-12) + Rv_cell * qg_res / max(Bg_cell, 1e-12))
-                                gas_delta = dt_sub * (qg_res / max(Bg_cell, 1e-12) + Rs_cell * qo_res / max(Bo_cell, 1e-12))
-                                self.component_balance['oil']['out'] += float(oil_delta)
-                                self.component_balance['gas']['out'] += float(gas_delta)
-            except Exception:
-                pass
-
         self.fluid.s_w = S_w_cur
         self.fluid.s_g = S_g_cur
         self.fluid.s_o = 1.0 - self.fluid.s_w - self.fluid.s_g
-- 
2.43.0


From 478f25760df5e901f867565b594f06a954d75d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:38 +0000
Subject: [PATCH 19/45] fix: a failure while evaluating fluid properties is
 reported, not replaced by a default

Any error (e.g. out of memory) while evaluating compressibility or Rv silently
switched that term to the no-PVT value or to zero, on one side of the equation only.
---
 src/simulator/simulation.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 1efd482..2ec51cd 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1146,7 +1146,7 @@ class Simulator:
                             qg_surf = max(q_total, 0.0) / max(Bg_cell, 1e-12) * 86400.0
                             try:
                                 Rv_cell = float(self.fluid._eval_pvt(P_new, 'Rv')[i, j, k])
-                            except Exception:
+                            except KeyError:
                                 Rv_cell = 0.0
                             scale = float(dt / 86400.0)
                             self.component_balance['gas']['in'] += float(qg_surf * scale)
@@ -1180,7 +1180,7 @@ class Simulator:
                         # Rv может отсутствовать — в этом случае считаем 0
                         try:
                             Rv_cell = float(self.fluid._eval_pvt(P_new, 'Rv')[i, j, k])
-                        except Exception:
+                        except KeyError:
                             Rv_cell = 0.0
                         fo_ = fo[i, j, k].item()
                         fw_ = fw[i, j, k].item()
@@ -1279,7 +1279,7 @@ class Simulator:
                             Rs_cell = float(self.fluid._eval_pvt(P_new, 'Rs')[i, j, k])
                             try:
                                 Rv_cell = float(self.fluid._eval_pvt(P_new, 'Rv')[i, j, k])
-                            except Exception:
+                            except KeyError:
                                 Rv_cell = 0.0
                             fo_ = fo[i, j, k].item(); fw_ = fw[i, j, k].item(); fg_ = fg[i, j, k].item()
                             # Availability-choke
@@ -1360,7 +1360,7 @@ class Simulator:
                             qg_surf = max(-q_total, 0.0) / max(Bg_cell, 1e-12) * 86400.0
                             try:
                                 Rv_cell = float(self.fluid._eval_pvt(P_new, 'Rv')[i, j, k])
-                            except Exception:
+                            except KeyError:
                                 Rv_cell = 0.0
                             scale = float(dt / 86400.0)
                             self.component_balance['gas']['in'] += float(qg_surf * scale)
@@ -1382,7 +1382,7 @@ class Simulator:
                         Rs_cell = float(self.fluid._eval_pvt(P_new, 'Rs')[i, j, k])
                         try:
                             Rv_cell = float(self.fluid._eval_pvt(P_new, 'Rv')[i, j, k])
-                        except Exception:
+                        except KeyError:
                             Rv_cell = 0.0
                         fo_ = fo[i, j, k].item(); fw_ = fw[i, j, k].item(); fg_ = fg[i, j, k].item()
                         qabs = abs(q_total)
@@ -1510,11 +1510,8 @@ class Simulator:
         cols = torch.cat([col_x, row_x, col_y, row_y, col_z, row_z])
         vals = torch.cat([-vals_x, -vals_x, -vals_y, -vals_y, -vals_z, -vals_z])
         # Совокупная сжимаемость из PVT (если доступна)
-        try:
-            ct_tensor = self.fluid.calc_total_compressibility(self.fluid.pressure, self.fluid.s_w, self.fluid.s_g)
-            acc_term = (self.porous_volume.view(-1) * ct_tensor.view(-1) / dt)
-        except Exception:
-            acc_term = (self.porous_volume.view(-1) * self.fluid.cf.view(-1) / dt)
+        ct_tensor = self.fluid.calc_total_compressibility(self.fluid.pressure, self.fluid.s_w, self.fluid.s_g)
+        acc_term = (self.porous_volume.view(-1) * ct_tensor.view(-1) / dt)
         diag_vals = torch.zeros(N, device=self.device)
         diag_vals.scatter_add_(0, rows, -vals)
         diag_vals += acc_term
@@ -1530,10 +1527,7 @@ class Simulator:
         N = self.reservoir.nx * self.reservoir.ny * self.reservoir.nz
         # ВАЖНО: использовать тот же коэффициент аккумуляции, что и в матрице:
         # ct(P,Sw,Sg) из PVT (или fallback на self.fluid.cf), иначе возможен дрейф среднего давления.
-        try:
-            ct_tensor_rhs = self.fluid.calc_total_compressibility(self.fluid.pressure, self.fluid.s_w, self.fluid.s_g)
-        except Exception:
-            ct_tensor_rhs = self.fluid.cf
+        ct_tensor_rhs = self.fluid.calc_total_compressibility(self.fluid.pressure, self.fluid.s_w, self.fluid.s_g)
         compressibility_term = (self.porous_volume.view(-1) * ct_tensor_rhs.view(-1) / dt) * P_prev.view(-1)
         Q_g = torch.zeros_like(P_prev)
         _, _, dz = self.reservoir.grid_size
-- 
2.43.0


From 5140de7236ec2041d411366b9c21340c083daa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 20/45] fix: well index in SI units, with the cell's own size
 and permeability

---
 src/simulator/well.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/simulator/well.py b/src/simulator/well.py
index 8c51591..1cf5a00 100644
--- a/src/simulator/well.py
+++ b/src/simulator/well.py
@@ -7,7 +7,7 @@ class Well:
     Класс для представления скважины в резервуаре.
     """
     
-    def __init__(self, name, well_type, i, j, k, radius, control_type, control_value, reservoir_dimensions, injected_phase: str = 'water', rate_type: str = 'reservoir', surface_phase: str = None, limits: dict = None, bhp_min: float = None):
+    def __init__(self, name, well_type, i, j, k, radius, control_type, control_value, reservoir_dimensions, injected_phase: str = 'water', rate_type: str = 'reservoir', surface_phase: str = None, limits: dict = None, bhp_min: float = None, cell_size=(1.0, 1.0, 1.0), permeability: float = 9.869233e-14):
         """
         Инициализирует скважину.
         
@@ -19,6 +19,8 @@ class Well:
             control_type: Тип контроля ('rate' или 'bhp')
             control_value: Значение контроля (дебит в м³/день или забойное давление в МПа)
             reservoir_dimensions: Размеры резервуара (nx, ny, nz)
+            cell_size: Размеры ячейки (dx, dy, dz), м
+            permeability: Горизонтальная проницаемость ячейки, м²
         """
         self.name = name
         self.type = well_type
@@ -39,16 +41,14 @@ class Well:
         self.cell_index = (i, j, k)
         self.cell_index_flat = i + j * nx + k * nx * ny
         
-        # Определяем реальные размеры ячейки из reservoir_dimensions
-        # Для Peaceman нужно знать dx, dy. Полагаем кубические ячейки и берём 1 м, если размеры не переданы.
-        dx = dy = 1.0
+        # Размеры ячейки для формулы Писмана
+        dx, dy, dz = cell_size
         
         # Эффективный радиус ячейки для модели Писмана
         ro = 0.28 * ((dx**2 + dy**2)**0.5) / 2
         
-        # Индекс скважины по модели Писмана (k заменим позже при гетерогенности)
-        k_h_assumed = 100.0  # мД
-        self.well_index = 2 * math.pi * k_h_assumed / (math.log(ro / radius) + 1e-12)
+        # Индекс скважины по модели Писмана в СИ (м³), как и проводимости между ячейками
+        self.well_index = 2 * math.pi * permeability * dz / (math.log(ro / radius) + 1e-12)
         # Диагностика последнего шага
         self.last_q_total = None           # м3/с (знак: + инжекция, - отбор)
         self.last_surface_rates = {}       # {'oil','water','gas','liquid'} в м3/сутки
@@ -104,7 +104,9 @@ class WellManager:
                 rate_type=w.get('rate_type', 'reservoir'),
                 surface_phase=w.get('surface_phase'),
                 limits=w.get('limits'),
-                bhp_min=w.get('bhp_min')
+                bhp_min=w.get('bhp_min'),
+                cell_size=tuple(float(d) for d in reservoir.grid_size),
+                permeability=float(reservoir.permeability_x[i, j, k])
             )
             self.wells.append(well)
             print(f"  > Скважина '{well.name}' добавлена в менеджер.")
-- 
2.43.0


From 3e134246eb7c555d0ccee0f5a6be7b5f1b149de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:46 +0000
Subject: [PATCH 21/45] fix: bhp_min switches a producer to pressure control
 when its rate would need a lower BHP

---
 src/simulator/simulation.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 2ec51cd..00b2715 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1171,6 +1171,10 @@ class Simulator:
                         q_w[i, j, k] += q_total
                 else:
                     # Producer
+                    # Переключённый на bhp_min продуктор отбирает не больше, чем даёт депрессия
+                    q_max = float('inf')
+                    if well.bhp_min is not None and well.last_mode == 'bhp':
+                        q_max = max(float(well.well_index * mob_t[i, j, k] * (P_new[i, j, k] - well.bhp_min * 1e6)), 0.0)
                     if getattr(well, 'rate_type', 'reservoir') == 'surface' and self.fluid.pvt is not None:
                         sp = (well.surface_phase or 'liquid').lower()
                         Bo_cell = float(self.fluid._eval_pvt(P_new, 'Bo')[i, j, k])
@@ -1200,6 +1204,7 @@ class Simulator:
                             # q_liq_surf = q_total*(fo/Bo + fg*Rv/Bg + fw/Bw)
                             denom = (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12) + fw_ / max(Bw_cell, 1e-12))
                             q_total = - (q_base / max(denom, 1e-12))
+                        q_total = max(q_total, -q_max)
                         # Availability-choke: масштабируем q_total по доступности фаз в ячейке (dS не выходит за пределы)
                         PV_cell = float(self.porous_volume[i, j, k])
                         fw_ = fw[i, j, k].item(); fg_ = fg[i, j, k].item()
@@ -1271,6 +1276,7 @@ class Simulator:
                         qo_loc = q_total * fo[i, j, k]
                     else:
                         # Резервуарный total rate
+                        q_total = max(q_total, -q_max)
                         # Возможные surface-лимиты также применим, если есть PVT
                         if self.fluid.pvt is not None:
                             Bo_cell = float(self.fluid._eval_pvt(P_new, 'Bo')[i, j, k])
@@ -1578,15 +1584,18 @@ class Simulator:
                     mob_t_well = mob_t.view(-1)[idx]
                     wi = well.well_index
                     # Требуемый BHP для обеспечения заданного rate
-                    # q = wi * mob_t * (p_block - p_bhp) => p_bhp_req = p_block - q/(wi*mob_t)
-                    denom = wi * mob_t_well + 1e-12
-                    p_bhp_req = p_block - rate_si / denom
+                    # q = wi * mob_t * (p_block - p_bhp) => p_bhp_req = p_block - q/(wi*mob_t);
+                    # у продуктора rate_si = -q
+                    denom = max(float(wi * mob_t_well), 1e-30)
+                    p_bhp_req = p_block + rate_si / denom
                     p_bhp_min = well.bhp_min * 1e6
                     if p_bhp_req < p_bhp_min:
-                        # Переключаемся на BHP-контроль на этом шаге
+                        # Переключаемся на BHP-контроль на этом шаге; если депрессии нет
+                        # совсем, продуктор закрыт (а не закачивает)
                         well.last_mode = 'bhp'
-                        well_bhp_terms[idx] += wi * mob_t_well
-                        q_wells[idx] += wi * mob_t_well * p_bhp_min
+                        if p_block > p_bhp_min:
+                            well_bhp_terms[idx] += wi * mob_t_well
+                            q_wells[idx] += wi * mob_t_well * p_bhp_min
                         continue
                 well.last_mode = 'rate'
                 q_wells[idx] += rate_si
-- 
2.43.0


From 96ba863c03d6cb247ba5180d3d2661c79be12bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:33 +0000
Subject: [PATCH 22/45] sim hooks: guarded points for deterministic fault
 injection (off unless OILSIM_SIM_HOOKS=1)

---
 src/simulator/sim_hooks.py  | 19 +++++++++++++++++++
 src/simulator/simulation.py |  8 +++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)
 create mode 100644 src/simulator/sim_hooks.py

diff --git a/src/simulator/sim_hooks.py b/src/simulator/sim_hooks.py
new file mode 100644
index 0000000..ca8f1f0
--- /dev/null
+++ b/src/simulator/sim_hooks.py
@@ -0,0 +1,19 @@
+"""
+Точки внедрения для детерминированной симуляции с отказами.
+
+Выключено, если переменная окружения OILSIM_SIM_HOOKS не равна "1": тогда значения
+проходят без изменений и поведение симулятора не меняется.
+"""
+import os
+
+ENABLED = os.environ.get('OILSIM_SIM_HOOKS') == '1'
+
+# Обработчик (name, value) -> value; задаётся только тестовым стендом.
+handler = None
+
+
+def sim_point(name, value):
+    """Отдаёт value обработчику стенда (он может вернуть другое значение или бросить исключение)."""
+    if ENABLED and handler is not None:
+        return handler(name, value)
+    return value
diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 00b2715..5847fc3 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -7,6 +7,8 @@ import time
 import os
 import datetime
 
+from .sim_hooks import sim_point
+
 class Simulator:
     """
     Основной класс симулятора, отвечающий за выполнение расчетов.
@@ -198,6 +200,7 @@ class Simulator:
             print(f"Попытка шага с dt = {current_dt/86400:.2f} дней (Попытка {attempt+1}/{max_attempts})")
             
             # Выполняем шаг с текущим значением dt
+            sim_point('fi.dt', current_dt)
             converged, _ = self._fully_implicit_newton_step(current_dt)
             
             if converged:
@@ -299,6 +302,7 @@ class Simulator:
         prev_residual_norm = float('inf')
         
         # Основной цикл метода Ньютона
+        max_iter = sim_point('newton.max_iter', max_iter)
         for iter_idx in range(max_iter):
             # Время начала итерации для профилирования
             start_time = time.time()
@@ -879,6 +883,7 @@ class Simulator:
             current_dt = min(current_dt, remaining_dt)
             print(f"Попытка шага IMPES с dt = {current_dt/86400:.2f} дней (Попытка {attempt+1}/{max_attempts})")
 
+            sim_point('impes.dt', current_dt)
             P_new, converged = self._impes_pressure_step(current_dt)
 
             if converged:
@@ -970,7 +975,7 @@ class Simulator:
             P_new_flat, converged = amg_solve(
                 A, Q,
                 tol=amg_tol,
-                max_cycles=amg_max_cycles,
+                max_cycles=sim_point('amg.max_cycles', amg_max_cycles),
                 theta=amg_theta,
                 max_levels=amg_max_levels,
                 coarsest_size=amg_coarsest,
@@ -1626,6 +1631,7 @@ class Simulator:
         rs_old = torch.dot(r, z)
         if rs_old < 1e-10:
             return x, True
+        max_iter = sim_point('cg.max_iter', max_iter)
         for i in range(max_iter):
             Ap = torch.sparse.mm(A, p.unsqueeze(1)).squeeze(1)
             alpha = rs_old / torch.dot(p, Ap)
-- 
2.43.0


From 0fe2f73e2694af92e6d94ae8ffc60f1364f38846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:25 +0000
Subject: [PATCH 23/45] fix: fully implicit y-direction oil derivative was used
 before assignment

---
 src/simulator/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 5847fc3..0639d91 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1872,6 +1872,7 @@ class Simulator:
                         
                     else:
                         dfw_dsw2 = trans * dlambda_w_dsw[idx2] * (dp - dp_cap + gravity_term_w)
+                        dfo_dsw2 = trans * dlambda_o_dsw[idx2] * (dp + gravity_term_o)
                         
                         if self.fluid.pc_scale > 0:
                             dfw_dsw1 = trans * lambda_w_up * (-dpc_dsw[idx1])
-- 
2.43.0


From 4a395c6a4ba565ee67782d55f67024044a6dc502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:25 +0000
Subject: [PATCH 24/45] fix: a BHP well flowing against its type counts in the
 direction of its flow in the component balance

---
 src/simulator/simulation.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 0639d91..34fa498 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1368,14 +1368,16 @@ class Simulator:
                         q_g[i, j, k] += (-q_total)
                         if self.fluid.pvt is not None:
                             Bg_cell = float(self.fluid._eval_pvt(P_new, 'Bg')[i, j, k])
-                            qg_surf = max(-q_total, 0.0) / max(Bg_cell, 1e-12) * 86400.0
+                            qg_surf = abs(q_total) / max(Bg_cell, 1e-12) * 86400.0
                             try:
                                 Rv_cell = float(self.fluid._eval_pvt(P_new, 'Rv')[i, j, k])
                             except KeyError:
                                 Rv_cell = 0.0
                             scale = float(dt / 86400.0)
-                            self.component_balance['gas']['in'] += float(qg_surf * scale)
-                            self.component_balance['oil']['in'] += float(Rv_cell * qg_surf * scale)
+                            # При перетоке (пластовое давление выше забойного) газ уходит из пласта
+                            direction = 'in' if q_total <= 0 else 'out'
+                            self.component_balance['gas'][direction] += float(qg_surf * scale)
+                            self.component_balance['oil'][direction] += float(Rv_cell * qg_surf * scale)
                     else:
                         q_w[i, j, k] += (-q_total)
                 else:
@@ -1405,12 +1407,14 @@ class Simulator:
                         qg_res = float((qabs * fg_))
                         oil_delta = scale_t * (qo_res / max(Bo_cell, 1e-12) + Rv_cell * qg_res / max(Bg_cell, 1e-12))
                         gas_delta = scale_t * (qg_res / max(Bg_cell, 1e-12) + Rs_cell * qo_res / max(Bo_cell, 1e-12))
-                        self.component_balance['oil']['out'] += oil_delta
-                        self.component_balance['gas']['out'] += gas_delta
+                        # При перетоке (забойное давление выше пластового) скважина закачивает
+                        direction = 'out' if q_total >= 0 else 'in'
+                        self.component_balance['oil'][direction] += oil_delta
+                        self.component_balance['gas'][direction] += gas_delta
                         self._dbg(
                             f"WELL_OUT name={well.name} mode=bhp cell=({i},{j},{k}) q_total={q_total:.6e} fw={fw_:.3f} fg={fg_:.3f} fo={fo_:.3f}",
                             f"Bo={Bo_cell:.4g} Bw={Bw_cell:.4g} Bg={Bg_cell:.4g} Rs={Rs_cell:.4g} Rv={Rv_cell:.4g}",
-                            f"oil_out+= {oil_delta:.6e} gas_out+= {gas_delta:.6e}"
+                            f"oil_{direction}+= {oil_delta:.6e} gas_{direction}+= {gas_delta:.6e}"
                         )
 
         # Агрегированный баланс масс будет посчитан после применения dS и обновления насыщенностей ниже
-- 
2.43.0


From 9d0aa2c10fa05d87b1b0dd8c7aa2e519a0a31c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:54 +0000
Subject: [PATCH 25/45] fix: a failed RL reset leaves the previous episode
 usable

---
 src/rl_env.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rl_env.py b/src/rl_env.py
index c470602..2bfc16f 100644
--- a/src/rl_env.py
+++ b/src/rl_env.py
@@ -65,6 +65,15 @@ class ReservoirEnv(gym.Env):
     # ---------------------------------------------------------------------
     def reset(self, *, seed: int | None = None, options: Dict | None = None):
         super().reset(seed=seed)
+        previous = dict(self.__dict__)
+        try:
+            return self._start_episode()
+        except BaseException:
+            # Перестроить не удалось: прежний эпизод остаётся целым
+            self.__dict__.update(previous)
+            raise
+
+    def _start_episode(self):
         # Перечитываем конфиг для жёсткого ресета
         with open(self.config_path, "r", encoding="utf-8") as f:
             cfg = json.load(f)
-- 
2.43.0


From 35c86cb95f59d77e1b03c543833585301796b34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:47 +0000
Subject: [PATCH 26/45] fix: animation finds its frames when the results name
 contains [ ] or *

---
 src/simulator/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 34fa498..226b8b2 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2305,7 +2305,7 @@ class Simulator:
         # а не лексикографически, чтобы кадры шли в правильном хронологическом порядке
         regex = re.compile(r'_step_(\d+)\.png$')
         step_files = []
-        for path in glob.glob(os.path.join(images_dir, "*_step_*.png")):
+        for path in glob.glob(os.path.join(glob.escape(images_dir), "*_step_*.png")):
             m = regex.search(os.path.basename(path))
             if m:
                 step_files.append((int(m.group(1)), path))
@@ -2315,7 +2315,7 @@ class Simulator:
         images = [p for _, p in step_files]
         
         # Добавляем финальный кадр, если существует (лежит в родительской директории)
-        final_candidates = glob.glob(os.path.join(os.path.dirname(images_dir), f"{os.path.basename(images_dir).split(os.sep)[-1].replace('intermediate','')}*_final.png"))
+        final_candidates = glob.glob(os.path.join(glob.escape(os.path.dirname(images_dir)), f"{glob.escape(os.path.basename(images_dir).replace('intermediate',''))}*_final.png"))
         if final_candidates:
             images.append(final_candidates[0])
         
-- 
2.43.0


From 7b988c34af504344b639dd3d81c465098cb921a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:36 +0000
Subject: [PATCH 27/45] fix: VTK export of a run pairs each value with its own
 cell

---
 src/simulator/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 226b8b2..96cf38e 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2267,13 +2267,13 @@ class Simulator:
             grid.SetPoints(points)
             
             # Добавляем данные давления
-            pressure_array = self.fluid.pressure.cpu().numpy().flatten()
+            pressure_array = self.fluid.pressure.cpu().numpy().flatten(order='F')  # в VTK быстрее всего меняется i
             vtk_pressure = numpy_support.numpy_to_vtk(pressure_array)
             vtk_pressure.SetName("Pressure")
             grid.GetPointData().AddArray(vtk_pressure)
             
             # Добавляем данные насыщенности
-            sw_array = self.fluid.s_w.cpu().numpy().flatten()
+            sw_array = self.fluid.s_w.cpu().numpy().flatten(order='F')
             vtk_sw = numpy_support.numpy_to_vtk(sw_array)
             vtk_sw.SetName("Water_Saturation")
             grid.GetPointData().AddArray(vtk_sw)
-- 
2.43.0


From 385bdf663b431073072c0048d090fcbbdb8e8406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:36 +0000
Subject: [PATCH 28/45] fix: a failed VTK write is reported

---
 src/simulator/simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 96cf38e..5987e95 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2282,7 +2282,8 @@ class Simulator:
             writer = vtk.vtkXMLStructuredGridWriter()
             writer.SetFileName(os.path.join(results_dir, f"{output_filename}.vts"))
             writer.SetInputData(grid)
-            writer.Write()
+            if not writer.Write():
+                raise OSError(f"Не удалось записать VTK-файл для '{output_filename}'")
             
             print(f"Результаты сохранены в формате VTK.")
         except ImportError:
-- 
2.43.0


From 92d08d7417aff7f430f2387493aa5ff1f77269c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:27 +0000
Subject: [PATCH 29/45] fix: PVT table that is empty, has gaps or is not sorted
 by pressure is rejected

---
 src/simulator/pvt.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/simulator/pvt.py b/src/simulator/pvt.py
index e92e9dc..27e29c9 100644
--- a/src/simulator/pvt.py
+++ b/src/simulator/pvt.py
@@ -44,6 +44,13 @@ class PVTTable:
                 raise ValueError(f"PVT: длины столбцов не совпадают (pressure vs {name})")
         if len(self.Rv) != n:
             raise ValueError("PVT: длины столбцов не совпадают (pressure vs Rv_m3m3)")
+        if n == 0:
+            raise ValueError("PVT: пустая таблица")
+        for arr in (self.P, self.Bo, self.Bw, self.Bg, self.mu_o, self.mu_w, self.mu_g, self.Rs, self.Rv):
+            if not np.isfinite(arr).all():
+                raise ValueError("PVT: в таблице есть пропущенные или нечисловые значения")
+        if np.any(np.diff(self.P) < 0):
+            raise ValueError("PVT: давления должны идти по возрастанию")
 
     def _interp(self, x: np.ndarray, xp: np.ndarray, fp: np.ndarray) -> np.ndarray:
         # Линейная интерполяция с экстраполяцией по краям
-- 
2.43.0


From feab8ece9f0e44fc021fa6fbfe712095d7e3b9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 30/45] fix: Newton line search of the fully implicit scheme
 restarts from the current iterate, not from the step start

---
 src/simulator/simulation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 5987e95..76b7e58 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -307,6 +307,10 @@ class Simulator:
             # Время начала итерации для профилирования
             start_time = time.time()
             
+            # Текущее приближение: от него отсчитывается line search, для него вычисляется невязка
+            iter_p = self.fluid.pressure.clone()
+            iter_sw = self.fluid.s_w.clone()
+            
             # Расчет остаточной невязки и якобиана
             if using_cuda:
                 # Для CUDA: создаем тензоры на CPU для Якобиана (более эффективное решение СЛАУ)
@@ -481,8 +485,8 @@ class Simulator:
                 new_residual_norm = torch.norm(new_residual).item()
                 
                 # Откатываем изменения
-                self.fluid.pressure = current_p.clone()
-                self.fluid.s_w = current_sw.clone()
+                self.fluid.pressure = iter_p.clone()
+                self.fluid.s_w = iter_sw.clone()
                 
                 # Проверяем, улучшает ли этот фактор сходимость
                 if new_residual_norm < best_residual_norm:
-- 
2.43.0


From 077156854df7077605e48a3b05b939138f58001f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 31/45] fix: fully implicit step accepts the iterate whose
 residual was checked, not the unchecked correction after it

---
 src/simulator/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 76b7e58..407459a 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -541,6 +541,10 @@ class Simulator:
         print(f"  Метод Ньютона не сошелся за {max_iter} итераций")
         if residual_norm < 20 * tol:
             print(f"  Невязка достаточно близка к допустимой, принимаем результат")
+            # Невязка проверена для приближения до последней поправки: его и принимаем
+            self.fluid.pressure = iter_p
+            self.fluid.s_w = iter_sw
+            self.fluid.s_o = 1.0 - self.fluid.s_w
             return True, max_iter
         else:
             # Восстанавливаем исходное состояние
-- 
2.43.0


From 6986ef8c71539f3a729efa5a28622aafb6ce1eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:45 +0000
Subject: [PATCH 32/45] fix: Newton stagnation counter starts afresh in every
 solve instead of carrying over from failed steps

---
 src/simulator/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 407459a..d8b15b2 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -300,6 +300,8 @@ class Simulator:
         
         # Флаг для отслеживания предыдущей невязки для адаптивной сходимости
         prev_residual_norm = float('inf')
+        # Счетчик стагнаций относится к одному решению: предыдущие попытки на него не влияют
+        self._stagnation_count = 0
         
         # Основной цикл метода Ньютона
         max_iter = sim_point('newton.max_iter', max_iter)
-- 
2.43.0


From 45f0d7fb1db7c44131f428eac79188c4300cb7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:45 +0000
Subject: [PATCH 33/45] fix: a well keeps its own copy of the limits, so wells
 built from one configuration do not share them

---
 src/simulator/well.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator/well.py b/src/simulator/well.py
index 1cf5a00..8b12f3c 100644
--- a/src/simulator/well.py
+++ b/src/simulator/well.py
@@ -34,7 +34,7 @@ class Well:
         self.rate_type = rate_type  # 'reservoir' | 'surface'
         self.surface_phase = surface_phase  # for producers: 'oil'|'water'|'gas'|'liquid'
         # Лимиты фаз (м3/сутки) и минимальный забой (МПа)
-        self.limits = limits or {}
+        self.limits = dict(limits) if limits else {}
         self.bhp_min = bhp_min  # МПа, если задано
         
         nx, ny, nz = reservoir_dimensions
-- 
2.43.0


From 552fa6307def0058eb210bd54a8cd9fe1887d549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 34/45] fix: iterative fallback of the fully implicit linear
 solve called bicgstab with an argument that scipy no longer has

---
 src/simulator/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index d8b15b2..e3e1cdf 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -424,7 +424,7 @@ class Simulator:
                         delta = torch.from_numpy(delta_np).to(device)
                     except Exception:
                         # Если прямой метод не работает, используем итеративный
-                        delta_np, info = bicgstab(jacobian_sparse, -residual_np, tol=1e-6, maxiter=1000)
+                        delta_np, info = bicgstab(jacobian_sparse, -residual_np, rtol=1e-6, maxiter=1000)
                         if info != 0:
                             print(f"  Предупреждение: Итеративный решатель не сошелся (код {info})")
                         delta = torch.from_numpy(delta_np).to(device)
-- 
2.43.0


From 2622b323456e7d63fdabedb57367b398a672beb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 35/45] fix: component debug logs of simulators created within
 one second no longer overwrite each other

---
 src/simulator/simulation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index e3e1cdf..ad0f267 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -103,6 +103,11 @@ class Simulator:
             default_path = os.path.join('results', f'component_debug_{ts}.log')
             self.debug_log_path = sim_params.get('debug_log_path', default_path)
             os.makedirs(os.path.dirname(self.debug_log_path) or '.', exist_ok=True)
+            suffix = 1
+            while 'debug_log_path' not in sim_params and os.path.exists(self.debug_log_path):
+                # Лог другого симулятора, созданного в ту же секунду: его не трогаем
+                self.debug_log_path = os.path.join('results', f'component_debug_{ts}_{suffix}.log')
+                suffix += 1
             with open(self.debug_log_path, 'w') as f:
                 f.write('# Component balance debug log\n')
                 f.write(f'# started {ts}\n')
-- 
2.43.0


From 29813d0d919ab18b9653f0fa7cd2500991324da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 36/45] fix: pictures showed the y index along the axis
 labelled X and the other way round

---
 src/plotting/plotter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/plotting/plotter.py b/src/plotting/plotter.py
index 8b80b98..b0c9a5b 100644
--- a/src/plotting/plotter.py
+++ b/src/plotting/plotter.py
@@ -46,8 +46,9 @@ class Plotter:
         if time_info:
             title_suffix = f" ({time_info}, Срез Z={z_slice_idx})"
 
+        # Массивы имеют порядок (x, y), imshow откладывает первый индекс по вертикали: отсюда .T
         # График давления
-        im1 = ax1.imshow(p_slice / 1e6, cmap='jet', origin='lower', aspect='auto')
+        im1 = ax1.imshow(p_slice.T / 1e6, cmap='jet', origin='lower', aspect='auto')
         ax1.set_title(f'Давление (МПа){title_suffix}')
         ax1.set_xlabel('Ячейка X')
         ax1.set_ylabel('Ячейка Y')
@@ -59,7 +60,7 @@ class Plotter:
         if abs(vmax_w - vmin_w) < 1e-4:
             vmin_w = max(0.0, vmin_w - 0.05)
             vmax_w = min(1.0, vmax_w + 0.05)
-        im2 = ax2.imshow(sw_slice, cmap='viridis', origin='lower', vmin=vmin_w, vmax=vmax_w, aspect='auto')
+        im2 = ax2.imshow(sw_slice.T, cmap='viridis', origin='lower', vmin=vmin_w, vmax=vmax_w, aspect='auto')
         ax2.set_title(f'Насыщенность водой{title_suffix}')
         ax2.set_xlabel('Ячейка X')
         ax2.set_ylabel('Ячейка Y')
@@ -72,7 +73,7 @@ class Plotter:
             if abs(vmax_g - vmin_g) < 1e-4:
                 vmin_g = max(0.0, vmin_g - 0.05)
                 vmax_g = min(1.0, vmax_g + 0.05)
-            im3 = ax3.imshow(sg_slice, cmap='plasma', origin='lower', vmin=vmin_g, vmax=vmax_g, aspect='auto')
+            im3 = ax3.imshow(sg_slice.T, cmap='plasma', origin='lower', vmin=vmin_g, vmax=vmax_g, aspect='auto')
             ax3.set_title(f'Насыщенность газом{title_suffix}')
             ax3.set_xlabel('Ячейка X')
             ax3.set_ylabel('Ячейка Y')
-- 
2.43.0


From 6bdbadfad3653879f454dccc0e1e436b50951856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 37/45] fix: a picture that could not be written left its
 figure open for the life of the process

---
 src/plotting/plotter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/plotting/plotter.py b/src/plotting/plotter.py
index b0c9a5b..1321acd 100644
--- a/src/plotting/plotter.py
+++ b/src/plotting/plotter.py
@@ -79,8 +79,10 @@ class Plotter:
             ax3.set_ylabel('Ячейка Y')
             fig.colorbar(im3, ax=ax3)
 
-        plt.tight_layout()
-        plt.savefig(filename)
-        plt.close(fig) # Закрываем фигуру, чтобы не потреблять память
+        try:
+            plt.tight_layout()
+            plt.savefig(filename)
+        finally:
+            plt.close(fig) # Закрываем фигуру (и при ошибке записи), чтобы не потреблять память
         
         print(f"Графики сохранены в файл {filename}") 
\ No newline at end of file
-- 
2.43.0


From c71b1a24f0b4b051f1bfaa35473edfbd8180eaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 38/45] fix: title of an intermediate picture gives the day of
 the state instead of truncating it to a whole day

---
 src/simulator/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index ad0f267..1fa5baa 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2167,7 +2167,7 @@ class Simulator:
                 sw_current = self.fluid.s_w.cpu().numpy()
                 sg_current = self.fluid.s_g.cpu().numpy()
                 
-                time_info = f"День {int((i + 1) * time_step_days)}"
+                time_info = f"День {(i + 1) * time_step_days:g}"
                 filename = f"{output_filename}_step_{i+1}.png"
                 filepath = os.path.join(intermediate_results_dir, filename)
                 
-- 
2.43.0


From 3411363c1982e44b6b749c2b1b2a77d1b319d113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 39/45] fix: AMG solve of a zero right-hand side from a
 non-zero guess returned the guess as converged

---
 src/solver/classical_amg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/classical_amg.py b/src/solver/classical_amg.py
index 0defa99..6d33b0f 100644
--- a/src/solver/classical_amg.py
+++ b/src/solver/classical_amg.py
@@ -1134,6 +1134,8 @@ class ClassicalAMG:
         
         b_norm = b_scaled.norm()
         self.last_converged = bool(b_norm == 0)
+        if self.last_converged:
+            x_scaled = torch.zeros_like(b_scaled)  # решение нулевое при любом x0
         
         for cycle in range(max_iter):
             x_scaled = self._v_cycle(0, x_scaled, b_scaled, pre_smooth=3, post_smooth=2,
-- 
2.43.0


From b83cc8c51c3c84b2390cf7016fbaf9ecafc7bd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:47 +0000
Subject: [PATCH 40/45] fix: an initial saturation written as an integer (0 or
 1) in the configuration made the first step raise

---
 src/simulator/fluid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulator/fluid.py b/src/simulator/fluid.py
index a53ed93..dc4c12f 100644
--- a/src/simulator/fluid.py
+++ b/src/simulator/fluid.py
@@ -24,8 +24,8 @@ class Fluid:
         
         # Начальные значения
         initial_pressure = config.get('pressure', 20.0) * 1e6  # МПа -> Па
-        initial_sw = config.get('s_w', 0.2)
-        initial_sg = config.get('s_g', 0.0)  # Начальная газонасыщенность (по умолчанию 0)
+        initial_sw = float(config.get('s_w', 0.2))  # 0 или 1 в JSON — целое число
+        initial_sg = float(config.get('s_g', 0.0))  # Начальная газонасыщенность (по умолчанию 0)
         
         # Свойства флюидов (базовые, если нет PVT)
         self.mu_oil = config.get('mu_oil', 1.0) * 1e-3  # сП -> Па*с
-- 
2.43.0


From 7aa3a0ed38437dee070bf34c17001966f9cac7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:59 +0000
Subject: [PATCH 41/45] fix: a well with negative coordinates was silently
 placed in another cell

---
 src/simulator/well.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simulator/well.py b/src/simulator/well.py
index 8b12f3c..01e6f5a 100644
--- a/src/simulator/well.py
+++ b/src/simulator/well.py
@@ -38,6 +38,8 @@ class Well:
         self.bhp_min = bhp_min  # МПа, если задано
         
         nx, ny, nz = reservoir_dimensions
+        if not (0 <= i < nx and 0 <= j < ny and 0 <= k < nz):
+            raise ValueError(f"Скважина '{name}': ячейка ({i}, {j}, {k}) вне сетки {nx}x{ny}x{nz}")
         self.cell_index = (i, j, k)
         self.cell_index_flat = i + j * nx + k * nx * ny
         
-- 
2.43.0


From 94c4ba42e929884b91c14b2429104eb12e9fe8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 42/45] fix: the configuration file was decoded with the
 system's locale, so a Russian description could make main refuse it

---
 src/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.py b/src/main.py
index de202e5..8414f95 100644
--- a/src/main.py
+++ b/src/main.py
@@ -61,7 +61,7 @@ def parse_args():
     return parser.parse_args()
 
 def load_config(config_path):
-    with open(config_path, 'r') as f:
+    with open(config_path, 'r', encoding='utf-8') as f:
         return json.load(f)
 
 def initialize_device():
-- 
2.43.0


From ae0c97a34a8dc0c8452fb28d212fab5930182eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 43/45] fix: after a reset on a changed configuration the
 environment kept the spaces of the old wells and grid

---
 src/rl_env.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/rl_env.py b/src/rl_env.py
index 2bfc16f..8689de5 100644
--- a/src/rl_env.py
+++ b/src/rl_env.py
@@ -46,6 +46,13 @@ class ReservoirEnv(gym.Env):
             device=self.device,
         )
 
+        self._define_spaces()
+
+        # --- Внутренние состояния ---
+        self._step_count = 0
+        self._prev_oil_mass = self._calc_oil_mass().item()
+
+    def _define_spaces(self) -> None:
         # --- Экспозиция spaces ---
         n_wells = len(self.well_manager.wells)
         # Действие: изменение дебита / давления в диапазоне [-1,1] для каждого скважины
@@ -56,10 +63,6 @@ class ReservoirEnv(gym.Env):
         obs_len = nx * ny * nz * 2  # давление + насыщенность
         self.observation_space = spaces.Box(-np.inf, np.inf, shape=(obs_len,), dtype=np.float32)
 
-        # --- Внутренние состояния ---
-        self._step_count = 0
-        self._prev_oil_mass = self._calc_oil_mass().item()
-
     # ---------------------------------------------------------------------
     # Gym API
     # ---------------------------------------------------------------------
@@ -89,6 +92,7 @@ class ReservoirEnv(gym.Env):
             sim_params=cfg.get("simulation", {}),
             device=self.device,
         )
+        self._define_spaces()  # в перечитанном конфиге могут быть другие скважины и сетка
 
         self._step_count = 0
         self._prev_oil_mass = self._calc_oil_mass().item()
-- 
2.43.0


From dce29188b346ea74afd988101c846427f6cfcf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:17 +0000
Subject: [PATCH 44/45] fix: configured end points krw_end and krg_end of the
 relative permeabilities were read and ignored

---
 src/simulator/fluid.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/simulator/fluid.py b/src/simulator/fluid.py
index dc4c12f..a6db1d1 100644
--- a/src/simulator/fluid.py
+++ b/src/simulator/fluid.py
@@ -258,7 +258,7 @@ class Fluid:
         
         # d(krw)/d(sw) = d(krw)/d(s_norm) * d(s_norm)/d(sw)
         # d(krw)/d(s_norm) = nw * s_norm^(nw-1)
-        dkrw_dsw = self.nw * (s_norm ** (self.nw - 1)) * dsw_norm_dsw
+        dkrw_dsw = self.krw_end * self.nw * (s_norm ** (self.nw - 1)) * dsw_norm_dsw
         
         # d(kro)/d(sw) = d(kro)/d(s_norm) * d(s_norm)/d(sw)
         # d(kro)/d(s_norm) = -no * (1-s_norm)^(no-1)
@@ -385,7 +385,7 @@ class Fluid:
             Тензор относительной проницаемости воды
         """
         s_norm = self._get_normalized_saturation(s_w)
-        return s_norm**self.nw
+        return self.krw_end * s_norm**self.nw
 
     def calc_oil_kr(self, s_w, s_g=None):
         """
@@ -432,7 +432,7 @@ class Fluid:
         
         # Используем показатель Кори для газа (обычно 2-3)
         ng = getattr(self, 'ng', 2.0)  # Показатель Кори для газа
-        return s_g_norm**ng
+        return self.krg_end * s_g_norm**ng
 
     def calc_dkrw_dsw(self, s_w):
         """
@@ -452,7 +452,7 @@ class Fluid:
         
         # Производная dkrw/dsw = dkrw/ds_norm * ds_norm/dsw
         result = torch.zeros_like(s_w)
-        result[mask] = self.nw * s_norm[mask]**(self.nw - 1) / normalized_range
+        result[mask] = self.krw_end * self.nw * s_norm[mask]**(self.nw - 1) / normalized_range
         
         return result
 
@@ -500,7 +500,7 @@ class Fluid:
         
         # Производная dkrg/dsg = ng * s_g_norm^(ng-1) / normalized_range
         result = torch.zeros_like(s_g)
-        result[mask] = ng * s_g_norm[mask]**(ng - 1) / normalized_range
+        result[mask] = self.krg_end * ng * s_g_norm[mask]**(ng - 1) / normalized_range
         
         return result
 
-- 
2.43.0


From 791044e79c718db799adfbd6d22392dfe27e45ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:17 +0000
Subject: [PATCH 45/45] fix: relperm_model, s_wr and s_or in the fluid section
 (as in configs/mega_3phase_million.json, impes_2d.json) were ignored

---
 src/simulator/fluid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/simulator/fluid.py b/src/simulator/fluid.py
index a6db1d1..f669d5a 100644
--- a/src/simulator/fluid.py
+++ b/src/simulator/fluid.py
@@ -58,8 +58,9 @@ class Fluid:
                 print(f"  PVT: не удалось загрузить '{pvt_path}': {e}")
         
         # Параметры модели относительной проницаемости
+        # (модель и концевые насыщенности могут быть заданы и в плоском виде, прямо в разделе fluid)
         rp_cfg = config.get('relative_permeability', {})
-        self.relperm_model = rp_cfg.get('model', 'corey')
+        self.relperm_model = rp_cfg.get('model', config.get('relperm_model', 'corey'))
         self.nw    = rp_cfg.get('nw', 2)           # Показатель Кори для воды
         self.no    = rp_cfg.get('no', 2)           # Показатель Кори для нефти (oil-water)
         self.ng    = rp_cfg.get('ng', 2)           # Показатель Кори для газа
@@ -70,8 +71,8 @@ class Fluid:
         self.nog = rp_cfg.get('nog', float(self.ng))
         self.krw_end = rp_cfg.get('krw_end', 1.0)
         self.krg_end = rp_cfg.get('krg_end', 1.0)
-        self.sw_cr = rp_cfg.get('sw_cr', 0.2)      # Связанная водонасыщенность
-        self.so_r  = rp_cfg.get('so_r', 0.2)       # Остаточная нефтенасыщенность
+        self.sw_cr = rp_cfg.get('sw_cr', config.get('s_wr', 0.2))      # Связанная водонасыщенность
+        self.so_r  = rp_cfg.get('so_r', config.get('s_or', 0.2))       # Остаточная нефтенасыщенность
         self.sg_cr = rp_cfg.get('sg_cr', 0.0)      # Критическая газонасыщенность
         
         # Инициализация полей
-- 
2.43.0

