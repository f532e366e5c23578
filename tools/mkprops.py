"""Writes properties.jsonl and MANIFEST.json (one source for both).  Run by hand after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM, FL, WELL = 'src/simulator/simulation.py', 'src/simulator/fluid.py', 'src/simulator/well.py'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None, level=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook), _note=level))


prop('S01', 'A time step is all or nothing',
     'A time step that reports failure or raises leaves pressures, saturations, mass and component balances and well diagnostics exactly as they were before the call. '
     'A simulator that went through any number of failed or interrupted steps continues exactly like one that never attempted them.',
     ['fault_sequences', 'crash_points', 'histories'],
     'every world, every history of steps, every way of failing (solver not converging at any attempt, an exception or allocation failure at any point inside the step), both schemes',
     'Tests never make a step fail half way: no test injects non-convergence or an exception, so the rollback path is never executed.',
     [SIM], [('saved state restored on failure', SIM + ':run_step/_save_state/_restore_state'), ('retry loops', SIM + ':_impes_step/_fully_implicit_step')],
     [('fluid fields', 'pressure, saturations and their previous-step copies', SIM), ('mass_balance, component_balance', 'cumulative accounting', SIM),
      ('last_q_total, last_surface_rates, last_mode', 'well diagnostics', WELL)], ['Simulator.run_step'],
     'solver budget points (impes.dt, cg.max_iter, amg.max_cycles, newton.max_iter)')
prop('S02', 'A successful step advances exactly the requested time',
     'A time step that reports success has advanced the reservoir by exactly the requested interval, however many attempts, cuts and sub-steps it took: the volumes injected and produced by rate wells and the pressure change of a closed reservoir are those of the whole interval, each part applied exactly once. '
     'When the solver fails on fewer attempts than the configured maximum, the step must succeed.',
     ['fault_sequences', 'histories', 'configurations'],
     'every pattern of solver failures inside a step, every dt, reduction/increase factor and attempt limit, repeated steps',
     'No test makes the solver fail, so a cut step is never seen; the existing tests would pass with a step that silently covers a fraction of dt.',
     [SIM], [('sub-cycling until the remaining time is zero', SIM + ':_impes_step'), ('the same for the fully implicit scheme', SIM + ':_fully_implicit_step')],
     [('remaining_dt, attempt', 'progress of the step', SIM)], ['Simulator.run_step'], 'impes.dt / fi.dt points and solver budgets')
prop('S03', 'A run covers the requested time or says it did not',
     'A full run performs exactly as many time steps as the requested total time contains, each once and in order, and stores the state after the last one. '
     'If a step cannot be completed the run stops there, never continues on later steps, and both the console and the summary file say at which day it stopped.',
     ['fault_sequences', 'configurations', 'inputs'],
     'every total time / step length pair (also ones not representable in floating point), save interval, every step at which the solver may fail for good or for a while',
     'Tests call single steps; none runs the whole driver, and none lets a step fail in the middle of a run.',
     [SIM, 'src/main.py'], [('step loop of run()', SIM + ':run'), ('summary writer', SIM + ':run')], [('completed_steps', 'steps done', SIM)], ['summary .txt, .npz, stdout'], 'solver budgets')
prop('S04', 'Saturations stay physical',
     'After every step the water, gas and oil saturations are finite, lie between 0 and 1 and sum to one, pressure is finite, and a step never pushes mobile water below its connate value, oil below its residual value, or gas below zero (or below its critical value by production), unless the cell already was there.',
     ['inputs', 'histories', 'fault_sequences'],
     'every world (also rates many times the pore volume, starting states outside the mobile window), every schedule of steps and solver failures',
     'Tests sample a handful of gentle runs; limits are reached only under extreme rates or initial states.',
     [SIM, FL], [('adaptive saturation sub-steps and clamps', SIM + ':_impes_saturation_step'), ('initial saturations', FL)],
     [('s_w, s_g, s_o', 'saturations', FL)], ['Fluid fields after run_step'], None)
prop('S05', 'Flow conserves phase volumes',
     'In the IMPES scheme, as long as no saturation limit is reached, the change of each phase volume in place over a step equals what wells injected minus what they produced of that phase; flow between cells only moves volume and never creates or destroys it. '
     'With no wells the volume of every phase in place is constant and no phase appears in or vanishes from any region cut off by impermeable rock.',
     ['inputs', 'histories', 'fault_sequences'],
     'every grid, heterogeneity, fluid, well set and schedule, including solver failures and cut steps',
     'Tests compare a few totals with loose tolerance on single cases; a leak of one face direction or one phase shows up only on other grids.',
     [SIM], [('divergence assembly', SIM + ':_impes_saturation_step'), ('well sources', SIM + ':_impes_saturation_step')],
     [('s_w, s_g', 'saturations', FL)], ['pore-volume weighted sums of the fields'], None)
prop('S06', 'Each step solves the stated flow equations',
     'Every accepted IMPES step satisfies, cell by cell and to rounding and solver tolerance, the implicit volume balance for pressure (accumulation, Darcy flow with upwinded total mobility, gravity, capillary pressure, wells) and the explicit phase transport (phase-potential upwinding, well sources) of an independent model. '
     'This holds whatever solver variant was used and however many attempts failed before.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'],
     'random worlds (grids, rock, fluids with and without PVT, relative permeability and capillary models, wells), solver variants, schedules with starved solver calls',
     'Tests check a handful of symmetric or one-dimensional situations; a wrong term in one direction, phase or well mode is invisible there.',
     [SIM, FL, WELL], [('pressure assembly', SIM + ':_impes_pressure_step'), ('transport', SIM + ':_impes_saturation_step'), ('rock/fluid functions', FL)],
     [], ['Fluid fields before/after run_step'], 'impes.dt')
prop('S07', 'Simulators in one process do not influence each other',
     'Several simulators used in one process, with their steps interleaved in any order or running in several threads at once, each produce the results they produce alone (bit for bit with the conjugate-gradient solver, within solver tolerance with AMG). '
     'No interleaving crashes, deadlocks or corrupts another simulator.',
     ['schedules', 'histories'],
     'every interleaving of steps and, for threads, every preemption at any line of the simulator and solver code; caches shared or evicted',
     'Tests build one simulator at a time and have no threads; a shared cache or mutable default cannot show.',
     ['src/solver/pressure_amg.py', 'src/solver/classical_amg.py', SIM, WELL, FL],
     [('hierarchy cache and its lock', 'src/solver/pressure_amg.py'), ('per-instance state', SIM)],
     [('_AMG_CACHE / _AMG_LOCK', 'process-wide solver hierarchy', 'src/solver/pressure_amg.py')], ['Simulator.run_step'], None)
prop('S08', 'AMG returns the true solution or reports failure',
     'For every symmetric positive definite pressure-like system the AMG solve either reports convergence and returns a finite vector whose residual meets the requested tolerance, or reports that it did not converge. '
     'This holds whatever was solved before in the same process, whichever hierarchy is cached, from whichever initial guess, and however ties are broken at random. Neither the system nor the guess passed in is modified.',
     ['inputs', 'histories', 'fault_sequences'],
     'every matrix pattern and coefficient contrast, every sequence of solves (same pattern with other values, other patterns, other parameters), every random draw, starved cycle budgets',
     'Tests solve one or two systems in a fresh process with the default random state; stale hierarchies and missed tolerances need a history.',
     ['src/solver/pressure_amg.py', 'src/solver/classical_amg.py'],
     [('cache key and hierarchy reuse', 'src/solver/pressure_amg.py'), ('coarsening, smoothing, coarse solve', 'src/solver/classical_amg.py')],
     [('_AMG_CACHE', 'cached hierarchies', 'src/solver/pressure_amg.py')], ['amg_solve return value'], None)
prop('S09', 'The choice of linear solver does not change the answer',
     'Running the same case with the conjugate-gradient, double-precision and AMG pressure solvers gives the same pressures, saturations, well rates and balances within the accuracy of the solvers, also when solver calls fail and fall back or are retried.',
     ['configurations', 'histories', 'fault_sequences'],
     'every world, every pair of solver variants and solver parameters, every pattern of failed solver calls',
     'A single small case is compared in the tests, without failures.',
     [SIM, 'src/solver/pressure_amg.py', 'src/solver/classical_amg.py'], [('solver selection and fallback', SIM + ':_impes_pressure_step')], [], ['Fluid fields'], 'solver budgets')
prop('S10', 'Runs are reproducible',
     'The same configuration and the same sequence of calls give bitwise the same results, whatever the wall clock shows, in whatever order the file system lists files, whatever the hash seed, the locale and the global random state, and whatever ran earlier in the process (with AMG: for the same random state and a fresh process). '
     'Repeating a step sequence on a freshly built simulator repeats every field and every balance.',
     ['histories', 'configurations'],
     'every world and schedule; clock scripts including jumps, hash seeds, random states, previous work in the process',
     'Tests run each case once.',
     [SIM, FL, 'src/simulator/reservoir.py', WELL], [('no hidden state between constructions', SIM)], [], ['Fluid fields, balances'], None)
prop('S11', 'RL episodes are consistent',
     'After reset an environment behaves exactly like a newly created one on the same file; every step applies the action to each well as documented (a rate changes by at most 20 %, a pressure by at most 5 MPa), advances the simulator by one time step, and returns the observation of the true state and as reward the oil mass produced in that step, so that rewards add up to the total decline of oil in place. '
     'If the solver fails the episode ends with the penalty, flagged as not converged, and the reservoir unchanged; an episode ends at the step limit; a reset that fails leaves the previous episode as it was.',
     ['histories', 'fault_sequences', 'schedules'],
     'every action sequence, resets at any point (also after a failure), several environments interleaved, solver failures at any step',
     'Tests have at most one smoke episode without failures or mid-episode resets.',
     ['src/rl_env.py', SIM], [('reset rebuilds from file', 'src/rl_env.py:reset'), ('reward bookkeeping', 'src/rl_env.py:_calc_reward'), ('failure handling', 'src/rl_env.py:step')],
     [('_step_count, _prev_oil_mass', 'episode state', 'src/rl_env.py')], ['reset/step return values'], 'solver budgets')
prop('S12', 'Saved results are faithful and never overwrite others',
     'The summary, the arrays and the VTK export of a finished run contain exactly the final state and balances, and every run writes to a directory of its own, so that results saved earlier are never changed, even by runs started at the same instant. '
     'When the disk fails while results are written, the error reaches the caller and the files of other runs stay intact.',
     ['fault_sequences', 'crash_points', 'histories'],
     'every run length and save option, disk errors / short writes / full disk / crash at any file operation, frozen or jumping clocks, several runs with one name',
     'No test writes results at all.',
     [SIM, 'src/output/vtk_writer.py', 'src/main.py'], [('unique results directory', SIM + ':run'), ('summary and npz writer', SIM + ':run'), ('VTK export', 'src/output/vtk_writer.py')],
     [], ['files under results/'], None)
prop('S13', 'Animations show the run in order',
     'The animation of a run contains every saved frame of that run exactly once, in chronological order (and the final picture last when one is stored), whatever order the file system lists the files in, how many digits the step numbers have, and whatever other files lie in the directory.',
     ['schedules', 'inputs', 'fault_sequences'],
     'every set of step numbers, directory listing order, unrelated files, read failures',
     'No test creates an animation; the order of a directory listing is up to the file system.',
     [SIM, 'src/utils.py'], [('numeric sort of frames', SIM + ':_create_animation'), ('numeric sort of frames', 'src/utils.py:create_animation')], [], ['GIF frames'], None)
prop('S14', 'Wells respect their targets, limits and direction',
     'In the IMPES scheme a rate injector never withdraws, a rate producer never injects, and a well under pressure control flows in the direction of its drawdown; a rate well moves exactly its target rate unless availability or a limit forces less, never more. '
     'No surface limit (oil, water, gas, liquid) of a rate producer with a PVT table is exceeded by the reported or the actual rates, a producer with a minimum bottom-hole pressure never draws more than that pressure allows, and reported rates are those actually applied to the cells: a producer neither takes out nor reports more of a phase than was in its cell, and an injector pushes no phase out of a closed cell below what can move.',
     ['inputs', 'histories', 'fault_sequences'],
     'every well set, control and limits, operator changes between steps, PVT tables, solver failures',
     'Tests check one limit on one well in one state; combinations, switches and cut steps are not covered.',
     [SIM, WELL], [('rate limits, availability choke', SIM + ':_impes_saturation_step'), ('bhp_min switch', SIM + ':_calculate_well_terms'), ('well index', WELL)],
     [('last_q_total, last_surface_rates, last_mode', 'reported well behaviour', WELL)], ['well diagnostics, fields'], 'solver budgets')
prop('S15', 'Component accounting is exact',
     'In the IMPES scheme the cumulative oil and gas component balances equal the surface volumes of what the wells actually injected and produced, including gas dissolved in oil and oil vaporised in gas: each successful part of each step counted exactly once, nothing for failed attempts, and accumulation always equal to in minus out.',
     ['histories', 'fault_sequences', 'inputs'],
     'every PVT world and well control mode, every history of steps with failures, cuts and operator changes',
     'Tests check the bookkeeping identity, not that each contribution is counted once across retries and control modes.',
     [SIM], [('component counters', SIM + ':_impes_saturation_step')], [('component_balance', 'cumulative surface volumes', SIM)], ['Simulator.component_balance'], 'solver budgets')
prop('S16', 'The mass balance matches what is in place',
     'In the IMPES scheme, for each phase the net of the reported mass balance (in minus out) changes in every step by exactly the pore volume times density times saturation change of that step, summed over cells, "in" and "out" never decrease, and failed or interrupted attempts leave no trace.',
     ['histories', 'fault_sequences', 'inputs'],
     'every world and history of steps with failures and cuts',
     'Tests look at the totals of one run only.',
     [SIM], [('mass counters', SIM + ':_impes_saturation_step')], [('mass_balance', 'cumulative in/out per phase', SIM)], ['Simulator.mass_balance'], 'solver budgets')
prop('S17', 'The fully implicit scheme never passes off a failed solve',
     'A fully implicit step whose Newton iteration does not converge is never reported as successful: it is retried with a smaller step and finally reported as failed with the state unchanged, within the configured number of attempts. '
     'Reported-successful steps leave finite pressures and saturations within bounds that sum to one.',
     ['fault_sequences', 'histories', 'inputs'],
     'every pattern of starved or diverging Newton iterations, every world of the two-phase scheme',
     'Tests run one converging implicit step.',
     [SIM], [('retry loop', SIM + ':_fully_implicit_step'), ('Newton loop', SIM + ':_fully_implicit_newton_step')], [], ['Simulator.run_step'], 'fi.dt, newton.max_iter')
prop('S18', 'PVT tables are read whole or not at all',
     'A fluid built from a PVT file uses exactly the table in the file: if the file is missing, truncated, cannot be read or is inconsistent (a column missing, empty, of another length or with gaps, or pressures that decrease) the loader raises, and the fluid says so and uses its constant properties, never a partly read table. '
     'A table written by the generator and read back gives the generated columns, and failures while writing are reported.',
     ['fault_sequences', 'crash_points', 'inputs'],
     'every table, every truncation point, short reads and read/write errors at any operation',
     'Tests read intact files only.',
     ['src/simulator/pvt.py', 'src/simulator/pvt_generator.py', FL], [('length checks', 'src/simulator/pvt.py'), ('fallback on load failure', FL), ('writer', 'src/simulator/pvt_generator.py')],
     [('PVTTable columns', 'interpolated properties', 'src/simulator/pvt.py')], ['PVTTable.eval, Fluid.pvt, generator output file'], None)
prop('S19', 'Diagnostics never change or break the simulation',
     'Switching the component debug log on changes no pressure, saturation, balance or well rate, and no failure of the log (directory missing, disk full, write error at any line) interrupts or alters a step; each log line that is written reports the values actually used, and a log opened at its default place never overwrites the log of another simulator.',
     ['fault_sequences', 'configurations'],
     'every world and schedule, every disk fault at any log operation',
     'Tests never let the log fail.',
     [SIM], [('guarded debug writer', SIM + ':_dbg')], [('debug_log_path', 'log file', SIM)], ['log file, fields'], None)
prop('S20', 'Saved pictures show the state they are named after',
     'Every picture of a run shows the pressure in MPa and the saturations of one and the same layer, the one named in its titles, where water saturation varies most, at the day named in its titles and file name, axes as labelled, no value outside the colour range, a gas panel exactly when there is gas. '
     'When rendering or writing a picture fails the error reaches the caller and no figure stays open.',
     ['fault_sequences', 'inputs', 'histories'],
     'every field, gas content, layering, picture schedule and rendering or disk fault',
     'Tests never look at a picture.',
     ['src/plotting/plotter.py', SIM], [('save_plots', 'src/plotting/plotter.py'), ('pictures of a run', SIM + ':run')], [('figure axes and images', 'what the picture shows', 'src/plotting/plotter.py')], ['saved pictures'], None)
prop('S21', 'A run is what its configuration file says, or it is refused',
     'A run started from a configuration file gives the result of the values in it, however they are written: old and new notation of wells and controls, whole numbers with or without a decimal point, order of keys, unknown keys, absent things spelled out, either form of the PVT path. '
     'A file that cannot be read completely, is torn, lacks a required part, places a well outside the grid, overfills the pore space or names an unknown scheme ends the run with an error. No earlier result, no configuration file and no other run of the process is affected, and a refused run leaves no result files.',
     ['inputs', 'histories', 'fault_sequences'],
     'every configuration and notation, every damage and read fault, every sequence of runs and rewrites of the files in one process',
     'Tests build a few configurations in one notation from dictionaries and never damage or rewrite a file.',
     ['src/main.py', WELL, FL, 'src/simulator/reservoir.py', SIM], [('load_config', 'src/main.py'), ('notations of wells', WELL + ':WellManager.__init__'), ('fluid configuration', FL + ':Fluid.__init__')],
     [], ['main()', 'result files'], None)
prop('X01', 'PVT correlations and table interpolation are physically consistent',
     'Interpolated black-oil properties reproduce the table at its nodes, stay within it between nodes, and the generated tables are positive and monotone where physics demands it.',
     ['inputs'], 'every pressure, API gravity, temperature and gas gravity in range',
     'Tests evaluate a few points.',
     ['src/simulator/pvt.py', 'src/simulator/pvt_generator.py'], [('np.interp', 'src/simulator/pvt.py'), ('Standing/Beggs-Robinson correlations', 'src/simulator/pvt_generator.py')])
prop('X02', 'Relative permeability and capillary curves are bounded and monotone',
     'Relative permeabilities lie between 0 and their end points, are monotone in their own saturation and vanish at the residual, and capillary pressure is monotone in saturation.',
     ['inputs'], 'every saturation triple and curve parameter set', 'Tests evaluate a few points.',
     [FL], [('Corey / Stone II', FL + ':get_rel_perms')])

NA = dict(
    X01='pure functions of their arguments: no concurrency, time, I/O or multi-party behaviour for a simulator to schedule or fail; what the dynamics does with the table is decided under S06/S14/S15, the file handling under S18',
    X02='pure functions of their arguments: nothing for deterministic simulation to interleave or fail; their use in the flow equations is decided under S06 against independently written curves')

T = 'deterministic simulation with fault injection: seeded search over worlds, schedules and faults'
NOTE = json.load(open(os.path.join(V, 'tools', 'notes.json')))
have = [p['id'] for p in P if os.path.exists(os.path.join(V, 'dst', 'props', p['id'] + '.py'))]
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        if p['id'] in have or p['id'] in NA:
            f.write(json.dumps({k: v for k, v in p.items() if k != '_note'}, ensure_ascii=False) + '\n')
import subprocess
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if l.split(' ', 1)[1].startswith('sim hooks:')]
man = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import ast,glob; [ast.parse(open(f).read(), f) for f in glob.glob(\'dst/**/*.py\', recursive=True)]"',
           hooks=dict(guard='OILSIM_SIM_HOOKS', enable='the checks set OILSIM_SIM_HOOKS=1 in their own process; without it src/simulator/sim_hooks.py passes every value through unchanged', source_commits=hooks),
           checks=[dict(property=i, quick_cmd=f'./run.sh {i}', thorough_cmd=f'VERIF_TIER=thorough ./run.sh {i}', evidence_file=f'evidence/{i}.json',
                        technique=NOTE.get(i, {}).get('technique', T), level='exploration',
                        level_note=NOTE.get(i, {}).get('note', 'Seeded search, not enumeration: a clean batch is evidence over the explored runs, not proof. CPU, one torch thread, small worlds.')) for i in have],
           not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
           notes='Violations are replayed with ./run.sh <id> --replay <file>; see DESIGN.md.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(man, f, indent=1)
for p in P: assert len(p['title']) <= 80, p['id']
print(have)
