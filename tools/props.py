#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the committed, human-edited source of both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HY, NS, SI, NQ = ('pipedream_solver/' + f for f in ('superlink.py', 'nsuperlink.py', 'simulation.py', 'nquality.py'))
NG, GE, HL, INF, ST, NU = ('pipedream_solver/' + f for f in ('ngeometry.py', 'geometry.py', 'ninfiltration.py', 'infiltration.py', 'storage.py', 'nutils.py'))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), note='', na=None):
    P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
               'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mechanism],
                           'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                           'observe_at': list(observe), 'hook_needed': None}}, note, na))


TESTS = 'The four stable tests run four fixed examples and assert next to nothing about the numbers; '

prop('C01', 'Runs are repeatable and isolated from everything else in the process',
     'The same inputs give the same states, recorded tables and infiltration, bit for bit, whatever other models, simulations or infiltration '
     'elements are created, stepped or dropped before, between or concurrently with any step, also in other threads and also when they were built '
     'from the very same input tables. Creating and stepping never modify the tables, forcing records, transects or arrays the caller passed. '
     'Changes the caller makes to forcing tables after handing them over do not reach a running simulation.',
     ['schedules', 'inputs', 'histories'], 'every interleaving of caller tasks at line granularity, every network and forcing history',
     TESTS + 'none runs two models side by side, interleaves threads, or compares a run with its repetition.',
     [HY, SI, HL, NS], [('input tables copied at construction', HY + ':SuperLink.__init__'), ('forcing copied and permuted', SI + ':Simulation.__init__'),
                        ('no module-level mutable state', NS), ('accumulators zeroed before each assembly', HY + ':sparse_matrix_equations')],
     [('states', 'saved state dictionary', HY)], ['state after each step', 'recorded tables', 'input tables'],
     'two to four caller tasks interleaved line by line under a seeded scheduler, compared bit for bit with each running alone')

prop('C02', 'A checkpoint resumes the run exactly',
     'Saving the state at any step, and later loading that saved state into the same instance, a freshly built one, or one that has meanwhile '
     'computed something else, restores every reported level, depth, flow, control flow, movable-junction position and the clock, and the continued '
     'run is bit for bit the run that was never interrupted. Loading with no argument undoes exactly the last step. A checkpoint is not changed by '
     'using it, can be used again, and states the caller excludes from loading keep their live value.',
     ['crash_points', 'histories', 'fault_sequences'], 'a crash, roll-back, fail-over or undo between any two steps of any history, with lost, torn or corrupted checkpoint writes',
     TESTS + 'no test saves or loads a state, and the error depends on which state was dirty when.',
     [HY, SI], [('save_state / load_state', HY + ':SuperLink.save_state'), ('state list', HY + ':SuperLink.__init__'), ('driver load_state', SI + ':Simulation.load_state')],
     [('states', 'dictionary of saved arrays and clock', HY)], ['state after restore', 'state after each later step'],
     'seeded crash, checkpoint-loss and fail-over histories compared bit for bit with the uninterrupted run')

prop('C03', 'A failed step can be rolled back as if it had never been attempted',
     'If a step, a sub-divided or retried driver step, or a junction repositioning fails by an exception at any point inside it, or is given NaN, '
     'infinite or absurd inputs, loading the state saved before it and carrying on gives bit for bit the run in which the failure never happened. '
     'The snapshot itself is never changed by the failed attempt. The simulation driver never completes a step with non-finite levels.',
     ['fault_sequences', 'crash_points', 'inputs'], 'every line of the package inside a step as the point of failure, every kind of exception, and every poisoned input',
     TESTS + 'nothing is ever interrupted in them.', [HY, SI],
     [('save at the start of a step', HY + ':SuperLink.step'), ('load_state', HY + ':SuperLink.load_state'), ('finiteness assertion and retry roll-back', SI + ':Simulation.step')],
     [('states', 'saved states of the step start', HY)], ['state after roll-back', 'state after each later step'],
     'exceptions injected at a seeded line inside steps, and poisoned inputs, each followed by roll-back; compared bit for bit with the undisturbed run')

prop('C04', 'A driver step is exactly its sub-steps, halved until accurate enough',
     'A simulation step of size dt with n subdivisions leaves exactly the state of n model steps of dt/n, each driven by the forcing at its own end, and '
     'reports as error the chosen norm of the difference to one whole step, scaled by absolute and relative tolerances. While that error is above the '
     'tolerance or not finite, retries are left and half the step is above the minimum step, it goes back to the start and repeats with half the step, otherwise it '
     'accepts; the clock advances by the accepted step only, and a step without a size repeats the last one used. Suggested step sizes follow their documented '
     'formulas and stay within the minimum and maximum.',
     ['inputs', 'histories', 'fault_sequences'], 'every sequence of step sizes, subdivisions, retry budgets, tolerances, norms and forcing records, with interrupted steps in between',
     TESTS + 'none uses retries with a reachable tolerance or looks at the error, and the halving path is never taken.',
     [SI], [('step / _step', SI + ':Simulation.step'), ('error norm and scaling', SI + ':Simulation.minimum_step_size'), ('step-size control', SI + ':Simulation.compute_step_size, filter_step_size')],
     [('err', 'last error estimate', SI), ('dt', 'last step used', SI)], ['state after a driver step', 'err, dt, t', 'suggested step size'],
     'second model advanced by hand through the sub-steps, compared bit for bit, under interrupted and retried steps')

prop('C05', 'Water is neither created nor lost at the nodes',
     'After every step the change in volume stored at each node (storage area at the start of the step, or of the last iteration, times change in level) equals the step size times prescribed '
     'inflow plus what conduits and control structures deliver minus what they take, to rounding; nodes joined by control structures are balanced '
     'together, and boundary nodes and nodes at or next to a depth limit are exempt.',
     ['histories', 'configurations', 'inputs'], 'every network layout, storage type, solver method, forcing history, step-size sequence, gate movement and lateral inflow',
     TESTS + 'none computes a balance; a sign or index error shows only with particular layouts, shared nodes, or repeated elements.',
     [HY, NS], [('node coefficient assembly', HY + ':sparse_matrix_equations'), ('numba assembly', NS + ':create_A_matrix, numba_add_at'),
                ('end-flow solution', HY + ':solve_superlink_flows'), ('solvers', HY + ':solve_sparse_matrix, solve_banded_matrix')],
     [('H_j', 'node levels', HY), ('Q_uk, Q_dk', 'flows into and out of conduits', HY)], ['state before and after each step'],
     'node balances recomputed from reported levels and flows with storage curves of our own, after each step of seeded histories')

prop('C06', 'Inside every conduit the reported depths and flows obey the equations of flow',
     'After every step, in every conduit that is nowhere dry or at a depth limit, each interior junction conserves volume (surface area times change in depth '
     'equals inflow minus outflow plus lateral inflow), each link obeys the discretised momentum equation with its section shape, friction law, slope, local '
     'control loss and inertial damping, and the depths at both ends match the adjacent node levels less the entrance or exit loss, or with explicit end cells '
     'obey their momentum equation. Least-squares '
     'internal solutions obey the same within a few per cent.',
     ['histories', 'configurations', 'inputs'], 'every section shape, friction law, end offset, number of links, internal solver, flow reversal and step-size sequence',
     TESTS + 'they use a handful of shapes and never check continuity or momentum.',
     [HY, NS, NG], [('coefficients', NS + ':numba_a_ik … numba_P_ik'), ('forward/backward recurrences', NS + ':numba_forward_recurrence, numba_backward_recurrence'),
                    ('internal solvers', NS + ':numba_solve_internals*'), ('geometry', NG)],
     [('h_Ik', 'interior depths', HY), ('Q_ik', 'link flows', HY)], ['state before and after each step'],
     'continuity, momentum and end relations recomputed with our own geometry, friction and coefficients after each step of seeded histories')

prop('C07', 'Levels respect limits and boundaries, and still water stays still',
     'After every step node levels lie between the invert and invert plus maximum depth, boundary nodes are exactly at the prescribed level (limited to that '
     'range), interior depths are never below the minimum depth and, away from conduit ends, never above the conduit maximum. A level pool of still water in a network without '
     'inflow, control structures or end cells stays level and at rest under any sequence of step sizes.',
     ['histories', 'configurations', 'inputs'], 'storms beyond capacity, draw-downs, boundary levels outside the limits, and step-size sequences',
     TESTS + 'none asserts a bound on a level or runs a network at rest.',
     [HY, NS], [('clamping', HY + ':solve_sparse_matrix, solve_superlink_depths, solve_internals_*'), ('boundary rows', NS + ':create_A_matrix'), ('bottom slope and invert', HY + ':SuperLink.__init__')],
     [('H_j', 'node levels', HY), ('h_Ik', 'interior depths', HY)], ['state after each step'],
     'limits checked after each step of seeded surcharge and draw-down histories; seeded still pools loaded as checkpoints and left alone')

prop('C08', 'Fusing gauge readings gives the best linear estimate',
     'After a Kalman update of the hydraulic model the node levels and their covariance are the textbook posterior of the linear system of the step just taken '
     '(previous covariance, process and measurement noise, any observation pattern, full, diagonal or scalar covariances), in standard and square-root form alike; the '
     'covariance stays symmetric positive semi-definite and no observed variance grows. Conduit flows and depths agree with the fused levels, clock and step '
     'count are unchanged, caller arrays are not modified, and non-finite readings are refused.',
     ['histories', 'fault_sequences', 'inputs'], 'every sequence of steps and of lost, late, duplicated, reordered or wrong readings',
     TESTS + 'the filter is exercised by no stable test.', [SI, HY],
     [('kalman_filter', SI + ':Simulation.kalman_filter'), ('propagation of the correction', HY + ':SuperLink')],
     [('P_x_k_k', 'posterior covariance', SI)], ['state and covariance after each fusion'],
     'hidden truth run observed through a faulty telemetry link; every fusion compared with an independently computed posterior')

prop('C09', 'Each step is driven by the forcing record at its own end, at the right node',
     'A simulation step uses, for each node and interior junction, the inflow and boundary-level record interpolated (linear or nearest) at the end of that step or sub-step and '
     'held constant outside the record, matched to elements however rows are ordered internally; values passed to the step override the record. This '
     'stays true after clock jumps, undo, roll-back and with a start time, and caller tables are not modified.',
     ['histories', 'inputs', 'configurations'], 'irregular records with gaps, single rows, integer or offset times, any step sequence, clock jump or roll-back',
     TESTS + 'they use one or two regular tables and check no value against the record.',
     [SI, NU, HY], [('interpolate_sample', NU), ('table alignment', SI + ':Simulation.__init__'), ('step', SI + ':Simulation.step')],
     [('Q_in, H_bc, Q_Ik', 'forcing tables', SI), ('t', 'clock', HY)], ['state after each driver step'],
     'twin model re-synchronised before each step and driven by our own evaluation of the record')

prop('C10', 'The recorded history is what happened, at the times it happened',
     'The tables available after a simulation block contain, for each recorded moment in order, the true time and exactly the node levels, depths, flows, control flows and positions '
     'that were live then, labelled with the right element, starting with the initial state, also after failed, undone or rolled-back steps and live edits. '
     'They are available when the block ends by an exception, which is propagated. The clock advances by exactly the accepted step sizes.',
     ['histories', 'fault_sequences', 'crash_points'], 'every sequence of steps, records, undos, restores and faults, ended normally or by an exception',
     TESTS + 'recorded tables are plotted, never compared with live states.', [SI, HY],
     [('record_state', SI + ':Simulation.record_state'), ('leaving the block', SI + ':Simulation.__exit__'), ('clock', HY + ':SuperLink.step')],
     [('states', 'recorded tables', SI)], ['recorded tables against a diary of live states'],
     'diary of live states kept beside seeded histories with faults, undo and abnormal exit; compared exactly')

prop('C11', 'Infiltration follows the Green-Ampt law and loses no water',
     'Over any sequence of rain intensities and step sizes each soil element infiltrates what the Green-Ampt law with surface ponding and upper-zone recovery says, in both the '
     'compiled and the plain model. Rain plus water ponded before equals infiltration plus water ponded or shed after, infiltration is never negative nor above what is '
     'available, cumulative infiltration never negative and soil moisture within its limits. Elements do not affect one another and caller arrays are not modified.',
     ['histories', 'inputs'], 'every soil, storm sequence, dry spell, step-size sequence and externally changed ponding',
     TESTS + 'one constant storm on one soil is run and not compared with anything.', [HL, INF],
     [('GreenAmpt.step', HL), ('branches of the law', HL + ':run_green_ampt_newton et al.'), ('plain version', INF)],
     [('F, d, theta_du, is_saturated', 'state of an element', HL)], ['f, F, Q, d after each step'],
     'scalar reference of our own (bisection on the integrated law) run beside the package over seeded storm histories')

prop('C12', 'Contaminant goes with the water',
     'After each water-quality step the concentrations of nodes, conduit junctions, conduit pieces and conduit ends satisfy one balance per cell: what is stored changes by what the '
     'reported flows carry in and out (upwind), what dispersion exchanges with the next cell, what decays, and what is loaded with direct inflows; what leaves one cell enters the next, '
     'through conduits and through orifices, weirs and pumps. Boundary nodes hold the prescribed concentration, all concentrations stay within the given limits, and where the water itself '
     'balances a uniform concentration stays uniform. The step without a size uses that of the water model, leaves the water model and the passed arrays alone, and depends on nothing but the '
     'states it reports, so that restoring them after an undo or an interruption repeats it exactly; several contaminants on one water model do not affect each other.',
     ['inputs', 'histories', 'fault_sequences', 'crash_points'],
     'every network, pattern of flow reversal, load and boundary history, dispersion and decay, with pauses, roll-backs and interruptions of the quality model',
     TESTS + 'concentrations are never compared with a balance, and flow never reverses.', [NQ],
     [('cell coefficients', NQ + ':link_coeffs, node_coeffs'), ('recurrences and end relations', NQ + ':forward_recurrence, backward_recurrence, boundary_coefficients'),
      ('node matrix', NQ + ':sparse_matrix_equations'), ('back substitution', NQ + ':numba_solve_internals'), ('areas and face flows from the water model', NQ + ':import_hydraulic_states')],
     [('_c_j, _c_Ik, _c_ik, _c_uk, _c_dk', 'concentrations', NQ)], ['concentrations after each step'],
     'seeded storm, tide, load, pause, roll-back and interruption histories; every concentration compared with one dense solution of all cell balances')

prop('C13', 'Orifices, weirs and pumps pass what their law says, and closed ones pass nothing',
     'After each step the reported flow of each orifice (submerged on both or one side, or running part full; side or bottom opening; one-way if so declared), weir (crest lowered by the '
     'setting; rectangular with triangular sides) and pump (its curve with the head clipped to the given range, off below its inlet) equals its own law at the new levels of its own two nodes '
     'with the setting in force, a missing setting meaning closed; an orifice passes no more than the volume stored above it in the step. The water actually exchanged between the nodes is that law '
     'linearised about the previous flow, and a closed structure moves none. Settings passed in are not modified.',
     ['inputs', 'histories', 'schedules'], 'every order of levels, setting changes, reversals and drying around every structure, alone and in parallel',
     TESTS + 'the one structure in them never closes, reverses or runs dry.', [NS, HY],
     [('orifice law', HY + ':orifice_flow_coefficients, solve_orifice_flows'), ('weir law', HY + ':weir_flow_coefficients, solve_weir_flows'), ('pump law', HY + ':pump_flow_coefficients, solve_pump_flows')],
     [('Q_o, Q_w, Q_p', 'flows', HY)], ['structure flows and node levels after each step'],
     'seeded operators open, throttle and close structures during storms and tides; flows compared with own laws, exchanged water with the balance of the two nodes')

prop('C14', 'Results do not depend on how the network is written down or solved',
     'The same network described with nodes, conduits and structures in another order, a conduit given from its other end, all elevations raised by a constant, beside an unconnected network in the '
     'same model, or solved with the dense, banded or general solver or with automatic reordering gives after each step the same levels, depths and flows for each element up to rounding.',
     ['inputs', 'configurations', 'histories'], 'every network, every re-description, every history of forcing and control',
     TESTS + 'each network is described once and never compared.', [HY, NS, NU],
     [('reordering', HY + ':permutations'), ('bandwidth and banded assembly', NS + ':numba_create_banded'), ('flipping of uphill conduits', HY + ':SuperLink.__init__'), ('indirection tables', HY + ':SuperLink.__init__')],
     [('permutations', 'row order', HY)], ['state of each named element after each step'],
     'seeded re-descriptions run in lockstep under the same seeded forcing; tolerance from a perturbed probe twin')

prop('C15', 'Storage follows its own curve',
     'Surface area and volume of every node after each step follow its own curve, the power law or its own depth-area table (linear between entries, constant beyond the last; volume is the integral of '
     'area), at the level at the start of the step or the current level when asked, however tables are shared, unused, ordered or given (arrays, frames, lists); later edits of the caller\'s tables have no effect.',
     ['inputs', 'histories'], 'every set of tables and every level history above, below and between their entries', TESTS + 'no test has two storage tables.', [HY, ST],
     [('storage lookup', HY + ':compute_storage_areas, compute_storage_volumes'), ('table integration', ST)], [('_A_sj, _V_sj', 'area and volume', HY)], ['areas and volumes after each step and when asked'],
     'seeded level histories over seeded curves, with table edits by the caller and restores; compared with own interpolation and integration')

prop('C16', 'Movable junctions follow the backwater front and disturb nothing else',
     'Repositioning puts the movable junction of each selected conduit where the level of its downstream node meets the conduit bottom, if that lies strictly between its ends, else at its home station, unless '
     'it would coincide with a fixed junction. Fixed junctions keep station, bottom and depth; lengths stay positive and add up to the conduit; the moved junction lies on the bottom line with the depth of the '
     'old profile; each piece keeps the flow of the piece it was cut from, merged pieces get the flow interpolated at the removed junction. Conduits not selected are untouched and a step never moves a station.',
     ['inputs', 'histories'], 'every level history, number of junctions and selection, across roll-backs', TESTS + 'no test moves a junction.', [HY, NS],
     [('repositioning', HY + ':reposition_junctions'), ('kernels', NS + ':numba_reposition_junctions')], [('_x_Ik, _z_inv_Ik, _dx_ik', 'geometry of movable junctions', HY)], ['stations, lengths, bottoms, depths and flows after each move'],
     'seeded tides, level jumps, partial moves and roll-backs; each move compared with own model of the conduit profile')

prop('C18', 'Fusing a concentration reading is the Kalman update of the transport model',
     'Fusing a reading into the water-quality model gives the textbook update: prediction by the node-to-node form of the cell balances, covariance advanced by it with the chosen process noise, gain from the '
     'observed node; the estimate is limited to non-negative values, replaces the node concentrations, and the conduits follow it. Prescribed boundary concentrations carry no variance over. The synthetic-measurement filter '
     'leaves the model alone, and the multi-constituent variant returns the transition matrix and inputs of that same form. Lost, repeated, late, frozen or absurd readings change nothing but the value fused.',
     ['inputs', 'histories', 'fault_sequences'], 'every network and history of lost, late, repeated, frozen and corrupt readings and interrupted updates',
     TESTS + 'the filter is never called.', [NQ],
     [('filters', NQ + ':Kalman_Filter_WQ1, Kalman_Filter_WQ2, KF_Multi_WQ'), ('update', NQ + ':KF_WQ2')], [('x_hat, P_k', 'estimate and covariance', NQ)], ['estimate, covariance and concentrations after each update'],
     'seeded telemetry faults to a filter on a seeded network; compared with own reduction of the cell balances and own update')

prop('C17', 'Progress reports tell the truth and never disturb the run',
     'Every progress line shows the fraction of the requested simulated time that has passed, a matching bar, and the true elapsed wall time, whatever the wall clock does '
     'and also for runs of zero length; in sparse mode each mark is printed once. Reporting never changes the simulation, and failures of the terminal reach the caller.',
     ['histories', 'fault_sequences'], 'wall clocks that jump, stall and run backwards, failing terminals, rolled-back and overrun simulated clocks',
     TESTS + 'nothing is asserted about what is printed, and no clock or terminal is faulty.', [SI],
     [('print_progress', SI + ':Simulation.print_progress')], [('_pct_complete', 'last fraction', SI)], ['written text', 'state after each step'],
     'seeded wall clock and terminal faults; text parsed and compared with simulated time; run compared bit for bit with a silent one')

prop('C19', 'The linear system a model hands out is the step it made',
     'After every step the node system a model exports (matrix, right-hand side, state and inputs) is the balance that step solved: its solution is the new levels of all nodes that are not held at a '
     'limit, its inputs are the inflows and boundary levels of the step, and a planner who solves it for other inflows and boundary levels predicts the levels the model itself reaches when stepped with '
     'those from the same checkpoint. This holds after undone, interrupted and repeated steps, gauge corrections and moved junctions, for every head solver and number of iterations. Exporting changes nothing.',
     ['histories', 'inputs', 'fault_sequences'], 'every network, structure setting, step-size history, iteration count and interrupted or undone step', TESTS + 'the export is never called.',
     [HY, NS], [('export', HY + ':state_space_system, _semi_implicit_system'), ('assembly', HY + ':sparse_matrix_equations')], [('A, O, W, P, D, b', 'system of the last step', HY)], ['exported system after each step', 'levels of the twin'],
     'seeded histories with undo, injected failures and corrections; exported system solved and compared with the step and with what-if twins stepped from the same checkpoint')

prop('C20', 'Cross-sections follow the shape in every state of the run',
     'In every state of a run, and whenever asked, flow area, wetted perimeter, hydraulic radius and top width of every conduit and of both its ends are those its own shape, dimensions, slot or measured '
     'transect give for its own depth: from empty over partly full to surcharged, also after corrections, roll-backs and iterations, in networks mixing all shapes, and whatever other models exist or later '
     'edits the caller makes to its tables. Diagnostics derived from them (wave speeds and Courant numbers) follow from the same sections.',
     ['histories', 'configurations', 'inputs'], 'every shape, dimension and depth history, every mix of shapes in one network, corrections, restores and neighbouring models', TESTS + 'no area or width is ever asserted.',
     [HY, NG, NS], [('section formulas', NG), ('dispatch by shape, ends included', HY + ':link_hydraulic_geometry, upstream_hydraulic_geometry, downstream_hydraulic_geometry'), ('transect tables', NG)],
     [('A_ik, Pe_ik, R_ik, B_ik', 'sections of links', HY)], ['sections after each step and when asked'],
     'seeded fill, surcharge and drain histories with corrections and restores; all sections recomputed with own geometry')

prop('C21', 'What a caller leaves out or asks to have repeated means what the interface says',
     'A step without step size, inflows, boundary levels, gate settings or solver choice is the step with the model\'s step size, no inflow, unchanged boundary levels, closed gates and the model\'s own solver; '
     'optional table columns left out, integer-valued columns and shape names in any case give the same model as spelled-out defaults. A step of up to k iterations is that many passes over the same '
     'time span from the same start, stopped when no head moves by the tolerance any more; it advances clock and counter once and undoes as one step. Warm-up is its steps, then clock and counter start over '
     'unless told otherwise. A driver without forcing or sizes steps the model with its defaults. All this holds after undo, failed calls and moved junctions.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'], 'every subset of omitted arguments and columns, iteration budget and tolerance, in every history with undo and interrupted calls',
     TESTS + 'each calls the interface in one way.', [HY, NS, SI], [('step', HY + ':SuperLink.step, _setup_step, _solve_step'), ('defaults at construction', HY + ':SuperLink.__init__'), ('spinup', HY + ':SuperLink.spinup'),
                                                                   ('driver defaults', SI + ':Simulation.__init__, step')],
     [('t, iter_count, iter_elapsed', 'clock and counters', HY)], ['state and counters after each call'],
     'two models of one seeded network, one called with as little as possible, one told everything and iterated by hand; compared bit for bit through undo and injected failures')

prop('C22', 'A copied system is the system, and copies never touch each other',
     'A running model, alone or together with its simulation driver or water-quality model, and an infiltration model can be copied at any moment, by deep copy or as a pickled process image, even right after a '
     'failed step. The copy reports the same state, continues bit for bit like the original would, undoes its own last step, and original and copies can run on, fail and be dropped in any order without ever '
     'affecting each other.',
     ['histories', 'schedules', 'crash_points', 'fault_sequences'], 'every moment of copying, every tree of branches, every interleaving of their steps, undos and failures', TESTS + 'nothing is ever copied.',
     [HY, SI, NQ, HL], [('all state held in plain attributes of the objects', HY), ('driver state', SI), ('quality state', NQ)], [('states', 'saved state of the last step', HY)], ['state after each step of each branch'],
     'seeded trees of deep copies and process images stepped in seeded alternation with undo and injected failures; each branch compared bit for bit with its history replayed in one go')

prop('C23', 'Compiled kernels compute what their source says and stay inside their arrays',
     'Every step of the network, quality, filter and infiltration models gives the same state up to rounding when each compiled kernel is replaced by its own source run by the interpreter, and no '
     'kernel ever addresses an element outside its arrays, whatever the network, its shapes and tables, and the state of the run.',
     ['configurations', 'histories', 'inputs'], 'every network, table size, solver and state', TESTS + 'compiled kernels do not check their indices, and tests compare no numbers.',
     [NS, NG, NQ, HL, NU], [('kernels', NS), ('geometry kernels', NG), ('quality kernels', NQ), ('infiltration kernels', HL), ('linear algebra kernels', NU)], [('H_j, h_Ik, Q_ik', 'state', HY)], ['state after each step in both modes'],
     'execution mode of the kernels under the simulator\'s control: at each step of seeded histories a copy runs interpreted; tolerance from perturbed copies')

prop('N02', 'The numerical scheme converges to the Saint-Venant solution',
     'Halving space and time steps makes the solution approach the solution of the differential equations.',
     ['inputs', 'configurations'], 'every smooth initial-boundary-value problem', 'No test refines anything.', [HY], [('semi-implicit staggered scheme', HY)], na=
     'A statement about limits of the mathematical scheme, without schedule, fault or history to search; seeded runs can neither refute nor support a limit. C05 and C06 decide that the '
     'code solves the stated discrete equations.')
prop('N03', 'Plots and network graphs show the model truthfully',
     'Profile and network drawings show the elements and depths of the model.', ['inputs'], 'every network', 'No test draws.', ['pipedream_solver/visualization.py'],
     [('drawing', 'pipedream_solver/visualization.py')], na='Drawing is a pure function of a model and its oracle is a human eye; no schedule, clock or fault takes part.')

TECH = 'deterministic simulation with fault injection: '
SETUP = 'python3 check.py C05 --runs 8 --no-evidence'


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, _, _ in sorted(P, key=lambda x: x[0]['id']):
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    checks, na = [], []
    for p, note, why in sorted(P, key=lambda x: x[0]['id']):
        i = p['id']
        if why:
            na.append({'property': i, 'reason': why})
        elif os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
            checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                           'thorough_cmd': 'python3 check.py %s --tier thorough' % i, 'technique': TECH + note, 'level': 'exploration',
                           'level_note': 'Seeded search: a clean batch is evidence, not proof. Each run is one forked process decided by one seed string '
                                         '(VERIF_SEED:property:run); violations are minimised and replay exactly with --replay.'})
        else:
            na.append({'property': i, 'reason': 'check not built yet'})
    json.dump({'version': 1, 'setup_cmd': SETUP, 'checks': checks, 'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
    open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')


if __name__ == '__main__':
    main()
