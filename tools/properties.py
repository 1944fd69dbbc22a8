"""Writes /verif/properties.jsonl (python3 tools/properties.py)."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mechanism], "observe_at": list(observe), "hook_needed": None}})


W = "wx_factory/"
p("C01", "Halo exchange delivers each neighbour's edge values, oriented and converted",
  "After a halo exchange completes, every process holds, for each of its four sides, exactly the values its geographic neighbour sent from the shared edge, in its own point order. Vector components are expressed in the receiver's own panel basis (contravariant and covariant), whatever the panel pair, process count, data type or array layout. Several exchanges in flight never mix, and data changed by the caller once an exchange is started or finished cannot alter what is received.",
  ["schedules", "inputs", "configurations"],
  "All process counts 6*n^2, all panel sides and orientations, all shapes and types of exchanged fields, all numbers of overlapping exchanges, completion orders and message timings.",
  "The MPI unit tests exchange one field at a time, on 6 or 24 processes, mostly scalars, with whatever message order the MPI library happens to produce; the panel-to-panel conversions they check are compared with the same formulas.",
  [W + "process_topology.py"],
  [("ProcessTopology.__init__ (neighbours, flips, conversion matrices)", W + "process_topology.py"), ("start_exchange_scalars / start_exchange_vectors, ExchangeRequest.wait", W + "process_topology.py")],
  [("send/recv buffers", "edge values in flight", W + "process_topology.py")], ["values returned by ExchangeRequest.wait"])
p("C02", "Gathering tiles and distributing a cube are exact inverses",
  "Gathering a distributed field assembles on the requesting process the whole cube with every tile at its own panel, row and column; distributing a whole cube hands every process exactly its own tile; so a round trip reproduces every value bit for bit, for any number of leading and trailing dimensions, data type and memory layout. A cube that does not fit is refused on every process, and the group stays usable.",
  ["schedules", "inputs", "configurations", "histories"],
  "All process counts 6*n^2, tile sizes, dimensions, types, layouts, sequences of gathers and distributions, and schedules of rooted collectives.",
  "The unit test does one round trip on one shape with square tiles.",
  [W + "process_topology.py"], [("gather_tile_to_panel, gather_cube, distribute_cube", W + "process_topology.py")], [], ["arrays returned on the root and on each process"])
p("C03", "The same job gives bitwise identical results under any schedule or clock",
  "Running the same configuration again on the same number of processes produces bit for bit the same state on every process, the same saved states, output fields, printed diagnostics and recorded solver statistics (other than durations), however processes are scheduled, messages delayed or reordered, collectives synchronised, and whatever the clock does.",
  ["schedules", "configurations"], "All configurations the model runs, all interleavings of processes, message delivery orders and delays, clock speeds and jumps.",
  "Tests run each configuration once, under one schedule the operating system happens to choose, and compare with tolerances or only look at the exit code.",
  [W + "process_topology.py", W + "simulation/simulation.py", W + "rhs", W + "solvers", W + "integrators", W + "output"],
  [("non-blocking neighbour collectives completed before their buffers are used", W + "process_topology.py"), ("decisions taken from global reductions", W + "solvers")], [], ["state of each process, files in the output directory, standard output of process 0"])
p("C04", "The same global problem gives the same answer on any allowed process count",
  "A global problem run on any allowed number of processes gives the same final state, saved states, output fields and grid coordinates, up to round-off for explicit integrators and to the solver tolerance for the others; and a saved state written by one number of processes can be read by another.",
  ["configurations", "schedules", "inputs"], "All allowed process counts, problems, grids, integrators and schedules.",
  "Integration tests run a few configurations on one process count each, and none compares two.",
  [W + "geometry/cubed_sphere_2d.py", W + "geometry/cubed_sphere_3d.py", W + "process_topology.py", W + "simulation/simulation.py", W + "output"],
  [("tile-local geometry built from panel row and column", W + "geometry"), ("global reductions in solvers and integrators", W + "solvers")], [], ["gathered final state, saved states, netCDF files"])
p("C05", "Every job ends, and ends the same way on all processes",
  "Whatever the configuration, a run never hangs and never mismatches collective operations: either every process completes all the announced steps, or every process stops with an error. A configuration the model supports (equations, case, integrator, solver, outputs, allowed process count) completes, and a disallowed process count is refused on all processes.",
  ["configurations", "schedules"], "All configurations (supported or not), process counts, message timings, collective synchronisation modes and schedules.",
  "A test that hangs only under some message timing, tolerance or process count is not reached by the dozen configurations in the integration script.",
  [W + "simulation/simulation.py", W + "solvers", W + "integrators", W + "output"],
  [("all decisions to iterate, stop or fail are taken from values all processes share", W + "solvers"), ("process count check", W + "simulation/simulation.py")], [], ["how each process ends, steps performed"])
p("C06", "Distributed solvers agree on one decision and one correct answer",
  "For any distributed linear or exponential problem, every process leaves the solver after the same number of iterations with the same status and error estimates; the assembled answer matches the single-process answer to the requested tolerance; and the residual or status reported is true of that answer.",
  ["inputs", "schedules", "configurations"], "All operators (including decoupled, idle, zero or lopsided parts on some processes), right-hand sides, tolerances, restart lengths, initial guesses, output times, group sizes and message timings.",
  "Unit tests solve a few fixed well-behaved problems, where local and global decisions coincide.",
  [W + "solvers"], [("global dot products and norms", W + "solvers/global_operations.py"), ("FGMRES, Newton-Krylov, KIOPS, PMEX and low-synchronisation variants", W + "solvers")], [], ["values returned by the solvers on every process"])
p("C07", "Single-process sections run once, and share their result or failure",
  "A section meant for one process is executed by exactly that process of the group, exactly once; a do-once call gives every process the same returned value and no process proceeds before it is done; and if the section fails, the process that ran it sees the original error and all the others are stopped with an error too. The same holds for sections executed by the first few processes of a group.",
  ["schedules", "histories", "fault_sequences"], "All group sizes, roots, nesting and sequences of sections, exceptions on any process, and schedules.",
  "The unit tests run each construct once with one failure pattern.",
  [W + "wx_mpi.py"], [("SingleProcess, MultipleProcesses, Conditional, do_once", W + "wx_mpi.py")], [], ["order of execution, values and exceptions per process"])
p("C08", "A NaN on any process stops every process in that step, before any output",
  "If the state of any process contains a NaN after a time step, every process stops with an error in that very step: none begins another one, and no saved state, output record or diagnostic of that step is produced, while those of earlier steps are complete and finite. Without NaN no process is ever stopped this way.",
  ["schedules", "fault_sequences", "configurations"], "All processes and positions where a NaN appears, all steps, integrators, output settings and schedules.",
  "No test produces a NaN on one process only.", [W + "simulation/simulation.py"], [("_check_for_nan with a global reduction before output", W + "simulation/simulation.py")], [], ["how each process ends, output directory"])
p("C09", "A killed job restarted from a saved state continues the same simulation",
  "After a job is killed at any moment and restarted from any of its saved states, on the same or another allowed number of processes, it starts from exactly the saved state and step, performs the remaining steps only, and ends in the same state, with the same later saved states, as an uninterrupted run (bitwise for explicit integrators on the same process count); output settings, save frequency and end time may differ from one job to the next.",
  ["crash_points", "histories", "schedules", "configurations"], "All kill points, chains of restarts, process counts, save frequencies, one-step integrators and schedules.",
  "The restart test compares one configuration that was stopped cleanly.",
  [W + "output/output_manager.py", W + "output/state.py", W + "simulation/simulation.py"],
  [("save_state_to_file / load_state_from_file", W + "output/output_manager.py"), ("starting step and time", W + "simulation/simulation.py")], [], ["saved states, state after start, final state"])
p("C10", "Saved states are all or nothing under crashes and disk errors",
  "At every moment, and after any kill, power loss or I/O error, each file under a saved state's name is a complete saved state: the old one or the new one, never a mixture, and the states of all steps already passed are there. A disk error while saving stops every process with an error; whatever is left behind, the same job run again completes and saves its own states. A missing, truncated, unreadable or unsuitable saved state is never used: every process then starts from the initial state at step 0 (or all stop).",
  ["crash_points", "fault_sequences", "histories"], "All points of failure (open, write, flush, rename), kinds of error, amounts of data already written, previous contents, damages to the file read, and schedules.",
  "No test injects a crash or disk error; the one restart test reads an intact file.",
  [W + "output/state.py", W + "output/output_manager.py", W + "simulation/simulation.py"],
  [("save_state: temporary file, flush, rename", W + "output/state.py"), ("load_state and the fall back to step 0", W + "simulation/simulation.py")], [], ["files in the output directory"])
p("C11", "Producing output never changes the simulation",
  "Switching on any combination of output (netCDF files, saved states, printed diagnostics, solver statistics, total time), at any frequency, leaves the state of every process after every step, the initial state and the topography bit for bit what they are without output.",
  ["configurations", "schedules"], "All equations, cases, integrators, output combinations and frequencies, process counts and schedules.",
  "Tests never run a configuration twice with different outputs.", [W + "output"], [("OutputManager.step", W + "output/output_manager.py"), ("conversions and gathers done on copies", W + "output/output_cubesphere_netcdf.py")], [], ["state of each process after each step"])
p("C12", "The netCDF file holds the simulation's fields: right value, place and time",
  "The output file contains, for every output step and no other, in order, one record with the simulation time, and fields whose values at each grid position (panel, level, row, column, with its coordinates, longitude and latitude) are the simulation's own at that step: height, density, potential temperature, pressure, eastward and northward wind, vertical velocity, relative and potential vorticity, topography. Only one process writes it, and the number of processes does not matter.",
  ["configurations", "schedules", "inputs"], "All equations, cases, grids, process counts, output frequencies, time steps that do or do not divide the end time, restarts and schedules.",
  "Tests only check that output can be produced.", [W + "output/output_cubesphere_netcdf.py", W + "output/output_cubesphere.py"],
  [("OutputCubesphereNetcdf", W + "output/output_cubesphere_netcdf.py")], [], ["the netCDF file"])
p("C13", "Solver statistics form complete, separately identified runs, crash or not",
  "The statistics database holds, for every run that used it, one entry per solver call, numbered 0, 1, 2, ... under one run number that no other run has, with the time step, simulation time, iteration count, status and residuals that the solver produced in that step and the number of processes. A crash or database error at any moment leaves only whole steps (an entry with all its residuals), never disturbs earlier runs, and the next run can use the database; a database error stops every process.",
  ["histories", "crash_points", "fault_sequences", "schedules"], "All sequences of runs sharing a database, kill points, database errors (locked, full, I/O error, corrupt), integrators and schedules.",
  "The unit tests do not touch the database beyond creating it.", [W + "output/solver_stats.py", W + "integrators"],
  [("create_results_table, write_output: one transaction per step", W + "output/solver_stats.py")], [], ["rows of results_param, results_data, rhs_timing"])
p("C14", "Every run performs the announced steps and ends exactly at the end time",
  "For any time step and end time, the number of steps performed is the announced one, the steps add up to exactly the end time (only the last one may be shorter), step numbers are consecutive from the starting step, all processes perform the same steps, and output, saved states and statistics appear at exactly the multiples of their frequency. The wall clock has no influence.",
  ["inputs", "histories", "schedules", "configurations"], "All time steps and end times (not multiples, fractions, tiny remainders), starting steps, frequencies, calls of step and run in any order, clocks and schedules.",
  "Tests use a few integer time steps which divide the end time.", [W + "simulation/simulation.py", W + "output/output_manager.py", W + "integrators/integrator.py"],
  [("Simulation.step / run", W + "simulation/simulation.py"), ("OutputManager.step", W + "output/output_manager.py")], [], ["step numbers, times, files"])
p("C15", "Global mass is conserved and printed global diagnostics are the true integrals",
  "With every conservative integrator the total mass over the sphere, integrated over all processes, stays constant to round-off at every step. The global diagnostics the model reports (mass, energy, potential enstrophy and the error norms of the exact-solution case) are the true integrals over the whole sphere of the state at that step, the same for any number of processes and any schedule.",
  ["configurations", "schedules", "histories"], "All equations, cases, integrators, process counts, steps and schedules.",
  "No test integrates anything over several processes.", [W + "output/diagnostic.py", W + "output/output_cubesphere.py", W + "solvers/global_operations.py", W + "process_topology.py", W + "rhs"],
  [("global_integral_2d", W + "output/diagnostic.py"), ("fluxes equal and opposite on both sides of each tile edge", W + "rhs")], [], ["state of all processes, standard output of process 0"])
p("C16", "A simulation stays within the communicator it is given",
  "A simulation created on a communicator exchanges messages and synchronises with that communicator's processes only: it completes whatever the other processes of the job do (nothing, unrelated traffic, another simulation at the same time, in the same directory or not), and state and files are bit for bit what they are when it runs alone.",
  ["schedules", "configurations"], "All subgroups of the job's processes, orders of ranks in them, other traffic, simulations running at the same time, integrators, outputs and schedules.",
  "All tests use the global communicator.", [W + "simulation/simulation.py", W + "process_topology.py", W + "output", W + "solvers", W + "wx_mpi.py", W + "device"],
  [("comm / device.comm handed to each component", W + "simulation/simulation.py")], [], ["how processes end, states, files"])
p("C17", "Native kernels are compiled once by one process, before anyone loads them",
  "When a group of processes needs the compiled kernels, exactly one of them compiles (and only if needed or forced), no process returns or loads the kernels before the compilation has ended, and a compilation failure stops every process with an error.",
  ["schedules", "fault_sequences", "histories"], "All group sizes, sequences of requests, compiler failures, durations and schedules.",
  "Tests compile in a single process.", [W + "compiler/compile_kernels.py", W + "device/device.py"],
  [("compile, CpuDevice", W + "compiler/compile_kernels.py")], [], ["compiler invocations, order of events"])
p("C18", "An I/O failure on one process ends the whole program with an error",
  "When the program meets a failure while reading its input, creating or writing any of its output (permission denied, disk full, I/O error, lost directory), every process ends, none hangs or continues, and the exit status is non-zero; it never reports success with output missing. When the output directory cannot be created for lack of permission, all output goes to the fall-back directory instead, on all processes.",
  ["fault_sequences", "schedules", "configurations"], "All I/O operations of a run, kinds of errors, outputs switched on, process counts and schedules.",
  "No test injects an I/O error.", ["WxFactory", W + "output", W + "simulation/simulation.py", W + "wx_mpi.py"],
  [("SingleProcess / Conditional around file operations", W + "wx_mpi.py"), ("main()", "WxFactory")], [], ["exit status of each process, files, standard output"])
p("C19", "Input files are read by one process and all processes get the same input",
  "The configuration and its schema are read by exactly one process, and every process then works with exactly the configuration in that file, even if the file changes or disappears right afterwards or cannot be read by the other processes. If it cannot be read or is invalid, every process stops with an error before any output is created.",
  ["schedules", "fault_sequences", "inputs"], "All moments at which the file changes or fails, kinds of failure, valid and invalid contents, process counts, communicators and schedules.",
  "Tests read intact files which nothing changes.", [W + "simulation/simulation.py", W + "common/configuration.py", W + "common/readfile.py", "WxFactory"],
  [("do_once(readfile)", W + "simulation/simulation.py")], [], ["file operations per process, configuration per process"])
p("C20", "Each configuration option is validated and converted as its schema says",
  "A configuration value is accepted exactly if it has the type, range, choices and dependency its schema declares, and is then available with exactly that value, or its declared default if omitted.",
  ["inputs"], "All configuration texts and schemas.", "Unit tests cover a handful of options.", [W + "common/configuration.py", W + "common/configuration_schema.py"], [("ConfigurationSchema, Configuration", W + "common/configuration.py")])
p("C21", "Element operators are exact for polynomials of their order",
  "Extrapolation, differentiation, quadrature and filtering operators of an element are exact for all polynomials up to their degree.",
  ["inputs", "configurations"], "All orders and polynomials.", "Unit tests do not test the operators for all orders.", [W + "geometry/operators.py"], [("DFROperators", W + "geometry/operators.py")])
p("C22", "Time integrators converge at their stated order",
  "Halving the time step reduces each integrator's error by its stated order on smooth problems.",
  ["inputs", "configurations"], "All integrators and smooth problems.", "Tests run each integrator with one time step.", [W + "integrators"], [("integrators", W + "integrators")])

here = os.path.join(os.path.dirname(os.path.realpath(__file__)), "..")
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
for x in P:
    for y in x["anchors"]["files"]:
        if not os.path.exists(os.path.join("/repo", y)):
            print("missing", x["id"], y)
