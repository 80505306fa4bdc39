"""Writes properties.jsonl (kept as a script so that the statements are easy to review)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))
A = "bdld/actions/"
prop("C01", "Trajectory files hold each selected time step exactly once, in order",
 "For every combination of trajectory stride, write-stride, number of steps and number of particles, a finished run's trajectory file i contains exactly one row for each multiple of the stride up to the last step, in increasing order, and nothing else. Each row carries time = step * timestep and the position (and, if requested, the momentum) that particle i had at the end of that step, after any birth-death events of that step. Writing out additionally at arbitrary moments during the run neither loses nor repeats rows.",
 ["configurations", "histories"], "all (stride, write-stride, n_steps, particle number, dimension, momentum flag) and all interleavings of additional write requests",
 "test_get_valid_data samples one parameter set of one helper; no test runs a simulation or reads a trajectory file, and the modular arithmetic only fails for particular stride / write-stride / last-write combinations",
 [A+"trajectory_action.py", A+"action.py", "bdld/main.py"],
 [("ring buffer row = step mod write-stride", A+"trajectory_action.py:run"), ("selection of the not yet written rows", A+"action.py:get_valid_data"), ("final flush", A+"trajectory_action.py:final_run")],
 ["trajectory files"], [("last_write", "step of the last flush", A+"trajectory_action.py")])
prop("C02", "Particle-distribution and delta-f files record each stride step exactly once",
 "With a stride, the particle-distribution and delta-f files of a finished run contain exactly one row per multiple of the stride up to the last step, in increasing order and labelled with that step (particle-distribution) or its time (delta-f), whatever the write-stride is. Without a stride they contain exactly one row, for the last step. Writing out additionally at arbitrary moments during the run neither loses nor repeats rows.",
 ["configurations"], "all (stride or none, write-stride or default, n_steps) of both record-keeping analyses",
 "no test constructs either analysis; the buffer wrap-around and the final partial flush depend on the residue of n_steps modulo stride and write-stride",
 [A+"particle_distribution.py", A+"delta_f_action.py", A+"action.py"],
 [("buffer row computation", A+"particle_distribution.py:run"), ("buffer row computation", A+"delta_f_action.py:run"), ("partial flush", A+"action.py:get_valid_data")],
 ["particle-distribution file", "delta-f file"])
prop("C03", "A run interrupted at any point leaves exactly the data due so far on disk",
 "If a run dies at any time step, then every output file of the run is intact and contains exactly the records that were due at the write times passed so far: trajectory, particle-distribution and delta-f rows up to the last multiple of their write-stride, birth-death statistics up to the last multiple of their stride, and every histogram and free energy snapshot whose write time had passed. No record is missing, duplicated, or of a later step.",
 ["crash_points", "configurations"], "every time step at which the run is interrupted, for every stride / write-stride configuration of all output sections",
 "needs an interruption at a chosen point of a whole run; no test runs a simulation",
 ["bdld/main.py", A+"trajectory_action.py", A+"particle_distribution.py", A+"delta_f_action.py", A+"histogram_action.py", A+"fes_action.py", A+"birth_death.py"],
 [("append and close on every flush", A+"*.py:write"), ("flush at every multiple of the write-stride", A+"*.py:run")],
 ["all output files after an injected interruption"])
prop("C04", "The histogram counts every sampled position exactly once",
 "The histogram written at the end of a run is, per bin, the number of particle positions at the multiples of the histogram stride (up to the last step) that lie in that bin, positions outside the histogram range being ignored: nothing is lost, counted twice or added from elsewhere, whether or not trajectories are written to file and for every trajectory stride and write-stride. A snapshot written at time step t, named by t, holds the samples up to the latest multiple of the trajectory write-stride not after t, and a reset at a given time step discards everything added up to then, after that step's snapshot.",
 ["configurations", "inputs", "histories"], "all stride / write-stride / n_steps / reset combinations, all dimensions and bin layouts, positions inside, outside and on bin edges",
 "no test constructs a histogram; exactly-once accounting depends on how n_steps, trajectory write-stride and histogram stride interact over a whole run",
 [A+"histogram_action.py", "bdld/histogram.py", A+"action.py"],
 [("incremental update from the trajectory buffer", A+"histogram_action.py:get_traj_data"), ("bin counting", "bdld/histogram.py:add"), ("reset", A+"histogram_action.py:run")],
 ["histogram files"], [("last_update", "last step whose samples are in the histogram", A+"histogram_action.py")])
prop("C05", "Free energies and delta-F are the log-populations of the same moment",
 "Every written free energy surface equals -kT ln(count) of the histogram as it was at that surface's latest calculation time (multiples of the fes stride, and the end of the run), shifted so that its minimum is zero, with infinity in empty bins. Every delta-F record equals -kT ln(N_i / N_1) for each further state i, where N_s is the number of histogram counts of that calculation in the bins whose centre lies in the closed box of state s, for one, two and three dimensions. kT is the one given in the fes section.",
 ["configurations", "inputs"], "all histograms (including empty ones and empty states), all stride combinations of trajectories, histogram, fes and delta-f, all dimensions and state boxes",
 "no test covers free energies or delta-F; the value depends on the order of the analyses within a step and on which calculation is current",
 [A+"fes_action.py", A+"delta_f_action.py", "bdld/tools.py", "bdld/main.py", "bdld/grid.py"],
 [("log of counts, shift, inf for empty", A+"fes_action.py:calculate_fes"), ("state masks", "bdld/main.py:setup_delta_f"), ("dependency order of the analyses", "bdld/main.py:main")],
 ["fes files", "delta-f file"])
prop("C06", "Particle-distribution rows count the walkers inside each state box",
 "Each value in a particle-distribution row equals the number of particles whose position at the end of that time step (after birth-death) lies in the closed box of the state in every dimension. Overlapping boxes each count the particle, particles outside all boxes are counted nowhere.",
 ["inputs", "configurations"], "all particle positions (also on box faces), any number of states, one to three dimensions",
 "no test covers the particle distribution", [A+"particle_distribution.py", "bdld/tools.py", "bdld/inputparser.py"],
 [("box membership", "bdld/tools.py:pos_inside_ranges"), ("counting", A+"particle_distribution.py:count_particles")],
 ["particle-distribution file"])
prop("C07", "Birth-death keeps the number of walkers and only copies existing ones",
 "A birth-death round never changes the number of walkers: every event overwrites one walker with an identical and complete copy (position, momentum, and everything that determines its further motion) of another one, and walkers that are not victims of an event stay untouched. Afterwards the copy and its original evolve independently of each other, and a lone walker is never changed.",
 ["histories", "inputs", "schedules"], "all populations, all event sequences within and across rounds, all processing orders",
 "the existing tests look at the event list of one fixed four-particle round and never at the walkers after it, nor at their further evolution",
 [A+"birth_death.py", A+"bussi_parinello_ld.py", A+"overdamped_ld.py"],
 [("deep copy into the victim's slot", A+"birth_death.py:perform_moves"), ("shared particle list", "bdld/main.py:setup_birth_death")],
 ["trajectory files around birth-death steps"])
prop("C08", "Crowded walkers die and sparse ones are duplicated with the stated probability",
 "In a birth-death round each walker has the rate b = ln(kernel density at the walker, own kernel included) + energy/kT, minus the average of that quantity over all walkers (original approximation). An event for a walker occurs exactly if its uniform random number is at most 1 - exp(-|b| * timestep * stride * factor); for b > 0 the walker itself is overwritten by another one, for b < 0 another one is overwritten by it. By default all rates are those of the start of the round and a walker that was already overwritten gets no event of its own; with recalculation each walker is processed exactly once with the rates resulting from all earlier events of the round.",
 ["inputs", "histories", "configurations"], "all walker positions, energies, bandwidths, thermal energies, rate factors, timesteps, strides and random numbers, with and without recalculation",
 "one regression test pins one random seed of the default mode; the recalculation mode and the direction of events are never examined",
 [A+"birth_death.py"],
 [("rates", A+"birth_death.py:calc_betas"), ("kernel density estimate", A+"birth_death.py:walker_density"), ("acceptance and direction", A+"birth_death.py:do_birth_death")],
 ["trajectory files around birth-death steps", "random numbers supplied to the run"])
prop("C09", "Birth-death partners and processing order are unbiased",
 "The partner of a birth-death event is always a walker other than the acting one, and every other walker is equally likely to be chosen, independently of its index. Within a round the walkers with events are processed in uniformly random order.",
 ["schedules", "inputs"], "every acting walker, every population size, every processing order",
 "one test checks 100 draws for the absence of the excluded index only (or one fixed seed); it does not look at coverage or order",
 [A+"birth_death.py"], [("exclusion of the acting walker", A+"birth_death.py:random_other"), ("shuffle", A+"birth_death.py:do_birth_death")],
 ["trajectory files around birth-death steps over many random streams"])
prop("C10", "Birth-death runs exactly on schedule and its statistics count its events",
 "Birth-death rounds take place exactly at the multiples of their stride, after the Langevin step and before any output of that time step. The statistics (file or screen) give, at every multiple of the statistics stride, the cumulative numbers since the start: each walker of each default-mode round is one birth or death attempt by the sign of its rate, and each event is one success of the acting walker's kind, so the successes equal the replacements that happened. Without a statistics stride the statistics are given once at the end.",
 ["configurations", "histories"], "all strides, statistics strides, n_steps, populations and random numbers",
 "tests check counters after one call with a fixed seed", [A+"birth_death.py", "bdld/main.py"],
 [("stride check", A+"birth_death.py:run"), ("counters", A+"birth_death.py:do_birth_death"), ("action order", "bdld/main.py:main")],
 ["statistics file", "standard output", "trajectory files"])
prop("C11", "Each Langevin step is the documented update with fresh noise per walker",
 "With the overdamped integrator each step moves each walker by timestep * force(old position) + sqrt(2*timestep) * noise; with the Bussi-Parinello integrator each step is: momentum scaled by c1 = exp(-friction*timestep/2) plus sqrt((1-c1^2) * mass * kT) * noise, half a kick with the force at the old position, drift by momentum/mass * timestep and boundary condition, half a kick with the force at the new position, and the same thermostat step with new noise. Every walker, dimension and thermostat step uses its own noise value, momenta start at zero, and walkers do not influence each other. This holds equally for walkers that were just created by birth-death.",
 ["inputs", "configurations", "histories"], "all potentials, dimensions, masses, timesteps, friction and kT values, noise sequences and numbers of walkers, over whole runs",
 "no test executes either integrator", [A+"overdamped_ld.py", A+"bussi_parinello_ld.py", "bdld/particle.py"],
 [("Euler-Maruyama step", A+"overdamped_ld.py:run"), ("thermostat + velocity Verlet", A+"bussi_parinello_ld.py:run"), ("mass dependent noise constant", A+"bussi_parinello_ld.py:add_particle")],
 ["trajectory files with momenta for supplied noise"])
prop("C12", "Boundary conditions keep walkers inside the potential range",
 "With periodic boundaries a walker that leaves the range in some dimension is shifted by whole multiples of the range length back into the range in that dimension, however far outside it was, and its momentum is unchanged. With reflective boundaries it is put on the boundary it crossed and its momentum in that dimension is reversed. All other coordinates are untouched, and without a boundary condition, or inside the range (including exactly on the boundary), nothing is changed.",
 ["inputs", "histories"], "all positions (inside, on and far beyond the boundary), momenta, ranges, dimensions and both integrators",
 "one test applies each condition to two positions slightly outside", ["bdld/potential/potential.py", "bdld/main.py", A+"overdamped_ld.py", A+"bussi_parinello_ld.py"],
 [("periodic shift", "bdld/potential/potential.py:apply_boundary_condition_periodic"), ("reflection", "bdld/potential/potential.py:apply_boundary_condition_reflective"), ("selection of the condition", "bdld/main.py:setup_potential")],
 ["trajectory files", "boundary condition call on a position and momentum"])
prop("C13", "Forces are the exact negative gradient of the energy of the given potential",
 "For every polynomial in one to three dimensions, given directly or by a coefficient file (any subset and order of terms, extra columns and comments ignored), the energy is the sum of coefficient * x^i y^j z^k and each force component its exact negative partial derivative; evaluating both together gives the same values. The Müller-Brown energy and force are the published four-exponential sum (up to the constant shift) multiplied by that potential object's own scaling factor, whatever other potentials were created before or after. Reference energies and probability densities derived from a potential are its energies shifted to minimum zero and the normalised Boltzmann weights.",
 ["inputs", "histories"], "all coefficient sets and positions; all sequences of creating and evaluating potentials",
 "one polynomial is evaluated at one point; Müller-Brown, coefficient files and several potentials at once are untested",
 ["bdld/potential/polynomial.py", "bdld/potential/mueller_brown.py", "bdld/potential/potential.py"],
 [("derivative coefficients", "bdld/potential/polynomial.py:__init__"), ("coefficient file parsing", "bdld/potential/polynomial.py:coefficients_from_file"), ("analytic sum", "bdld/potential/mueller_brown.py:evaluate")],
 ["energy, force, evaluate, reference and density results"])
prop("C14", "Initial walkers match the requested number, positions and fractions",
 "A run starts with exactly the requested number of particles of the requested mass at rest. With fractions-pos, position i gets the integer part of number * fraction_i / sum(fractions) particles, the first position gets all that remain, and particles are ordered by position; with random-pos every particle is at one of the given positions, each equally likely; with random-global every coordinate is uniform in the potential's range of its dimension. Particles started at the same position are independent of each other.",
 ["inputs", "configurations"], "all particle numbers, fraction lists (normalised or absolute), position lists and ranges in one to three dimensions",
 "no test covers the initialisation", ["bdld/main.py", "bdld/inputparser.py", "bdld/particle.py"],
 [("distribution variants", "bdld/main.py:init_particles"), ("numbered options", "bdld/inputparser.py:get_all_numbered_values")],
 ["first rows of the trajectory files"])
prop("C15", "An invalid input file is refused before the first step, a valid one runs",
 "If a required section or option is missing, a value has the wrong type or is out of its allowed range or set of names (this includes negative seeds, fractions that are negative or all zero, a plot-domain that is not a pair of values, and a fmt that cannot format a number), a section is missing that another one needs, options do not fit together (a histogram write-stride without filename, a fes write-stride without stride and filename, a delta-f or particle-distribution write-stride that comes with a stride but without filename or is no multiple of that stride, a fes plot-stride without stride and plot-filename), or the numbers of values do not match the dimensions, then the program ends with a non-zero exit status before the first time step; when the cause is a single option's presence, type or range, or a missing section, the error message names that option or section. Every input consisting of valid values (also when given in the DEFAULT section, in any section order, with unknown extra options, or with optional options left out) is accepted, runs the requested number of steps and ends with exit status zero.",
 ["inputs", "configurations"], "all input files: every option absent, valid, of wrong type or out of range, alone and in combination",
 "the input parser has no tests at all", ["bdld/inputparser.py", "bdld/main.py"],
 [("typed options with conditions", "bdld/inputparser.py:InputOption.parse"), ("section requirements", "bdld/inputparser.py:parse_all"), ("error reporting", "bdld/main.py:main")],
 ["exit status, messages and progress output of a run"])
prop("C16", "Existing data files are never overwritten or lost",
 "Whatever files already exist, a run never destroys their content: before a trajectory, histogram, free energy, delta-f, particle-distribution or statistics file is created, an existing file of that name is renamed to bck.N.name in the same directory with the smallest unused N. After any sequence of runs all earlier files still exist unmodified under some backup name, the file under the plain name is from the latest run, and a run only appends to files it created itself.",
 ["histories", "configurations"], "all sequences of runs with the same or different output names in one directory, with any pre-existing files and backups",
 "no test runs two simulations in one directory", [A+"trajectory_action.py", A+"histogram_action.py", A+"fes_action.py", A+"delta_f_action.py", A+"particle_distribution.py", A+"birth_death.py"],
 [("initialize_file / backup_if_exists at every file creation", A+"*.py")], ["directory contents after each run"])
prop("C17", "A seeded run is completely determined by its input file",
 "If the ld, particles and birth-death sections specify seeds (any non-negative integer, including zero), then repeating the run yields byte-identical output files: in the same process, in another process, with other runs before it, and with a different hash seed. Each section's seed controls its own random stream only: with a different ld or birth-death seed the initial positions stay the same, and with a different birth-death seed everything before the first birth-death event stays the same. Different seeds of a section give different streams.",
 ["histories", "inputs"], "all seeded inputs and all histories of earlier runs", "no test repeats a run", ["bdld/main.py", A+"birth_death.py", A+"overdamped_ld.py", A+"bussi_parinello_ld.py"],
 [("own generator per component", "bdld/main.py:setup_birth_death, init_particles, setup_ld")], ["all output files of repeated runs"])
prop("C18", "Output and analysis sections never alter the motion of the walkers",
 "Adding, removing or reconfiguring the trajectories, histogram, fes, delta-f, particle-distribution sections or the birth-death statistics of an input leaves the positions and momenta of all walkers at all time steps exactly the same.",
 ["configurations", "histories"], "all subsets and parameters of the output sections for the same dynamics", "no test runs a simulation with and without analyses",
 ["bdld/main.py", A+"trajectory_action.py", A+"histogram_action.py", A+"fes_action.py", A+"delta_f_action.py", A+"particle_distribution.py"],
 [("analyses only read particle state", A+"*.py:run")], ["trajectory files across configurations"])
prop("C19", "Output files describe themselves correctly",
 "Every data file starts with a header line naming its columns, one name per data column in the right order: time and pos/mom per dimension and particle number, coordinates and count or free energy, time or timestep and one column per state, statistics counters. Histogram and free energy files list one line per bin with the bin's centre coordinates in row-major order (first coordinate slowest, in two dimensions with a blank line between blocks) next to that bin's value, in one to three dimensions, and their header gives the number of bins per dimension and the range (of the bins for histograms, of the bin centres for free energies); all numbers are printed with the section's fmt.",
 ["configurations", "inputs"], "all dimensions, bin layouts, particle numbers, numbers of states, formats and column options", "no test reads an output file except one statistics line",
 [A+"trajectory_action.py", A+"histogram_action.py", A+"fes_action.py", A+"delta_f_action.py", A+"particle_distribution.py", A+"birth_death.py", "bdld/grid.py", "bdld/histogram.py"],
 [("header construction", A+"*.py:__init__"), ("grid output", "bdld/grid.py:write_to_file"), ("bin centres", "bdld/histogram.py:bin_centers")], ["all output files"])
prop("C20", "Grid operations act point by point on consistently ordered points",
 "A grid's points enumerate the product of its axes in row-major order, matching its data in one to three dimensions: data set from a function holds at each point the function's value there, and interpolation at a grid point returns the value stored there, and the linear interpolant in between. Arithmetic, negation, exp and log between grids and numbers act pointwise, return a new grid with the same points and leave the operands unchanged; grids with different points are refused. A grid made from step sizes has points at multiples of the step from the lower end of the range, up to the first one at or beyond the upper end or, when shrinking, up to the last one not beyond it. Making a grid sparser keeps its range, never adds points and keeps a linear function unchanged; a convolution equals the discrete sum times the cell volume, on the first grid's points (same) or on the fully overlapping points (valid).",
 ["inputs", "histories"], "all grid shapes, ranges, data and sequences of operations", "tests use one-dimensional grids (one two-dimensional for the points) with a single operation",
 ["bdld/grid.py"], [("point enumeration", "bdld/grid.py:points"), ("pointwise operators", "bdld/grid.py:_perform_arithmetic_operation"), ("interpolation, sparsify, convolve", "bdld/grid.py")], ["grid API results"])
prop("C21", "Adding, inserting, overwriting and removing walkers affects only that walker",
 "For any sequence of adding (at the end or inserted at an index), overwriting and removing walkers of either dynamics, the walker list equals the list obtained by the same list operations, every new walker having the given position, zero momentum, given mass, and the energy and force of its position; a position of the wrong dimension is refused and leaves the list unchanged. Stored walkers do not change when the caller later modifies the position object it passed, and every walker in the list takes part in the following steps.",
 ["histories", "inputs"], "all operation sequences on the walker list for both integrators", "no test uses the dynamics classes",
 [A+"overdamped_ld.py", A+"bussi_parinello_ld.py", "bdld/particle.py"], [("list operations", A+"*_ld.py:add_particle, remove_particle"), ("copying constructor", "bdld/particle.py:__init__")], ["particle list of the dynamics object"])
prop("C22", "Additive and multiplicative approximations correct the rates as defined",
 "With the multiplicative approximation a walker's rate is ln(kernel density) - ln((K*pi)(x)) minus its average over the walkers, with the additive one it is the original rate minus ln((K*pi)/pi)(x) plus the pi-average of that logarithm, where pi is the equilibrium density of the potential at the simulation's kT and K*pi its convolution with the Gaussian kernel of the given bandwidths per dimension (up to the discretisation of the density on the potential's range, away from its edges). An approximation-variant entry takes precedence over correction-variant, both accept the documented long and short names, and without either the original approximation is used.",
 ["inputs", "configurations"], "all potentials, bandwidths, thermal energies and walker configurations inside the range, all spellings and combinations of the variant options",
 "one four-walker example with an eleven-point density is compared with nearly the same code", [A+"birth_death.py", "bdld/main.py", "bdld/grid.py"],
 [("correction grids", A+"birth_death.py:calc_additive_correction, dens_kernel_convolution"), ("variant selection", "bdld/main.py:setup_birth_death"), ("equilibrium density", "bdld/potential/potential.py:calculate_probability_density")],
 ["trajectory files around birth-death steps", "statistics"])
prop("C23", "Plots show the free energy surface at its coordinates",
 "With a plot-filename the free energy surface is plotted once at the end of the run to the file of that name, and additionally at every multiple of plot-stride to the name with _t appended (before a file extension), showing the most recently calculated surface: in one dimension the free energies drawn over the bin centres, next to a reference curve with the potential energies at the bin centres shifted to minimum zero; in two dimensions each bin's value at its place, the first coordinate horizontal and the second vertical. With a plot-domain exactly that range of values is shown, otherwise all finite values are visible. In three dimensions nothing is plotted, but the run finishes normally.",
 ["configurations", "histories", "inputs"], "all dimensions, bin layouts, strides, ranges, walker histories and file names of the plot options",
 "no test produces a plot", [A+"fes_action.py", "bdld/main.py"],
 [("plot at plot-stride and at the end", A+"fes_action.py:FesAction.run, final_run, plot"), ("drawing", A+"fes_action.py:plot_fes"), ("reference curve", "bdld/main.py:setup_fes")],
 ["data of the saved figures and the files written"])
with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
