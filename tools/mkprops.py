"""Writes /verif/properties.jsonl (kept as a generator so the lines stay well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/barotropic/"+f for f in files],
            state=[dict(zip(("name","meaning","where"), s)) for s in state],
            mechanism=[dict(zip(("name","where"), m)) for m in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Reading a state never depends on earlier or concurrent reads",
 "Every field, diagnostic and derived quantity read from an atmospheric state is determined by the grid, potential vorticity and time the state was created with. Whatever was read before, in whichever order, by however many threads sharing the state or its grid, and however those threads are interleaved or interrupted, each read returns what a first read on a freshly created identical state returns.",
 ["schedules","histories","fault_sequences","inputs"],
 "all sequences of reads over all public fields, all interleavings of threads sharing states and grids, all interruption points, all grids and states",
 "Tests read each field at most a few times in one fixed order from one thread and compare shapes or a few values; no test reads fields out of order, concurrently, or after an interrupted read.",
 ["state.py","diagnostics.py","grid.py"],
 [("lazy memoised field accessors","State.pv/u/v/streamfunction/_invert_pv"),("_cached_property","state.py")],
 [("State._pv,_u,_v,_streamfunction,_pv_zonalized,_falwa","lazily filled per-state caches","state.py State.__init__")],
 ["public properties of State"])

prop("C02", "A failed or interrupted operation leaves no trace",
 "If an operation fails or is interrupted part-way (memory exhaustion, keyboard interrupt, an exception raised by a user-supplied forcing term, field getter or mapped function), the failure reaches the caller instead of a made-up result. Every grid, state, collection, model, forcing term and array involved then behaves exactly as if the operation had never been attempted, and repeating the operation without the fault gives the fault-free result.",
 ["fault_sequences","crash_points","histories"],
 "all operations of the public API, all instants inside them at which an exception can surface, all following operations",
 "The tests inject no fault: the only exceptions they see are rejected arguments. Crash points inside an operation are too many and too fine for examples.",
 ["state.py","model.py","rhs.py","grid.py","diagnostics.py","io.py"],
 [("results are built completely before being memoised or returned","state.py, model.py, rhs.py"),("exceptions are not swallowed","whole package")],
 [("per-state field caches","filled lazily","state.py"),("orography gradient cache","filled lazily per forcing term and grid","rhs.py Orography._orography_gradient")],
 ["public API results after a fault"])

prop("C03", "What exists is never changed by later work",
 "States, collections, grids, regions, models and forcing terms behave as immutable snapshots. No operation of the library changes, even temporarily as seen by another thread, an object or array that was passed to it or that an earlier operation returned, and overwriting the buffers of gridded fields (PV, vorticity, winds) after a state was created from them does not alter the state.",
 ["histories","schedules","inputs"],
 "all sequences and interleavings of operations over shared objects and arrays, including intermediate states handed out during an integration",
 "Tests throw their inputs away after one call and never compare an input or an earlier result after later work.",
 ["state.py","model.py","rhs.py","grid.py","diagnostics.py","io.py"],
 [("every operation allocates its result; no in-place update of arguments","whole package"),("constructor sends the field through spectral space","State.__init__")],
 (), ["arrays and objects held by callers"])

prop("C04", "Integrations sharing a model, forcing and grid are isolated",
 "A model carries no state beyond its configuration: any number of integrations, step by step or as whole runs, that share a model, forcing terms, initial states and grids, in any order, interleaving or nesting, with some of them abandoned or failing part-way, each produce exactly the states they produce when run alone.",
 ["schedules","histories","fault_sequences","configurations"],
 "all interleavings of integrations over shared objects, all mixtures of grids, step sizes, clocks and forcings, all abort points",
 "The only test that integrates runs a single integration once and checks times and a count.",
 ["model.py","rhs.py","grid.py","state.py"],
 [("model methods are functions of their arguments","BarotropicModel.run/euler/leapfrog"),("step size derived from the two given states","BarotropicModel.leapfrog")],
 [("orography gradient cache","shared by all integrations using a forcing term","rhs.py")],
 ["states returned by run, euler, leapfrog"])

prop("C05", "Every integration step follows the documented scheme",
 "At every step of an integration the potential vorticity obeys the documented numerical scheme for the barotropic PV equation: Euler-forward start, leapfrog steps with Robert-Asselin filtering, flux divergence plus the forcing evaluated at the current state and time, and an implicit diffusion step of the configured order and strength relative to the configured background. This holds for every combination of forcing terms including time-dependent ones, for every grid and planet, and for steps repeated after transient failures.",
 ["histories","inputs","configurations","fault_sequences"],
 "all initial states, grids, step sizes, forcing expressions, diffusion set-ups, integration lengths and transient forcing failures",
 "No test compares the values of an integration with anything: the README example only checks times and counts.",
 ["model.py","state.py","grid.py","rhs.py"],
 [("tendency, diffusion, Euler and leapfrog steps","model.py BarotropicModel"),("spectral flux divergence and inversion","state.py, grid.py"),("forcing terms","rhs.py")],
 (), ["states of a run","states presented to user-supplied forcing terms"])

prop("C06", "Runs stop and save exactly on schedule",
 "A run with a positive step started at any time ends at the first whole step at or after the requested end time and always terminates; a request for an end before the start returns the start state unchanged. The returned collection holds the initial state followed, in order, by the first step at or after each multiple of the save interval counted from the start of the run, nothing else, and without a save interval just the initial state.",
 ["histories","configurations","inputs"],
 "all start times (zero, positive, negative, datetime), step sizes, end times, save intervals and chains of runs that continue from an earlier result",
 "One run is tested, starting at time 0 with a step that divides the save interval and the end time.",
 ["model.py"],
 [("integration loop and save clock","BarotropicModel.run")],
 [("t_save","next time at which a state is kept","model.py run")],
 ["times and membership of the results of run"])

prop("C07", "Outcomes depend on elapsed time, not on the clock used",
 "Shifting the clock of an experiment (start time, end time and switch-off times of forcing terms) by any offset, or expressing it with datetimes and timedeltas instead of seconds, changes nothing but the times attached to the states: the fields of the final and saved states and the number of steps and saved states stay the same.",
 ["inputs","configurations","histories"],
 "all clock origins and representations, all step sizes, forcings with time switches, chains of runs",
 "Tests integrate only from time 0 in seconds.",
 ["model.py","rhs.py","state.py"],
 [("time arithmetic on differences only","BarotropicModel.run/euler/leapfrog, _to_seconds"),("switch compares state time with its end time","rhs.TimedOffSwitch")],
 (), ["states returned by run, euler, leapfrog"])

prop("C08", "An integration resumes exactly after a crash from its last states",
 "A state carries everything the future of the flow depends on. An integration that is stopped or crashes at any point and is continued, in the same or in a new process, from its last two states (or its last state, for a restart with an Euler step), whether kept, copied, pickled, or rebuilt from their PV and time, goes on exactly as if nothing had happened; the same holds for state collections.",
 ["crash_points","fault_sequences","histories"],
 "all crash instants inside a step or between steps, all numbers of crashes, all ways of keeping the last states, alone or in a collection",
 "No test copies, pickles or restarts anything.",
 ["model.py","state.py","grid.py"],
 [("leapfrog is a function of the old and current state only","BarotropicModel.leapfrog"),("states and collections are plain value objects","State, StateList, Grid")],
 (), ["trajectory after resumption"])

prop("C09", "Dataset import returns every record correctly paired, or fails",
 "Importing a dataset either raises an error or returns one state per record, in the record order of the dataset, each built from exactly that record's fields (winds preferred over relative over absolute vorticity) and placed at its longitudes and carrying that record's time, or the fill value if it has none. This holds for data read lazily from storage that is slow, shared with other readers or fails at any read, for all layouts of extra dimensions, coordinate types, resolutions and names; after a failed read the import can simply be repeated.",
 ["inputs","fault_sequences","schedules","configurations"],
 "all dataset layouts with uniquely labelled dimensions, all read failures, all interleavings of importers over shared data",
 "Tests import in-memory datasets of zeros, so mixed-up records cannot be seen, and no read ever fails.",
 ["io.py","state.py","grid.py"],
 [("record selection over the flattened dimensions","io.from_dataset")],
 (), ["states returned by the import"])

prop("C10", "Export keeps every record and importing it back restores the states",
 "Exporting states produces a dataset whose i-th record holds, for each requested field, exactly the value that field has for the i-th state, on the coordinates of the grid and labelled with that state's time (or the chosen other coordinate), whether fields are given by name, mapping or function, and leaves the states untouched. Importing exported winds, relative or absolute vorticity, directly or through a stored file, restores the sequence of states with their times (within the accuracy of the transforms; winds do not carry the global mean), also when exports run concurrently or are retried after an interruption.",
 ["inputs","histories","schedules","fault_sequences"],
 "all collections of states with distinct times, all field requests, grids and clocks, all interleavings and interruption points",
 "Tests only check the presence of dimensions and coordinates for motionless states and never import an export.",
 ["io.py","state.py","grid.py"],
 [("field collection and coordinate assembly","io.as_dataset"),("record selection","io.from_dataset")],
 (), ["exported dataset", "re-imported states"])

prop("C11", "A state collection behaves exactly like its elements in order",
 "Reading a field of, calling a state method on, mapping a function over, or integrating a collection of states gives the results for the individual states, in order and with nothing lost or duplicated, and evaluates each element once. Collections never change once created, concatenation keeps order, non-states and mixed grids are rejected, and if the evaluation of any element fails the whole operation fails without affecting the collection.",
 ["histories","schedules","fault_sequences","inputs"],
 "all collections, operations, user functions (including failing and reentrant ones), interleavings of threads sharing a collection",
 "Tests check only result shapes and types on one collection of five states.",
 ["state.py","model.py"],
 [("attribute broadcasting, map, run","StateList"),("result container selection","_convert_sequence")],
 [("StateList._states","tuple of the states","state.py")],
 ["results of collection operations"])

prop("C12", "Forcing terms depend only on the state, however often used",
 "A forcing term, or any sum or product of terms, evaluated for a state returns a value determined by the term's configuration and that state's fields, grid and time, equal to the same combination of its parts. The value does not depend on which other states, grids, resolutions or planets the term was evaluated for before or is being evaluated for at the same time, nor on earlier failed evaluations, and a time switch follows the time of the given state only.",
 ["histories","schedules","fault_sequences","inputs"],
 "all sequences and interleavings of evaluations of shared terms over any number of grids (beyond any cache size) and times, all interruption points",
 "Only one mountain on one grid is ever evaluated, and its value is not checked.",
 ["rhs.py","grid.py"],
 [("gradient cache keyed by term and grid","Orography._orography_gradient"),("grid equality and hash","Grid.__eq__/__hash__"),("operator nodes","_RHSSum/_RHSProduct"),("time switch","TimedOffSwitch")],
 [("orography gradient cache","8 entries shared by all terms","rhs.py")],
 ["values returned by calling terms"])

prop("C13", "Invariants of the flow survive any integration history",
 "Along any integration, however it is split, resumed or repeated after failures: the global mean of absolute vorticity is unchanged unless the forcing adds to it, a zonally symmetric flow without forcing stays zonally symmetric and, without diffusion, unchanged, a motionless state stays motionless, a zonally symmetric deviation that only diffusion acts on never grows, and large-scale Rossby-Haurwitz waves propagate with their analytic phase speed. Rotating the planet's longitudes or mirroring the hemispheres of the initial state and forcing does the same to every later state.",
 ["histories","inputs","fault_sequences","crash_points"],
 "all initial states, grids, step sizes, integration lengths, restart and failure histories",
 "No test looks at the values of an integrated state.",
 ["model.py","state.py","grid.py"],
 [("flux-form tendency, spectral inversion and diffusion","model.py, state.py, grid.py")],
 (), ["states of a run"])

prop("C14", "A figure shows only the state it was asked to draw",
 "The content of a plot preset's figure (curves, contours, vectors, titles, axis labels and limits) is determined by the state and options given, with the fields of the state at their coordinates. Other figures being created, made current, drawn into or closed before, in between or at the same time do not end up in it, it does not draw into any other figure, and drawing changes neither the state nor later results; a failed drawing can simply be repeated.",
 ["schedules","histories","fault_sequences","inputs"],
 "all sequences and interleavings of drawing operations over the process-wide figure registry, all options and states",
 "Plotting has no tests at all.",
 ["plot.py","state.py","diagnostics.py","formatting.py"],
 [("axes-level drawing only, never through the current figure","plot.py presets"),("plot shortcuts","StatePlotter")],
 [("pyplot current figure","process-wide registry shared by all drawing code","matplotlib")],
 ["artists of the returned figures"])

prop("C15", "A shared grid answers every request independently",
 "Results of grid operations (transforms, winds, derivatives, solvers, quadrature, means, zonalization, interpolation, filters, regions) and of the diagnostic functions depend only on the grid's parameters and the arguments of that request. Any number of threads may use one grid or region, or several grids that differ only in planet, truncation or resolution, in any order and interleaving, with requests failing or interrupted, and each request returns what it returns on a fresh grid.",
 ["schedules","histories","fault_sequences","inputs"],
 "all sequences and interleavings of requests, all grids and arguments, all interruption points",
 "Tests make isolated single calls on fresh grids.",
 ["grid.py","diagnostics.py"],
 [("operations allocate their own work space and read only constant grid attributes","Grid, GridRegion, diagnostics")],
 (), ["results of grid, region and diagnostic calls"])

prop("C16", "Missing optional packages only affect what needs them",
 "The library imports and integrates without any of its optional packages (matplotlib, xarray, PyWavelets, falwa), and everything that does not itself use a missing package gives the same results as with it. A request that needs a package that is missing or fails to load raises an error and leaves all states and inputs as they were, and requests that load a package on demand succeed as soon as the package loads.",
 ["configurations","fault_sequences","histories"],
 "all subsets of missing packages, all sequences of requests with packages failing to load and recovering in between",
 "The test environment has all packages; tests that need one are skipped rather than run without it.",
 ["plot.py","io.py","diagnostics.py","state.py","__init__.py"],
 [("guarded import of matplotlib, on-demand import of the others","plot.py, io.py, diagnostics.py, state.py")],
 (), ["import of the package","results and errors of requests"])

prop("C17", "Process-wide settings neither influence results nor are changed",
 "Results are determined by the inputs alone: the same request gives the same result whatever the local time zone, clock, random number state and hash seed of the process and its print, warning and xarray options are. No operation, whether it completes, fails or is interrupted, and however many threads work at the same time, leaves a process-wide setting changed when it is over: floating-point error handling and print options of numpy, warning filters, random number streams, matplotlib defaults, xarray options, environment, locale, working directory and signal handlers stay as the user of the process has set them.",
 ["configurations","histories","fault_sequences","schedules"],
 "all settings of the process, all operations of the public API, completed, failed or interrupted at any point, and all interleavings of threads",
 "Tests run under one configuration and never compare process-wide settings before and after, let alone after a failure.",
 ["__init__.py","state.py","grid.py","diagnostics.py","io.py","plot.py","formatting.py"],
 [("no module of the package reads or sets process-wide options","whole package"),("dates are converted without the local time zone","io.py")],
 (), ["results of requests","numpy, warnings, matplotlib, xarray and interpreter settings after a request"])

prop("C18", "Memory is bounded by what the caller holds",
 "Nothing piles up. While an integration runs, it keeps only the few states it works with and those it is to return, however many steps it takes; once the results of an operation are dropped, the states, collections, regions and arrays created for it are released, and of grids and forcing terms at most a fixed number stays in caches. Repeating operations any number of times, with new states, fields, grids or datasets, whether they complete, fail or are interrupted, and from any number of threads, does not make the memory in use grow.",
 ["histories","fault_sequences","schedules"],
 "all sequences of operations of the public API (other than figures, which belong to pyplot until closed), any number of repetitions, failures at any point",
 "Tests do not look at memory, and leaks only show over long integrations, after many repetitions or failures.",
 ["model.py","state.py","grid.py","rhs.py","io.py","diagnostics.py"],
 [("only the last two states and the saved ones are kept","BarotropicModel.run"),("memoised fields belong to their state","state.py"),("the cache of orography gradients is bounded","Orography._orography_gradient")],
 (), ["numbers of live objects","memory in use by the package","liveness of long integrations"])

# --- pure functions: not simulation targets -------------------------------
prop("D01", "Spectral transforms, derivatives and solvers are mutually consistent",
 "On band-limited fields the spectral transforms invert each other, winds, vorticity and divergence are recovered from one another, and the Poisson and diffusion solvers invert the operators they solve for.",
 ["inputs"], "all grids and band-limited fields", "Tests check a handful of smooth fields.",
 ["grid.py"], [("spherical harmonic operators","Grid")])
prop("D02", "Quadrature and means are exact area integrals",
 "Surface integrals, sub-domain integrals and area-weighted means agree with the exact spherical areas and are additive over complementary domains and regions.",
 ["inputs"], "all grids, fields and domains", "Tests integrate constants and half spheres only.",
 ["grid.py"], [("quad, quad_meridional, mean, gridpoint_area","Grid")])
prop("D03", "Zonalization is area preserving and monotonic",
 "The equivalent-latitude profile of a field decreases from north to south, lies within the field's range and encloses the same area above every threshold as the field.",
 ["inputs"], "all grids and fields", "Only shapes are tested.",
 ["grid.py"], [("zonalize, equivalent_latitude","Grid")])
prop("D04", "Region selection is inclusive and periodic",
 "A region holds exactly the grid points whose coordinates lie in the requested ranges, both ends included, across the date line if needed, and rejects invalid requests.",
 ["inputs"], "all grids and selections", "A few selections on one grid are tested.",
 ["grid.py"], [("GridRegionIndexer","grid.py")])
prop("D05", "Wave diagnostics satisfy their mathematical definitions",
 "Wave activity is non-negative and vanishes for zonally symmetric monotonic flow, envelopes bound their band-passed signal, dominant wavenumbers of pure waves are their wavenumbers, and smoothing preserves constants.",
 ["inputs"], "all fields", "Diagnostics have no value tests.",
 ["diagnostics.py"], [("falwa, envelope_hilbert, dominant_wavenumber_*, filter_by_wavenumber","diagnostics.py")])
prop("D06", "Waveguides are the maximal latitude bands above the wavenumber",
 "The waveguides extracted for a wavenumber are disjoint bands, ordered from north to south, that cover exactly the latitudes at which the interpolated stationary wavenumber exceeds it.",
 ["inputs"], "all stationary wavenumber profiles", "Not tested.",
 ["diagnostics.py"], [("extract_ks_waveguides","diagnostics.py")])
prop("D07", "Initial condition presets have the documented profiles",
 "Each preset produces the documented zonal wind or PV profile with the requested amplitude, position and width on every grid.",
 ["inputs"], "all grids and parameters", "Presets are used in tests but their profiles are not checked.",
 ["init.py"], [("preset functions","init.py")])
prop("D08", "Helper formatting and level functions are correct for all inputs",
 "Text representations, time formatting, contour level and longitude roll helpers return what they document for every input.",
 ["inputs"], "all inputs", "Not tested.",
 ["formatting.py","plot.py"], [("format_time, symmetric_levels, roll_lon, reduce_vectors, hovmoellerify","formatting.py, plot.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
