"""Statements of the properties; gen.py writes properties.jsonl and MANIFEST.json from them."""

M = "pyDeltaRCM/model.py"
IT = "pyDeltaRCM/iteration_tools.py"
IN = "pyDeltaRCM/init_tools.py"
SED = "pyDeltaRCM/sed_tools.py"
WAT = "pyDeltaRCM/water_tools.py"
SH = "pyDeltaRCM/shared_tools.py"
PP = "pyDeltaRCM/preprocessor.py"
HK = "pyDeltaRCM/hook_tools.py"
DB = "pyDeltaRCM/debug_tools.py"
DY = "pyDeltaRCM/default.yml"

P = []


def prop(pid, title, statement, over, text, why, files, mech, na=None):
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]},
              "_na": na})


prop("P01", "Resuming from a checkpoint continues the run exactly",
     "A model resumed from a checkpoint continues exactly as the uninterrupted run would: every quantity that one timestep hands on "
     "to the next (grids, clock, sea level, record index, time since the last saved record, random generator state) is written to the "
     "checkpoint, read back unchanged, and not disturbed before the next timestep. The checkpoint holds the state at the end of the "
     "timestep that wrote it. Which later timesteps write a checkpoint may differ.",
     ["histories", "crash_points", "configurations"],
     "all run histories, all points at which a checkpoint is written, all configurations",
     "The tests resume a handful of short runs on one small grid and compare a few fields; a state variable that matters only in some "
     "configuration, or later, is not exercised.",
     [IT, IN, M], [("save_the_checkpoint", IT), ("load_checkpoint", IN), ("update", M)])

prop("P02", "Simulations are reproducible from their seed",
     "Two models built with the same inputs and the same seed go through identical states. Every random number a simulation uses comes "
     "from the one generator that construction seeds, unconditionally and before any draw, with the model's seed; a seed the user gave is "
     "used unchanged and one is only invented when none was given, in which case it is kept and logged. No clock, process, environment or other outside value "
     "reaches the simulated state.",
     ["inputs", "histories", "configurations"], "all seeds, inputs, configurations and run lengths",
     "Tests compare a few hard-coded values for one seed; a draw from another generator or an outside value in a branch they do not "
     "reach goes unnoticed.",
     [SH, IN, WAT, SED], [("determine_random_seed", IN), ("set_random_seed / get_random_uniform (compiled)", SH)])

prop("P03", "Output and logging options never change the simulation",
     "Verbosity, which variables and figures are saved, save and checkpoint intervals, file names and file format have no influence on the "
     "simulated fields, the clock or the sequence of random numbers. Saving, checkpointing and logging write no simulated state.",
     ["configurations", "histories"], "all settings of the output options, all run histories",
     "There are too many option combinations to run; tests compare none of them with each other.",
     [IT, M, IN, WAT, SED], [("output_data / output_checkpoint", IT), ("save option setters", M)])

prop("P04", "Every saved record is complete and consistent",
     "Each time data are saved, the current time, every registered grid variable (when grid saving is on) and every "
     "registered time-varying metadata value (when metadata saving is on) are written from the live model attribute they are "
     "registered for, at one and the same new record index, and the file is synced afterwards. The record index then "
     "advances by exactly one.",
     ["histories", "configurations"], "all save events of all runs, all sets of registered variables",
     "Tests read back single records of short runs; they cannot visit all variable sets and record positions.",
     [IT, IN], [("save_grids_and_figs", IT), ("save_grids", IT)])

prop("P05", "Data and checkpoints are saved on the configured schedule",
     "A data record is written at the first timestep at which the model time elapsed since the last record reaches the save interval, and "
     "likewise for checkpoints when they are enabled (a checkpoint interval of null stands for the save interval); the elapsed time then restarts from zero. A new (not resumed) model writes an initial record "
     "unless output is deferred, whatever the intervals.",
     ["histories", "configurations"], "all timesteps, intervals and run lengths",
     "Tests count records for a few interval choices.",
     [IT, M], [("output_data", IT), ("output_checkpoint", IT)])

prop("P06", "Each update runs all steps once, in order, and advances the clock",
     "One update routes water, routes sediment, applies subsidence, finalizes the timestep, then advances the model time by exactly one timestep "
     "and the step count by one, and then performs output, each exactly once and in this order. Routing water repeats, for the configured number of iterations, "
     "initialization, parcel routing, surface computation and finalization; routing sediment initializes, routes sand, diffuses the bed and "
     "routes mud. Finalizing closes the output file; a "
     "finalized model refuses further updates and finalization with an error and without changing anything.",
     ["histories"], "all sequences of update and finalize calls",
     "Tests mock the steps and call update a few times; conditional skips or reordering under other state are not reached.",
     [M, IT], [("update", M), ("finalize", M), ("solve_water_and_sediment_timestep", IT)])

prop("P07", "Hooks run exactly once at their documented place",
     "Whenever a step that has a hook is run (during construction, during an update, or by a parallel job), its hook runs exactly once, "
     "immediately before it, under the same conditions and with the same arguments; 'after' hooks run immediately after their step. "
     "The default hooks do nothing, every hook is reachable, an error raised in a hook reaches the caller, and hooks under their deprecated names are refused.",
     ["programs", "histories"], "all subclasses overriding hooks, all run histories",
     "Tests mock single hooks on single paths.",
     [HK, M, IT, SED, WAT, PP], [("hook calls", M), ("hook calls in the job runner", PP)])

prop("P08", "Existing output is never destroyed without permission",
     "An existing output file is removed or overwritten only if overwriting is enabled or the run resumes from a checkpoint. On resume the old "
     "file is only removed after its contents have been copied into the new file and that file has been closed. Multi-job setups refuse to reuse "
     "existing job folders unless resuming.",
     ["configurations", "crash_points"], "all configurations and all points of interruption during the copy",
     "Tests create a file once and check one outcome; the order of copy, close and removal is invisible without a crash.",
     [IN, PP], [("init_output_file", IN), ("load_checkpoint", IN), ("prepare_job_output", PP)])

prop("P09", "Resuming keeps all previously saved records",
     "When a run resumes, everything in the existing output file is carried into the new one: global attributes, dimensions, groups, variables with "
     "their types, attributes and data. If the file is missing, a warning is issued, a new file is created and records restart at index zero. Saved metadata are "
     "saved again after a resume; a resume that defers output leaves the file alone.",
     ["histories", "configurations"], "all output file contents and resume situations",
     "Tests look at a few variables after one resume.",
     [IN], [("load_checkpoint", IN)])

prop("P10", "Configuration values resolve by documented precedence and type",
     "For every parameter the model uses the keyword argument if given, else the input-file value, else the default. A value whose type is not among "
     "the declared types raises a type error and never reaches the model, while null is accepted where declared; custom subclass parameters follow "
     "the same rules and can never replace a built-in one. Every resolved value is set on the model, and keywords that name no parameter are reported.",
     ["configurations", "inputs"], "all parameters, input files, keyword arguments and subclass parameter tables",
     "Tests try a few parameters and a few wrong types.",
     [IN, DY, M], [("import_files", IN), ("process_input_to_model", IN)])

prop("P11", "Out-of-range parameters are rejected, valid ones stored unchanged",
     "Assigning a parameter outside its physical domain (positive lengths, widths, cell size not exceeding the domain, inlet width and parcel "
     "counts; intermittency in (0,1]; bedload fraction in [0,1]; non-negative inlet length, iteration count, active layer thickness, "
     "concentration and smoothing coefficient) raises a value error and leaves the old value. Every value in the domain, including its closed ends, is stored unchanged; "
     "an active layer thickness of null means half the inlet flow depth.",
     ["inputs"], "all numeric values of the guarded parameters",
     "Tests try one bad and one good value per parameter; the boundary and the combined conditions are not covered.",
     [M], [("parameter setters", M)])

prop("P12", "Save switches register exactly their own variables",
     "Turning a save switch on registers exactly the output variables (or figures) it stands for, each bound to its own model attribute, units and "
     "coordinates; turning it off removes exactly those. Every other registration is left alone, in every order of switching.",
     ["histories", "configurations"], "all sequences of switch settings",
     "Tests toggle one switch at a time from the initial state.",
     [M], [("save_*_grids / save_*_figs setters", M)])

prop("P13", "The output file layout matches the model grid",
     "The created output file has an unlimited time dimension and the two space dimensions of the grid, coordinate variables holding the cell "
     "coordinates, and all registered variables on the right dimensions with their units; static metadata are written once and time-varying ones get the time "
     "dimension. The file is created whenever grids or metadata are to be saved, metadata being saved with every set of grids. The legacy layout uses the legacy names for the same content.",
     ["configurations"], "all grids, variable sets and both layouts",
     "Tests open a few files with a default variable set.",
     [IN, M], [("init_output_file", IN)])

prop("P14", "Multi-job expansion yields exactly the requested jobs",
     "A matrix configuration produces one job per element of the Cartesian product of its lists, a set one job per entry, an "
     "ensemble of N gives every base job N times with N separately drawn seeds; each job file holds the base configuration "
     "overridden by its own values, and its own output folder. Conflicting or malformed expansions raise an error before "
     "anything runs.",
     ["configurations", "inputs"], "all matrix, set and ensemble specifications",
     "Tests expand a few small specifications.",
     [PP], [("expand_yaml_matrix / expand_yaml_set / expand_yaml_ensemble", PP)])

prop("P15", "Jobs run for the configured duration, arguments override the file",
     "A job ends at the model time at which it started plus the requested duration (number of timesteps times the timestep; seconds times "
     "intermittency; years times intermittency times the seconds in a year) and updates the model exactly while the time is below it. A job without a "
     "duration is an error. Run arguments (duration, intermittency, dry run) given as numbers on the command line or in the call take precedence over the same entry in the input file; in a dry run "
     "no job is run.",
     ["configurations", "inputs"], "all durations, timesteps, intermittencies and argument/file combinations",
     "Tests run a few durations and argument combinations.",
     [PP], [("_BaseJob.__init__", PP), ("run_jobs", PP)])

prop("P16", "A failing job is reported, finalized and does not stop the others",
     "If a simulation fails with a runtime or value error, the job catches it, reports it and still finalizes its model, and "
     "the remaining jobs run. A parallel job releases its slot exactly once on every path, at most the requested number run "
     "at once, and all jobs are waited for.",
     ["fault_sequences", "schedules"], "all points of failure in any job, all schedules",
     "Tests inject a failure at one place.",
     [PP], [("_SerialJob.run", PP), ("_ParallelJob.run", PP), ("run_jobs", PP)])

prop("P17", "Each job's random sequence depends only on its own seed",
     "However many jobs are configured and in whatever order they are built and run, every job starts its simulation from the random state its own seed "
     "(or its own checkpoint) produced.",
     ["histories", "configurations", "schedules"], "all job lists and both execution modes",
     "Tests never compare a job run in a list with the same job run alone.",
     [PP, SH], [("_BaseJob.__init__ keeps the random state", PP), ("run restores it", PP)])

prop("P18", "Each sediment parcel step conserves sediment volume",
     "In every step of every sand or mud parcel, the volume removed from the parcel equals the cell area times the bed elevation gained, in that "
     "one cell and no other; deposited volume is recorded as deposition of its own grain class at that cell. Each parcel starts "
     "with the full parcel volume.",
     ["inputs", "histories"], "all bed, flow and parcel states",
     "Tests check a few hand-made cells; conservation is a relation over all states.",
     [SED], [("BaseRouter / SandRouter / MudRouter", SED)])

prop("P19", "Deposition and erosion follow the transport law and stay bounded",
     "Mud deposits only below its deposition velocity and sand only above transport capacity; erosion happens only above the erosion velocity; "
     "each amount follows the documented power law, deposition never exceeds the parcel's remaining volume and neither changes the "
     "bed by more than a quarter of the local depth. Sediment flux is credited half to the cell left and half to the cell entered.",
     ["inputs"], "all velocities, depths and parcel volumes",
     "Tests evaluate the law at a few points.",
     [SED], [("_compute_Vp_ero / _limit_Vp_change / MudRouter._deposit_or_erode ...", SED)])

prop("P20", "Depth, water surface and bed stay consistent",
     "In every update the water surface, where it is below the sea level in force while routing, is raised to that level, the depth is then non-"
     "negative and equals water surface minus bed wherever that is positive, and the bed of the inlet cells is the water "
     "surface there minus the fixed inlet depth. The rise of sea level follows last. A new domain starts consistent.",
     ["inputs", "histories", "configurations"], "all states and configurations",
     "Tests check single cells after single steps.",
     [IT, WAT, SED, IN], [("finalize_timestep", IT), ("finalize_water_iteration / flooding_correction", WAT), ("create_domain", IN)])

prop("P21", "Velocity is bounded and consistent with discharge",
     "After every water iteration the discharge magnitude equals the norm of its components, flow speed is discharge over depth limited to the maximum speed where there is water "
     "and zero elsewhere, and velocity components have the direction of the discharge. Inlet cells carry exactly the imposed unit discharge.",
     ["inputs", "histories"], "all water surface, discharge and bed states",
     "Tests evaluate a few cells.",
     [WAT], [("update_velocity_field", WAT), ("update_flow_field", WAT)])

prop("P22", "Parcels are never routed onto land or dry cells by weight",
     "Water routing weights are zero toward land cells and toward cells shallower than the dry threshold, sediment routing "
     "weights are zero toward land and, whenever some choice is wet, toward cells not deeper than that threshold; the weights are never negative, "
     "depend on neighbour depth to the documented power and combine inertia and surface slope as documented (water; for "
     "partition coefficients between 0 and 1). When no weight is positive, water is sent with equal chance to the wet neighbours that are not "
     "land, without any of these to any of the nine cells that is not land (staying included); sediment is sent to the neighbours that are not "
     "land, by inverse distance. Routing of water gives up with an error only on invalid numbers or when all cells around are land.",
     ["inputs"], "all neighbourhoods of depth, surface and discharge",
     "Tests compute weights for a handful of cells.",
     [WAT, SED], [("_get_weight_at_cell_water", WAT), ("_get_weight_at_cell_sediment", SED)])

prop("P23", "Direction and distance tables agree on the neighbourhood",
     "All neighbour tables of the model (row steps, column steps, distances, unit vectors and flat offsets) describe the same nine neighbours in the same order, for every grid "
     "width; flat cell indices convert to row and column and back without change.",
     ["configurations", "inputs"], "all grid widths and cell indices",
     "Tests check one grid.",
     [IN, SH], [("set_constants / create_boundary_conditions", IN), ("custom_ravel / custom_unravel", SH)])

prop("P24", "Subsidence lowers only its area, only when enabled and started",
     "With subsidence enabled and the model time at or after the start time, each update lowers the bed by the subsidence "
     "rate times the timestep in the subsiding region (everything except the inlet channel rows) and nowhere else; otherwise "
     "the bed is not lowered.",
     ["configurations", "histories"], "all rates, start times and clock values",
     "Tests run two timesteps.",
     [IT, IN], [("apply_subsidence", IT), ("init_subsidence", IN)])

prop("P25", "Sea level rises linearly at the configured rate",
     "Each update raises sea level by exactly the rise rate times the timestep, after water and sediment have been routed "
     "and the timestep's fields finalized, and never at any other point.",
     ["configurations", "histories"], "all rates and histories",
     "Tests run a few steps.",
     [IT], [("finalize_timestep", IT)])

prop("P26", "Sand fraction stays a valid composition of what was deposited",
     "At the end of each sediment routing the sand fraction of surface and active layer changes only where the bed changed: "
     "where sediment was deposited it becomes deposited sand over deposited sand plus mud; where the bed was eroded within "
     "the active layer the surface takes the fraction of the active layer; where it was eroded below the active layer the surface "
     "takes the substrate fraction. Everywhere else, and the active layer wherever nothing was deposited, keep their values. "
     "Only the deposits of the current timestep count, and change is measured from the bed at its start.",
     ["inputs", "histories"], "all deposition patterns and layer thicknesses",
     "Tests check a few uniform cases.",
     [SED, IT], [("compute_sand_frac", IT)])

prop("P27", "Topographic diffusion acts on wet cells only",
     "Diffusion of the bed leaves land cells and the inlet row untouched, is applied the configured number of times per timestep, and each pass moves the bed by the "
     "documented flux-weighted Laplacian over the eight neighbours, with the diffusion coefficient that follows from the timestep, the "
     "number of passes, the configured smoothing and the cell size.",
     ["inputs", "configurations"], "all bed and sediment flux states",
     "Tests check a few cells.",
     [SED], [("topo_diffusion", SED)])

prop("P28", "Time conversions are exact and consistent",
     "Converting model time to scaled time, and reporting time in other units, uses one consistent set of factors: seconds, "
     "days of 86400 s, years of 365.25 days, and intermittency as a divisor in (0,1]; anything else raises an error. The "
     "public attribute aliases report the model values they name.",
     ["inputs"], "all times, intermittencies and units",
     "Tests convert a few values.",
     [SH, M], [("scale_model_time", SH)])

prop("P29", "Changing a parameter mid-run takes full effect",
     "Assigning the timestep between updates makes the sediment routers use it and rescales the subsidence per step; "
     "assigning flow velocity, channel width, flow depth or sediment concentration recomputes the boundary quantities "
     "(supply, parcel volumes, inlet values) and rebuilds the routers; assigning the bedload fraction rebuilds the sediment "
     "routers. Parcel volumes and supply therefore never mix old and new values.",
     ["histories", "configurations"], "all parameter changes at all points of a run",
     "Tests set a few parameters and look at the attribute itself.",
     [M, IN, SED], [("parameter setters", M), ("init_sediment_routers / create_boundary_conditions", IN)])

prop("P30", "Water parcels never leave the domain and loops are flagged",
     "Whatever the flow field, a water parcel moves one cell at a time until it reaches an edge cell or has taken the maximum number "
     "of steps (stepmax), and not longer, and sediment parcels stop at edge cells and never step out of the upstream side. A "
     "water parcel that returns to a cell it visited is moved five cells along the line from the inlet through it, but to a cell past the "
     "inlet rows and at least one cell inside the outer sides, and is flagged exactly when the surface there differs from sea "
     "level by 0.1 or more; other parcels stay unflagged. Every step of a water parcel is recorded, however long its path.",
     ["inputs"], "all flow fields and random sequences",
     "Tests route a few parcels.",
     [WAT], [("check_for_loops", WAT), ("run_water_iteration", WAT)])

prop("P31", "Inspection tools never modify the model",
     "Plotting and inspection helpers only read the model: no simulated state, parameter or random number is changed by calling them.",
     ["histories", "inputs"], "all calls of the helpers at all points",
     "Tests only look at the figures.",
     [DB], [("debug_tools", DB)])

prop("P32", "Water parcels deposit their discharge along the path they take",
     "Every step of a water parcel adds its unit direction to the direction field at the cell left and at the cell entered, "
     "and half its discharge per width to the discharge magnitude at each; parcels that do not move add nothing, and the last "
     "cell of a parcel that reaches the domain edge counts a second time there. The resulting components have the accumulated "
     "direction and the accumulated magnitude, and from the second timestep on are mixed with the previous field by the weight "
     "configured for the iteration.",
     ["inputs", "histories"], "all parcel paths",
     "Tests check a few paths.",
     [WAT], [("_accumulate_Qs / update_Q", WAT), ("finalize_free_surface", WAT), ("update_flow_field", WAT)])

prop("P33", "Free-surface update uses only valid parcel paths and is bounded below",
     "Only unflagged parcels whose recorded path ends in an edge cell contribute to the new water surface: walking back from "
     "sea level at the last cell, the surface stays level until the shoreline is passed and then rises by the slope along the "
     "flow. The new surface of a cell is the mean over all such visits (the previous surface if there are none), never below "
     "sea level or the bed; smoothing leaves edge cells alone and uses no value of land cells, and from the second timestep on "
     "the result is mixed with the previous surface by the configured weight.",
     ["inputs", "histories"], "all parcel paths and surfaces",
     "Tests check small hand-made paths.",
     [WAT], [("_accumulate_free_surface_walks", WAT), ("finalize_free_surface / _smooth_free_surface", WAT)])

prop("P34", "Parcels together carry exactly the supplied water and sediment",
     "For every configuration the water parcels together carry the inlet discharge, the sediment parcels together carry the "
     "sediment supplied in one timestep, and supply, velocity, depth, width and concentration are related as documented. The "
     "numbers of sand and mud parcels are the bedload share and the remaining share of the configured count, each rounded "
     "down, and every parcel starts in an inlet cell drawn with the inlet weights, which are equal unless overridden.",
     ["configurations"], "all parameter values",
     "Tests check one configuration.",
     [IN, SED], [("create_boundary_conditions", IN), ("route_all_sand_parcels", SED)])

prop("P35", "The initial domain has the documented layout",
     "A new domain has the channel inlet centred on the upstream edge with its configured width and length, land beside it, "
     "edge cells along the circular outer boundary, a basin of the configured depth under a level surface at elevation zero, the surface "
     "sloping down over the inlet rows, and an initial discharge that is the full unit discharge in the channel, one fifth "
     "of it in the basin and none on land.",
     ["configurations"], "all domain sizes and inlet dimensions",
     "Tests check a few grids.",
     [IN], [("create_domain", IN)])

prop("P36", "Flooding correction only raises dry cells to neighbouring water",
     "The flooding correction changes the water surface only of dry cells (water depth not above the dry threshold) whose bed lies "
     "below the water surface of one of the eight neighbours that is wet, and raises it to the highest surface among the wet "
     "neighbours; all other cells keep their values, and the result does not depend on the order in which cells are visited.",
     ["inputs"], "all bed and surface states",
     "Tests check a few cells.",
     [WAT], [("flooding_correction", WAT)])

prop("P37", "Numbers in input files are read as numbers",
     "Every decimal or scientific-notation spelling of a number in an input file (1e-5, 2E3, 1.5e+4, 3., .5, with or without a sign "
     "in front of the integer part) is read as a floating-point number, whichever of the model and the preprocessor reads the file, "
     "and nothing that is not a number is read as one. The preprocessor writes job files with the printed form of each value "
     "(null for none), so a job reads back the values that were configured.",
     ["inputs"], "all strings",
     "A spelling the loader does not know is silently a string; tests hold a few spellings.",
     [SH, IN, PP], [("custom_yaml_loader", SH), ("import_files", IN), ("_open_yaml", PP), ("_write_yaml_config_to_file", PP)])

prop("P38", "The job table tells which job has which values",
     "Every multi-job expansion writes a table into the common output folder with one row per job, in the order of the jobs: the "
     "name of the job folder, then under the heading of each varied parameter (including ensemble seeds) exactly the value that the "
     "configuration of that job holds, whatever the order in which set entries list their keys.",
     ["configurations", "inputs"], "all set, matrix and ensemble specifications",
     "The test checks only the heading of one table.",
     [PP], [("_expand_set / _expand_matrix", PP)])

prop("P39", "A job records what a directly run model records",
     "A model run as a serial or a parallel job writes the same output as the same model built and updated directly: before its first update "
     "a new run has initialised its output file once, saved the initial state into it and written the initial checkpoint; a resumed run has "
     "loaded its checkpoint and reopened its output file, and starts no new one. A parallel job opens its output only in its own process.",
     ["configurations", "histories"], "all job configurations, serial and parallel, new and resumed",
     "Tests run a few jobs and look at log files.",
     [PP, M], [("_ParallelJob.run / _SerialJob.run", PP), ("DeltaModel.__init__", M)])

prop("P40", "Array hooks act as documented",
     "The arrays through which users steer a model (mod_water_weight, mod_sed_weight, mod_erosion) are neutral (one everywhere) after "
     "construction and are never changed by the model. Whatever values a user writes into them take effect from the next update on: the water "
     "and sediment routing weights of a neighbour are multiplied by its entry of the first two, and the volume eroded in a cell by its entry "
     "of the third, for sand and for mud alike.",
     ["inputs", "histories"], "all values of the arrays and all times at which they are changed",
     "Tests set one array once in one small model.",
     [IN, WAT, SED, SH], [("create_domain", IN), ("_get_water_weight_array", WAT), ("get_weight_sfc_int", SH), ("BaseRouter / SandRouter / MudRouter", SED)])


prop("P41", "Every record comes with its figures",
     "Each time data are saved, one figure is made of every registered figure variable and of nothing else, showing the live model attribute it is "
     "registered for at the cell coordinates with the present model time in its title. It is saved in the output folder under the registered "
     "name, followed by the record number in five digits when figures are kept sequentially and by 'latest' when not, and then closed. "
     "A registered attribute that is not an array of the shape of the grid is refused with an error.",
     ["histories", "configurations"], "all save events, switch settings and registered figures",
     "Tests look for a few file names after short runs.",
     [IT, M], [("save_grids_and_figs / make_figure / save_figure", IT)])

prop("Q01", "The modelled physics matches real deltas",
     "Morphology, channel dynamics and stratigraphy produced by the model agree with the reference DeltaRCM formulation within its published tolerance.",
     ["inputs"], "all configurations", "Needs quantitative comparison with reference data.",
     [M], [("all", M)],
     na="A quantitative, statistical property of simulated fields; no static argument bounds it.")
prop("Q02", "Repeated smoothing and diffusion stay numerically stable",
     "For every admissible configuration the simulated fields stay finite and bounded over arbitrarily long runs.",
     ["histories"], "all run lengths", "Unbounded horizon of floating-point arithmetic.",
     [WAT, SED], [("smoothing, diffusion", WAT)],
     na="Depends on accumulated floating-point values over unbounded runs; no sound static bound is in reach.")
prop("Q03", "Random choices follow the routing weights statistically",
     "Over many draws each neighbour is chosen with frequency proportional to its weight.",
     ["inputs"], "all weight vectors", "A statistical property.",
     [SH], [("random_pick", SH)],
     na="A distributional property of the generator's output; the structural part (cumulative search over the weights) is not enough to decide it.")
prop("Q04", "Global water and sediment budgets close",
     "Over a whole update, supplied sediment equals deposited plus exported sediment.",
     ["histories"], "all updates", "Depends on parcel paths.",
     [SED, WAT], [("route_all_sand_parcels", SED)],
     na="What leaves with a parcel depends on its random path and the step limit; statically only the per-step balance (P18) and the supply relations (P34) are decidable.")
prop("Q05", "A job of N timesteps performs exactly N updates",
     "A job configured for N timesteps performs exactly N updates for every timestep length.",
     ["configurations"], "all timestep lengths and N", "Depends on rounding of accumulated time.",
     [PP], [("_SerialJob.run", PP)],
     na="The number of iterations depends on rounding of repeated floating-point additions of the timestep; the exact-arithmetic part is in P15.")
prop("Q06", "Saved files survive a crash of the machine",
     "After a power loss every record reported as saved is readable.",
     ["crash_points"], "all crash points", "Outside the Python code.",
     [IT], [("sync", IT)],
     na="Durability is decided by the netCDF/HDF5 libraries, numpy and the operating system, whose source is not in this repository.")
prop("Q07", "Results are bit-identical across platforms",
     "The same seed gives bit-identical fields on every platform and library version.",
     ["configurations"], "all platforms", "Needs other platforms.",
     [SH], [("numba", SH)],
     na="Depends on compilers, maths libraries and generator versions outside the source.")
