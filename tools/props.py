"""The properties (source of properties.jsonl and MANIFEST.json)."""
PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, level_note, state=(), observe=(), na=None):
    PROPS.append({'id': id, 'title': title, 'statement': statement,
                  'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                  'anchors': {'files': files,
                              'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                              'mechanism': [{'name': a, 'where': b} for a, b in mechanism],
                              'observe_at': list(observe), 'hook_needed': None},
                  'level_note': level_note, 'na': na})


P('C01', 'Simulation clock: step times, counters and termination of the time loop',
  'In a 2D or 3D run that starts at time t0 (fresh or continued by load_state), the k-th step is given the time '
  't0+(k-1)*dt and afterwards simulation_time is t0+k*dt and the iteration counter has grown by k. '
  'The run takes exactly the steps needed to reach the end time (within 1e-5 s), which is simulation_end_time or, '
  'if initial and end dates are set, the end date measured from the initial date. '
  'A continued run takes time, iteration and initial date from the stored state unless they are overridden, and '
  'create_iterator yields the start time of each step.',
  ['configurations', 'histories'],
  'every time step, export interval, end time or end date, restart point and override, 2D and 3D',
  'The stable tests never run a 2D time loop with a clock check, never restart, never use dates; a test samples one dt.',
  ['thetis/solver2d.py', 'thetis/solver.py'],
  [('FlowSolver2d.create_iterator / iterate', 'thetis/solver2d.py'), ('FlowSolver.iterate', 'thetis/solver.py'),
   ('load_state', 'thetis/solver2d.py, thetis/solver.py'), ('set_time_step', 'thetis/solver.py')],
  'RunLoop.tla is model-checked for bounded configurations; seeded random configurations of both solvers are executed '
  'with a counting time stepper and every trace is validated. Trusted: TLC, the driver, exact rational override.',
  state=[('simulation_time', 'current time', 'solver objects'), ('iteration', 'step counter', 'solver objects')],
  observe=['solver.simulation_time, solver.iteration at callbacks, export_func, steps', 'arguments of timestepper.advance'])

P('C02', 'Export schedule, file numbering and contents of exported HDF5 files',
  'A run exports its initial state exactly if it is fresh or continued from another output directory, and afterwards '
  'at the first step that reaches each multiple of the export interval, counted from the start of the run. '
  'Each export writes one file per requested HDF5 and VTK field under the next consecutive index, continues the stored '
  'numbering after a restart, increments the export counter, and ends with one call of export_func. '
  'Every HDF5 file holds the state, the simulation time and the initial date that were current at its export.',
  ['configurations', 'histories'],
  'every dt/export interval (dividing or not), field selection, restart index and directory, with and without dates',
  'The stable tests write no exports; numbering after a restart and non-dividing intervals need whole histories.',
  ['thetis/solver2d.py', 'thetis/solver.py', 'thetis/exporter.py'],
  [('export', 'thetis/solver2d.py, thetis/solver.py'), ('ExportManager, HDF5Exporter, VTKExporter', 'thetis/exporter.py'),
   ('load_state', 'thetis/solver2d.py')],
  'As C01; the directory contents are observed at every callback, step and export, HDF5 files are read back.',
  state=[('i_export', 'export counter', 'solver objects'), ('next_export_ix', 'next file index', 'exporters')],
  observe=['output directory', 'export_func', 'HDF5 attributes time and initial_time_iso'])

P('C03', 'Callback schedule: when diagnostics are evaluated and what they see',
  'A callback registered for time steps is evaluated exactly once after every step, one registered for exports exactly '
  'once per export (including the initial one), if and only if the simulation time lies within its inclusive start/end '
  'window. It sees the clock and the fields of the completed step, and export callbacks run before the files of that '
  'export are written and before export_func.',
  ['configurations', 'histories'],
  'every set of callbacks with arbitrary modes and windows (including limits equal to 0), over fresh and continued runs',
  'The stable tests never evaluate a solver callback.',
  ['thetis/callback.py', 'thetis/solver2d.py', 'thetis/solver.py'],
  [('CallbackManager.evaluate', 'thetis/callback.py'), ('DiagnosticCallback.evaluate', 'thetis/callback.py')],
  'As C01.', observe=['DiagnosticCallback.__call__'])

P('C07', 'Runge-Kutta and IMEX integrators compute the step of their tableau',
  'One advance(t) of a Runge-Kutta or IMEX integrator changes the solution from its current value to the result of the '
  'scheme\'s documented Butcher tableau (or tableau pair) with the current time step. This holds in every formulation '
  '(Butcher, Shu-Osher, tendency or U form, mixed or scalar spaces), semi-implicit or fully nonlinear, after any '
  'sequence of steps and set_dt calls. update_forcings is called exactly at t+c_i*dt before stage i is evaluated. '
  'The tableaux are consistent and have their documented order, and their Shu-Osher form is equivalent to them.',
  ['configurations', 'histories'],
  'every scheme class x step sizes x coefficients x time-dependent forcings x sequences of steps and changes of dt; '
  'the solution may be modified between steps (except for the explicit Butcher and IMEX forms, which keep a copy)',
  'The stable tests contain no time integrator test; convergence tests would only see the order, for one problem form.',
  ['thetis/rungekutta.py', 'thetis/implicitexplicit.py', 'thetis/equation.py'],
  [('AbstractRKScheme, butcher_to_shuosher_form, DIRKGeneric, DIRKGenericUForm, ERKGeneric, ERKGenericShuOsher',
    'thetis/rungekutta.py'), ('IMEXGeneric', 'thetis/implicitexplicit.py'),
   ('Equation.residual, select_terms', 'thetis/equation.py')],
  'TimeInt.tla computes the step exactly in rational arithmetic; TLC checks order and stationarity invariants of the '
  'specification, and every traced step of the real classes is compared with it (relative tolerance 1e-8).',
  observe=['solution after advance', 'calls of update_forcings', 'attributes a, b, c, alpha, beta'])

P('C08', 'Theta, Picard, steady-state, leapfrog and ALE integrators follow their scheme',
  'ForwardEuler, CrankNicolson (any theta, semi-implicit or nonlinear, including Picard iterations that do or do not '
  'update the lagged solution and fields), SteadyState, LeapFrogAM3 and SSPRK22ALE advance the solution according to '
  'their documented formulas: old fields are those at the end of the previous step, update_forcings is called at the '
  'documented stage times, and in the ALE schemes each mass and residual is evaluated on the mesh of its own stage, so '
  'that without tendencies mass*solution is conserved for any motion of the mesh between stages.',
  ['configurations', 'histories'],
  'every scheme x theta x linearisation x forcing (Function or Constant field) x sequences of steps, Picard calls, '
  'changes of dt, external modifications of the solution and mesh motions between stages',
  'No stable test covers these integrators; lagging mistakes appear only in multi-step histories with varying fields.',
  ['thetis/timeintegrator.py', 'thetis/equation.py'],
  [('ForwardEuler, CrankNicolson, SteadyState, LeapFrogAM3, SSPRK22ALE, create_fields_old, update_fields_old',
    'thetis/timeintegrator.py')],
  'As C07.', observe=['solution after advance, advance_picard, predict, eval_rhs, correct, prepare_stage, solve_stage'])

P('C15', 'netCDF time series: stamps, search across files and linear interpolation',
  'For a set of netCDF files with time stamps in any CF unit, calendar, order of files and time zone, search by '
  'simulation time returns the file, index and simulation time of the next or previous stamp (an error outside the '
  'covered span). LinearTimeInterpolator returns for every variable the exact linear interpolant between the enclosing '
  'stamps, multiplied by the scalar of its own variable where scalars are given, for every sequence of queries: '
  'the result depends on the query time only, not on earlier queries. Daily file trees are searched by their nominal '
  'center time, and conversion between simulation time and date respects time zones.',
  ['inputs', 'histories'],
  'every set of files, stamps, units, zones, array shapes and positions of the time dimension, and every query sequence',
  'The stable tests use one regular data set with one forward sweep; the cache depends on the query history.',
  ['thetis/interpolation.py', 'thetis/timezone.py'],
  [('NetCDFTimeParser, NetCDFTimeSearch, DailyFileTimeSearch', 'thetis/interpolation.py'),
   ('LinearTimeInterpolator, NetCDFTimeSeriesInterpolator', 'thetis/interpolation.py')],
  'TimeSeries.tla is model-checked on small stamp lattices (search is consistent, cache is sound); random data sets are '
  'written to netCDF files, read by the real classes and every answer is compared exactly.')

P('C16', 'Interpolation of structured data onto mesh nodes',
  'GridInterpolator returns at every target point within the source grid (boundary included) the piecewise linear '
  'interpolant of the source data, for any order of source points, and outside the fill value or, with '
  'fill_mode="nearest", the value of the nearest source point; one object serves any number of data arrays. '
  'NetCDFLatLonInterpolator2d does the same for the nodes of a mesh from netCDF files with 1D or 2D coordinates in '
  'either direction, for the requested variables, time indices and files, in the requested order. '
  'get_ncvar_name finds the variable by standard name, long name or name, regardless of case.',
  ['inputs'],
  'every rectangular source grid, target set, mesh, coordinate layout, variable and time selection, fill mode',
  'The stable tests interpolate one smooth field on one grid with inner targets and compare with a loose tolerance.',
  ['thetis/interpolation.py'],
  [('GridInterpolator', 'thetis/interpolation.py'), ('_get_subset_nodes, SpatialInterpolator2d', 'thetis/interpolation.py'),
   ('NetCDFLatLonInterpolator2d', 'thetis/interpolation.py'), ('get_ncvar_name', 'thetis/interpolation.py')],
  'GridInterp.tla (the rule is model-checked for exactness on affine data, bounds, nodes); outputs of the real classes '
  'for random grids, data and meshes are validated in exact rational arithmetic.')

P('C09', 'Coupled 2D step: which components are solved, in which order, on which state',
  'One time step of a 2D run solves each selected component exactly once, with the integrator type selected for it and the '
  'model time step: first the shallow water equations (not at all in tracer-only runs), then each tracer system in the order '
  'added (tracer_picard_iterations times, lagged terms updated in the first and old fields in the last iteration), then the '
  'sediment model is updated, suspended sediment is solved, then the Exner equation. Each component starts from the current '
  'fields, start time of the step and user forcings; after each solve of a tracer or sediment field the limiter is applied '
  'to that field exactly if requested (and degree > 0). Non-hydrostatic runs solve pressure after every shallow water stage, '
  'vertical velocity in the last one, and correct the surface from the old elevation only if update_free_surface is set.',
  ['configurations', 'histories'],
  'every combination of tracers, mixed tracer systems, sediment, Exner, non-hydrostatic pressure, limiter and integrator types',
  'The stable tests take no coupled time step.',
  ['thetis/coupled_timeintegrator_2d.py', 'thetis/solver2d.py'],
  [('GeneralCoupledTimeIntegrator2D', 'thetis/coupled_timeintegrator_2d.py'),
   ('NonHydrostaticTimeIntegrator2D', 'thetis/coupled_timeintegrator_2d.py'),
   ('create_timestepper, create_equations, assign_initial_conditions', 'thetis/solver2d.py')],
  'Coupled2D.tla is model-checked (all orders allowed by the specification give the same step); FlowSolver2d is run with '
  'stand-in component solvers that add known amounts, so that what each component saw is decided exactly.',
  state=[('fields', 'prognostic fields', 'solver.fields')], observe=['arguments and field values at every component solve'])

P('C11', 'Slope limiter: means preserved, local bounds, no more limiting than needed',
  'VertexBasedP1DGLimiter.apply preserves the mean of every cell (exact volume mean, also on deformed quadrilaterals and '
  'on prisms with non-uniform layers, after the mesh has moved), and scales the deviation from the mean by the largest '
  'factor in [0,1] for which every node lies between the smallest and largest mean of the cells around its vertex and of '
  'the boundary facets at it. Constants are unchanged; the components of vector fields are limited independently.',
  ['inputs', 'configurations'],
  'every nodal field on triangle, quadrilateral and prism meshes, scalar or vector, on fixed or moving meshes',
  'The stable tests check one conservation integral and one overshoot bound for a smooth field per mesh type.',
  ['thetis/limiter.py'],
  [('VertexBasedP1DGLimiter.compute_bounds, apply, _update_centroids', 'thetis/limiter.py')],
  'SlopeLimiter.tla defines the limited field in exact arithmetic; TLC checks mean preservation, bounds and constants for '
  'all small nodal value combinations; fields limited by the real class on small meshes are compared cell by cell.')

P('C06', 'Diagnostics: correct values and append-only HDF5 time series',
  'Each diagnostic callback returns the quantity it stands for: volume, tracer mass (depth weighted in 2D, on the moved '
  'mesh in 3D) and its change relative to the first evaluation, tracer extrema with under- and overshoot relative to the '
  'first evaluation, field values at detector, station, profile and transect points in the order requested, trapezium '
  'rule time integrals. Its HDF5 file gets one entry (time, values under the declared variable names, detector '
  'coordinates and dates as attributes) per evaluation inside the window: appended, or replacing the entry with the given index if '
  'there is one. Older entries and other files never change; a callback in append mode keeps an existing series '
  'and otherwise creates the file, one in create mode starts an empty series at its first evaluation.',
  ['inputs', 'histories'],
  'every sequence of evaluations, field changes, restarts and indices; any locations, fields, windows, precisions',
  'The stable tests evaluate no callback. File contents depend on the whole history of evaluations and restarts.',
  ['thetis/callback.py', 'thetis/utility.py'],
  [('DiagnosticHDF5', 'thetis/callback.py'), ('DiagnosticCallback and subclasses', 'thetis/callback.py'),
   ('comp_volume_2d, comp_tracer_mass_2d, comp_tracer_mass_3d, vom_interpolator_functions', 'thetis/utility.py')],
  'Diagnostics.tla: TLC checks the series discipline for all short histories of two writers; real callbacks are executed on '
  'affine fields, whose diagnostics the specification computes exactly, and all files are read back after every evaluation.')

P('C12', 'Water volume and tracer mass budgets of the 2D model are closed',
  'In a closed basin the volume of water changes in every time step exactly by the volume source, weighted in time as the '
  'scheme prescribes; the mass of a tracer in conservative form (and in divergence-free flow also in non-conservative '
  'form) changes exactly by its source. Transport, diffusion (interior penalty), Lax-Friedrichs fluxes, slope limiting, '
  'viscosity, friction, rotation, wind, pressure and the coupling of flow and tracers only redistribute. The only '
  'exchange with the outside is what the model declares as a source (and, for the conservative form, the flux that the '
  'normal component of the discrete velocity carries through a wall).',
  ['inputs', 'configurations'],
  'every state, mesh, bathymetry, forcing; element families, degrees, integrators, linear and nonlinear, tracer forms',
  'The stable tests check volume and tracer mass for three smooth set-ups after a whole run, within loose tolerances.',
  ['thetis/shallowwater_eq.py', 'thetis/tracer_eq_2d.py', 'thetis/conservative_tracer_eq_2d.py', 'thetis/timeintegrator.py'],
  [('HUDivTerm, ContinuitySourceTerm', 'thetis/shallowwater_eq.py'),
   ('HorizontalAdvectionTerm, HorizontalDiffusionTerm, SourceTerm', 'thetis/tracer_eq_2d.py'),
   ('ConservativeHorizontalAdvectionTerm', 'thetis/conservative_tracer_eq_2d.py')],
  'Ledger.tla: TLC checks that correct books close over several steps and corrupted ones are rejected; the ledger of real '
  'runs with rough (random nodal) states on distorted meshes is validated step by step.')

P('C13', 'Rest and constancy: still water and uniform tracers stay as they are',
  'Water at rest with a level surface (or one in balance with the atmospheric pressure) over any bathymetry stays at rest, '
  'whatever integrator, element family, friction, rotation and linearity are selected, with and without land. A '
  'tracer without source stays uniform in every flow (non-conservative form), and keeps its values in water at rest; '
  'these hold through wetting and drying, limiting and any number of time steps.',
  ['inputs', 'configurations'],
  'every bathymetry, surface pressure, velocity field, mesh, tracer field, integrator, element family and degree',
  'The stable tests have no still water case; tracer constancy is tested in one smooth flow.',
  ['thetis/shallowwater_eq.py', 'thetis/tracer_eq_2d.py', 'thetis/coupled_timeintegrator_2d.py'],
  [('ExternalPressureGradientTerm, HUDivTerm, AtmosphericPressureTerm', 'thetis/shallowwater_eq.py'),
   ('HorizontalAdvectionTerm, HorizontalDiffusionTerm', 'thetis/tracer_eq_2d.py')],
  'Ledger.tla (clauses rest, uniform tracer, tracer at rest), validated on real runs with random states.')

P('C14', 'Wetting and drying: positive depth, closed budgets, still water',
  'With wetting and drying the total depth is h + eta + f with f = (sqrt((h + eta)^2 + alpha^2) - (h + eta))/2, positive in every '
  'state, including dry land above the surface; the '
  'volume of water (integral of elevation and bed displacement) and the mass of conservative tracers change only by '
  'sources while areas flood and dry; uniform tracers stay uniform; water at rest stays at rest.',
  ['inputs', 'configurations'],
  'every bathymetry with land and water, wetting-and-drying parameter, state, implicit integrator and element family',
  'The stable tests do not run wetting and drying.',
  ['thetis/utility.py', 'thetis/shallowwater_eq.py', 'thetis/conservative_tracer_eq_2d.py'],
  [('DepthExpression.wd_bathymetry_displacement, get_total_depth', 'thetis/utility.py'),
   ('BaseShallowWaterEquation.mass_term', 'thetis/shallowwater_eq.py')],
  'Ledger.tla (books including the displacement volume) on real runs with flooding and drying; UniformFlow.tla model-checks '
  'positivity and monotonicity of the depth.')

P('C17', 'Momentum forcing, friction, volume and tracer sources have the documented effect',
  'In horizontally uniform flow a time step equals that of the documented ordinary differential equations: Coriolis '
  'acceleration, linear drag, quadratic, Manning and Nikuradse friction (with norm_smoother), turbine drag, wind stress over '
  'the depth, atmospheric pressure gradient, momentum, volume and tracer sources, in the nonlinear and the linear model, '
  'with semi-implicit linearisation where selected. A time-dependent forcing acts in each stage with its value at the time '
  'of that stage (old and new level for theta schemes), whether it is a number, Constant, Function or UFL expression.',
  ['inputs', 'configurations', 'histories'],
  'every combination of forcings, their kinds and time dependence, friction law, integrator, linearity, element family',
  'The stable tests cover viscosity, one channel and manufactured solutions with fixed forcing to discretisation error.',
  ['thetis/shallowwater_eq.py', 'thetis/tracer_eq_2d.py', 'thetis/timeintegrator.py', 'thetis/rungekutta.py'],
  [('CoriolisTerm, WindStressTerm, AtmosphericPressureTerm, QuadraticDragTerm, LinearDragTerm, TurbineDragTerm, '
    'MomentumSourceTerm, ContinuitySourceTerm', 'thetis/shallowwater_eq.py'),
   ('TimeIntegrator.create_fields_old', 'thetis/timeintegrator.py'),
   ('FlowSolver2d.create_equations, create_timestepper', 'thetis/solver2d.py')],
  'UniformFlow.tla: TLC checks that exact solutions of the schemes are accepted, disturbed ones rejected, friction '
  'dissipates; steps of the real solver on a periodic mesh are compared with the step computed by the specification.')

P('C20', 'Spatial operators are exact for affine fields in every element family',
  'For affine elevation, velocity, bathymetry and tracer fields (and boundary data that agree with them) a step of the 2D equations '
  'changes the state by exactly the weak form of the documented equations: pressure gradient, divergence of the depth-integrated '
  'velocity, advection, the two viscosity forms with the depth gradient term, tracer advection and diffusion in conservative and '
  'non-conservative form. This holds for all element families and degrees and for every kind of boundary condition, whose data '
  'mean what the documentation says (elev, uv, un as outward normal velocity, flux as outward volume flux, value, diff_flux).',
  ['inputs', 'configurations'],
  'every affine state, viscosity form, element family, linear or nonlinear, kind of boundary condition, mesh of triangles or quadrilaterals',
  'The stable tests exercise a few smooth cases with convergence-rate tolerances; wrong factors at boundaries stay below them.',
  ['thetis/shallowwater_eq.py', 'thetis/tracer_eq_2d.py', 'thetis/conservative_tracer_eq_2d.py'],
  [('ExternalPressureGradientTerm, HUDivTerm, HorizontalAdvectionTerm, HorizontalViscosityTerm', 'thetis/shallowwater_eq.py'),
   ('ShallowWaterTerm.get_bnd_functions', 'thetis/shallowwater_eq.py'),
   ('HorizontalAdvectionTerm, HorizontalDiffusionTerm', 'thetis/tracer_eq_2d.py, thetis/conservative_tracer_eq_2d.py')],
  'Affine.tla derives the exact change from the equations with rational polynomials; TLC checks its internal identities and that '
  'disturbed results are rejected; real ForwardEuler steps on irregular data are validated.')

P('C21', 'Discontinuous states: numerical fluxes, interior penalty, walls and drag',
  'For discontinuous states of degree 0 and 1 every degree of freedom of a step of the 2D equations equals the documented scheme: '
  'Riemann (elevation and normal velocity) fluxes, upwinding and Lax-Friedrichs dissipation with the configured factor, symmetric '
  'interior penalty viscosity and diffusion with the automatic penalty, impermeable walls, boundary drag, and the '
  'semi-implicit linearisation of Crank-Nicolson.',
  ['inputs', 'configurations'],
  'every discontinuous state, bathymetry, viscosity form, factor, time discretization, mesh of triangles or quadrilaterals',
  'Unit tests see smooth solutions, in which jumps (and so numerical fluxes) vanish with resolution.',
  ['thetis/shallowwater_eq.py', 'thetis/tracer_eq_2d.py', 'thetis/conservative_tracer_eq_2d.py', 'thetis/utility.py'],
  [('interior facet integrals of all terms', 'thetis/shallowwater_eq.py, thetis/tracer_eq_2d.py'),
   ('BoundaryDragTerm', 'thetis/shallowwater_eq.py'), ('sipg parameters', 'thetis/solver2d.py')],
  'Fluxes.tla computes the complete DG step; TLC checks conservation, rest, consistency with Affine.tla and detection of '
  'disturbances; real steps are validated per degree of freedom.')

P('C22', 'Open boundaries: external state, fluxes and diffusive boundary terms',
  'On open boundaries with discontinuous states the numerical flux is that between the interior state and the external state given '
  'by the boundary data: elev, uv, un, flux and their combinations for the flow (the missing component taken from the '
  'interior; flux divided by the depth and length of the open boundary), value and flow data for tracers with upwinding, diff_flux '
  'for diffusion, and penalised viscosity towards prescribed velocities.',
  ['inputs', 'configurations'],
  'every discontinuous state and boundary data, every supported combination of keys, degrees 0 and 1, explicit and implicit schemes',
  'Boundary terms are exercised by two channel tests with one combination each.',
  ['thetis/shallowwater_eq.py', 'thetis/tracer_eq_2d.py', 'thetis/conservative_tracer_eq_2d.py'],
  [('ShallowWaterTerm.get_bnd_functions', 'thetis/shallowwater_eq.py'),
   ('TracerTerm.get_bnd_functions', 'thetis/tracer_eq_2d.py'), ('corr_factor', 'thetis/tracer_eq_2d.py')],
  'Fluxes.tla (open boundary part), validated per degree of freedom next to the boundary.')

P('C24', 'Sediment: closures, erosion and deposition, order of the coupled update',
  'For every depth, velocity, bed slope and grain the sediment model yields the published closures: settling velocity, critical '
  'shear and bed stress, erosion and deposition, equilibrium concentration, velocity correction factor, bedload with slope and '
  'secondary current corrections; grains too fine for them are refused. In a step, after the flow, the closures are updated, then the '
  'suspended sediment is advanced with source E and sink C T (divided by the depth unless conservative) in the selected scheme, then the bathymetry with '
  'db/dt = morfac/(1-porosity) (E - C T); the equilibrium concentration is a steady state, also with equilibrium boundaries.',
  ['inputs', 'configurations', 'histories'],
  'every grain, fluid and flow parameter, option combination, time integrator of sediment and Exner equation, with and without flow solver',
  'The sediment tests of the repository compare a few benchmark runs with stored values; the stable tests contain none.',
  ['thetis/sediment_model.py', 'thetis/sediment_eq_2d.py', 'thetis/exner_eq.py', 'thetis/coupled_timeintegrator_2d.py', 'thetis/solver2d.py'],
  [('SedimentModel', 'thetis/sediment_model.py'), ('SedimentErosionTerm, SedimentDepositionTerm', 'thetis/sediment_eq_2d.py'),
   ('ExnerSourceTerm', 'thetis/exner_eq.py'), ('CoupledTimeIntegrator2D.advance', 'thetis/coupled_timeintegrator_2d.py')],
  'Sediment.tla (closures in exact and high-precision arithmetic, time steps per scheme) is model-checked (steady state, threshold, '
  'symmetry, balance); closures and runs of FlowSolver2d in uniform flow are validated against it.')

P('C30', 'Sediment mass: suspended plus bed mass, bedload through boundaries, sliding',
  'In a closed basin the suspended mass plus the bed mass (times (1-porosity)/morfac) is constant up to the exchange with lagged depth; bedload '
  'alone redistributes bed mass, nothing passes closed boundaries (no condition, drag only, zero normal velocity, velocity or flux), and '
  'through open boundaries the bed exchanges exactly the bedload flux of the flow; porosity may vary in space. '
  'At rest the bed does not change. Sliding conserves bed mass, acts only where the slope exceeds the limit and moves material downhill.',
  ['inputs', 'configurations', 'histories'],
  'every bed, flow, boundary kind, porosity field and option combination of the sediment module',
  'No test checks the mass of bed plus suspended sediment or which boundaries are closed for bedload.',
  ['thetis/exner_eq.py', 'thetis/sediment_eq_2d.py', 'thetis/sediment_model.py'],
  [('ExnerBedloadTerm, ExnerSedimentSlideTerm', 'thetis/exner_eq.py'), ('SedimentModel.get_bedload_term', 'thetis/sediment_model.py')],
  'Sediment.tla (moments of the bed change, budget and slide clauses), validated against random closed and open basins. One known finding.')

P('C18', 'Options: defaults, admissible values, paired options, isolation of objects',
  'A new options object has the documented default of every option. Setting an option to an admissible value changes that option only; '
  'an inadmissible value or an unknown option is refused with an error and changes nothing. Changing a paired type (time stepper, '
  'turbulence model, equation of state, turbine) installs the default options of that type; setting it to its current value keeps them. No '
  'operation on one options object, including changes in place of constants, lists, dictionaries and nested options, affects another object or '
  'the defaults of new ones. update() does not depend on the order of entries; set_timestepper_type sets all active components; tracers '
  'and tracer systems are registered in order with their metadata; apply_defaults sets the parameters of the named closure.',
  ['inputs', 'histories'],
  'every sequence of operations on any number of options objects of every class, with values of right and wrong types',
  'Tests set options of single objects once; leaks between objects and order dependence need sequences of operations.',
  ['thetis/options.py', 'thetis/configuration.py'],
  [('FrozenHasTraits, FrozenConfigurable, OptionsBase.update', 'thetis/configuration.py'), ('attach_paired_options', 'thetis/configuration.py'),
   ('ModelOptions2d.set_timestepper_type, add_tracer_2d, add_tracer_system_2d', 'thetis/options.py'), ('GLSModelOptions.apply_defaults', 'thetis/options.py')],
  'Options.tla and OptionsTable.tla: objects as trees of options; model-checked over all short sequences of operations on two objects; random '
  'long sequences on objects of all classes are executed and every changed object is compared after each operation.')

P('C10', '3D column: mode splitting, vertical mixing, drag, wind, rotation, sources',
  'In a horizontally uniform water column the 3D model takes exactly the step of the documented schemes: the depth average is advanced by the '
  'implicit 2D scheme and the deviation by SSPRK22 or leap-frog AM3; the depth average of 3D forces is handed over to the 2D mode; vertical '
  'viscosity and diffusion (interior penalty, any profile), bottom drag (quadratic or log law), linear drag and wind act on the total velocity, '
  'implicitly or explicitly; rotation, 2D and 3D momentum sources and tracer sources are taken at the times of the stages. The state stays '
  'uniform, the 3D copy of the depth average equals it, the tracer content changes by the sources only and the total momentum by the impulse '
  'of the forces, in every element family, degree 0 or 1, with a moving or fixed mesh.',
  ['inputs', 'configurations', 'histories'],
  'every velocity and tracer profile, coefficient profile, forcing, layer count, elevation, element family, integrator and splitting option',
  'Tests run two friction cases to steady state and compare with tolerances of percents; single steps, stage times, coupling terms and the '
  'combinations of explicit and implicit treatment are not checked.',
  ['thetis/coupled_timeintegrator.py', 'thetis/momentum_eq.py', 'thetis/tracer_eq.py', 'thetis/timeintegrator.py', 'thetis/utility3d.py', 'thetis/solver.py'],
  [('CoupledTwoStageRK, CoupledLeapFrogAM3', 'thetis/coupled_timeintegrator.py'), ('VerticalViscosityTerm, BottomFrictionTerm', 'thetis/momentum_eq.py'),
   ('VerticalIntegrator', 'thetis/utility3d.py')],
  'Column.tla (the discrete column and both integrators, model checked for consistency, conservation and dissipation), validated step by step '
  'against runs of FlowSolver. One known finding.')

P('C25', '3D geometry and diagnostics: moving mesh, vertical integrals, density, closures',
  'After any sequence of assigned states the geometry and every diagnostic field of the 3D model are those of the present state: levels follow '
  'z_ref + eta (z_ref+h)/h for any stretching, element heights and the mesh consistency metric belong to them, the mesh velocity is that of the '
  'change of elevation; vertical integrals in both directions with boundary values, averages, expansion of 2D fields and extraction at either '
  'boundary and facet are exact; the vertical velocity satisfies continuity and impermeability; density follows the equation of state (linear or '
  'full, with constant salinity or temperature), the baroclinic head is its integral from the surface and the pressure gradient is exact for '
  'affine densities and uniform water under a plane surface; Smagorinsky and Pacanowski-Philander viscosities, shear and buoyancy frequency '
  'follow their formulas with the options chosen.',
  ['inputs', 'configurations', 'histories'],
  'every bathymetry, surface, layering, profile, element family and sequence of assignments to the same solver',
  'Tests check operators one at a time on fixed meshes and smooth fields with tolerances; matrices or geometry kept from an earlier state of the '
  'mesh, boundary values, slopes of layers and combinations of options are not checked.',
  ['thetis/utility3d.py', 'thetis/utility.py', 'thetis/solver.py', 'thetis/momentum_eq.py', 'thetis/turbulence.py'],
  [('VerticalIntegrator, SubFunctionExtractor, ExpandFunctionTo3d, DensitySolver, SmagorinskyViscosity, Mesh3DConsistencyCalculator', 'thetis/utility3d.py'),
   ('ALEMeshUpdater', 'thetis/utility3d.py'), ('PacanowskiPhilanderModel, VerticalGradSolver', 'thetis/turbulence.py')],
  'Diag3d.tla: exact expected values of all fields from the nodal values of the state, model checked for consistency and rejection of stale '
  'geometry; sequences of random states are assigned to one FlowSolver and every field is compared after each.')
