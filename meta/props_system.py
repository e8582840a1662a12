"""Property texts: solver objects, time loop, input/output."""
from .base import P

P('C01', 'The time loop steps, exports and stops at the right times',
  'Both solvers advance from the initial simulation time in steps of dt until the end time or end date (seconds after the initial date) '
  'is reached within a small positive rounding tolerance, passing each step its start time and the forcing callbacks. Time step callbacks '
  'run once after every step with the new time and iteration count. Fields are exported (all exporters, export callbacks, export_func) '
  'exactly when a further export interval has elapsed, stamped with the current time and export index, and the initial state iff requested.',
  'histories configurations', 'all step sizes, export intervals, initial times and run lengths',
  'Tests run a few loops from time zero; continued runs, end dates and rounding at interval boundaries are not sampled.',
  ['thetis/solver2d.py', 'thetis/solver.py'],
  [('FlowSolver2d.create_iterator, export', 'thetis/solver2d.py'), ('FlowSolver.iterate, export, create_timestepper', 'thetis/solver.py')])
P('C02', 'Continuing from stored state resumes the simulation where it was stored',
  'load_state(i) restores elevation and velocity (in 3D also the deviation velocity, and salinity, temperature and turbulence fields when '
  'active) as export i of a run with the same setup stored them, and initializes the time integrator from them; exporting leaves the state '
  'unchanged. The simulation time is the stored one (the time given by the caller, or iteration*dt for files without time stamp) and stays '
  'consistent with the start date. Export index, file numbering and the next export continue after i, or restart with the initial state '
  'in another output directory.',
  'histories configurations', 'all stored states, export indices, directories, overrides and file contents',
  'Tests restart a run or two in one configuration; overrides, missing metadata and other directories are not sampled.',
  ['thetis/solver2d.py', 'thetis/solver.py', 'thetis/exporter.py'],
  [('load_state, export, create_exporters', 'thetis/solver2d.py'), ('load_state, export, create_exporters', 'thetis/solver.py'),
   ('HDF5Exporter, VTKExporter, ExportManager', 'thetis/exporter.py')])
P('C03', 'Each export writes every requested field once, current, in its own file',
  'At each export, every requested field that exists is written once, to the file named in its metadata (or given for user fields) and numbered '
  'with the export index: VTK files in the output directory with the current value, cast to the P1 space of the same shape and continuity, under the short name; HDF5 files '
  'prefix_nnnnn.h5 with the field itself, its mesh, the time and start date, which load reads back. A preprocessor runs before the '
  'export of its own field and of no other manager; fields keep values and names; set_next_export_ix renumbers all following files.',
  'histories configurations', 'all field lists, export sequences, indices, file names and preprocessors',
  'Tests never read exported files back.',
  ['thetis/exporter.py', 'thetis/field_defs.py', 'thetis/solver.py', 'thetis/solver2d.py'],
  [('VTKExporter, HDF5Exporter, ExportManager, get_visu_space', 'thetis/exporter.py'), ('field_metadata', 'thetis/field_defs.py'),
   ('create_exporters, add_new_field, export', 'thetis/solver2d.py')])
P('C04', 'Diagnostics are recorded once, in their time window, with the right values',
  'A diagnostic callback evaluated at time t acts iff start_time <= t <= end_time (optional limits, zero included): it computes its value once on '
  'every process, logs it iff append_to_log and iff export_to_hdf5 stores one row with the time and each variable under its name (at the export index '
  'if given; written by rank 0; in a new file, or after the earlier rows in a continued 3D run). Conservation diagnostics report the volume integral of elevation + '
  'bathymetry, tracer times total depth (or the depth-integrated tracer), the 3D volume and 3D tracer mass, overshoots the global extrema, each relative to '
  'the first evaluation; time integrals follow the trapezium rule; stations return newly interpolated values in the given order. The '
  'check_* options register exactly the matching diagnostics for exports.',
  'histories configurations', 'all evaluation times, windows, indices, restarts and ranks',
  'Tests do not run windows at zero, continued files, late first exports or several processes.',
  ['thetis/callback.py', 'thetis/utility.py', 'thetis/solver.py', 'thetis/solver2d.py'],
  [('DiagnosticCallback.evaluate, push_to_hdf5; DiagnosticHDF5.export; CallbackManager', 'thetis/callback.py'),
   ('comp_volume_2d, comp_volume_3d, comp_tracer_mass_2d, comp_tracer_mass_3d', 'thetis/utility.py'),
   ('FlowSolver.iterate', 'thetis/solver.py'), ('FlowSolver2d.create_iterator', 'thetis/solver2d.py')])
P('C05', 'Parallel processes stay in step and write each file once',
  'No process executes a collective operation (barrier, reduction, broadcast, gather, assembly, solve, collective file access) that another one skips: branches '
  'and loops that depend on the process or on its local data contain the same collective operations on both sides. Extrema, counts and decisions '
  'computed from local data are reduced over the communicator with the matching operation before they are used. Text, CSV and diagnostics files are '
  'written by rank 0 only, and an output directory exists on every process when its creation returns.',
  'histories schedules', 'all numbers of processes, partitions and data',
  'Tests run on a single process, where a missing reduction or a skipped collective has no effect.',
  ['thetis/callback.py', 'thetis/utility.py', 'thetis/sediment_model.py', 'thetis/log.py', 'thetis/turbines.py', 'thetis/inversion_tools.py', 'thetis/exporter.py'],
  [('create_directory, comp_tracer_minmax, get_zcoord_from_mesh', 'thetis/utility.py'), ('DiagnosticHDF5, DetectorsCallback, TimeSeriesCallback2D', 'thetis/callback.py'),
   ('set_log_directory', 'thetis/log.py'), ('SedimentModel.__init__', 'thetis/sediment_model.py')])
P('C06', 'Every message reaches the console and one log file, once and in order',
  'print_output and the debug, info and warning functions pass a message to every active handler once. set_log_directory sends following messages to DIR/log on rank 0 '
  'in addition to the console, after the messages that came before: the old file is kept when appending is asked for and replaced otherwise, and a '
  'new directory ends logging to the previous one. Setting up a solver installs at most one log file handler, in its output directory, unless output is disabled.',
  'histories configurations', 'all sequences of directory changes, modes and existing files',
  'Tests do not read log files.',
  ['thetis/log.py', 'thetis/solver.py', 'thetis/solver2d.py'],
  [('set_log_directory, rm_handlers, set_thetis_loggers, print_output', 'thetis/log.py'), ('FlowSolver.create_equations', 'thetis/solver.py'),
   ('FlowSolver2d.create_equations', 'thetis/solver2d.py')])
P('C08', 'Each discretization option yields the documented function spaces',
  'For every element family, degree and cell type the solvers create the documented spaces: velocity RT(p+1), BDM(p+1) or vector P(p)DG with elevation '
  'P(p)DG (P(p+1) for dg-cg) in the mixed space in that order, tracers P1DG or P1 (2D) and P(p)DG (3D), 3D velocities as the extruded counterparts, '
  'pressure and auxiliary spaces as documented, nodal spaces with vertex values. Unsupported families and non-mimetic elements on a sphere are rejected. '
  'element_continuity classifies each of these elements correctly in both directions, and the solver fields live in the spaces meant for them.',
  'configurations', 'all element families, polynomial degrees, cell types and pressure options',
  'Tests use one or two families on triangles.',
  ['thetis/solver2d.py', 'thetis/solver.py', 'thetis/utility.py'],
  [('FlowSolver2d.create_function_spaces, create_fields', 'thetis/solver2d.py'), ('FlowSolver.create_function_spaces, create_fields', 'thetis/solver.py'),
   ('get_functionspace, element_continuity, get_extruded_base_element', 'thetis/utility.py')])
