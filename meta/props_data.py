from .base import P

P('F01', 'Time series interpolation uses the two adjacent records of the collection',
  'For any time inside the records of a file collection, the value is (1-a) f_prev + a f_next with the records before and after it and '
  'a = (t - t_prev)/(t_next - t_prev), also across files, gaps and files listed in any order, for any sequence of requests. '
  'Dates use the units and calendar of their own file; a time outside of the records raises an error.',
  'inputs histories', 'all record times and values, file orders, request positions (at, just after, between records) and request orders',
  'Tests use evenly spaced synthetic series and a few times; file boundaries, gaps and repeated requests are where index errors live.',
  ['thetis/interpolation.py'],
  [('NetCDFTimeParser, NetCDFTimeSearch, DailyFileTimeSearch, LinearTimeInterpolator', 'thetis/interpolation.py')])
P('F02', 'Spatial interpolation uses barycentric weights of matching coordinates and data',
  'GridInterpolator gives each target inside the source grid the barycentric combination of its simplex, and each target outside the fill value or nearest '
  'source value, with or without normalisation and if triangulation fails. The data set readers pass source and target coordinates in the same '
  'order and select coordinates and data with the same indices, mask and layout, at the requested time index.',
  'inputs configurations', 'all grids, values, fill modes and positions; latitude-longitude, NCOM 2D and 3D, ROMS and generic CF grids',
  'Tests interpolate smooth functions on one grid; swapped axes or masks cancel on symmetric data and the ocean model readers have no tests.',
  ['thetis/interpolation.py', 'thetis/forcing.py'],
  [('GridInterpolator, NetCDFLatLonInterpolator2d', 'thetis/interpolation.py'),
   ('SpatialInterpolatorNCOM2d, SpatialInterpolatorNCOM3d, SpatialInterpolatorROMS3d, GenericSpatialInterpolator2D', 'thetis/forcing.py')],
  note='the triangulation and nearest neighbour search of scipy are trusted; round-off is outside')
P('F03', 'Forcing fields combine the right variables, units and rotation at every node',
  'Wind stress is C_D rho_air |U| U with the documented drag law for any wind. Each atmospheric, ocean and tidal forcing class sets every field '
  'from its own variables (and time variable and files) at the requested time and node, pressure in Pa, vectors rotated from east and north at '
  'the node position; tidal data go to boundary nodes only, with zero where the data set has none.',
  'inputs configurations', 'all winds and nodal values, each data set class, 2D and spherical meshes, any order of variables',
  'The forcing classes need large external data sets; no test runs them.',
  ['thetis/forcing.py'],
  [('compute_wind_stress', 'thetis/forcing.py'), ('AtmosphericForcingInterpolator.set_fields and subclasses', 'thetis/forcing.py'),
   ('NCOMInterpolator, LiveOceanInterpolator, GenericInterpolator2D', 'thetis/forcing.py'), ('TidalBoundaryForcing.set_tidal_field', 'thetis/forcing.py')])
P('F04', 'Coordinate conversions are inverse pairs; vector rotation is a true rotation',
  'to_xy and to_lonlat of UTMCoordinateSystem use opposite transformations with matching argument order, for numbers and arrays; points with an undefined '
  'coordinate stay undefined and others are unaffected; positive_lon only shifts longitude by multiples of 360. The vector rotator is '
  'orthogonal and takes north to the projected north direction at each node.',
  'inputs', 'all coordinates, arrays with undefined entries, single nodes and whole fields',
  'Tests check one round trip at a few points; rotation is not tested at all.',
  ['thetis/coordsys.py'],
  [('UTMCoordinateSystem, proj_transform, VectorCoordSysRotation', 'thetis/coordsys.py')],
  note='the projections of pyproj are uninterpreted inverse pairs')
P('G01', 'Turbine thrust, power and rotor average follow the thrust curve and options',
  'The friction coefficient is half the thrust area (C_T pi D^2/4 plus C_support A_support) over alpha^2 and the power is rho0 A_T C_P (u/alpha)^3 / 2, '
  'with alpha = (1 + sqrt(1 - thrust area/(projected diameter x depth)))/2 if the upwind correction is on, else 1. Tabulated coefficients are piecewise '
  'linear in speed and zero below the first and above the last speed. The sheared velocity is the weighted cubic mean of the power law over the rotor.',
  'inputs configurations', 'all speeds in every interval of the thrust curve, depths, sizes and options',
  'Tests check one optimisation set-up; cut-in, cut-out, floating hubs, supports and tables are not tested.',
  ['thetis/turbines.py'],
  [('TidalTurbine, ConstantThrustTurbine, TabulatedThrustTurbine, linearly_interpolate_table', 'thetis/turbines.py')],
  note='power with both a shear profile and the upwind correction is left out: the documentation does not say which velocity sets alpha')
P('G02', 'Turbine density, farm power and its averages count every turbine once',
  'Each discrete turbine adds a bump of unit integral centred at its coordinates, zero outside half the projected diameter. Number of turbines and power output of a farm '
  'are the integrals of density and of power times density over its own measure. The callback reports current power, its time average and profit '
  '(average minus break-even wattage times number of turbines) per farm; load_turbine copies every entry of the file to its option.',
  'inputs histories configurations', 'all positions relative to overlapping turbines, all power histories, both turbine types, all file layouts',
  'The tests that use turbine farms are not among the stable tests and check a converged optimum only.',
  ['thetis/turbines.py'],
  [('TidalTurbineFarm, DiscreteTidalTurbineFarm.add_turbines', 'thetis/turbines.py'), ('TurbineFunctionalCallback, TurbineOptimisationCallback', 'thetis/turbines.py'),
   ('load_turbine', 'thetis/turbines.py')])
P('G03', 'The inversion cost function is the documented weighted sum of misfits',
  'The cost is the regularisation term plus, per call, the sum over stations in use (start <= t <= end) of scaling times station weight times squared difference of '
  'the model and the observations of that station, stations being matched by location and several managers added; weights are 1 or the inverse variance '
  'of the station data. Gradient, Hessian and constant penalties are gamma |grad f|^2 h^2, gamma |H|^2 h^4 and gamma (f-f0)^2/max(|f0|,eps) over the mesh area, scaled.',
  'inputs histories configurations', 'all data, scalings, local orders of stations, observation periods, sequences of evaluation times and kinds of regularisation',
  'Inversion tests need adjoint runs that are not among the stable tests and pass for any self-consistent functional.',
  ['thetis/inversion_tools.py'],
  [('StationObservationManager, MultiStationObservationManager', 'thetis/inversion_tools.py'), ('InversionManager.get_cost_function', 'thetis/inversion_tools.py'),
   ('ControlRegularizationManager and calculators', 'thetis/inversion_tools.py')])
P('G04', 'Optimisation constraints, callbacks and progress records use the right data',
  'The minimum distance constraints are positive exactly when a pair of turbines is further apart than the distance, one per pair, and the jacobian is their derivative. '
  'Optimisation callbacks return the documented value and record or export the arguments of the call, also when the functions change. '
  'The inversion progress holds the last evaluation of each line search, each manager exports its own controls and gradients, and station files hold their own station.',
  'inputs histories', 'all positions and numbers of turbines, groups of controls, numbers of evaluations per line search and local orders of stations',
  'The tests that use these need optimisation runs outside of the stable tests and look at the converged result.',
  ['thetis/turbines.py', 'thetis/optimisation.py', 'thetis/inversion_tools.py'],
  [('MinimumDistanceConstraints', 'thetis/turbines.py'), ('OptimisationCallback and subclasses, DeferredExportManager', 'thetis/optimisation.py'),
   ('InversionManager.update_progress, ControlManager, StationObservationManager.dump_time_series', 'thetis/inversion_tools.py')])
