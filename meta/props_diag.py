from .base import P

P('E01', '3D diagnostic solvers compute the quantities they are documented to compute',
  'Vertical velocity satisfies continuity with an impermeable bottom and land boundary; vertical integrals and averages start from the '
  'given boundary value on the given side; vertical gradient, Smagorinsky viscosity, velocity magnitude and z coordinate equal their definitions. '
  'This holds on every mesh geometry (sloping facets included), for the current fields at each solve, with all limits respected.',
  'inputs configurations', 'all field values, sloping meshes, both directions of integration, scalars and vectors, DG and CG spaces',
  'Tests use a few analytical fields on flat meshes; sloping facets, boundary values and averages are sampled once or never.',
  ['thetis/utility3d.py', 'thetis/turbulence.py', 'thetis/utility.py'],
  [('VerticalVelocitySolver, VerticalIntegrator, SmagorinskyViscosity, VelocityMagnitudeSolver', 'thetis/utility3d.py'),
   ('VerticalGradSolver', 'thetis/turbulence.py'), ('get_zcoord_from_mesh', 'thetis/utility.py')])
P('E02', 'Density and baroclinic pressure gradient follow the state',
  'Density anomaly is the equation of state (Jackett et al. or linear) of the current salinity and temperature minus rho0; the baroclinic head is '
  'its integral from the surface divided by the current rho0; the internal pressure gradient is g times its horizontal gradient, weakly, '
  'with the given external head on open boundaries and no boundary forcing elsewhere. None of them modifies the state except to keep salinity non-negative.',
  'inputs configurations', 'all states, both equations of state, DG and CG spaces, every boundary configuration',
  'Tests compare with convergence slopes for one linear state; 25 published coefficients and user-set constants are not settled by that.',
  ['thetis/utility3d.py', 'thetis/utility.py', 'thetis/momentum_eq.py'],
  [('JackettEquationOfState, LinearEquationOfState, DensitySolver, DensitySolverWeak', 'thetis/utility3d.py'),
   ('compute_baroclinic_head', 'thetis/utility.py'), ('InternalPressureGradientCalculator', 'thetis/momentum_eq.py')])
P('E03', 'A uniform 3D tracer stays uniform',
  'For every discrete velocity field the 3D tracer advection terms, evaluated at a uniform tracer (with the same value at open boundaries), '
  'equal the continuity equation solved by VerticalVelocitySolver term by term: in elements, on horizontal and vertical facets, at the '
  'surface and on open boundaries, with and without a moving mesh. The solver computes w from the velocity that advects the tracers.',
  'inputs configurations', 'all velocity fields, meshes and boundary configurations, fixed and moving meshes, with and without Lax-Friedrichs',
  'Consistency tests run a few flows on smooth meshes with tolerances and closed basins; the identity must be exact on every facet type.',
  ['thetis/tracer_eq.py', 'thetis/utility3d.py', 'thetis/solver.py'],
  [('HorizontalAdvectionTerm, VerticalAdvectionTerm', 'thetis/tracer_eq.py'), ('VerticalVelocitySolver', 'thetis/utility3d.py')],
  note='sound for DG tracers with horizontal velocity; compares weak form integrands, not quadrature degrees')
P('E04', 'Linear solves use the matrix of the current mesh, state and time step',
  'No linear problem of the solvers keeps its matrix from an earlier solve unless that matrix cannot change: on the moving 3D mesh every '
  'mass matrix, and in the time integrators every matrix containing state or time step, is assembled again. Density, buoyancy and shear '
  'frequencies, gradients and integrals therefore refer to the present water column.',
  'histories configurations', 'all mesh motions and sequences of solves',
  'Tests solve once, or on meshes that hardly move, so a matrix of the initial mesh gives nearly the same numbers.',
  ['thetis/utility3d.py', 'thetis/turbulence.py', 'thetis/momentum_eq.py', 'thetis/timeintegrator.py', 'thetis/rungekutta.py'],
  [('VerticalVelocitySolver, VerticalIntegrator, DensitySolverWeak, SmagorinskyViscosity', 'thetis/utility3d.py'),
   ('VerticalGradSolver', 'thetis/turbulence.py'), ('LinearVariationalProblem call sites', 'thetis/rungekutta.py')],
  note='invariance is decided under vertical mesh motion; flags that are not literals are decided only in the abstractly executed solvers')
P('E05', '2D diagnostics equal their definitions for the current fields',
  'Vorticity is -v_x + u_y, the recovered gradient and Hessian are those of the field, and kinetic energy is rho |u|^2/2 (all or the '
  'horizontal components), each stored in the caller\'s field at every solve for the fields of that moment. The weak forms are consistent on '
  'interior facets and carry no spurious boundary contribution. The beta plane Coriolis parameter is f0 + beta (y - y0).',
  'inputs configurations', 'all fields, continuous and discontinuous sources, all option combinations',
  'Tests check convergence of some recoveries on one mesh; others are never called, and none repeats a solve on changed fields.',
  ['thetis/diagnostics.py', 'thetis/utility.py'],
  [('VorticityCalculator2D, GradientRecoverer2D, HessianRecoverer2D, KineticEnergyCalculator', 'thetis/diagnostics.py'),
   ('beta_plane_coriolis_function', 'thetis/utility.py')])
P('E06', 'Non-hydrostatic pressure satisfies the documented equation and closed walls',
  'DepthIntegratedPoissonSolver solves div grad q + A.grad q + (div A - 4/H^2) q + C = 0 with the documented A and C for the current state and '
  'total depth, then corrects velocities: u by -dt/(2 rho0) (grad q + A q), w by dt/(rho0 H) q. On closed boundaries its natural condition makes the corrected '
  'velocity impermeable; on open ones q or its normal derivative vanishes.',
  'inputs configurations', 'all states and bathymetries, linear and nonlinear depth, open and closed boundaries',
  'The tests are long wave propagation runs over flat or smooth beds with loose tolerances; they are not part of the quick suite.',
  ['thetis/utility.py'],
  [('DepthIntegratedPoissonSolver', 'thetis/utility.py')])
P('E07', 'Total depth follows its documented formula and stays positive when wetting',
  'DepthExpression gives h, or h + eta for nonlinear equations, or h + eta + (sqrt((h+eta)^2 + alpha^2) - (h+eta))/2 with wetting and drying, for '
  'the elevation passed and the current bed and alpha. With wetting and drying H (H - h - eta) = alpha^2/4 and H is the positive root, '
  'so that total depth is positive for every elevation, however far below the bed.',
  'inputs configurations', 'all elevations, beds and alpha, all option combinations',
  'Tests sample a few basins; positivity is a statement about every elevation.',
  ['thetis/utility.py'],
  [('DepthExpression', 'thetis/utility.py')])
P('E08', 'The Schur complement preconditioner uses the current reduced operator',
  'AssembledSchurPC eliminates the velocity block exactly: after setup and after every update, its inner solver applies an approximate inverse of '
  'A11 - A10 A00^-1 A01, with A01, A10 and A11 assembled from the current forms and A00 the cellwise mass matrix of the velocity. Assembling again never '
  'accumulates earlier products. The residual is the right hand side and the correction the solution of that solve, and a diverged '
  'inner solve raises an error.',
  'histories', 'all sequences of setup, updates and applications',
  'Tests run it in one or two setups where an outdated operator only costs iterations.',
  ['thetis/assembledschur.py'],
  [('AssembledSchurPC', 'thetis/assembledschur.py')],
  note='the velocity block is the mass matrix by construction of the implicit pressure scheme; convergence of the iteration is not claimed')
P('E09', 'Vertical copies, facet extraction and cell geometry are exact node by node',
  'ExpandFunctionTo3d gives every node of a column the 2D value below it; SubFunctionExtractor takes the value of the requested face (bottom, top, '
  'or their average) of the requested boundary; both scale HDiv fluxes by the cell height. Column heights, '
  'sigma extrusion, the moving mesh velocity, layer minimum heights, minimum angles and cell widths '
  'equal their definitions at every node, for every coordinate value and every node numbering.',
  'inputs configurations', 'all nodal values and coordinates, triangles and quadrilaterals, all supported elements and options',
  'Tests copy a few smooth fields with loose norms on one mesh; the C kernels pick nodes by index tables, which a smooth or symmetric field hides.',
  ['thetis/utility.py', 'thetis/utility3d.py'],
  [('ExpandFunctionTo3d, SubFunctionExtractor, Mesh3DConsistencyCalculator, extrude_mesh_sigma, ALEMeshUpdater', 'thetis/utility3d.py'),
   ('get_facet_mask, compute_elem_height', 'thetis/utility.py')])
P('E10', 'The slope limiter uses current averages, complete bounds and every component',
  'At each application VertexBasedP1DGLimiter limits every component of the field once, with cell averages computed from that field and the current mesh, '
  'and vertex bounds that include the averages of the exterior facets (sides, and bottom and top in 3D). The limited component is '
  'stored back in its place. A vector field is limited exactly as its components would be as scalar fields. Spaces other than P1DG are rejected.',
  'inputs histories', 'all nodal values, meshes that move between applications, scalar and vector fields',
  'Tests limit scalar fields on fixed meshes where interior vertices dominate.',
  ['thetis/limiter.py'], [('VertexBasedP1DGLimiter', 'thetis/limiter.py')],
  note='the limiting kernel itself belongs to the installed finite element library; Thetis own bounds and averages are decided')
