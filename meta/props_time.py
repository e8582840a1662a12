"""Property texts: time integration."""
from .base import P

W = ('Tests run a few schemes on a few linear problems, restarting nothing between steps; the statement covers every scheme, right '
     'hand side, step size, and history of calls.')
T = ['thetis/timeintegrator.py', 'thetis/rungekutta.py', 'thetis/implicitexplicit.py']

P('B01', 'Time integrator coefficients satisfy their documented order and stability',
  'The scheme each time integrator actually executes satisfies the order conditions of its documented order (including coupling '
  'conditions of implicit-explicit pairs), is A- or L-stable where documented, and declares a CFL coefficient that the scheme '
  'supports. Every time integrator option name selects the integrator it is named after.',
  'inputs configurations programs', 'all right hand sides and step sizes', W,
  T + ['thetis/solver2d.py', 'thetis/solver.py', 'thetis/options.py'],
  [('ButcherTableau classes', 'thetis/rungekutta.py'), ('theta schemes', 'thetis/timeintegrator.py')])
P('B02', 'A time step applies the declared scheme to the current state',
  'For every equation, each call to advance replaces the solution by the declared scheme applied to the current solution, also when '
  'the solution was changed since the previous step (limiter, coupling, assimilation, restart) and when the time step was changed. '
  'Implicit stages are solved with the stated unknowns, mass terms and boundary conditions, and Picard, leap-frog and steady state '
  'integrators follow their documented recurrences.',
  'inputs histories programs', 'all states, equations, step sizes and histories of calls', W, T,
  [('advance/solve_stage/solve_tendency/get_final_solution', 'thetis/rungekutta.py'), ('advance', 'thetis/timeintegrator.py'),
   ('IMEXGeneric', 'thetis/implicitexplicit.py')])
P('B03', 'Forcings are evaluated at the stage time of every tendency',
  'Whenever a time integrator is given a forcing update, each right hand side evaluation of the step sees the forcing updated to '
  't + c dt of that stage (or the documented lagged time for theta schemes), where t is the time passed to advance.',
  'inputs histories', 'all forcings, step sizes and schemes', W, T,
  [('update_forcings calls', 'thetis/rungekutta.py'), ('update_forcings calls', 'thetis/timeintegrator.py')])
P('B04', 'Coupled 2D steps advance every active equation once and in order',
  'In every combination of active equations, one coupled 2D step advances the shallow water system first, then each tracer (or its '
  'requested Picard iterations, keeping the old solution in the first and renewing old fields in the last only), then refreshes the '
  'sediment model and advances suspended sediment and finally the bed, all with the time and forcing callback of the step and with '
  'the limiter applied after each tracer update iff enabled. Each sub-integrator advances and is initialized with its own field and '
  'receives every new time step; in non-hydrostatic mode every flow update is followed by a pressure solve and the free surface is '
  'then recomputed from its previous elevation.',
  'configurations histories', 'all combinations of active equations and integrator types',
  'Tests run a few combinations; most combinations and a changed time step are never run.',
  ['thetis/coupled_timeintegrator_2d.py', 'thetis/solver2d.py'],
  [('CoupledTimeIntegrator2D, NonHydrostaticTimeIntegrator2D', 'thetis/coupled_timeintegrator_2d.py'),
   ('create_timestepper, get_*_timestepper', 'thetis/solver2d.py')])
P('B05', 'Every equation is stepped with its own field, data, boundaries and options',
  'In every combination of active equations, 2D and 3D, each equation is created once and stepped by one time integrator, which gets '
  'the field of that equation, the step of the solver, the step options and boundary functions of that system (turbulence: none; bed: '
  'those of the flow), and as coefficients exactly the documented options and fields: sources, drag, stress, pressure, Coriolis, the sum of '
  'user and model viscosity or diffusivity, velocity, vertical and mesh velocity, elevation. Vertical diffusion and bottom friction go '
  'to the implicit equation iff implicit diffusion is on. No term reads a coefficient that is never supplied.',
  'configurations', 'all combinations of active equations, optional coefficients and integrator types',
  'Tests run a handful of combinations; a wrong or missing coefficient in another combination is silently zero.',
  ['thetis/solver2d.py', 'thetis/solver.py', 'thetis/coupled_timeintegrator.py'],
  [('get_*_timestepper, create_equations', 'thetis/solver2d.py'), ('create_equations, create_fields', 'thetis/solver.py'),
   ('_create_*_integrator', 'thetis/coupled_timeintegrator.py')])
P('B06', 'A coupled 2D-3D step keeps the 2D and 3D modes consistent',
  'In one step of either coupled 3D integrator (dg-dg elements), the 2D mode is advanced once, with the depth average of the explicit 3D '
  'momentum update removed from uv_3d and passed to it as split_residual_2d = average/dt. Every 3D tendency sees vertical velocity, '
  'internal pressure gradient, element sizes, 2D velocity and elevation of its own time level and mesh, and 3D forcings updated to its '
  'time. Limiters, if on, follow every explicit update; vertical diffusion, if implicit, is applied once, last, to the full velocity, '
  'after turbulence preprocess, psi, tke, postprocess. At the end all 2D copies and diagnostics match the new state.',
  'configurations histories', 'all combinations of active equations, both integrators',
  'Tests run few combinations for few steps; a stale diagnostic or lagged copy changes results only slightly.',
  ['thetis/coupled_timeintegrator.py', 'thetis/timeintegrator.py', 'thetis/rungekutta.py', 'thetis/solver.py'],
  [('CoupledTwoStageRK.advance, CoupledLeapFrogAM3.advance, _update_*', 'thetis/coupled_timeintegrator.py'),
   ('create_equations', 'thetis/solver.py')])
P('B07', 'Explicit 3D updates conserve mass on the moving mesh',
  'With the moving mesh on, one step of either coupled 3D integrator moves the mesh to the points given by the new elevation, and every '
  'explicit 3D update satisfies M(new mesh) u_new = M(old mesh) u_old + sum c_k F_k with sum c_k = dt, each F_k assembled on the mesh and '
  'state of its own stage, M the mass matrix of that mesh; the mesh velocity seen by the tendencies, weighted with c_k, moves the old '
  'mesh exactly onto the new one, so that a uniform tracer stays uniform. With the mesh fixed it does not move.',
  'configurations histories', 'all elevations, states and step sizes; both integrators',
  'Tests check tracer conservation in two set-ups; exact identities over all states are out of their reach.',
  ['thetis/coupled_timeintegrator.py', 'thetis/timeintegrator.py', 'thetis/rungekutta.py', 'thetis/utility3d.py'],
  [('SSPRK22ALE', 'thetis/rungekutta.py'), ('LeapFrogAM3', 'thetis/timeintegrator.py'), ('ALEMeshUpdater', 'thetis/utility3d.py')])
P('C07', 'The time step respects the CFL limits and divides the export interval',
  'An automatic 3D time step is at most the CFL coefficient times each 3D limit (horizontal advection, vertical advection, diffusion, each '
  'from its own option scale), and in modes 2d and split the 2D step at most the 2D one; a user step is an upper bound. The export interval '
  'is a whole number of 3D steps (not more than needed), dt = M dt_2d with whole M. In 2D dt is options.timestep unless any step options '
  'ask for an automatic step, a fraction of the smallest local limit. Every limit is the minimum over all processes.',
  'inputs configurations', 'all meshes, scales, export intervals, modes and numbers of processes',
  'Tests fix the time step; automatic modes, splitting ratios and several processes are not run.',
  ['thetis/solver.py', 'thetis/solver2d.py'],
  [('set_time_step, compute_dt_*', 'thetis/solver.py'), ('set_time_step', 'thetis/solver2d.py')])
