"""Properties this family does not decide."""
from .base import P, not_applicable

W = 'Tests sample a few meshes and time steps.'
P('N01', 'Numerical solutions converge at the design order',
  'Under mesh and time step refinement the error against a smooth exact solution decreases at the design order of the chosen '
  'elements and time integrator.', 'inputs configurations', 'all smooth solutions and element/time integrator combinations', W,
  ['thetis/solver2d.py', 'thetis/solver.py'], [('element and integrator choice', 'thetis/solver2d.py')])
not_applicable('N01', 'the rate is a limit of runtime errors over refined meshes; only its algebraic ingredients (consistency of the '
               'forms, order conditions of the tableaux) are source properties, and those are claimed separately')
P('N02', 'Explicit runs are stable at the automatically chosen time step',
  'With the automatically chosen time step, explicit runs stay bounded for every mesh and admissible flow within the declared '
  'velocity and viscosity scales.', 'inputs configurations', 'all meshes, flows and scales', W,
  ['thetis/solver2d.py', 'thetis/solver.py'], [('time step estimates', 'thetis/solver.py')])
not_applicable('N02', 'stability depends on the spectrum of the assembled operators on the actual mesh, which no source-level argument '
               'in reach bounds')
P('N03', 'Parallel runs reproduce serial results',
  'A simulation gives the same results to solver tolerance for every number of processes and partition.', 'configurations schedules',
  'all process counts and partitions', 'Tests run on one or two processes.', ['thetis/'], [('collective operations', 'thetis/')])
not_applicable('N03', 'floating point reductions and iterative solver tolerances depend on the runtime partition; the structural '
               'part (no collective call under rank dependent control, local data reduced) is a source property and is claimed as C05')
P('N04', 'Discrete adjoint gradients match finite differences',
  'Gradients computed through the tape match directional derivatives of the reduced functional to first order.', 'inputs programs',
  'all functionals and controls', W, ['thetis/inversion_tools.py'], [('inversion manager', 'thetis/inversion_tools.py')])
not_applicable('N04', 'the gradient is produced by the external taping library from the recorded run; its value is a runtime quantity')
P('N05', 'Limited tracer fields stay within the local bounds',
  'After slope limiting every nodal value lies within the range of the neighbouring cell averages.', 'inputs', 'all fields and meshes', W,
  ['thetis/limiter.py'], [('VertexBasedP1DGLimiter', 'thetis/limiter.py')])
not_applicable('N05', 'the nodal result comes from the limiter kernel of the installed finite element library and from the mesh; what Thetis adds '
               '(averages, bounds, components) is claimed as E10')
