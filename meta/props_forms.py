"""Property texts: weak forms."""
from .base import P

EQ = ['thetis/shallowwater_eq.py', 'thetis/utility.py']
TR2 = ['thetis/tracer_eq_2d.py', 'thetis/sediment_eq_2d.py', 'thetis/exner_eq.py']
EQ3 = ['thetis/momentum_eq.py', 'thetis/tracer_eq.py']
WHY = ('The tests run a few meshes, options and boundary types with tolerances; the statement quantifies over all states, option '
       'combinations and boundary data, and most combinations are never run.')

P('A01', '2D shallow water terms are the weak form of their documented operators',
  'For every smooth state, the volume contributions of each term of the 2D shallow water, mode-split, free surface and momentum '
  'equations integrate by parts to the documented operator (pressure gradient, momentum advection, viscosity, Coriolis, wind, '
  'atmospheric pressure, quadratic/Manning/Nikuradse, linear, boundary and turbine drag, sources, divergence of transport), with '
  'total depth from the documented wetting-drying depth. Each equation contains exactly its documented set of terms.',
  'inputs configurations', 'all states, parameter fields and combinations of options and optional fields', WHY,
  EQ, [('ShallowWaterEquations, term residuals', 'thetis/shallowwater_eq.py'), ('DepthExpression', 'thetis/utility.py')])
P('A02', '2D tracer, sediment and bed terms are the weak form of their operators',
  'For every smooth state, the volume contributions of each 2D tracer, suspended sediment and bed (Exner) term integrate by parts '
  'to the documented advection, diffusion, source, erosion, deposition, bedload and slide operators, in conservative and '
  'non-conservative form. Each equation contains exactly its documented set of terms.',
  'inputs configurations', 'all states, parameter fields, conservative or not, depth integrated or not', WHY,
  TR2, [('TracerEquation2D', 'thetis/tracer_eq_2d.py'), ('SedimentEquation2D', 'thetis/sediment_eq_2d.py'),
        ('ExnerEquation', 'thetis/exner_eq.py')])
P('A03', '3D momentum and tracer terms are the weak form of their operators',
  'For every smooth state, the volume, bottom and surface contributions of each 3D momentum and tracer term integrate by parts to '
  'the documented operator: pressure gradient, horizontal and vertical advection relative to the moving mesh, horizontal and '
  'vertical viscosity/diffusion, Coriolis, linear drag, bottom friction, wind stress, sources. Each equation contains exactly its '
  'documented set of terms.',
  'inputs configurations', 'all states, parameter fields and optional fields', WHY,
  EQ3, [('MomentumEquation', 'thetis/momentum_eq.py'), ('TracerEquation', 'thetis/tracer_eq.py')])
P('A04', 'Interior facet terms are consistent with the volume terms',
  'For every state that is continuous across an interior facet (and, in 3D, has no vertical component of horizontal velocity), the '
  'facet integrand of each discontinuous Galerkin term exactly cancels the element boundary flux left by its volume integrand, so '
  'the discretization adds nothing to smooth solutions.',
  'inputs configurations', 'all continuous states, test functions, element pairs, stabilisation options', WHY,
  EQ + TR2 + EQ3, [('facet integrals of term residuals', 'thetis/*_eq*.py')])
P('A05', 'Open boundaries are transparent to data equal to the interior state',
  'When the prescribed boundary data (elevation, velocity, normal velocity, flux, tracer value, diffusive flux or a supported '
  'combination) equal the trace of the interior state, the boundary integrand of each advective, pressure, continuity and '
  'diffusive term equals the element boundary flux, so the boundary neither reflects nor generates anything. The same holds at '
  'the free surface of 3D terms.',
  'inputs configurations', 'all states, boundary tag combinations, element pairs, wetting-drying, velocity factor', WHY,
  EQ + TR2 + EQ3, [('boundary integrals of term residuals, get_bnd_functions', 'thetis/*_eq*.py')])
P('A06', 'Closed boundaries add nothing when there is no flow through them',
  'On a boundary without prescribed open-boundary data, a state with no normal velocity makes each advective, pressure and '
  'continuity term consistent with the volume terms, and viscous and diffusive terms impose the natural (zero stress, zero flux) '
  'condition.',
  'inputs configurations', 'all states without normal velocity, element pairs, options', WHY,
  EQ + TR2 + EQ3, [('boundary integrals of term residuals', 'thetis/*_eq*.py')])
P('A07', 'Flux-form terms conserve mass, tracer and momentum inside the domain',
  'For every state, however discontinuous, the interior contributions of each flux-form term (divergence of transport, pressure '
  'gradient by parts, conservative advection, diffusion, viscosity, bedload) sum to zero over the domain: what leaves one element '
  'through a facet enters its neighbour. Closed boundaries carry no volume flux in the continuity equation.',
  'inputs configurations', 'all states, meshes, options', WHY,
  EQ + TR2 + EQ3, [('volume and facet integrals', 'thetis/*_eq*.py')])
P('A08', 'Viscosity and diffusion operators are symmetric, dissipative and coercive',
  'For every nonnegative, continuous viscosity or diffusivity, each viscosity/diffusion form is symmetric in solution and test '
  'function, its volume part never adds energy, and its interior penalty acts on the jumps with the dissipative sign and at least '
  'the strength that the element degree and the larger of the two neighbouring elements require.',
  'inputs configurations', 'all states, degrees, cell shapes, options (without the depth gradient source)', WHY,
  EQ + TR2 + EQ3, [('interior penalty terms', 'thetis/*_eq*.py')])
P('A09', 'Coriolis does no work, drag and stabilisation only remove energy',
  'For every state the Coriolis term does exactly zero work, the drag terms (quadratic, Manning, Nikuradse, linear, boundary, turbine, '
  '3D bottom friction) and the Lax-Friedrichs stabilisation do nonpositive work. For linear waves the pressure gradient and the '
  'divergence of transport exchange energy exactly, up to a nonpositive facet dissipation.',
  'inputs configurations', 'all states, drag laws and coefficients, element pairs', WHY,
  EQ + EQ3, [('CoriolisTerm, drag terms, Lax-Friedrichs terms', 'thetis/*_eq*.py')])
P('A10', 'Lake at rest and uniform tracers are preserved exactly',
  'A motionless state with a level surface over any bathymetry, with or without wetting-drying, makes every unforced momentum '
  'and continuity term vanish; a spatially uniform tracer makes the non-conservative advection and all diffusion terms vanish for any '
  'velocity field, including across interior facets, closed boundaries and boundaries with the same data.',
  'inputs configurations', 'all bathymetries, velocity fields, levels, options', WHY,
  EQ + TR2 + EQ3, [('volume and facet integrals', 'thetis/*_eq*.py')])
P('A11', 'Boundary data enter the boundary flux as documented',
  'On open boundaries the pressure, continuity, momentum advection, tracer advection and tracer diffusion fluxes are the documented '
  'interface fluxes between the interior state and the external state: prescribed elevation, velocity, outward normal velocity, '
  'outward volume flux divided by the wet cross-section, tracer value or diffusive flux, and the interior value for everything not '
  'prescribed.',
  'inputs configurations', 'all states, boundary data and tag combinations', WHY,
  EQ + TR2 + ['thetis/tracer_eq.py'], [('get_bnd_functions', 'thetis/*_eq*.py')])
P('A12', 'The residual of an equation is the sum of exactly its terms at the given state',
  'For every label argument (all, one label, several labels) the residual of every equation is the sum, each once and with weight one, of exactly the terms '
  'carrying those labels; each term gets the current and lagged solution, fields and boundary conditions it is documented to depend on. '
  'No term is silently replaced by another, and every term carries a label the split time integrators treat.',
  'inputs configurations', 'all equations, options, label arguments', 'A term or argument that drops out changes little in the sampled flows.',
  ['thetis/equation.py'] + EQ + TR2 + EQ3 + ['thetis/turbulence.py'], [('Equation.residual, select_terms, add_term', 'thetis/equation.py')])
P('A13', 'Advection takes the upstream value',
  'For every flow direction, the interior facet flux of 2D tracer and sediment advection and of 3D tracer and momentum advection '
  'carries only the value of the element the flow comes from (stabilisation off); tracer boundary fluxes carry the external value '
  'at inflow and never at outflow.',
  'inputs configurations', 'all states and flow directions', WHY,
  TR2[:2] + EQ3, [('upwind values', 'thetis/*_eq*.py')])
P('A14', 'Semi-implicitly linearised terms are linear in the new solution',
  'With the linearisation state (old solution and old fields) kept fixed, every term of the 2D shallow water, mode-split, free '
  'surface, momentum, tracer and sediment equations and of the 3D tracer equation is affine in the new solution for every state, '
  'so that the linearised semi-implicit step is one linear solve with no linearisation error. Boundaries with a volume flux but no '
  'elevation are excepted (their cross-section follows the internal elevation).',
  'inputs configurations', 'all states, lagged states, parameter fields, options and boundary data', WHY,
  EQ + TR2 + ['thetis/tracer_eq.py'], [('residual(solution, solution_old, ...) of all terms', 'thetis/*_eq*.py')])
