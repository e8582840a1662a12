from .base import P

P('D01', 'Turbulence models set their fields to the documented closure',
  'After every update of the GLS model k, psi, epsilon, length scale, eddy viscosity and diffusivity are the documented functions of '
  '(k, psi, N2, M2), with the enabled limits in the documented order and each minimum holding; Pacanowski-Philander likewise. N2, M2 and the '
  'split of N2 by sign come from current density and velocity. Initial state and derived parameters follow the options; a continued run '
  'keeps its k and psi, and every named stability function can be chosen.',
  'inputs configurations', 'all field values, all closures and limiter flags',
  'Turbulence runs are long and compared with coarse tolerances; limits act only in some states and some closures are never run.',
  ['thetis/turbulence.py'],
  [('GenericLengthScaleModel, PacanowskiPhilanderModel', 'thetis/turbulence.py'), ('ShearFrequencySolver, BuoyFrequencySolver', 'thetis/turbulence.py')])
P('D02', 'Stability functions satisfy their equilibrium and equivalence relations',
  'S_m and S_rho are evaluated as the rational functions defined by the coefficients at the limited frequencies; '
  'the steady state, cmu0, c3_minus, length limit and von Karman constant are exact solutions of the equilibrium conditions they stand for; the '
  'Canuto, Cheng and Umlauf-Burchard coefficient forms define the same functions, and the published parameter sets agree between forms.',
  'inputs', 'all frequencies and all coefficient values',
  'Tests compare a few printed numbers; a wrong coefficient shifts the mixing slightly.',
  ['thetis/stability_functions.py'],
  [('StabilityFunctionBase and its subclasses', 'thetis/stability_functions.py')])
P('D03', 'TKE and psi equations have the documented budget, sinks implicit',
  'The implicit TKE equation is d_z(nu/sigma d_z k) + P + B - eps and the psi equation d_z(nu/sigma d_z psi) + psi/k (c1 P + c3 B - c2 eps '
  'f_wall), c3 chosen by the sign of N2, each with its own Schmidt number, with the documented psi fluxes through bottom and surface. '
  'Sources are explicit and non-negative, sinks are non-positive and linear in the new value, so that the update keeps k and psi positive.',
  'inputs configurations', 'all field values, both signs of c3_minus, DG and CG spaces',
  'A wrong budget term changes mixing gradually and only in stratified or near-wall states; positivity concerns all states.',
  ['thetis/turbulence.py'],
  [('TKESourceTerm, PsiSourceTerm, GLSVerticalDiffusionTerm, TKEEquation, PsiEquation', 'thetis/turbulence.py')])
P('D04', 'SedimentModel.update makes every sediment term match the current state',
  'After SedimentModel.update, deposition, erosion, equilibrium concentration, advective velocity factor and bedload flux equal '
  'those of a model newly built on the current velocity, elevation and bed, in every option combination. Erosion equals deposition at the '
  'equilibrium concentration; bedload follows the flow, and slope, angle and secondary current corrections vanish over a flat bed under a flat surface.',
  'configurations histories', 'all states and parameter values, all option combinations',
  'A field left at its old value changes the bed a little, later; tests run few combinations and none compares with a fresh model.',
  ['thetis/sediment_model.py'],
  [('SedimentModel, CorrectiveVelocityFactor', 'thetis/sediment_model.py')])
