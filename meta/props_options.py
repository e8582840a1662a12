from .base import P

P('H01', 'Model options are validated, paired, independent and update completely',
  'Every option accepts exactly its documented values (positive, non-negative, bounded, enumerated, constants, coefficients, scalar and vector '
  'expressions, dates with a time zone) and its own default. Options objects are frozen: an undeclared name cannot be set except inside '
  'an unfrozen method, and the freeze is back after it returns or raises. Choosing a value of a paired enum gives options of the class that '
  'belongs to that value, and options already of that class are kept. Every options object has its own nested options: setting one never '
  'changes another. update() with a dictionary or another options object copies every option, nested and paired ones included, in '
  'whatever order they are given. Every option the code reads is declared, and every declared option is read.',
  'inputs histories', 'all option values, option classes, orders of assignment and of update, and exceptions raised in between',
  'Tests set a few options once on one object; state shared between objects, a freeze lost after an exception or an option dropped for '
  'one order of keys shows only with particular histories.',
  ['thetis/configuration.py', 'thetis/options.py'],
  [('FrozenConfigurable, FrozenHasTraits, PairedEnum, attach_paired_options', 'thetis/configuration.py'),
   ('ModelOptions2d, ModelOptions3d, CommonModelOptions.update', 'thetis/options.py')])

P('H02', 'Tracers are registered with their own data, one time stepper type for all',
  'add_tracer_2d and add_tracer_system_2d store every tracer under its label, in the order of registration, with its own name, short '
  'name, unit, file name, source, diffusivity and conservative flag and nothing of another tracer; a system is one equation of all its '
  'tracers whose parameters may be given for some of them only; labels or file names that cannot be used and labels used before are '
  'refused. set_timestepper_type gives every active component (shallow water, tracers, sediment, exner, free surface) the chosen type '
  'and the options given.',
  'inputs histories', 'all sequences of registrations, argument subsets and component switches',
  'Tests register one or two tracers in one order; a parameter that reaches another tracer shows only in particular combinations.',
  ['thetis/options.py'],
  [('ModelOptions2d.add_tracer_2d, add_tracer_system_2d, set_timestepper_type', 'thetis/options.py')])
