from .base import P

P('C09', 'Point diagnostics sample the requested fields at the requested points',
  'At every evaluation, station time series, vertical profiles, transects and detectors return, for each requested field (and component) in '
  'order, the value of the current field at exactly the requested points: a profile or transect runs evenly from the current surface to the '
  'bed (or the given depth limits) at each of its horizontal points, a station below the bed is moved into the water column, each detector '
  'row holds its own values, and names, locations and array shapes written with the data match them. select_and_move_detectors keeps '
  'detectors inside the domain unchanged, moves others to the globally nearest cell centre if it lies within the maximum distance and '
  'drops the rest together with their names, with the same answer on every process.',
  'inputs histories', 'all point sets, field lists, depth limits, states at each evaluation and partitions into processes',
  'Tests evaluate a few points of one state; a swapped axis or component, stale depth coordinates or a process-dependent choice of the nearest '
  'cell shows only for particular shapes, moving surfaces and partitions.',
  ['thetis/callback.py', 'thetis/utility.py'],
  [('TimeSeriesCallback3D, VerticalProfileCallback, TransectCallback, DetectorsCallback', 'thetis/callback.py'),
   ('select_and_move_detectors', 'thetis/utility.py')])
