"""Write properties.jsonl and MANIFEST.json (run after adding a property)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G, I, V = 'pvfactors/geometry/', 'pvfactors/irradiance/', 'pvfactors/viewfactors/'


def P(id, title, statement, over, quant, why, files, mech, technique, note,
      observe=None):
    return dict(id=id, title=title, statement=statement, over=over,
                quant=quant, why=why, files=files, mech=mech,
                technique=technique, note=note, observe=observe)


LATTICE = ('explicit enumeration of a finite lattice of arrays x orientations '
           'x sun positions, each state executed on the real code and ')

PROPS = [
 P('P01', 'Ground surfaces partition the ground, shaded exactly where rows hide the sun',
   'At every timestep the ground surfaces cover the modelled ground exactly once, without gap or overlap, and a stretch of ground is marked as shaded if and only if the line from it to the sun is blocked by a PV row. Merged shadows and lines where the rows meet the ground only split surfaces, they never move, lose or duplicate ground.',
   ['inputs', 'configurations'],
   'every number of rows, spacing, height, width, axis azimuth and discretization, every row orientation and every sun position above the horizon, including shadows that overlap, meet or leave the ground',
   'the tests look at a handful of fixed timesteps of two or three rows; the order of shadows, lines and ends of the ground has many regimes which they never meet',
   [G + 'pvground.py', G + 'timeseries.py', G + 'pvarray.py'],
   [('shadows of each row cast on the ground, merged when they overlap', G + 'pvground.py: TsGround.from_ts_pvrows_and_angles, from_ordered_shadows_coords'),
    ('ground cut on both sides of the line of each row', G + 'pvground.py: TsGroundElement')],
   LATTICE + 'compared with a ray-casting reference model',
   'Holds for all states of the lattice. Trusted: the reference geometry in mc/ref.py (plain ray casting) and floating point within 1e-6 m.',
   ['ts_ground surfaces of a fitted array']),
 P('P02', 'PV rows are where the inputs say, shaded exactly where other rows hide the sun',
   'At every timestep each PV row has the position, width, tilt and normal that its inputs say, and both of its sides are split into the requested number of equal segments, each made of a shaded and a lit part that add up. A point of a side that faces the sun is shaded if and only if another row blocks the line from it to the sun, and edge rows are only shaded by rows that exist.',
   ['inputs', 'configurations'],
   'every array, discretization, orientation (tilt 0 to 180, both directions) and sun position above the horizon, sun on the front or the back',
   'existing tests fix a few angles; direct shading of backs, edge rows, discretized and partly shaded sides are combined nowhere',
   [G + 'pvrow.py', G + 'pvarray.py', G + 'base.py'],
   [('inter-row shading length, edge row treatment', G + 'pvarray.py: _calculate_interrow_shading, _calculate_pvrow_elements_coords'),
    ('splitting sides in segments and shaded and lit parts', G + 'pvrow.py: TsSide.from_raw_inputs')],
   LATTICE + 'compared with projections and rays of a reference model',
   'Holds for all states of the lattice, except within 0.001 degree of the sun in the plane of the rows (P21 covers these).',
   ['ts_pvrows of a fitted array']),
 P('P03', 'View factor matrices obey the conservation laws',
   'For every array and timestep, view factors are between 0 and 1, those of a surface that exists add up to 1, they are reciprocal when weighted with lengths, and they are zero between surfaces that cannot face each other. Surfaces without length neither give nor take any.',
   ['inputs', 'configurations'],
   'all arrays, discretizations, orientations and sun positions, all pairs of surfaces',
   'tests compare a few matrices with stored numbers and check sums on a few timesteps; the laws have to hold for every shadow and shading pattern',
   [V + 'vfmethods.py', V + 'calculator.py'],
   [('crossed strings with obstruction by the neighbour row', V + 'vfmethods.py: VFTsMethods'),
    ('sky as what is left', V + 'calculator.py: build_ts_vf_matrix')],
   LATTICE + 'checked against invariants of the view factor matrix',
   'Invariants on every matrix of the lattice, tolerance 1e-7.',
   ['ts_vf_matrix']),
 P('P04', 'View factors are exact, with all obstructions accounted for',
   'Every view factor between two surfaces of an array, in the full matrix as well as in the fast calculation for one side, equals the share of the directions leaving the first one that reach the second one, taking into account the obstruction by all PV rows. This holds for ground, shaded and lit parts of sides, and sky.',
   ['inputs', 'configurations'],
   'all arrays, discretizations, orientations and sun positions (which shape the surfaces), all pairs of surfaces',
   'tests compare against stored numbers for a few positions, obtained with the same formulas',
   [V + 'vfmethods.py', V + 'calculator.py', G + 'timeseries.py'],
   [('hottel method with obstruction, truncated at the lines of the rows', V + 'vfmethods.py: vf_pvrow_surf_to_gnd_surf_obstruction_hottel, vf_pvrow_to_pvrow'),
    ('fast mode variants', V + 'vfmethods.py: calculate_vf_to_pvrow, calculate_vf_to_gnd, calculate_vf_to_shadow_obstruction_hottel')],
   LATTICE + 'compared with an exact angular visibility sweep',
   'Each entry agrees with an independent exact integral (1e-6). Ground beyond 100 m counts as sky.',
   ['ts_vf_matrix']),
 P('P05', 'The full mode returns the unique equilibrium of reflections',
   'For every array, timestep, sky and sky model, the incident irradiance of every surface is what it gets from the sun and the sky plus what all the other surfaces reflect to it, and all reported components (direct, circumsolar, horizon, isotropic, reflected, outgoing, absorbed) are consistent with that unique equilibrium.',
   ['inputs', 'configurations'],
   'all arrays, discretizations, orientations, sun positions and a set of skies from overcast to clear, both sky models with and without transparency',
   'tests compare a few stored numbers of mostly one row of a three row array',
   ['pvfactors/engine.py', I + 'models.py', I + 'base.py', V + 'calculator.py'],
   [('linear system of all surfaces and timesteps', 'pvfactors/engine.py: run_full_mode'),
    ('vectors of irradiance and reflectivities in the order of the surfaces', I + 'base.py: get_full_ts_modeling_vectors')],
   LATTICE + 'compared with an independent radiosity solution',
   'Every reported value of every surface that exists agrees with the reference (relative 1e-6).',
   ['parameters of all timeseries surfaces after a full mode run']),
 P('P06', 'The fast mode returns the back side irradiance of the requested part',
   'The fast mode calculates the back side irradiance of exactly the requested row and segment, with the documented approximation: exact view factors, irradiance of the front of rows and of the ground transposed without reflections from the array. Its components add up, and asking for one segment, all segments, or through either way of choosing them, gives the same values.',
   ['inputs', 'configurations', 'histories'],
   'all arrays, rows, segments, ways of choosing them, orientations, sun positions and models',
   'one test for one row of one array at a few timesteps',
   ['pvfactors/engine.py', V + 'vfmethods.py', I + 'models.py'],
   [('fast calculation for one segment', 'pvfactors/engine.py: run_fast_mode, _calculate_back_ts_segment_qinc'),
    ('transposed irradiance of lit and shaded front and ground', I + 'models.py: gnd_shaded, pvrow_illum and others')],
   LATTICE + 'compared with an independent fast mode on exact view factors',
   'Every value of the requested surfaces agrees with the reference; others are untouched.',
   ['back side parameters after a fast mode run']),
 P('P07', 'The result of a timestep does not depend on the rest of the batch',
   'Simulating a timestep in any batch, at any place in it, next to any other timesteps (night, no irradiance, missing data, other orientation, duplicates), gives the same geometry, view factors and irradiance as simulating it alone.',
   ['inputs', 'histories'],
   'all sequences up to a bound over an alphabet of timesteps that covers every regime, both modes and models',
   'tests run single timesteps or one fixed series; a vectorized mask or index slip only shows in particular mixes',
   ['pvfactors/engine.py', G + 'pvarray.py', G + 'pvground.py', I + 'utils.py', V + 'calculator.py'],
   [('vectorized calculations with masks per timestep', 'whole package'),
    ('back surface circumsolar merged back by position', I + 'utils.py: perez_diffuse_luminance')],
   'exhaustive enumeration of all timestep sequences up to a length bound, each executed and compared step by step with single-step executions',
   'Complete up to the length bound over the alphabet; differential oracle on the same code (P01-P06 decide the single steps).',
   ['all surfaces of a batch run']),
 P('P08', 'A parallel run returns the report of the serial run',
   'Whatever the number of processes, the number of timesteps, the order in which workers run and finish, and the form of the inputs, the report of a parallel run equals the one of the serial run, with every timestep once and in order.',
   ['schedules', 'inputs', 'configurations'],
   'all small numbers of timesteps and processes (more processes than timesteps too), all orders of execution and completion of the workers, both modes, optional inputs present or not',
   'two tests with two processes and one order, the one the machine happens to choose',
   ['pvfactors/run.py', 'pvfactors/report.py'],
   [('inputs split in folds, reports sorted by fold and merged', 'pvfactors/run.py: run_parallel_engine, _run_serially'),
    ('merging of reports', 'pvfactors/report.py: ExampleReportBuilder.merge')],
   'stateless model checking: controlled pool explores all execution and completion orders of the workers on the real code; conformance runs on the real pool',
   'All schedules of at most 4 workers; workers share nothing (pickled copies). The controlled pool is validated against multiprocessing.',
   ['merged report']),
 P('P09', 'An engine forgets: results depend only on the last fit and the mode run',
   'After any sequence of fits and runs, on one engine or on several in turn, what can be read from an engine equals what a new engine gives after the last fit and the runs since, with no trace of earlier batches, modes or other engines. Inputs, results read earlier, classes and other engines are not changed.',
   ['histories'],
   'all sequences of fits with batches of several lengths, full runs, fast runs on rows and segments and matrix calculations, up to a depth, on one engine and on two engines in turn',
   'every test uses a fresh engine once or twice',
   ['pvfactors/engine.py', V + 'calculator.py', V + 'aoimethods.py', G + 'pvarray.py', I + 'base.py'],
   [('fit rebuilds everything that depends on the batch', 'pvfactors/engine.py: PVEngine.fit'),
    ('matrices kept on array and calculator', V + 'calculator.py')],
   'explicit-state exploration of all call histories up to a depth on real engines, compared with a reference state (last fit, runs since)',
   'Complete up to depth 4 (thorough 5) for one engine and 4 for two engines.',
   ['all that can be read from engine, array and calculator']),
 P('P10', 'All accepted forms of the same inputs give the same results',
   'Scalars, arrays of integers or of floats, one albedo or one per timestep, datetimes or an index, a missing or an empty discretization, and all entry points give the same results when they describe the same simulation.',
   ['inputs', 'configurations'],
   'all combinations of the forms over timesteps with whole numbers, all entry points',
   'each test uses one form; the combinations (integer tilt of 0, scalar with albedo, index with time zone) are never crossed',
   ['pvfactors/engine.py', 'pvfactors/run.py', G + 'base.py', G + 'pvarray.py', I + 'models.py'],
   [('conversion of scalars', 'pvfactors/engine.py: fit; models.py: fit'),
    ('rotation from tilt and azimuth', G + 'base.py: _get_rotation_from_tilt_azimuth')],
   'exhaustive product of input forms and entry points, each executed and compared with the canonical form',
   'Complete over the listed forms; differential oracle (P01-P06 decide the canonical form).',
   ['all surfaces']),
 P('P11', 'Results do not depend on the orientation of the frame of reference',
   'Turning the whole scene (axis, rows, sun) by any angle, adding whole turns to any azimuth, describing the same rows with the opposite axis direction, moving the ground and the rows up or down together, or looking at the scene in a mirror changes nothing in the results but the names of the rows.',
   ['inputs', 'configurations'],
   'all turns of a lattice of angles, wrapped or not, levels, mirror images and opposite axes, for arrays, orientations and sun positions of a lattice',
   'nearly all tests use one axis azimuth',
   [G + 'base.py', G + 'pvarray.py', I + 'utils.py', I + 'models.py'],
   [('projection on the plane perpendicular to the axis', G + 'base.py: _get_solar_2d_vectors, _get_rotation_from_tilt_azimuth')],
   'exhaustive enumeration of frame symmetries over a lattice of scenes on the real code, with a metamorphic oracle',
   'Complete over the lattice of symmetries.',
   ['all surfaces']),
 P('P12', 'Sky irradiance of every surface follows the transposition model',
   'Direct, circumsolar, horizon and isotropic light on every lit or shaded surface, and what is absorbed of it, follow the documented sky model of the chosen type: the angle of incidence, transparency and spacing of modules, hidden share of the horizon band, reflectivity or loss function of that side. The totals used by the fast calculation and the vectors used by the solver are made of the same values.',
   ['inputs', 'configurations'],
   'both sky models and their options, measured or calculated global irradiance, all orientations, sun positions up to the horizon, skies of all clearness bins',
   'tests compare a few stored numbers, mostly for default options and two sun positions',
   [I + 'models.py', I + 'base.py', I + 'utils.py'],
   [('components per category of surface', I + 'models.py: fit, transform of both models'),
    ('Perez with back side circumsolar', I + 'utils.py: perez_diffuse_luminance')],
   LATTICE.replace('arrays x orientations x sun positions', 'models x skies x arrays x orientations x sun positions') + 'compared with a scalar sky model',
   'Every component of every surface agrees with a sky model written from the publications (relative 1e-9).',
   ['parameters of all surfaces after transform, model vectors']),
 P('P13', 'Energy is conserved, light adds up, brighter surfaces never darken',
   'Surfaces never reflect or absorb more than they receive, and the array and ground together never gain more than what comes from sun and sky; incident irradiance is never negative. With the isotropic model results are linear in direct and diffuse irradiance, and raising the albedo, a reflectivity or the transparency never lowers any irradiance.',
   ['inputs', 'configurations'],
   'all arrays, orientations, sun positions of the lattice, complete ladders of reflectivities, albedos and transparencies, all pairs of a lattice of irradiances',
   'no test compares two executions',
   ['pvfactors/engine.py', I + 'models.py', V + 'vfmethods.py'],
   [('radiosity balance', 'pvfactors/engine.py: run_full_mode')],
   'exhaustive enumeration of lattices and ladders on the real code, with invariant and relational (two-execution) oracles',
   'Complete over the lattice; monotonicity along complete ladders.',
   ['parameters of all surfaces']),
 P('P14', 'Circumsolar and horizon shading are exact shares of the hidden sky',
   'The share of the circumsolar disk and of the horizon band reported as hidden is the exact share of its area behind the obstruction: 0 when clear, 100 when covered, monotonic and without jumps in between. Scalars and arrays give the same.',
   ['inputs'],
   'all points of a fine lattice of covered distances and of angles, both circumsolar models',
   'tests sample a few points',
   [I + 'utils.py'],
   [('disk and gaussian shares', I + 'utils.py: calculate_circumsolar_shading'),
    ('horizon band share', I + 'utils.py: calculate_horizon_shading')],
   'exhaustive enumeration of a fine one- and two-dimensional lattice on the real functions, compared with exact integrals',
   'Complete over the lattice.',
   ['return values']),
 P('P15', 'Absorbed irradiance follows the angle of incidence loss functions',
   'With loss functions for front and back, the view factors used for absorption integrate the loss function of the right side over the angles under which the other surface is seen, for ground, rows and sky; without them, absorption is one minus reflectivity. Absorbed irradiance is what comes from each surface with its losses plus the absorbed part of the light from the sky.',
   ['inputs', 'configurations'],
   'pairs of loss functions in the calculator and in the sky model, arrays, orientations and sun positions, all pairs of surfaces',
   'tests compare stored sums for a few timesteps',
   [V + 'aoimethods.py', V + 'calculator.py', 'pvfactors/engine.py'],
   [('integral by sections', V + 'aoimethods.py: AOIMethods'),
    ('absorbed irradiance', 'pvfactors/engine.py: run_full_mode')],
   LATTICE + 'bracketed by exact visibility integrals of the loss function',
   'Every entry lies within the bounds set by the documented midpoint and section approximations.',
   ['ts_vf_aoi_matrix, absorbed irradiance']),
 P('P16', 'Aggregates are length weighted means; updates reach what they cover',
   'Values reported for a segment, side, row, ground or array are means of the values of their surfaces weighted with length, and absent surfaces do not count. Setting a value on a part reaches every surface of that part and no other, and merging reports of consecutive chunks gives the report of the whole.',
   ['inputs', 'histories', 'configurations'],
   'all nodes of the tree of surfaces, all sequences of two or three updates on them, all splits of a simulation in chunks',
   'tests read a few weighted values and update one node',
   [G + 'timeseries.py', G + 'pvrow.py', G + 'pvground.py', 'pvfactors/report.py'],
   [('weighted values', G + 'timeseries.py: TsShadeCollection.get_param_weighted; pvrow.py, pvground.py: get_param_ww'),
    ('updates down the tree', 'update_params of each class')],
   'explicit-state exploration of all update sequences over the tree against a model of the tree, and enumeration of the lattice for means',
   'Complete for sequences of two (thorough: three) updates.',
   ['get_param_weighted, get_param_ww, update_params, reports']),
 P('P17', 'A snapshot is the geometry and values of its timestep',
   'The geometry built for one timestep has the same surfaces, coordinates, lengths, normals, shading and values as the series has at that timestep, in any form it is asked for (with or without merged shadows and cut points), whatever that timestep.',
   ['inputs', 'configurations', 'histories'],
   'all timesteps of a batch, all forms of snapshots, all kinds of objects, arrays, orientations and sun positions of the lattice',
   'tests build snapshots of one or two indices',
   [G + 'timeseries.py', G + 'pvrow.py', G + 'pvground.py', G + 'base.py'],
   [('building static geometry from the series', 'at() of each class'),
    ('non-point surfaces', G + 'pvground.py: non_point_shaded_surfaces_at, non_point_illum_surfaces_at')],
   LATTICE + 'static geometries compared with the series and a ground model',
   'Every timestep of the lattice, every snapshot form.',
   ['objects returned by at(idx)']),
 P('P18', 'Shadows and cuts keep segments, sides, rows partitioned and separate',
   'After any sequence of casting shadows, cutting at points, merging shadows, adding, removing or replacing parts, and updating values, a segment, side, row or ground is still partitioned into shaded and lit surfaces exactly where the shadows fell, its length, surfaces and values are current, and no other object has changed.',
   ['histories'],
   'all sequences of operations up to a depth with shadows and cuts at all points of a lattice, in both directions, on all kinds of objects along lines in several directions',
   'tests make one or two operations in fixed order on fresh objects',
   [G + 'base.py', G + 'pvground.py', G + 'pvrow.py', G + 'utils.py'],
   [('casting shadows, merging', G + 'base.py: PVSegment.cast_shadow, ShadeCollection.cast_shadow, merge_surfaces'),
    ('cutting', G + 'base.py: cut_at_point')],
   'explicit-state exploration of all operation sequences up to a depth on real objects, against an interval model after each step',
   'Complete up to the depth; lattice of points with rational positions.',
   ['surfaces, lengths, values of the objects']),
 P('P19', 'Differences, projections, containment of lines are exact',
   'The difference of two collinear lines, the projection of a point along a direction on a line, containment, contiguity and collinearity are exact up to the stated tolerance for every relative position of the arguments.',
   ['inputs'],
   'all pairs of segments of a lattice along lines of several directions, all segments of a planar lattice that touch or cross, all points and directions of a lattice',
   'tests have one or two examples of each function',
   [G + 'utils.py'],
   [('line utilities', G + 'utils.py: difference, projection, contains, is_collinear, check_collinear')],
   'exhaustive enumeration of all lattice configurations on the real functions, compared with rational arithmetic',
   'Complete over the lattice.',
   ['return values']),
 P('P20', 'Discretizing sides only refines results',
   'Dividing sides of PV rows into any number of segments changes neither the ground, nor the view factors between whole sides, nor the light received by a whole side from sun and sky, nor the fast back side irradiance of a row: these add up to the undivided values.',
   ['configurations', 'inputs'],
   'all discretization schemes of an alphabet against the array without discretization, all orientations and sun positions, both models and modes',
   'tests with discretization look at one row and one timestep',
   [G + 'pvrow.py', G + 'pvarray.py', V + 'vfmethods.py', V + 'calculator.py'],
   [('segments of equal length', G + 'pvrow.py: TsSide.from_raw_inputs')],
   LATTICE + 'compared between discretizations (relational oracle)',
   'Complete over the lattice of schemes.',
   ['lengths, matrices, values of sides']),
 P('P21', 'Irradiance has no jumps at critical angles',
   'When rows or sun move continuously through a critical position (shading starts or ends, shadows meet, rows are flat or vertical, the sun is exactly in the plane of or in front of the rows), the calculation gives a finite result and the irradiance of sides, segments and ground does not jump.',
   ['inputs', 'configurations'],
   'all critical angles found along all sweeps of rotation, sun azimuth, sun elevation and sun tracking of a lattice, located to the precision of the machine, and round angles with the sun exactly in the plane of the rows',
   'tests never sit exactly on a critical angle, although backtracking rows spend hours there',
   [G + 'pvarray.py', G + 'pvrow.py', G + 'pvground.py', G + 'base.py', I + 'utils.py', V + 'vfmethods.py'],
   [('comparisons that choose a regime', 'np.where conditions of the geometry and view factor code'),
    ('Perez luminance when the sun is in the plane of the rows', I + 'utils.py: perez_diffuse_luminance')],
   'exhaustive enumeration of the critical angles of a reference event model along all sweeps, located by bisection, each executed just before, at and after on the real code',
   'All events of the list along all sweeps; jumps of the Perez model itself are left out.',
   ['weighted values of sides, segments, ground']),
 P('P22', 'Reflectivities: the given one, else from the losses, else the default',
   'When an engine initializes reflectivities, a given number (zero included) is kept, otherwise the one calculated from the loss function of that side is used, otherwise the default, and all results are those of an engine given that number. The timesteps marked as not to be simulated are exactly those with the sun below the horizon, a negative irradiance or none.',
   ['configurations', 'inputs', 'histories'],
   'all combinations of given or missing reflectivities, loss functions or objects for one or both sides, used or new calculators, both models and modes; all sign patterns of zenith and irradiances',
   'one test with one combination',
   ['pvfactors/engine.py', I + 'base.py', V + 'aoimethods.py'],
   [('initialization', 'pvfactors/engine.py: with_rho_initialization; ' + I + 'base.py: initialize_rho'),
    ('average of the loss function', V + 'aoimethods.py: rho_from_faoi_fn')],
   'exhaustive product of initialization choices, each executed and compared with an explicitly configured engine',
   'Complete over the product.',
   ['reflectivities, all results, marks']),
 P('P23', 'A drawing of a timestep shows its surfaces',
   'Drawing an array, ground, row, side, segment or surface at a timestep draws each surface of that timestep where it is, in the color of its kind and shading, nothing more and nothing less, with the options asked for (merged shadows, cut points, names of surfaces next to them on the side they face, colors), with all rows in view, and changes nothing in what is drawn.',
   ['inputs', 'configurations'],
   'all arrays, orientations and sun positions of a lattice and all combinations of drawing options',
   'the tests of drawings only make them, or only when a flag is set, and compare nothing',
   [G + 'plot.py', G + 'base.py', G + 'pvrow.py', G + 'pvground.py', G + 'timeseries.py'],
   [('drawing one timestep of an array', G + 'base.py: BasePVArray.plot_at_idx, BaseSurface.plot')],
   'exhaustive enumeration of a finite lattice of arrays, states and options on the real code, with axes that record every call',
   'Complete over the lattice. Trusted: the recorded calls are what is drawn (matplotlib itself is not part of it).',
   ['calls made on the axes']),
 P('P24', 'A geometry built from a description is what it describes, or is refused',
   'Rows built from a center, tilt and width, or from their ends, flat grounds, grounds from lists of surfaces, sides, segments, collections and timeseries rows with any shaded lengths have the ends, parts, lengths, normals, shading, indices and parameters described. Parts that do not belong together (mixed shading, other directions, the wrong collection) are refused, and others are not. No two objects share parameters by accident.',
   ['inputs', 'configurations'],
   'all descriptions of a lattice, all sets of up to three surfaces of an alphabet of directions and shadings',
   'one test per constructor',
   [G + 'base.py', G + 'pvrow.py', G + 'pvground.py', G + 'utils.py'],
   [('constructors', G + 'pvrow.py: PVRow.from_center_tilt_width, PVRow.from_linestring_coords, TsSide.from_raw_inputs; ' + G + 'pvground.py: PVGround.as_flat, from_lists_surfaces'),
    ('checks of what is put together', G + 'base.py: _check_uniform_shading, PVSegment._check_collinear; ' + G + 'utils.py: is_collinear')],
   'exhaustive enumeration of descriptions and of sets of parts on the real code, compared with a closed-form model',
   'Complete over the lattice and the sets.',
   ['built objects, and errors raised']),
 P('P25', 'A failure is never hidden and leaves nothing behind',
   'When a calculation is stopped at any point (an interruption, no memory, a function of the user or a worker process that fails), the failure reaches the caller, no partial result is returned as if it were complete, inputs, earlier results and other objects are unchanged, and doing the same or something else again on the same engine or array gives the results of objects that never failed.',
   ['crash_points', 'fault_sequences', 'histories'],
   'every point of execution of fits, runs in all modes, runs from parameters, matrices, snapshots and drawings; every worker and every call of a function of the user',
   'no test makes a calculation fail half way and goes on',
   ['pvfactors/engine.py', 'pvfactors/run.py', G + 'pvarray.py', V + 'calculator.py', V + 'aoimethods.py', I + 'models.py'],
   [('fit rebuilds everything from its inputs', 'pvfactors/engine.py: PVEngine.fit; ' + G + 'pvarray.py: OrderedPVArray.fit'),
    ('failures of workers come out of the pool', 'pvfactors/run.py: run_parallel_engine')],
   'exhaustive fault injection: a failure raised at every line executed by the real code (first and last time; thorough: nine occurrences), then recovery by several continuations compared with objects that never failed',
   'Complete over all lines executed by the scenarios, at the stated occurrences. Static geometries interrupted in the middle of their own modification are out.',
   ['exceptions, and everything that can be read afterwards']),
 P('P26', 'Calculations in different threads do not disturb each other',
   'Two calculations that share no object (engines, arrays, calculators, runs from parameters, snapshots, drawings, with arrays of the same or of other sizes) and run at the same time in two threads of one process give the results that each of them gives alone, however the threads are switched.',
   ['schedules'],
   'all points where a thread can be switched, between any two lines of the package',
   'no test runs two calculations at the same time',
   ['pvfactors/engine.py', V + 'calculator.py', V + 'vfmethods.py', V + 'aoimethods.py', G + 'pvarray.py', I + 'models.py'],
   [('no state outside of the objects of a calculation', 'pvfactors/engine.py, ' + V + 'calculator.py')],
   'systematic exploration of thread schedules of the real code under a controlled scheduler, with one preemption at every line and two at functions',
   'All lines with one preemption, at one to three occurrences (thorough: nine), functions with two. Calls to numpy are atomic steps.',
   ['results of both calculations']),
 P('P27', 'Models and classes written by the user are the ones used',
   'For every sky model that follows the interface of BaseModel (any list of components, any values and reflectivities on each surface, any sky luminance), the full mode returns the equilibrium of these values, absorbed irradiance is built from its absorbed components, and the fast mode uses its five irradiances. Runs from parameters build exactly the array, engine, sky model and view factor classes given, with the parameters given, serially and in parallel, and return what the report builder given returned.',
   ['inputs', 'configurations'],
   'all sky models of the interface (basis of one lit surface at a time), all subsets of classes replaced by ones of the user, all modes, serial and parallel',
   'the tests only use the classes of the package, or replace the sky model once',
   ['pvfactors/engine.py', 'pvfactors/run.py', I + 'base.py'],
   [('what the engine asks of a sky model', I + 'base.py: get_ts_modeling_vectors, get_summed_components, update_ts_surface_sky_term; pvfactors/engine.py: run_full_mode, _calculate_back_ts_segment_qinc'),
    ('classes and parameters of a run', 'pvfactors/run.py: run_timeseries_engine, run_parallel_engine')],
   'exhaustive enumeration of a basis of user sky models (one surface lit at a time, for each surface of each array and state) and of all subsets of user classes on the real code, against an independent solution or an engine put together by hand',
   'Complete over the basis, which decides all linear combinations, for the lattice of arrays and states. View factors of the reference.',
   ['values on surfaces, and reports']),
 P('P28', 'A timestep with a missing input never gets a number',
   'When irradiance, sun position, orientation or albedo of a timestep is missing (not a number), the incident, absorbed and reflected irradiance of the surfaces and their averages over sides, segments and ground are not numbers in that timestep; nothing is raised, and the other timesteps are not affected, for any set of missing inputs, any place in the batch, any model and mode, and any way to run. (A missing albedo alone, in the full mode: only that nothing is raised and nothing else is affected.)',
   ['inputs', 'configurations'],
   'all 127 sets of missing inputs x places in the batch x base states x models x modes x ways to run',
   'no test has more than a few missing values',
   ['pvfactors/engine.py', 'pvfactors/run.py', I + 'models.py', G + 'pvarray.py', G + 'timeseries.py', G + 'pvrow.py', G + 'pvground.py'],
   [('missing values go through geometry, sky model and solution', 'pvfactors/engine.py: fit, run_full_mode, run_fast_mode; ' + G + 'timeseries.py: get_param_weighted')],
   'exhaustive enumeration of the sets of missing inputs, places, states, models and modes on the real code, compared with runs where nothing is missing',
   'Complete over the sets of missing inputs, for the arrays and base states listed.',
   ['qinc, qabs, reflection of surfaces and their averages']),
]


def extra():
    """Properties added later live next to their checks"""
    return []


def main():
    props = PROPS + extra()
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in props:
            assert len(p['title']) <= 80, p['title']
            a = dict(files=p['files'],
                     mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                     hook_needed=None)
            if p['observe']:
                a['observe_at'] = p['observe']
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['quant']),
                why_tests_cant=p['why'], anchors=a)) + '\n')
    checks = []
    for p in props:
        checks.append(dict(
            property=p['id'],
            quick_cmd='mc/run.sh %s --tier quick' % p['id'],
            thorough_cmd='mc/run.sh %s --tier thorough' % p['id'],
            evidence_file='evidence/%s.json' % p['id'],
            technique=p['technique'], level='model_checking',
            level_note=p['note']))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(
            version=1, setup_cmd='mc/setup.sh',
            hooks=dict(guard='none',
                       enable='no hooks: the checks drive the public API of '
                       'the unmodified package', source_commits=[]),
            checks=checks, not_applicable=[],
            notes='every command also accepts --replay FILE with a file of '
            'replays/'), f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
