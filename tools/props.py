PROPS = []
NOT_APPLICABLE = {}


def P(id, title, statement, over, qtext, why, files, mech, note, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), qtext=qtext, why=why,
                      files=files.split(), mech=mech, note=note, **kw))


B = 'Bounded: holds for every member of the enumerated alphabet (see evidence rule), silent about values outside it. '

P('P01', 'An optical element changes only the photons that hit it',
  'Passing a photon list through any optical element leaves every property of every photon that misses the element exactly unchanged (newly added columns hold NaN, or -1 for integer id columns), keeps the number, order and metadata of the photons, and for photons that hit sets the position to the intersection point, the local coordinate columns to the point of impact and the id column to the id number of the element. '
  'Columns that an element does not document as output keep their value for hitting photons, too.',
  'inputs configurations', 'every hit/miss pattern (outside in y, outside in z, moving away, parallel, on the surface) of up to 4 photons, times every element class, times element placements',
  'Unit tests use one or two photons per element, nearly always all hitting; the property quantifies over every mixture of hits and misses for every element.',
  'marxs/optics/base.py marxs/optics/filter.py marxs/optics/detector.py marxs/optics/grating.py marxs/optics/mirror.py marxs/optics/scatter.py marxs/optics/multiLayerMirror.py marxs/missions/mitsnl/catgrating.py marxs/base/base.py',
  [('masking by the intersect array', 'marxs/optics/base.py:OpticalElement.process_photons'),
   ('per element processing', 'specific_process_photons of every element'),
   ('output column creation', 'marxs/base/base.py:SimulationSequenceElement.add_output_cols')],
  B + 'Randomness is replaced by fixed environment answers.')

P('P02', 'Photons are processed independently of each other',
  'For the same random numbers, the outcome for a photon in an optical element does not depend on which other photons are in the list nor on its place in the list: processing a list equals processing each photon alone, and permuting or subsetting the input permutes or subsets the output. An empty photon list is processed without error.',
  'inputs configurations', 'every permutation and every subset of a photon pool, for every element class and placement',
  'Tests compare fixed lists only; vectorised code can couple rows through broadcasting or index errors that one list does not show.',
  'marxs/optics/base.py marxs/optics/grating.py marxs/optics/mirror.py marxs/optics/scatter.py marxs/optics/multiLayerMirror.py marxs/math/polarization.py marxs/math/geometry.py marxs/missions/mitsnl/catgrating.py',
  [('vectorised element processing', 'specific_process_photons of every element'),
   ('parallel transport', 'marxs/math/polarization.py:paralleltransport_matrix')],
  B + 'Assumes all draws answered with one quantile per exploration (enumerated).')

P('P03', 'Photon probability stays in [0, 1], multiplies and never increases',
  'The probability of a photon is multiplied by the survival probability of each element it passes, so it never increases, never leaves the interval 0..1 and never becomes NaN; photons with probability 0 stay at 0. An element whose model yields a value outside 0..1 raises an error instead of storing it.',
  'inputs configurations histories', 'all chains of up to three elements of the registry over all energy x incidence angle x incoming-probability combinations; all out-of-range filter answers',
  'Tests check single factors; the property is over all chains, incoming probabilities and incidence angles.',
  'marxs/optics/base.py marxs/optics/filter.py marxs/optics/aperture.py marxs/optics/grating.py marxs/optics/mirror.py marxs/optics/multiLayerMirror.py marxs/missions/mitsnl/catgrating.py',
  [('multiplicative assignment and range check', 'marxs/optics/base.py:_assign_col_value'),
   ('filter range check', 'marxs/optics/filter.py')],
  B)

P('P04', 'Ray state stays consistent through every element',
  'After every element, directions are unit vectors with homogeneous component 0, positions have homogeneous component 1, and the polarization is a unit vector with homogeneous component 0 perpendicular to the direction, if this was true before. '
  'The transported polarization keeps its component perpendicular to the plane spanned by the old and the new direction, for all elements that bend rays without polarizing them.',
  'inputs histories configurations', 'all chains of up to three elements of the registry times ray pool times polarization angles times random answers',
  'Tests verify the norm for single elements and rays; the invariant must survive all chains and directions.',
  'marxs/optics/grating.py marxs/optics/mirror.py marxs/optics/scatter.py marxs/optics/multiLayerMirror.py marxs/math/polarization.py marxs/math/rotations.py',
  [('parallel transport', 'marxs/math/polarization.py:parallel_transport'), ('direction updates', 'specific_process_photons')],
  B)

P('P05', 'Flat surfaces report exactly the rays that hit them',
  'A finite plane reports an intersection if and only if the forward ray (including a ray starting on the surface) crosses the plane within the half-lengths along its y and z axes (borders included); the reported global point lies on the ray and on the plane, the local coordinates are the distances in mm from the centre along the local unit axes, and all coordinates of missing rays are NaN. '
  'This holds for every position, orientation, and (anisotropic) size of the plane, and for single rays as well as lists.',
  'inputs configurations', 'lattice of impact points (inside, on, and outside every border) x directions x start distances x placements',
  'Tests use a few rays on axis-aligned planes.',
  'marxs/math/geometry.py marxs/base/base.py',
  [('plane intersection', 'marxs/math/geometry.py:FinitePlane.intersect'), ('position keywords', 'marxs/base/base.py:_parse_position_keywords')],
  B)

P('P06', 'Cylinder surfaces report the first valid forward intersection',
  'A cylinder (full or limited in angle) reports a hit if and only if the forward ray crosses the wall inside the height and the angle range, and then returns the closest such crossing: global point on ray and surface, local angle and height in mm. '
  'Local base vectors are unit length, tangential along the angle and the axis and normal to the surface, and the parametric surface of the cylinder lies on the same surface.',
  'inputs configurations', 'lattice of rays (from inside, outside, crossing once, twice, tangential side, behind) x angle limits (incl. wrapping over pi) x placements',
  'Tests use a handful of rays; the case analysis over two candidate points, angle limits, height and direction is combinatorial.',
  'marxs/math/geometry.py marxs/math/utils.py marxs/optics/detector.py',
  [('quadratic intersection and choice of root', 'marxs/math/geometry.py:Cylinder.intersect'), ('angle limits', 'marxs/math/utils.py:angle_between')],
  B)

P('P07', 'Simulations are covariant under rigid motions',
  'Moving an optical element and the incoming photons together by any rigid motion moves the outgoing photons in the same way: positions, directions and polarizations are transformed, all other columns (probability, local coordinates, pixels, orders, angles, ids) stay the same.',
  'inputs configurations', 'every element class x a set of rigid motions (translations, generic rotations, axis permutations, reversals) x photon pool',
  'Tests place almost all elements at the origin in the default orientation; frame mistakes are invisible there.',
  'marxs/optics/base.py marxs/optics/grating.py marxs/optics/mirror.py marxs/optics/scatter.py marxs/optics/multiLayerMirror.py marxs/math/geometry.py marxs/missions/mitsnl/catgrating.py',
  [('use of pos4d / local bases', 'all specific_process_photons')],
  B + 'Gaussian scatter with randomised azimuth is compared through frame-independent quantities only.')

P('P08', 'Position keywords define one consistent placement of every element',
  'position, orientation and zoom given separately place an element exactly like the equivalent 4x4 matrix (translation times rotation times zoom); mixing both forms, non-positive zoom, a zoom of wrong length or a singular matrix raises an error; unknown keywords raise an error. The named vectors of the geometry (center, v_x.., e_x.., plane) agree with that matrix.',
  'configurations inputs', 'every subset of the four keywords with valid and invalid values over element classes and placements',
  'Tests cover isolated combinations.',
  'marxs/base/base.py marxs/math/geometry.py marxs/optics/base.py',
  [('keyword parsing', 'marxs/base/base.py:_parse_position_keywords'), ('label access', 'marxs/math/geometry.py:Geometry.__getitem__')],
  B)

P('P09', 'Parallel elements: final placement depends only on the current settings',
  'In a parallel arrangement the absolute position of element i is always (global position x global uncertainty x element position i x element uncertainty i), whatever sequence of moves, uncertainty changes and regenerations led there, and the default global uncertainty of one object is not affected by another object. Moving the centre of the group keeps every element at the same absolute place.',
  'histories configurations', 'all sequences up to depth 4 of {set global uncertainty, set element uncertainties, set one element position, regenerate, move centre} on a parallel group, with every state compared with a matrix model',
  'Tests apply one operation to one configuration.',
  'marxs/simulator/simulator.py',
  [('composition of matrices', 'marxs/simulator/simulator.py:Parallel.calculate_elempos, Parallel.generate_elements, Parallel.move_center')],
  B, technique='explicit-state breadth first search of operation sequences on the real object against a matrix model')

P('P10', 'Containers run steps in documented order and search their contents',
  'A sequence passes photons through pre-steps, element and post-steps for each element in list order; a parallel arrangement numbers its elements and gives per-element arguments to the right element, and photons interact with each parallel element as they would with that element alone. '
  'Looking up elements by class returns all matching elements in the tree (respecting the subclass and the stop-at-first-level options), and elements can be traversed and counted consistently; a flat stack applies all layers at the same intersection.',
  'programs configurations', 'all container trees up to depth 3 with up to 3 children over an alphabet of element classes, all per-element argument forms, all pre/post step subsets',
  'Tests use one hand written tree.',
  'marxs/simulator/simulator.py marxs/optics/base.py',
  [('container call', 'marxs/simulator/simulator.py:Sequence.__call__, Parallel.__call__'), ('class search', 'marxs/simulator/simulator.py:BaseContainer.elements_of_class'), ('flat stack', 'marxs/optics/base.py:FlatStack')],
  B, technique='exhaustive enumeration of container programs against a recursive reference interpreter')

P('P11', 'Instances do not share state and constructors do not alter their arguments',
  'Creating, using, moving or displaying one element never changes the behaviour of any other element created before or after, and dictionaries, lists, tables and arrays passed by the caller are not modified by constructors or calls (except keyword dictionaries documented as consumed and the photon list itself).',
  'histories programs', 'all ordered pairs (create A, use A, create B, use B, use A again) over the element registry and over element settings',
  'Tests run each class in isolation, so leakage through class attributes or default arguments is not seen.',
  'marxs/math/geometry.py marxs/optics/base.py marxs/base/base.py marxs/simulator/simulator.py marxs/missions/mitsnl/catgrating.py marxs/visualization/utils.py',
  [('instance copies of class level dictionaries', 'marxs/math/geometry.py:Geometry.__init__; marxs/base/base.py:MarxsElement.__init__')],
  B)

P('P12', 'Detector pixels map one-to-one to positions',
  'For a flat detector the pixel coordinate is position divided by pixel size plus the centre pixel, so that the corner pixel centre is (0, 0), the local coordinates are the mm offsets from the centre, and the whole face maps to -0.5..npix-0.5; a circular detector maps arc length and height in the same way. The number of pixels is the rounded size over pixel size, with a warning if and only if the size is not an integer multiple.',
  'inputs configurations', 'all pixel corners and centres of detectors with several sizes, pixel sizes and placements',
  'Tests check one detector and one or two photons.',
  'marxs/optics/detector.py marxs/math/geometry.py',
  [('pixel mapping', 'marxs/optics/detector.py:FlatDetector, CircularDetector')],
  B)

P('P13', 'Diffraction follows the grating equation',
  'For every flat or cylindrical grating the outgoing direction conserves the component along the grooves and changes the component perpendicular to the grooves by exactly order x wavelength / grating constant at the point of impact, with unit length and the side of the surface given by transmission or reflection; the sign convention, groove angle, variable grating constant, blaze angle and its modifier behave as documented. Order zero leaves the direction unchanged in transmission and mirrors it in reflection.',
  'inputs configurations', 'orders -3..3 x energies x incidence directions (both sides) x groove angles x grating constants (constant, position dependent) x transmission/reflection x classes x placements',
  'Tests cover selected orders for perpendicular incidence.',
  'marxs/optics/grating.py marxs/missions/mitsnl/catgrating.py',
  [('grating equation', 'marxs/optics/grating.py:FlatGrating.diffract_photons'), ('sign conventions', 'order_sign_convention'), ('groove system', 'e_groove_coos')],
  B)

P('P14', 'Order selection reproduces the tabulated probabilities',
  'Grating order selectors draw order m with its tabulated (or interpolated) relative probability and return the total probability of all orders as survival probability, for every random number in [0,1); orders with zero probability are never drawn. Invalid tables or probabilities are rejected at construction.',
  'inputs schedules', 'complete quantile grid for the random answers x energies x blaze angles x selectors',
  'Tests draw a few random samples; only the full quantile grid decides the distribution and its edges.',
  'marxs/optics/grating.py marxs/missions/mitsnl/catgrating.py marxs/missions/mitsnl/tolerances.py',
  [('selection from cumulative probability', 'OrderSelector.__call__, EfficiencyFile.__call__, InterpolateEfficiencyTable.__call__')],
  B)

P('P15', 'Random draws from a tabulated distribution follow it exactly',
  'Draws from an arbitrary piecewise constant density land in each bin with probability proportional to density times bin width, uniformly inside the bin (or exactly at the upper edge if in-bin randomization is off), never outside the covered range and never in bins of zero density, for every random number in [0,1), with and without internal sorting. Invalid input is rejected.',
  'inputs schedules configurations', 'all small tables (up to 4 bins, densities from {0,1,2,large}, several bin widths) x sort/randomize flags x full quantile grids incl. the extremes',
  'Tests compare histograms of random samples.',
  'marxs/math/random.py',
  [('inverse cdf lookup', 'marxs/math/random.py:RandomArbitraryPdf')],
  B)

P('P16', 'Sources generate complete and correctly distributed photon lists',
  'For every exposure time, flux, area, energy and polarization specification a source returns a list with time, energy, polarization angle and probability columns, times sorted inside the exposure at the specified rate, energies and polarization angles following the specification, and probability one; generation always terminates and zero or tiny exposures give valid (possibly empty) lists. Unusable specifications raise an error.',
  'inputs configurations schedules', 'all combinations of flux/energy/polarization specification kinds x exposures x enumerated random answers',
  'Tests sample few combinations with ordinary random numbers.',
  'marxs/source/basesources.py',
  [('arrival times', 'marxs/source/basesources.py:poisson_process'), ('spectrum and polarization draws', 'Source.generate_energies, Source.generate_polarization')],
  B)

P('P17', 'Sky sources place photons with the documented spatial distribution',
  'Photon sky coordinates follow the shape of the source exactly: a point source at its coordinates, extended sources (disk, sphere, Gaussian, beta-like radial distributions, symbol) around their centre with the documented radial law, uniform in position angle, at every place of the sky including near the poles and the 0/360 degree meridian.',
  'inputs schedules configurations', 'quantile grids for all draws x centres over the whole sky x sizes',
  'Tests check coarse histograms at one sky position.',
  'marxs/source/basesources.py',
  [('offset sampling', 'RadialDistributionSource, DiskSource, SphericalDiskSource, GaussSource, SymbolFSource')],
  B)

P('P18', 'Pointing maps sky coordinates to spacecraft directions and polarization',
  'A fixed pointing maps photons from the target to travel along the negative reference axis of the spacecraft, is a proper rotation of the sky sphere (angles between sources are conserved), with the roll rotating about the target axis, and translates polarization position angles (measured North through East) into vectors perpendicular to the ray; jitter tilts each ray by the drawn angle in a drawn azimuth. The pointing is recorded in the metadata.',
  'inputs configurations schedules', 'grid of targets x rolls x offsets x polarization angles x reference transforms x enumerated jitter answers',
  'Tests use few coordinates with zero roll.',
  'marxs/source/pointing.py marxs/math/polarization.py',
  [('sky to spacecraft rotation', 'FixedPointing.photons_dir, photons_pol'), ('jitter', 'JitterPointing')],
  B)

P('P19', 'Apertures fill their open area uniformly and account for projection',
  'Entrance positions of photons are uniformly distributed over the open area of the aperture (rectangle, disk, ring, sector; any placement) and lie on it, the survival probability is the cosine of the angle between ray and aperture axis clipped at zero, and the reported area is the geometric area. In a multi-aperture each photon is assigned to exactly one aperture in proportion to the areas and gets its id.',
  'inputs schedules configurations', 'full quantile grids of the draws x aperture shapes x placements x incoming directions',
  'Tests check ranges of random samples.',
  'marxs/optics/aperture.py marxs/math/geometry.py',
  [('position sampling', 'RectangleAperture/CircleAperture.generate_local_xy'), ('aperture choice', 'MultiAperture.__call__')],
  B)

P('P20', 'Polarization transport is an exact isometry',
  'Converting polarization angles to vectors follows the documented convention for every direction; parallel transport matrices map the old to the new direction, are orthogonal, keep the component perpendicular to the plane of both directions and apply a supplied Jones matrix in the s,p frame; unchanged directions leave the polarization unchanged (or NaN on request). The reflection matrix equals the Householder reflection between both directions.',
  'inputs', 'all pairs of directions from a 50 vector sphere set (incl. poles, parallel, antiparallel and nearly parallel pairs) x polarization angles x Jones matrices',
  'Tests use a few vectors.',
  'marxs/math/polarization.py',
  [('transport matrix', 'paralleltransport_matrix, parallel_transport, Q_reflection, polarization_vectors')],
  B)

P('P21', 'Coordinate and rotation algebra obeys its laws',
  'Homogeneous conversion round trips and rejects mixtures; affine helpers compose translation, zoom and rotation correctly; axis-angle rotation matrices and the two-vector rotation are proper rotations with the documented action; angle intervals are treated cyclically; Pluecker line and plane intersections agree with direct vector algebra, including parallel and contained lines.',
  'inputs', 'lattices of small integer and generic vectors, all ordered pairs/triples; angle grid from -4pi to 4pi in pi/6 steps for all borders',
  'Tests sample single values.',
  'marxs/math/utils.py marxs/math/rotations.py marxs/math/pluecker.py',
  [('utilities', 'e2h, h2e, angle_between, anglediff, ex2vec_fix, axangle2mat, intersect_line_plane')],
  B)

P('P22', 'Rowland torus: parametric, quartic and normal descriptions agree',
  'Points from the parametric description solve the quartic torus equation, converting points back gives the angles again, the surface normal is perpendicular to both tangents, and the solver returns a point on the torus with the requested fixed coordinates, for every position, orientation and radii of the torus.',
  'inputs configurations', 'theta x phi grid x radii (spindle, horn, ring) x placements x all solver coordinate choices',
  'Tests check one torus at few angles.',
  'marxs/design/rowland.py',
  [('torus maths', 'marxs/design/rowland.py:RowlandTorus')],
  B)

P('P23', 'Arrays of optical elements are placed on the Rowland torus',
  'Every element of a RectangularGrid, CircularMeshGrid or GratingArrayStructure has its centre on the requested surface of the Rowland torus (for any radii R, r and any placement of the torus), at the grid position that follows from the requested ranges and element spacing (rows and columns centred in the range, rings centred between the radii, elements evenly spaced inside of the angular limits, also when the limits wrap around 2 pi); the number of elements follows from the ranges, ids count from zero; element axes are right-handed with the first axis along the requested normal direction (default: focal point; normal_spec as direction, point or function) and the second along parallel_spec projected into the element; element sizes are kept, arguments are not modified, and moving the array moves all elements.',
  'configurations', 'structures (grating array, detector array, rectangular/circular grid, circular measurement) x radius/angle/size ranges x normal specifications x placements',
  'Tests build one or two configurations.',
  'marxs/design/rowland.py',
  [('element placement', 'GratingArrayStructure, LinearCCDArray, RowlandCircleArray, RectangularGrid, CircularMeshGrid')],
  B)

P('P24', 'Tilted and double tilted Rowland designs satisfy their defining geometry',
  'design_tilted_torus returns a torus in the requested x-y plane that contains the focal point (origin) and the on-axis grating at distance f, seen under alpha at the grating with the hinge at angle beta, mirrored for mirrored angles and scaling with f; double-tilted designs (double_rowland_from_channel_distance) share R, r and the on-axis grating distance, with the optical axis of each channel and the detector torus at the documented offsets; add_offset_double_rowland_channels moves exactly the named channels by their offset every time it is applied and does not modify its inputs; the radius of the photon shell is the requested percentile of the radii (at the given distance) of the photons from the selected mirror shells and leaves the photon list unchanged.',
  'configurations inputs', 'grid over blaze, alpha, beta angles, radii, offsets and channel sets',
  'Tests evaluate one mission design.',
  'marxs/design/rowland.py',
  [('design equations', 'design_tilted_torus, double_rowland_from_channel_distance, add_offset_double_rowland_channels')],
  B)

P('P25', 'OGIP response matrices survive encode, decode and file round trips',
  'A response matrix encodes every redistribution matrix losslessly (groups of consecutive channels per energy, any first-channel convention), decoding and writing/reading the file returns the same matrix, and derived matrices (Gaussian, detector filtered) have the documented normalisation; effective areas and responses keep energies, units and header keywords.',
  'inputs histories', 'all 0/1 matrices with up to 2 energies x 5 channels, all group patterns with up to 8 channels, weighted values, both first-channel conventions, compressed and uncompressed, then file round trips',
  'Tests use one real file and one Gaussian.',
  'marxs/reduction/ogip.py',
  [('encode/decode', 'marxs/reduction/ogip.py:RMF')],
  B)

P('P26', 'Table lookups by column or default key behave like a consistent mapping',
  'Tables whose columns may be stored as header keys return per-row values if the values differ and the common value otherwise: after any sequence of assignments (scalar, constant or varying sequence, element, slice, mask, or through a column object obtained earlier), deletions, row selections and copies, every name reads back the values last assigned, is stored either as a column or as a key but never both, and unrelated columns, keys, rows, units, and earlier copies are not affected.',
  'histories', 'all operation sequences up to depth 3 (one name, 23 operations) and 2 (two names), thorough: depth 4, for values of type int, float, bool, string and quantity, against a dictionary model',
  'Tests exercise one operation each.',
  'marxs/reduction/ogip.py',
  [('mapping', 'marxs/reduction/ogip.py:ColOrKeyTable, ColOrKeyColumn')],
  B, technique='explicit-state search of operation sequences of the real class against a dictionary model')

P('P27', 'Order sorting assigns event energies to orders and scales areas consistently',
  'Order sorting regions in energy and their widths are consistent with each other for every sorter, whichever of the two it defines, and independent of the unit (energy or wavelength); fixed-fraction regions contain the requested fraction of the detector energy distribution, fractional-distance regions of neighbouring orders at the same detector position never overlap and touch for fraction 1; the factor for a true order is the integral of the Gaussian detector response at the true energy over the region of the nominal order and zero for orders on the other side; applying order sorting to an effective area file multiplies the original area exactly once by that factor even after earlier applications, keeps energies, unit and header, leaves the input untouched and never silently overwrites; the batch driver writes exactly the pairs of nominal and true order for which an input exists.',
  'inputs configurations histories', 'energy grids in 4 units x orders -4..4 x true orders x 2 resolution tables x 8 sorters; all sequences of sorter x order up to depth 2 (thorough 3); all sets of input files x offsets',
  'Tests check a few orders for one resolution.',
  'marxs/reduction/osip.py marxs/optics/detector.py',
  [('order sorting', 'marxs/reduction/osip.py:OSIPBase and subclasses'), ('resolution', 'marxs/optics/detector.py:CCDRedistNormal')],
  B)

P('P28', 'Tolerancing applies exactly the requested misalignment and then resets it',
  'moveglobal, moveindividual, wiggle and moveelem change exactly the requested degrees of freedom (translation in mm, rotation about the x, then y, then z axis) of exactly the elements passed in (one or any list), the result of a call does not depend on calls before (same kind of move replaces the earlier one, global and individual moves combine), calling them with all zeros restores the original position, and a moved element processes photons like an element constructed in that place, including all layers of a stack; wiggle, varyperiod and bar tilts use independent draws of the requested distribution per element; varyattribute/varyorderselector act like constructing the element with that value and reject unknown attributes; run_tolerances and run_tolerances_for_energies(2) return one row per parameter set (and energy) in input order equal to a run with a fresh instrument, apply the requested reset, and do not modify the photons or parameters passed in; generate_6d_wigglelist and select_1dof_changed enumerate and select exactly the one-parameter-at-a-time settings.',
  'histories configurations', 'all ordered sequences of up to 2 calls from 18 settings and 3 (thorough 4) calls from a reduced set for containers of two placements and two element types against a matrix model; every optical element x placement x sequences of moves against an element built there; all parameter lists up to length 3 for the drivers against fresh instruments',
  'Tests run single settings.',
  'marxs/design/tolerancing.py marxs/design/uncertainties.py marxs/missions/mitsnl/tolerances.py',
  [('moves', 'moveglobal, moveindividual, wiggle, moveelem, varyperiod, varyorderselector, varyattribute'), ('drivers', 'run_tolerances, run_tolerances_for_energies, CaptureResAeff')],
  B, technique='exhaustive operation sequences against a matrix model and a fresh-object differential oracle')

P('P29', 'Resolving power and effective area follow their definitions',
  'Effective area per order is the sum of probabilities of photons with that order (for CaptureResAeff_CCDgaps only those with filter column >= 0) divided by the number of simulated photons, times the aperture area; detected_fraction is the same sum over the length of the list. Resolving power per order is the distance of the mean from the zeroth order (given or measured from the list) divided by 2.3548 times the 3-sigma-clipped standard deviation, nan for fewer than 20 photons, with AnalysisError if the zeroth order cannot be measured; photons that are absorbed (probability 0), masked or non-finite do not influence it in CaptureResAeff and resolvingpower_per_order (every kind of detector); the robust variant returns the worst case per order with its position and width. average_R_Aeff and weighted_per_order average with effective area or interpolated efficiency as weight and ignore missing values. Results do not depend on photon order, units or the sign and scale of the coordinate; find_best_detector_position finds the focus of a cone of rays for any detector orientation. Input lists are not modified.',
  'inputs', 'all photon tables of up to 3 (thorough 4) rows over order x probability x CCD with permutations; all combinations of 6 photon counts over 3 orders x line shape x zero position; all small tables for averages; focus x orientation; permutations of orders x kinds of detectors for the ray-trace per order',
  'Tests compare one simulated sample.',
  'marxs/analysis/gratings.py marxs/analysis/analysis.py',
  [('definitions', 'resolvingpower_per_order, effectivearea_from_photonlist, CaptureResAeff')],
  B)

P('P30', 'Recording and projection helpers report the true photon history',
  'A KeepCol recorder used as pre- or postprocess step stores an independent copy of the column at every step it is called (KeyError if missing), in order, appended over runs, and later changes of the photons do not alter the record; format_positions returns euclidean positions per photon and step, dropping only steps where no photon moved more than atol since the last kept one. Propagator and propagate move every photon along its direction by exactly the requested distance (negative: backwards) and change nothing else. ProjectOntoPlane reports the position of each photon relative to the plane centre along the two unit vectors of the plane without changing other columns; facet_table lists id, position, projected position, radius and angle of each facet and does not modify container or plane. monoenergetic_astrosimulation sends the requested number of on-axis photons with the requested energy (any spectral unit) through the instrument once, for any reference frame.',
  'histories inputs', 'all element sequences up to depth 3 x recorder position x column; all position histories up to length 4; ray grid x all pairs of distances; placements x points; energies x counts x frames',
  'Tests use a single record.',
  'marxs/simulator/simulator.py marxs/analysis/analysis.py marxs/analysis/coords.py marxs/analysis/gratings.py',
  [('recording', 'simulator.KeepCol, Propagator'), ('projection', 'analysis.coords')],
  B)

P('P31', 'CAT grating stacks apply each physical layer exactly once',
  'A CATL1L2Stack diffracts on the membrane (order from the order selector), multiplies by exp(-(2 pi sigma/d)^2)^(order^2) (QualityFactor), then with the open fraction 1 - barwidth/period diffracts on L1 with order_L1, otherwise (bar) keeps direction and polarization, sets order_L1 to 0 and multiplies by the transmission of silicon with the depth of the bar; multiplies by the L2 open area ((period-barwidth)/period)^2 minus the shadow bardepth*(period-barwidth)*sin(incidence angle)/(hexagon area sqrt(3)/2 period^2), and blurs by the L2 Airy width 1.22*0.4*arcsin(wavelength/(period-barwidth)); L1 grooves are perpendicular to those of the membrane for any groove angle and all layers act at the one common intersection point. Dimensions may be given in any unit of length; barwidth >= period is rejected. catsupportbars sets the probability to 0 exactly for photons that did not pass a facet.',
  'inputs configurations schedules', 'per layer and for the full stack: orders x energies x incidence directions x groove angles x dimension dictionaries x quantiles x placements against a layer-by-layer reference; all facet patterns up to 4 photons',
  'Tests check isolated layers with default dimensions.',
  'marxs/missions/mitsnl/catgrating.py marxs/optics/grating.py',
  [('layers', 'QualityFactor, L1, L2Abs, L2Diffraction, CATL1L2Stack')],
  B)

P('P32', 'Scatter elements tilt rays by exactly the drawn angle',
  'RadialMirrorScatter rotates each ray by the drawn in-plane angle within the plane spanned by the ray and the vector from the centre to the last interaction point, and by the drawn perpendicular angle out of that plane; the two angles are independent Gaussian draws with the requested sigma (any angle unit, also when set later) and are recorded in the inplanescatter and perpplanescatter columns; rays through the centre use some plane containing the ray. RandomGaussianScatter tilts each ray by the (signed) drawn angle, recorded in its scatter column, with a uniform azimuth. Zero width leaves rays unchanged; callable widths are evaluated for exactly the photons that hit; probability is kept and the polarization stays normalized and perpendicular to the ray. ScatterPerChannel scatters only photons with min_id <= xou < max_id and never changes positions.',
  'inputs schedules configurations', 'quantile grid of the draws x ray directions (incl. along the axes) x widths x placements',
  'Tests check averages of random samples.',
  'marxs/optics/scatter.py marxs/math/rotations.py marxs/missions/athena/spo.py',
  [('scatter', 'RadialMirrorScatter, RandomGaussianScatter, ScatterPerChannel')],
  B)

P('P33', 'Flat polarizing mirrors reflect specularly with Fresnel weighting',
  "A FlatBrewsterMirror reflects specularly from either side; the probability is multiplied by Rs cos^2 + Rp sin^2 of the angle between polarization and the s direction (Brewster: s only), where the fresnel hook returns the reflection probabilities of the photons that hit, and the reflected field is the amplitude combination -sqrt(Rs) E_s s + sqrt(Rp) E_p p' (normalized). MultiLayerEfficiency interpolates its tables at the local y position measured from the edge of the mirror (X(mm) = y + half size) and applies a Gaussian in wavelength (FWHM(nm) around Peak lambda) with height Peak (percent) divided by the polarization of the calibration beam at the photon energy; FWHM 0 gives probability 0. MultiLayerMirror does both. Results do not depend on the order of photons and photons that miss are untouched.",
  'inputs configurations', 'incidence angles x azimuths x polarization angles x energies x impact points x placements x tables',
  'Tests use a few fixed photons.',
  'marxs/optics/multiLayerMirror.py',
  [('reflection', 'FlatBrewsterMirror.specific_process_photons'), ('efficiency', 'MultiLayerEfficiency')],
  B)

P('P34', 'Ideal lenses focus rays where their optics prescribe',
  'PerfectLens: with d_center_optical_axis = a, the optical axis crosses the lens plane at centre - a * e_z (e_z is the direction of the local z axis), and a ray of direction dir that hits the lens is sent to the point (axis crossing + focallength * dir), so that all parallel rays meet in one point. The probability is multiplied with refl(energy, alpha/4)**2 for the deflection angle alpha, if a reflectivity is set. ThinLens: the ray is turned towards the lens centre, in the plane of ray and the vector from hit to centre, by the angle distance/focallength, with no absorption; the central ray is not changed. Position is the point of intersection, polarization is parallel transported, energy and photons that miss the lens are not changed. This holds for every placement and orientation and for rays arriving on either side.',
  'inputs configurations', 'impact grid x field angles x focal lengths x axis offsets x placements',
  'Tests check one on-axis beam.',
  'marxs/optics/mirror.py',
  [('lens', 'PerfectLens, ThinLens')],
  B)

P('P35', 'Chandra dither, detector coordinates and grating placement follow their specs',
  'The Lissajous dither adds amplitude·sin(2π t/period + phase) to right ascension (scaled by cos of the declination), declination and roll; each photon enters relative to the pointing of its time, for every roll and orientation of the mission frame, and with amplitude zero the pointing is identical to a fixed pointing; aspect solutions sample the same motion. On every ACIS chip, chip, tiled-detector, detector and (for roll zero) sky pixel coordinates are the documented functions of the hit position for any set of chips, aimpoint and detector offset, and the SIM and instrument keywords in the header agree with that setup. Event files contain value ranges and a WCS that recovers the position of the source, keep the existing keywords and columns, and grating facets, mirror and aperture are placed as tabulated.',
  'inputs configurations', 'time grids x amplitude/period/phase x roll x pointings; all ten chips x pixel lattice x aimpoints x offsets x chip subsets; all HETG facets; header and column permutations',
  'Tests evaluate isolated numbers.',
  'marxs/missions/chandra/dither.py marxs/missions/chandra/det_acis.py marxs/missions/chandra/data.py marxs/missions/chandra/hess.py',
  [('dither', 'LissajousDither'), ('ACIS', 'ACISChip, ACIS')],
  B)

P('P36', 'Photon list metadata and consistency helpers tell the truth',
  'Version tagging writes origin, creator, program version, date and all user keywords (those of the call win over those of the constructor, and never leak into the next call) without dropping existing metadata or changing photons; the metadata check raises an error exactly if a compared keyword differs or is present in only one list (or is missing in both, when that is not allowed) and the energy check exactly if energies differ; the table-to-grid helper accepts exactly complete row-by-row grids and puts each value at its grid place; the helper for monoenergetic simulations passes the requested number of on-axis photons of that energy through the instrument in any mission frame; documentation is inherited from the first documented parent and unknown constructor arguments are rejected.',
  'inputs', 'all pairs of dictionaries over 4 values x 2 keys; all tables with up to 6 rows over a small alphabet, all permutations of grids; all keyword combinations; all energy columns of up to 3 photons',
  'Tests check single valid and invalid examples.',
  'marxs/base/base.py marxs/utils.py marxs/analysis/run_helpers.py',
  [('metadata', 'TagVersion, check_meta_consistent, check_energy_consistent'), ('grids', 'tablerows_to_2d')],
  B)

P('P37', 'Display geometry and plot output show the objects where they are',
  'Triangulations for plotting (plane with hole, apertures for any opening angle, inner radius and display factor) cover every point of the plate exactly once and no point of the opening; combining triangulations keeps all triangles; box corners (also half boxes), tori, surfaces and rays in the three.js, JSON and X3D output are at the coordinates of the object for every placement, with the colours of the colour map; containers are flattened in order and the scene passed in is extended; display settings fall back to the geometry, plotting does not change them, the data or the property dictionaries, and changing them on one object does not affect others; integer and 8-bit colours convert exactly.',
  'inputs configurations histories', 'polygon pairs with 3..12 vertices, aperture forms x angles x factors x placements, box halves, display operation sequences up to depth 4 (6), all 8-bit values per colour channel, all backends',
  'Tests check one square and one circle.',
  'marxs/visualization/utils.py marxs/math/geometry.py',
  [('triangulation', 'plane_with_hole, combine_disjoint_triangulations'), ('display', 'DisplayDict, get_obj_name, get_color')],
  B)

P('P38', 'Modified gratings keep their position and follow the prescribed surface',
  'generate_facet_uncertainty: each of the n matrices is the translation offset + sigma*draw combined with the rotation by (offset + sigma*draw) around x, y and z (product Rz Ry Rx), with six independent normal draws. bend_gratings: the grating becomes part of a cylinder of the given radius that touches the flat grating in its centre and is curved towards -x of the grating frame around an axis parallel to z (centre of curvature at local x=-radius); it keeps its angular/linear extent, grating constant, orders and groove angle, rays are diffracted with local normal and grooves; other gratings are not changed. chirp_gratings with NumericalChirpFinder (flat gratings): the period is corrected across the grating such that rays from the focal point direction at the given energy and order reach the same detector coordinate as the central ray for all tested positions, independent of the number of positions; the period does not vary along the grooves, equals the base value in the centre, and the order_selector set before is restored.',
  'inputs configurations schedules', 'quantile grids of draws x sigma vectors; gratings at several places x radii; chirp at several positions',
  'Tests evaluate one grating.',
  'marxs/design/uncertainties.py marxs/design/bendgratings.py',
  [('misalignment', 'generate_facet_uncertainty'), ('bending and chirp', 'bend_gratings, chirp_gratings, NumericalChirpFinder')],
  B)

P('P39', 'Line spread parametrisations and response matrices reproduce their profiles',
  "For any number of Gaussian and Lorentzian components, extraction widths and wavelengths, the model made from a line-spread table (directly or by interpolation, in memory or from file) is the enclosed fraction times the normalized sum of the tabulated profiles, exactly at every node and between nodes for parameters linear in width and wavelength; conversion back to table convention returns the same parameters; flattening keeps all components in order; tables have the documented columns, shapes and keywords; response matrices made from a table hold in each row the integrals of the profile over every channel, in increasing energy, above the threshold; and a histogram that is exactly a profile is fitted with that profile's parameters.",
  'inputs configurations', '7 component lists x 5 table sizes x 2 parameter forms, all nodes and intermediate points x interpolation kinds x rows; 4 kinds of channel edges x widths x thresholds',
  'Tests fit one simulated profile.',
  'marxs/reduction/lsfparm.py',
  [('encoding', 'marxs/reduction/lsfparm.py')],
  B)

P('P41', 'Laboratory sources emit into the documented solid angle',
  'LabPointSourceCone: photons start at the position and their unit directions fill the cone of half_opening around the direction (any direction, including along coordinate axes; up to the full sphere) uniformly in solid angle and never leave it. FarLabPointSource: photons start uniformly distributed on the rectangular aperture given by position, orientation and zoom, with unit directions that point away from the source position. For both: polarization vectors are unit vectors perpendicular to the direction and turn by the polarization angle; number, time, energy, polarization angle follow flux, energy, polarization specifications; arguments are not changed.',
  'inputs schedules configurations', 'quantile grid of draws x positions x cone axes x opening angles',
  'Tests check a few random samples.',
  'marxs/source/labSource.py',
  [('emission', 'FarLabPointSource, LabPointSourceCone')],
  B)

P('P42', 'Obstructions and mission mirrors act on exactly the photons that pass them',
  'Rod: a photon is blocked (probability 0, hitrod set) exactly if its forward path crosses the curved surface of the cylinder with half length zoom_x along its x axis and radius zoom_y=zoom_z; booms: rods join the corners of the bays (longerons, battens, diagonals) as given by boom_dimensions, without changing class attributes, and block photons that cross any of the rods. Baffle: photons that miss the rectangular hole get probability 0, all others are not changed. catsupportbars and spomounting remove exactly photons with a negative facet / module number. Athena SPOs: each module gets its photons and id, focusses to the common focus with the reflectivity applied twice and the plate loss; photons between modules are removed. Lynx: aperture shells get photons by area and the serial number of the shell as id, and the metashell efficiency is interpolated for the shell that the photon passed.',
  'inputs configurations', 'ray grid around rods and booms of several geometries compared with line-to-segment distances',
  'Tests shoot few rays.',
  'marxs/missions/arcus/boom.py marxs/missions/athena/spo.py marxs/missions/mitsnl/catgrating.py marxs/optics/baffles.py',
  [('boom', 'marxs/missions/arcus/boom.py'), ('supports', 'catsupportbars, spomounting')],
  B)

P('P40', 'Arcus ray trace, camera, responses and analysis agree with the configuration',
  'For every configuration, channel set and order: rays are focussed by the mirror modules of their channel, diffracted by exactly the gratings that cover them (ids offset by channel, orders, blaze angle, grating period, mirrored geometry), end on the CCD of the two detector strips that the outgoing ray crosses (numbered 1-16 along the strips), on the circle of the Rowland torus and on the focal plane at the calculated place, with the product of the efficiencies as probability. OnCCD says which wavelengths fall on a CCD; mkarf gives area x filters x CCD coverage summed over the given channels for any edge order or unit; RMF rows are normalised; file names are determined by the keywords. Zero-order positions, tangent-plane resolution, effective area and resolving power in analysis of simulations select the right photons; misalignment moves exactly the named elements. Regular grids put gratings of each channel on its Rowland torus between mirror and focus, over all its mirror modules, blazed in the direction of the mirrored channel; model variants with a boom or without filters and camera see the same photons at the same places; the README of a set of responses names its version and files.',
  'inputs configurations', 'own ray algebra and own response calculation with a small calibration database',
  'The Arcus tests need a calibration database that is not part of the repository and are skipped.',
  'marxs/missions/arcus/arcus.py marxs/missions/arcus/arfrmf.py marxs/missions/arcus/analyze_grid.py marxs/missions/arcus/load_csv.py marxs/missions/arcus/spo.py marxs/missions/arcus/utils.py marxs/missions/arcus/defaults.py',
  [('arcus', 'marxs/missions/arcus'), ('arf', 'mkarf, mkrmf, OnCCD, MirrGrat'), ('grid', 'analyze_grid')],
  B)

P('P43', 'Lynx and AXIS ray traces, chirp and responses agree with the configuration',
  'For every configuration (focal length, mirror geometry, grating size and tilt, blaze, detector range, subset of metashells, order) of Lynx and AXIS: photons from every shell are focussed to the focal point, multiplied by the mirror efficiency / reflectivity at their energy and angle and keep their shell number; they are diffracted by exactly the grating of their metashell that covers them (positions on the Rowland torus, blaze, period, quality factor, support structures); photons without grating go to the zero order with probability as configured; they end on the CCD of the Rowland circle they cross (number, coordinates), and on the circular and imaging detectors at the calculated place, with columns of one detector not overwritten by another. Chirp changes only the period as function of position and improves the resolution where it is asked for. Alignment budgets are scaled and moves apply exactly to the named elements. Tables of the mission are loaded unchanged.',
  'inputs configurations', 'own ray algebra for all shells x lattices of points on gratings x orders x directions; configurations with other sizes; own copies of the calibration tables',
  'The Lynx tests only build the instrument once; the AXIS tests are skipped without a calibration database.',
  'marxs/missions/lynx/lynx.py marxs/missions/lynx/mirror.py marxs/missions/lynx/load_csv.py marxs/missions/AXIS/AXIS.py',
  [('lynx', 'marxs/missions/lynx'), ('axis', 'marxs/missions/AXIS')],
  B)

P('P44', 'Figures, color tables and 3D pages show exactly the data they are made from',
  'plot_wiggle draws for every wavelength one line through all rows of the table where only the given parameter differs from zero, sorted by that parameter (rotations in degrees), resolving power on one and effective area on the other axis with column names, labels, title, background color as requested, for any kind of second axis, without changing the table; load_and_plot does so for all six parameters of a file with the color given by the user or else the one for its name. OrderColor is symmetric in the sign of the order (with different line style) and constant for repeated calls. plot_LSFfit shows data, model and every component of nested models at bin centres. HTML pages contain every node of the scene, a button per viewpoint, the size and the scripts and style sheets of the selected viewer; archives contain the page with references to local files and all of them, and after any failure during writing the scene is as before, no temporary files stay.',
  'inputs configurations crash points', 'all combinations of parameters, axis types, colors, row orders, viewers, archive formats and failing steps',
  'Figures are not tested; archive tests need network access.',
  'marxs/design/tolerancing.py marxs/analysis/plots.py marxs/visualization/x3d.py marxs/reduction/lsfparm.py',
  [('wiggle', 'WigglePlotter, DispersedWigglePlotter'), ('colors', 'OrderColor'), ('lsf', 'plot_LSFfit'), ('pages', 'x3d.Scene._repr_html_, write_html_archive')],
  B)
P('P45', 'The interface to the MARX mirror code hands over and takes back every photon',
  'MarxMirror gives the compiled mirror model every photon exactly once with its own energy, time, tag, position and direction in the frame of the mirror, sorted as the library needs it, and puts position and direction (back in global coordinates), energy, time, shell and flags that the library returns in the row of that very photon, whatever the order of photons, energies and tags; photons that are not reflected or blocked get probability 0 and all others keep theirs, all other columns stay with their photon, the state before the mirror is kept in columns *_beforemirror, the polarization is transported along with the direction, verbosity is passed on, the input is not changed except for the new columns, and missing or invalid parameter files, a failing library, or a library that is not installed are reported as errors.',
  'inputs configurations', 'all combinations of photon numbers, orders of energy and tags (all permutations for up to four photons), probabilities, placements of the mirror, present or missing columns',
  'The tests for this class need the MARX C code and are skipped without it.',
  'marxs/optics/marx.py',
  [('wrapper', 'MarxMirror._table2c, _c2table, __call__')],
  B)

P('P46', 'The Mayavi backend draws every object in place in the requested scene',
  'Plotting with Mayavi hands exactly the geometry of an object to mayavi.mlab: six faces of the (half) box with two triangles each at the corners of the object, the triangulation of apertures, the parametric surface of tori and tubes within the displayed range, rods from end to end with their radius, and containers object by object in order, each with its own color (any matplotlib color, white if missing) and graphics properties (from the display of the object or the one passed in), in the scene that is requested. Rays are drawn as lines that join only consecutive positions of one ray, colored by ray or by point, with wrong shapes of the scalar rejected. Display settings, positions and ray data are not changed by plotting, and the Mayavi objects are returned.',
  'inputs configurations', 'placements x box halves x aperture forms x surface ranges x colors x viewers; containers with all triples of four kinds of leafs in three nestings; all subsets of properties; ray lists of up to 4 x 4 (6 x 6) positions',
  'Mayavi is not installed: the module is not executed by any test.',
  'marxs/visualization/mayavi.py marxs/visualization/utils.py',
  [('mayavi', 'triangulation, surface, box, cylinder, container, plot_rays, plot_object')],
  B)

# Histories that are explored in addition to the alphabet named above.
HIST = {
 'P02': 'whole lists against the photons one by one, lists that went through an element of the same kind before',
 'P05': 'planes moved or resized after their first use',
 'P06': 'cylinders moved, resized or with other angle limits after their first use',
 'P09': 'containers that share position lists, the state right after each operation',
 'P10': 'lists that are or become empty on the way through a container',
 'P15': 'distributions used repeatedly for lists of equal and different length',
 'P16': 'sources used repeatedly and changed between calls',
 'P18': 'pointings changed after their first use, single photons',
 'P19': 'apertures whose parts are changed after the first use, and the local coordinate columns',
 'P20': 'mirrors moved after their first use',
 'P21': 'single matrices and vectors as well as stacks of them',
 'P22': 'cylinders made from the Rowland circle, tori moved after their first use, points near the axis, loose tolerances, single points',
 'P23': 'arrays on the far side of the torus, small moves and angles beyond pi',
 'P25': 'tables written, changed and written again, and the mandatory class keywords',
 'P27': 'repeated runs into the same directory with missing input files',
 'P28': 'elements whose arguments or geometry were changed after the first use',
 'P29': 'repeated analysis of the same list',
 'P31': 'stacks used for lists in which some photons miss',
 'P32': 'elements changed after the first use, zero widths with photons that miss',
 'P35': 'small and constant roll angles, object names, events at exact chip borders',
 'P37': 'repeated conversion of the same object',
 'P38': 'gratings bent or chirped repeatedly and with new parameters',
 'P41': 'sources moved or changed between calls, single photons'}
for _p in PROPS:
    if _p['id'] in HIST:
        _p['qtext'] += '; also ' + HIST[_p['id']]
