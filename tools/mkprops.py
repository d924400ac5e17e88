"""Writes properties.jsonl (run by hand after editing; the jsonl is the committed source of truth)."""
import json
B = 'src/pyhipp/'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[B+f for f in files],
            mechanism=[dict(name=n, where=B+w) for n, w in mech],
            observe_at=observe or [])))

prop('C01', 'Nested and tuple keys address exactly the named entries',
 'In a data dictionary a slash-separated key means the chain of single-level lookups it spells, and a tuple of keys means its members one after the other: reading returns exactly the stored values, and writing or deleting changes exactly the named entries, leaving every other entry at every level as it was. '
 'Membership tests look at the top level only; a missing name raises a KeyError and a tuple write whose key and value counts differ is refused before anything is written. '
 'Copies and unions are new dictionaries holding the operands\' top-level entries (the right operand wins), and building them or writing to them at top level never changes an operand.',
 ['inputs', 'histories'], 'all nesting depths, all key spellings including repeated, leading and trailing slashes, all tuples of keys, every order of writes and deletes',
 'the unit test reads and writes a handful of fixed keys at depth two; the frame (all the other entries) and all spellings are never exercised',
 ['core/containers/data_dict.py'], [('DataDict get/set/del item', 'core/containers/data_dict.py:29-116'), ('copy, update, union', 'core/containers/data_dict.py:130-176')])

prop('C02', 'Tables own their columns and treat all columns alike',
 'Storing a column, building, copying or updating a table, and taking row or column subsets with default settings produce values that are independent of the originals, so a later write to either side never shows through to the other. '
 'A row selection picks the same rows, in the selected order, from every column; a column selection keeps exactly the requested columns; a concatenation holds, for every column, the rows of the first table followed by those of the others in the order given. '
 'Column order is preserved by all of these, and exporting to a dictionary, to lists or to a stacked array reproduces every column value.',
 ['inputs', 'histories'], 'all tables (any number of columns, rows, trailing dimensions and value types), all row selectors, all sequences of writes after the operation',
 'no test touches the table class at all',
 ['core/containers/data_table.py'], [('copying constructor and setters', 'core/containers/data_table.py:51-95'), ('concat, subset, subcol, stacking', 'core/containers/data_table.py:165-254')])

prop('C03', 'Clamping and guarded arithmetic respect their bounds',
 'Bounding a number or an array gives, elementwise, the original value if it lies within the given limits, the lower limit where it is below and the upper limit where it is above; a missing limit never changes anything, scalars and arrays agree, and the caller\'s array changes only when copying is switched off. '
 'Guarded division, guarded logarithms (base 10 and natural) and vector normalisation equal the plain operation on the operand raised to the floor, never see an operand below the floor, and normalised vectors of length above the floor have unit length and unchanged direction.',
 ['inputs'], 'all real inputs, all bounds with lower <= upper, all array shapes and axes, copy and in-place modes, one or several arguments',
 'the tests bound one small array and one scalar',
 ['core/dataproc/num.py'], [('bound, bound_scalar, bound_array', 'core/dataproc/num.py:5-42'), ('safe_div, safe_lg, safe_ln', 'core/dataproc/num.py:44-80'), ('norm, normalize', 'core/dataproc/num.py:82-95')])

prop('C04', 'Offsets, chunks, masks and index lists describe the same elements',
 'Offsets built from counts start at zero, differ by exactly the counts and end at their total, and the begin/end pairs and chunk ranges built from the same counts are contiguous, disjoint and cut a sequence into consecutive pieces of those sizes that rejoin to its beginning, for one or several sequences alike. '
 'Converting a boolean mask to indices and back reproduces the mask, and the indices are the positions of the true entries in increasing order; the masked merge takes each element from the first mask that holds there or else the default. '
 'A range filter keeps, in order, exactly the values that are at or above its lower limit and strictly below its upper limit, a missing limit excluding nothing.',
 ['inputs'], 'all count sequences (zeros and empty included), all masks, all value arrays and limits',
 'no test exercises any of these helpers',
 ['core/dataproc/data_structs.py', 'core/dataproc/iter.py', 'core/dataproc/mask.py', 'core/dataproc/filter.py'],
 [('count_to_offset, count_to_offset_pairs', 'core/dataproc/data_structs.py:50-66'), ('Chunks', 'core/dataproc/iter.py:7-27'), ('Mask', 'core/dataproc/mask.py:4-63'), ('Range', 'core/dataproc/filter.py:20-36')])

prop('C05', 'Periodic wrapping moves points by whole boxes into the right interval',
 'Wrapping positions that are at most one box length outside returns positions inside [0, L) that differ from the input by a whole number of box lengths; shifting to a reference returns the periodic image within half a box of the reference, i.e. with separation in [-L/2, L/2), for positions and references in the same box. '
 'Entries excluded by a selection mask are returned unchanged, values already inside are unchanged, and the caller\'s array changes only when copying is switched off; the containment test is true exactly when every selected value is in [0, L).',
 ['inputs'], 'all positions within one box length of the box, all box sizes L > 0, all references in the box, all selection masks, all array shapes',
 'no test covers periodic coordinates',
 ['core/dataproc/frame.py'], [('shift_in, shift_to, test_bound', 'core/dataproc/frame.py:50-86')])

prop('C06', 'Bin and grid lookup returns the bracketing cell for every value',
 'Locating a value in a set of bins or a grid axis returns the index of the half-open cell [edge, next edge) that contains it, -1 below the first edge, and at or above the last edge the index of the last edge (the number of cells); the bounded lookup clips this to valid bins on the sides requested. '
 'The nearest-edge lookup returns a valid edge index whose edge is at minimal distance from the value, multi-dimensional grids locate each coordinate on its own axis, and edges, centers and counts reported by a binning are mutually consistent (ascending edges, one more edge than bins, centers midway). '
 'Equal-width bins and explicit-edge bins with the same edges agree.',
 ['inputs'], 'all ascending edge sets (unsorted input for explicit edges), all finite and infinite values, values exactly on edges (edges of equal-width bins to the accuracy of floating-point rounding), all numbers of bins and dimensions',
 'no test reaches the binning or grid classes',
 ['stats/binning.py', 'core/dataproc/grid.py'], [('EqualSpaceBins.locate, BiSearchBins.locate, locate_bound, locate_nearest', 'stats/binning.py:130-265'), ('Grid1d, GridMd', 'core/dataproc/grid.py:9-150')])

prop('C07', 'Histogram accumulation and bin refinement conserve every contribution',
 'Adding samples to binned data increases exactly the bin that contains each sample, by one or by the sample\'s own weight, for samples inside the range and changes nothing for samples outside; repeated additions accumulate. '
 'Refining edges inserts equally spaced edges and keeps every original edge, and combining n adjacent bins yields, for each starting bin, the sum of the n consecutive contents, so overlapped histograms report sliding sums, centers and widths that match the refined histogram. '
 'Range specifications resolve to the intersection of the explicit range and the quantile range, or to whichever is given, or to the data extremes.',
 ['inputs', 'histories'], 'all samples, weights (scalar or vector contents), bins, numbers of additions, refinement and combination factors',
 'no test accumulates binned data or refines bins',
 ['stats/binning.py'], [('BinnedData.add', 'stats/binning.py:290-310'), ('insert_sub_bins_into_edges, combine_adjacent_bins, parse_*', 'stats/binning.py:8-100'), ('Hist1D.from_overlapped_bins', 'stats/binning.py:102-115')])

prop('C08', 'Reductions equal their weighted, masked definitions row by row',
 'Count, sum, mean, standard deviation, median and quantile reductions of a one-dimensional sample equal their textbook definitions over the unmasked elements, with weights entering linearly (sum) or normalised by the total unmasked weight (mean, standard deviation, weighted quantile), and count ignoring weights. '
 'A two-dimensional input gives the row-by-row results of the one-dimensional reduction, masked-out elements never influence a result, a sample with nothing left yields the configured fill value (zero for sums and counts), and error bars report the center with non-negative distances to the lower and upper quantile (or, for the mean, the standard deviation on both sides). '
 'Reductions requested by name, with options or as instances are the same reduction, in the requested order.',
 ['inputs'], 'all finite samples, positive weights, masks (empty and full rows included), row counts, quantile levels and reduction specifications',
 'the regression tests call reductions without asserting values',
 ['stats/reduction.py'], [('Reduce dispatch', 'stats/reduction.py:50-110'), ('Count, Sum, Mean, StdDev', 'stats/reduction.py:113-195'), ('Quantile, Errorbar, Median, predefined', 'stats/reduction.py:198-315')])

prop('C09', 'Bisection and linear interpolation bracket, reproduce and stay bounded',
 'Bisection in an ascending array returns -1 below the first entry and otherwise the position i with entry i <= value < entry i+1 (the last position at or above the last entry), and the nearest variant returns a position at minimal distance, one by one or for a whole array. '
 'Interpolation weights are non-negative, sum to one and reproduce the abscissa between the two bracketing nodes, so interpolated values equal the node values at the nodes, are exact for linear data inside the range, never leave the interval spanned by the two bracketing values, and take the end values (or the caller\'s out-of-range values) outside, in one and two dimensions. '
 'An interpolator built with checking refuses nodes that are not strictly ascending, and its derivative interpolates the difference quotients of the neighbouring nodes.',
 ['inputs'], 'all strictly ascending node arrays of any length, all values including nodes and out-of-range values',
 'no test touches the interpolation module',
 ['numerical/interpolate.py'], [('bisearch, bisearch_nearest', 'numerical/interpolate.py:10-66'), ('weights and interp', 'numerical/interpolate.py:69-124'), ('Linear', 'numerical/interpolate.py:126-170')])

prop('C10', 'Mass assignment conserves mass and respects periodic cells',
 'Depositing a particle adds exactly its weight (one by default) to the grid in total, distributed over the eight surrounding grid points with the product of one-dimensional weights that decrease linearly from one at the point to zero one spacing away and sum to one per axis. '
 'Positions are periodic: moving a particle by any whole number of box lengths deposits the same contributions, contributions across the boundary go to the opposite side, and depositing a set of particles is the sum of depositing each of them, independent of order, on top of what the grid already holds.',
 ['inputs', 'histories'], 'all positions (in and out of the box, negative included), weights, grid sizes n >= 1, box sizes, batches and orders of deposition',
 'no test touches mass assignment',
 ['field/cubic_box/mass_assignment.py'], [('weights_at', 'field/cubic_box/mass_assignment.py:52-66'), ('add_1, add', 'field/cubic_box/mass_assignment.py:81-124'), ('DensityField', 'field/cubic_box/mass_assignment.py:127-169')])

prop('C11', 'Field values and cell lookups at points are periodic and exact on the grid',
 'Reading a gridded field at arbitrary points returns the weighted mean of the eight surrounding grid values with the mass-assignment weights: it reproduces grid values at grid points, returns a constant for a constant field, stays between the surrounding minimum and maximum, and is unchanged when a point moves by whole box lengths. '
 'Nearest-grid-point lookup returns, per axis, the periodic index of the grid point within half a spacing of the position, always in [0, n), and mesh spacing, cell volume and box volume are consistent (spacing times n is the box length, n^3 cells fill the box).',
 ['inputs'], 'all points (out of the box included), all fields, all grid and box sizes',
 'no test touches meshes or field interpolation',
 ['field/cubic_box/mesh.py', 'field/cubic_box/cosmic_web.py', 'field/cubic_box/mass_assignment.py', 'field/cubic_box/field.py'], [('_Mesh.x_to_xi', 'field/cubic_box/mesh.py:37-49'), ('FieldInterpolator', 'field/cubic_box/cosmic_web.py:14-66')])

prop('C12', 'Spectral smoothing multiplies every mode by the right window',
 'Smoothing a periodic field multiplies each Fourier mode, zero and Nyquist modes included, by the filter window of its true signed wave number: exp(-k^2 r^2/2) for the Gaussian filter and 3(sin kr - kr cos kr)/(kr)^3 (one at zero) for the top-hat filter, divided by the assignment window of the mode when the assignment correction is made. '
 'Hence the mean is preserved, a constant field is unchanged, smoothing is linear and commutes with whole-cell translations; overdensities are density over mean minus one (zero mean), and inputs of any grid size come back with the same shape, the input field unmodified. '
 'A mean density that is not positive is refused.',
 ['inputs'], 'all fields, grid sizes (odd and even), box sizes, smoothing lengths r >= 0 and filter kinds',
 'no test touches smoothing',
 ['field/cubic_box/smoothing.py', 'field/cubic_box/fft.py', 'field/cubic_box/mass_assignment.py'], [('_Gaussian, _Tophat', 'field/cubic_box/smoothing.py:16-78'), ('FFTSmoothing, FourierSpaceSmoothing', 'field/cubic_box/smoothing.py:80-214')])

prop('C13', 'The tidal tensor is the symmetric Hessian whose trace is the density',
 'For a positive-mean density field the returned potential modes solve the Poisson equation of the smoothed overdensity modes (k^2 times potential = minus smoothed overdensity, zero mode zero), where the smoothed overdensity applies the Gaussian window and, when requested, the assignment correction to every mode. '
 'The returned tensor is, in every cell, the symmetric matrix whose (i,j) entry has modes -k_i k_j times the potential, so its trace equals the smoothed overdensity, and its eigenvalues are returned per cell in ascending order and sum to the trace; the result does not depend on the overall normalisation of the density.',
 ['inputs'], 'all density fields with positive mean, grid sizes, box sizes, smoothing lengths, with and without assignment correction',
 'no test touches the gravity module',
 ['field/cubic_box/gravity.py'], [('_GreenFn3d, _TidalTensor', 'field/cubic_box/gravity.py:15-45'), ('TidalField.run, _solve_grav, _find_tidal_ij', 'field/cubic_box/gravity.py:80-187')])

prop('C14', 'Cosmic-web classes count eigenvalues above threshold and partition the grid',
 'The web class of a cell is the number of its eigenvalues that exceed the threshold: three knot, two filament, one sheet, none void; every cell has exactly one class and the four volume fractions are the class shares and sum to one. '
 'Looking up points returns the class or eigenvalues stored at the nearest periodic grid point in the order of the points, and listing the grid points of a class returns the positions of exactly those cells. '
 'Eigenvalue arrays of wrong shape or not in ascending order are refused.',
 ['inputs'], 'all ascending eigenvalue fields, thresholds, points and grid sizes',
 'no test touches the classifier',
 ['field/cubic_box/cosmic_web.py'], [('TidalClassifier', 'field/cubic_box/cosmic_web.py:69-182')])

prop('C15', 'Mesh neighbour search never misses a neighbour and never repeats one',
 'For every query point and radius the mesh-based periodic search passes to the visitor all stored points whose periodic distance from the query is within the radius, each labelled with the index of its own query, and it only ever passes stored points. '
 'When the searched cells span at most one box length per axis, no stored point is passed more than once for a query; every query point of a batch is processed, in whatever order. '
 'Meshing the points keeps exactly the same multiset of positions, grouped by periodic cell with consistent cell boundaries.',
 ['inputs'], 'all point sets, queries (near and across the boundary, out of the box), radii, numbers of cells per side and box sizes',
 'no test touches the neighbour mesh',
 ['field/neighbor/kd_mesh.py'], [('_PE3Mesh', 'field/neighbor/kd_mesh.py:17-50'), ('_PE3.query_points', 'field/neighbor/kd_mesh.py:52-100'), ('_PE3_from_meshing_points', 'field/neighbor/kd_mesh.py:102-118')])

prop('C16', 'Radius queries in the periodic tree return correct periodic distances',
 'A radius query returns the indices of exactly the stored points whose minimum-image distance to the query is at most the radius, and on request the minimum-image distance of each returned index in the same order. '
 'Queries outside the box are refused.',
 ['inputs'], 'all point sets in the box, query points, radii below half the box and box sizes',
 'no test touches the periodic tree',
 ['field/neighbor/kd_tree.py'], [('PE.query_r_1 and its distance', 'field/neighbor/kd_tree.py:33-52')])

prop('C17', 'Local regression reduces exactly the selected neighbours',
 'Nearest-neighbour and fixed-radius regression return, for each prediction point in order, the requested reductions of the training values of its own neighbours, weighted by the product of training weight and kernel value at the neighbour\'s distance, neighbours beyond the distance limit being ignored, with every requested reduction reported in order and under its name. '
 'Kernel values depend on distance alone: exp(-d^2/2 sigma^2) for the Gaussian kernel and one inside, zero outside the radius for the top-hat kernel. '
 'The masked-fraction estimate is the kernel- and weight-weighted share of masked neighbours, lies in [0, 1] and is flagged invalid exactly where fewer neighbours than the minimum count were found.',
 ['inputs'], 'all training sets, weights, prediction points, neighbour numbers, radii, kernels and reduction lists',
 'the tests run regressions without asserting any value',
 ['stats/regression.py', 'stats/kernel.py'], [('_KnnRegression, _LocalKernelRegression', 'stats/regression.py:26-150'), ('kernels', 'stats/kernel.py:8-97'), ('masked_fraction_by_knn', 'stats/regression.py:270-313')])

prop('C18', 'Density estimates spread the normalised weight over the right volume',
 'Histogram density estimation reports at each prediction point the content of the grid cell that contains it, or the fill value outside the grid, contents being weighted sample counts per cell divided by the total weight inside the grid and the cell volume when densities are requested. '
 'Fixed-radius and nearest-neighbour estimates equal the sum of the normalised training weights of the neighbours used, with kernel factors rescaled to average one over those neighbours, divided by the volume of the ball with the search radius (or the distance to the farthest neighbour, capped at the limit), and report how many neighbours were used. '
 'The volume of a d-dimensional ball follows pi^(d/2) r^d / Gamma(d/2+1).',
 ['inputs'], 'all training sets, weights, grids, prediction points, dimensions, radii, neighbour counts and kernels',
 'no test asserts a density value',
 ['stats/density_estimation.py', 'stats/kernel.py'], [('_Histogram, _LocalKernelDensityEstimation, _KnnDensityEstimation', 'stats/density_estimation.py:15-170'), ('_ball_volume', 'stats/kernel.py:55-68')])

prop('C19', 'Bootstrap resampling keeps rows aligned and summarises its own samples',
 'Each bootstrap resample draws, for each data set, rows with replacement from that data set with one index set shared by all its columns, no more rows than the data set or its size limit has, and passes the statistic exactly those columns plus the fixed extra arguments. '
 'For every requested output the result holds the mean and standard deviation over the resamples (and the samples themselves on request), other outputs are passed through, the inputs are not modified and the same seed gives the same result. '
 'Additive noise adds independent sigma-scaled normal draws to the values, or multiplies by ten to that power in logarithmic mode, with the requested number of repeats.',
 ['inputs', 'histories'], 'all data sets, columns, size limits, statistics, resample counts, seeds and noise settings',
 'no test covers resampling',
 ['stats/sampling.py', 'stats/stacking.py'], [('Bootstrap', 'stats/sampling.py:12-67'), ('RandomNoise', 'stats/sampling.py:70-97'), ('Stack.mean_and_sd', 'stats/stacking.py:3-7')])

prop('C20', 'Preprocessing transforms are inverse pairs',
 'Standardising with parameters learned from training data subtracts each column\'s mean and divides by its standard deviation raised to the floor, and applying the backward transform after the forward one (or the reverse) returns the original values. '
 'The probability transform maps the sorted training values to equally spaced cumulative probabilities from zero to one, linearly in between and monotonically, and its backward transform inverts its forward transform on the training range, with or without the mapping to the normal distribution.',
 ['inputs'], 'all training data (constant columns included), all values in the training range',
 'no test covers preprocessing or probability transforms',
 ['stats/preprocessing.py', 'stats/prob_dist.py'], [('Standardize', 'stats/preprocessing.py:22-46'), ('ProbTransToNorm', 'stats/prob_dist.py:9-38')])

prop('C21', 'Flat background cosmology obeys the Friedmann and mass-radius relations',
 'In the flat radiation-free cosmology the squared expansion rate is omega_l0 + omega_m0 (1+z)^3 with omega_l0 = 1 - omega_m0, matter and dark-energy fractions at any redshift follow from it and sum to one, the Hubble rate scales with its square root, and redshift and scale factor convert into each other and back. '
 'Critical and mean densities are 3 H0^2/(8 pi G) scaled by E^2 and by omega_m0 (1+z)^3, and the mass of a sphere of mean density and the radius enclosing a mass are inverse functions of each other.',
 ['inputs'], 'all cosmological parameters in the physical range, all redshifts z > -1, all positive radii and masses',
 'the tests compare a few values of one fixed cosmology',
 ['astro/cosmology/flat_lambda_cdm_nr.py'], [('_FlatLambdaCDMNR', 'astro/cosmology/flat_lambda_cdm_nr.py:30-105'), ('_Densities', 'astro/cosmology/flat_lambda_cdm_nr.py:115-172')])

prop('C22', 'Halo and distance relations are consistent with the cosmology model',
 'Virial overdensity, comoving and physical radius, velocity and dynamical time satisfy m = 4/3 pi r^3 rho with rho the overdensity factor times the comoving mean or critical density, r_phys = r/(1+z), v^2 = G m / r_phys and t = r_phys / v. '
 'Matter density equals critical density times the matter fraction, distances, ages and Hubble rates are the values of the underlying cosmology expressed in units with the factor h removed, and the comoving-distance-to-redshift conversion inverts the redshift-to-comoving-distance one. '
 'The halo concentration obtained from a velocity ratio reproduces that ratio.',
 ['inputs'], 'all halo masses, overdensities, redshifts and cosmological parameters in the physical range',
 'the tests check construction and a few fixed values',
 ['astro/cosmology/halo_theory.py', 'astro/cosmology/model.py'], [('HaloTheory, NFWProfileCalculator', 'astro/cosmology/halo_theory.py:45-231'), ('LambdaCDM and calculators', 'astro/cosmology/model.py:18-240')])

prop('C23', 'Unit systems derive every unit and constant coherently',
 'Every derived unit (velocity, density, gravitational constant, rate, energy, power, angular momentum) is the product of powers of the base units that its physical dimension dictates, and every constant expressed in the system, multiplied by its unit, returns the SI value. '
 'Conversion factors to conventional units are consistent with the base units, a cosmological unit system uses Mpc/h, Gyr/h and 10^10 Msun/h, and the compiled and the general implementation agree.',
 ['inputs', 'configurations'], 'all positive base units and all Hubble parameters',
 'the tests only construct a unit system',
 ['astro/quantity/unit_system.py', 'astro/cosmology/flat_lambda_cdm_nr.py'], [('_Constants, _UnitSystem, UnitSystem', 'astro/quantity/unit_system.py:8-201')])

prop('C24', 'Power spectrum, variance and growth scale consistently',
 'The linear power spectrum and the dimensionless power obey Delta^2 = k^3 P / (2 pi^2), both scale with redshift by the squared growth factor, which is one today, and the variance computed from them at 8 Mpc/h today is the input sigma_8 squared, whatever the transfer function. '
 'The variance at a mass is the variance at the radius enclosing that mass, windows tend to one at zero and equal 3 (sin x - x cos x)/x^3, the collapse threshold is 1.686 over the growth factor, and tabulated log-variances reproduce the direct ones at the nodes.',
 ['inputs', 'configurations'], 'all wave numbers, radii, masses, redshifts and cosmological parameters in the physical range, with and without baryon effects',
 'no test evaluates the power spectrum relations',
 ['astro/cosmology/power_spectrum.py'], [('_GrowthFactorCarroll92', 'astro/cosmology/power_spectrum.py'), ('_PowerSpectrumFlatLambdaCDMNR', 'astro/cosmology/power_spectrum.py')])

prop('C25', 'Nested dictionaries survive the trip through an HDF5 file',
 'Dumping a nested dictionary of scalars, strings, bytes and arrays under any key of an HDF5 file and loading it back returns the same nesting, names and values (datasets of strings as bytes), any single group or dataset can be loaded by its path, and attributes come back under their names with their values. '
 'A dictionary with a key that is no string, or a value that is no mapping, string, bytes, array or scalar, at any depth is refused with a TypeError before anything is written; missing parent groups are created on request and otherwise an error is raised, and a parent that is no group is refused. '
 'Key listings, membership, lengths and pattern-filtered loads agree with what is stored.',
 ['inputs', 'histories'], 'all nested dictionaries of values h5py can store, whose names are single path components; all destination keys, all patterns',
 'the tests dump and load a few fixed small dictionaries',
 ['io/h5/named_objs.py', 'io/h5/utils.py'], [('Group.dump/load, File.dump_to/load_from', 'io/h5/named_objs.py:330-640'), ('Utils.is_data_dict_supported, KeyList', 'io/h5/utils.py:10-90')])

prop('C26', 'HDF5 creation flags never clobber what they must keep',
 'With the exclusive flag, creating a dataset, attribute, group or link whose name exists raises ValueError and leaves the existing object and its content as they were; with the open-or-create flags an existing dataset or attribute is overwritten in place keeping its datatype (or, for empty creation, groups and links, left as it is) and a missing one is created. '
 'Creating a dataset or group over an object of another kind raises ValueError and changes nothing, an unknown flag is refused before anything is touched, and assigning by key to a missing dataset or attribute raises KeyError. '
 'File opening flags read-only, update, exclusive, open-or-create and truncate have exactly those effects on existing and missing files.',
 ['inputs', 'histories'], 'all combinations of flag, existing object kind and operation, after any history of previous operations',
 'the tests cover a few flag and object combinations',
 ['io/h5/named_objs.py', 'io/h5/shortcuts.py'], [('AttrManager.create*, DatasetManager.create*, Group.create_*', 'io/h5/named_objs.py'), ('File flags', 'io/h5/named_objs.py:455-500'), ('txt_to_h5', 'io/h5/shortcuts.py')])

prop('C27', 'Fortran records and layered configuration files are read exactly',
 'Reading a record of n items (or a single item) returns the items stored at the current position and advances by exactly their size, skipping advances by the same amount without reading, and reading or skipping a section consumes the leading length, the payload and the trailing length and rejects a section whose two lengths differ. '
 'A layered configuration lookup returns for each requested key the value from the deepest visited node that defines it, visits exactly the nodes named, and raises KeyError when no visited node defines a requested key.',
 ['inputs', 'histories'], 'all item types and counts, all sequences of reads and skips, all configuration trees, paths to nodes that are mappings, and lists of keys without a slash',
 'no test reads a binary file or a configuration file',
 ['io/binary/fortran.py', 'io/yaml.py'], [('BinaryFile', 'io/binary/fortran.py:14-66'), ('ConfigFileParser', 'io/yaml.py:6-44')])

prop('C28', 'Symmetry groups consist of distinct orthogonal operations and are closed',
 'The cubic group has 48 and the square group 8 pairwise distinct orthogonal integer operations, contains the identity, and is closed under composition and inversion. '
 'Combining operations or groups multiplies the matrices in the order given (every pair for groups) and leaves the operands unchanged, copies are independent, applying an operation maps each row vector by its matrix and preserves lengths, and a group\'s length is its number of operations.',
 ['inputs'], 'all operations, pairs of operations, groups and vectors',
 'no test touches the group module',
 ['group_theory/point_group.py'], [('Op, Group', 'group_theory/point_group.py:6-105'), ('matrices', 'group_theory/point_group.py:107-218')])

prop('C29', 'Angle conversions and direction vectors are exact',
 'Sexagesimal degrees (hours) convert to sign * (d + m/60 + s/3600) degrees (times fifteen for hours), the sign of the leading field applying to the whole angle, from text or tuples alike. '
 'Polar angles convert to unit vectors (sin t cos p, sin t sin p, cos t), and the radial-tangential frame at any position off the polar axis is orthonormal and right-handed with its radial axis along the position, so converting a vector preserves its length and maps the radial component onto the position direction.',
 ['inputs'], 'all angles (negative leading fields, minus zero included; minutes and seconds not negative), all positions farther from the origin and (relative to that distance) from the polar axis than the normalisation floor of 1e-10, all vectors',
 'no test touches coordinate conversions',
 ['astro/coords/cvt.py', 'core/dataproc/frame.py'], [('dms_to_deg, hms_to_deg', 'astro/coords/cvt.py:5-16'), ('Polar', 'core/dataproc/frame.py:4-41')])

prop('C30', 'Caches compute once per key and parameter lists stay in step',
 'A cached value is computed at most once per key (and sub-key), is the value returned on every later request until it is explicitly replaced, and requests for one key never affect another, even when the cached value is false or empty. '
 'A named parameter list returns for a name the parameter that currently carries it and for a number the parameter at that position, replacing a parameter removes the old name and adds the new one, and setting all values changes each parameter\'s own storage in order after checking that the counts match.',
 ['inputs', 'histories'], 'all keys, values and sequences of requests, replacements and value updates',
 'no test exercises caches or parameter replacement',
 ['core/abc.py', 'astro/cosmology/param.py'], [('HasCache, HasMultiCache', 'core/abc.py:125-162'), ('HasValue', 'core/abc.py:114-122'), ('ParamList', 'astro/cosmology/param.py:15-49')])

prop('C31', 'Stored fields, results and objects come back from an HDF5 file',
 'A density field dumped into a group and loaded back is a field with the same data, box length and grid size, in storage of its own; the smoothing and tidal-field results store every member under its own name with its value. '
 'Joining any number of dumps (at least one) stores the sum of their data with the grid of the first and leaves every joined dump as it was. '
 'An object with declared members (arrays, numbers, text, tables, further such objects) written to a group or a file and read back is an object of the same class with equal members at every depth; an argument given at loading takes the place of the stored one. '
 'A classifier built from a stored tidal result classifies the stored eigenvalues with the requested threshold. Nothing that exists is overwritten unless the caller\'s flag says so: the caller\'s flag, by default the refusing one, is the one that reaches the group and the file.',
 ['inputs'], 'all grid sizes, data, boxes, member values, numbers of joined dumps and flags',
 'the tests never dump or load a field, a result or an object',
 ['field/cubic_box/mass_assignment.py', 'field/cubic_box/smoothing.py', 'field/cubic_box/gravity.py', 'field/cubic_box/cosmic_web.py', 'field/cubic_box/field.py', 'io/h5/abc.py', 'core/containers/data_table.py'],
 [('DensityField dump, join_dumps, load', 'field/cubic_box/mass_assignment.py:140-170'), ('results', 'field/cubic_box/smoothing.py:130-145'), ('results', 'field/cubic_box/gravity.py:48-75'), ('new_from_file', 'field/cubic_box/cosmic_web.py:94-98'), ('GroupLike', 'io/h5/abc.py:7-70'), ('DataTable as a member', 'core/containers/data_table.py:167-176')])

prop('C32', 'Binned number densities count the drawn samples per volume and width',
 'The binned density of a sample uses the values inside the bin range (lower end included, upper end excluded), each with its own weight; every bootstrap resample draws from those, value and weight together, adds the requested noise once to the drawn values, and histograms them in the overlapped bins that the bin number or edges, the refinement factor and the range specification define. '
 'In every resample the density of a bin is its content divided by the volume and the bin width, and the logarithmic density is the base-ten logarithm of the density raised to the pad; content, density and logarithmic density are the outputs that are summarised, with the requested number of resamples and random source. '
 'A range given beside explicit edges and a refinement factor below one are refused, and the samples and weights are not modified.',
 ['inputs'], 'all samples, weights, volumes, bin numbers, edges, refinement factors, ranges, pads, noises, numbers of resamples and seeds',
 'no test computes a binned density',
 ['astro/stats/lss.py', 'stats/binning.py', 'stats/sampling.py', 'core/dataproc/num.py'], [('BinnedVolumeDensity', 'astro/stats/lss.py:9-76')])

prop('C33', 'Tabulating a function on a grid stores its value at every grid location',
 'Applying a function to a grid evaluates it once on all grid locations (as one array with a column per axis, or one flat array per axis) and returns, for every output, a table whose entry at each grid position is the function\'s value at the coordinates of that position, with the axes in the requested order (first two swapped for xy) and any further value dimensions last; the returned locations have the same layout. '
 'A grid written with slices has along each axis the requested number of equally spaced points including both ends, or the given locations in storage of its own, and a grid over the range of data has the requested number of equally spaced points from the lower to the upper quantile of each variable.',
 ['inputs'], 'all numbers of axes and points, locations, functions with one or several outputs of any rank, data, quantiles and point counts',
 'no test reaches the grids',
 ['core/dataproc/grid.py'], [('GridMd.at', 'core/dataproc/grid.py:46-52'), ('from_data_range, applied', 'core/dataproc/grid.py:86-116')])

prop('C34', 'Random directions are unit vectors of uniform draws, all from one source',
 'A random direction on the sphere is a unit vector whose height is a uniform draw between minus one and one and whose azimuth is a uniform draw over a full turn; the angle form returns the matching polar angle (between zero and half a turn) and azimuth, and a direction on the circle is the unit vector of a uniform angle; one direction per requested draw, components stacked last or returned one by one. '
 'Plain draws (uniform, normal, choices, permutations, shuffles) are the source\'s own with the parameters, sizes and defaults requested, a log-normal draw is ten to the power of the normal draw, permuting leaves its argument alone and shuffling changes it in place. '
 'The same integer seed gives the same draws, a generator or random source given instead of a seed is shared, and other seeds are refused.',
 ['inputs', 'histories'], 'all seeds, sizes, parameters and numbers of draws',
 'no test draws a random number from the package',
 ['stats/random.py', 'core/dataproc/frame.py'], [('_Rng', 'stats/random.py:14-64'), ('Rng', 'stats/random.py:66-140')])

prop('C35', 'Linear transfer functions are the published fits',
 'The transfer function with baryon oscillations is the Eisenstein and Hu (1998) fit, and the one without them the Eisenstein and Hu (1999) fit: each tabulated scale of a cosmology (epochs of equality and drag, sound horizon, damping scale, suppression and growth constants) has its published value, the total, baryon and dark-matter (or with and without neutrinos) transfer functions follow from those scales at every wave number given in h/Mpc, and the one returned is the variant selected. '
 'The baryon fit is one at zero wave number and even in it, absent baryons and neutrinos count as trace amounts and at least one neutrino species is assumed, the temperature and redshift default to 2.728 K and today, and unphysical parameters are refused.',
 ['inputs'], 'all wave numbers and all cosmological parameters for which the formulas are defined',
 'the tests reach the transfer functions at most through one integrated power spectrum',
 ['astro/cosmology/power_spectrum.py'], [('_TransferFunctionEH99', 'astro/cosmology/power_spectrum.py:42-298'), ('_TransferFunctionEH98', 'astro/cosmology/power_spectrum.py:300-478'), ('_TransferFunctionFlatLambdaCDMNR', 'astro/cosmology/power_spectrum.py:480-517')])

prop('C36', 'Halo tables reproduce their stored nodes; mass functions are requested as asked',
 'The tabulated variance (log sigma of log mass), its logarithmic slope and the critical overdensity (log delta_c of redshift) equal the stored value at every stored node, are linear between neighbouring nodes, one value per argument, each from its own table of the data file, and refuse arguments outside the stored range. '
 'A mass function is requested from the implementation from the lower to the upper mass (included), in Msun/h, with the step and redshift given and the mass definition named (200 times the critical density by default, or the mean density), the caller\'s own parameters taking precedence over the definition but not over range, step and redshift; under the custom definition only the caller\'s parameters are passed on, and unknown definitions are refused before anything is computed. '
 'The masses come back as log10 in 10^10 Msun/h with the number density per dex of each mass, and the caller\'s parameters are left as they were.',
 ['inputs', 'histories'], 'all tables with ascending nodes, arguments, mass ranges, steps, redshifts, definitions, implementation parameters and repeated requests',
 'no test reads the halo tables or requests a mass function',
 ['astro/cosmology/halo_theory.py'], [('lg_sigma, dlg_sigma_dlg_m, lg_delta_c', 'astro/cosmology/halo_theory.py:133-149'), ('mass_function', 'astro/cosmology/halo_theory.py:155-185'), ('__interp', 'astro/cosmology/halo_theory.py:187-213')])

prop('C37', 'Masked selections and typed arrays hold exactly the elements asked for',
 'Applying one mask (boolean mask, indices counted from either end, one index, slice) to one array, to several arrays or to every entry of a mapping selects the same positions of each, in order: one result per array (a lone array comes back alone), a mapping of the same kind with the same keys in the same order, and storage of its own when a copy is requested; the originals are left alone. Writing through a mask of the same shape stores the source values where the mask holds and nothing elsewhere. '
 'Converting to arrays gives each argument\'s values in order (None stays None), as a copy unless told otherwise and in shared storage when no copy is requested and none is needed. '
 'A typed array holds the values, shape and element type requested under the same copy rule, copies and flattened copies are independent while flattening without copy shares storage, zeros and ones have the requested shape and type, sorting gives the values in ascending order and the sorting positions reproduce it, over the whole array as a flat index array that knows the number of elements indexed, and index arrays keep the shape they index and refuse indices of another rank.',
 ['inputs'], 'all array lengths, ranks, element types, masks, numbers of arrays, keys and copy settings',
 'no test touches the masks on several arrays, the conversions or the typed arrays',
 ['core/dataproc/mask.py', 'core/dataproc/data_structs.py', 'core/arrays/array.py', 'core/arrays/dtype.py', 'core/abc.py'], [('Mask', 'core/dataproc/mask.py:4-62'), ('Array.as_array', 'core/dataproc/data_structs.py:23-47'), ('Array, FlatIndexArray, IndexArray', 'core/arrays/array.py:9-130'), ('DType', 'core/arrays/dtype.py:6-48'), ('HasValue', 'core/abc.py:114-122')])

prop('C38', 'Density maps of points in the plane: cells, percentile levels, hidden points',
 'The value of a fitted two-dimensional histogram at a point is the density of the cell that counts the point (cells closed below and open above, the last one closed at both ends); outside the range it is zero, or that of the nearest outer cell when so requested; other treatments are refused, and evaluating never changes the map. The nearest-neighbour estimate is the number (or total weight) of the k nearest data points, at most all of them, over the area of the circle that reaches the last one. '
 'Evaluated on a mesh, every entry holds the density at its own position, rows along y by default and along x with ij indexing, with default axes evenly spaced over the ranges. '
 'A scatter plot divides the given range (else that of the data) into the requested numbers of equal cells, fits its estimator to the data and weights, and draws meshes and contours of the transformed densities at the cell centres, and points unchanged. The accumulated mass lists the cells in ascending density with the fraction of the total up to each; the level of a percentile p is the first cell at which the fraction below reaches 1 - p (by default contours at 99, 95 and 68 per cent), and hiding points in a percentile draws exactly those of lower density than the cell before it, in order.',
 ['inputs'], 'all point sets, weights, ranges, numbers of cells, transforms, estimators and percentiles',
 'the plotting tests only check that nothing raises; a wrong cell, transposed mesh or shifted level still draws a picture',
 ['plot/two_dim.py'], [('Histogram2D', 'plot/two_dim.py:47-95'), ('KNearestNeighbor2D', 'plot/two_dim.py:97-128'), ('DensityEstimator2D.on_meshgrid', 'plot/two_dim.py:30-45'), ('Scatter2D', 'plot/two_dim.py:132-259')])

prop('C39', 'Objects describe themselves plainly; samples are summarised by true statistics',
 'Every object of the library that declares the members it is described by can be represented: the representation lists exactly the declared members, in the declared order and with their current values, objects that describe themselves being represented in turn, led by the name of the class where enabled, as a dictionary or a tuple; making it changes nothing, and the JSON and YAML texts are those of the representation with the options given. '
 'This covers bins and binned data, arrays and data dictionaries, parameters and cosmological models (also taken from an astropy model, with its own parameters), symmetry operations and groups, meshes, grids, trees and web classes, kernels, reductions, fitted standardisations, histograms, key lists and record files. '
 'The summary of a sample gives its size, mean, population standard deviation, median and the 16-84, 2.5-97.5 and 0.5-99.5 per cent ranges, in any order asked, and leaves it alone. Combined mappings hold the entries of all operands, later ones winning and single items last, in a new dictionary.',
 ['inputs', 'histories'], 'all declared members and values, samples, bins, parameters, thresholds and operands',
 'the tests never print most of these objects; a description that raises, goes stale or names the wrong member shows up only interactively',
 ['core/abc.py', 'stats/summary.py', 'core/dataproc/data_structs.py', 'stats/preprocessing.py', 'io/binary/fortran.py', 'stats/binning.py', 'astro/cosmology/model.py'],
 [('HasDictRepr/HasListRepr', 'core/abc.py:15-78'), ('SummaryFloatArray1D', 'stats/summary.py:7-45'), ('Dict.combine_dicts', 'core/dataproc/data_structs.py:4-21'), ('Standardize', 'stats/preprocessing.py:26-42'), ('BinaryFile', 'io/binary/fortran.py:13-22')])

with open('/verif/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
