#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, obs=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if obs: a["observe_at"] = obs
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

F, S, PT, G, L = ["glass/fields.py"], ["glass/shells.py"], ["glass/points.py"], ["glass/galaxies.py"], ["glass/lensing.py"]

prop("C01", "One standard order of two-point spectra everywhere",
 "For any number of fields, all parts of the library agree on a single one-to-one standard ordering of two-point spectra (00, 11, 10, 22, 21, 20, ...): looking a spectrum up by a pair of field numbers in either order, enumerating the spectra with their pairs, and listing the index pairs all identify the same entry. Looking a spectrum up with a mode limit returns exactly that many modes plus one, the original values first and zeros after. The number of fields recovered from a number of spectra is exact, and a count that is not a triangle number is rejected.",
 ["inputs", "configurations"], "every number of fields, every pair of field indices, every position in the sequence, every spectrum length and mode limit",
 "Existing tests look at 2-10 fields; the index arithmetic uses floating point square roots whose rounding matters only at specific large counts.",
 F, [("standard-order lookup", "glass/fields.py:getcl"), ("enumeration of spectra", "glass/fields.py:enumerate_spectra"), ("index table", "glass/fields.py:spectra_indices"), ("number of fields", "glass/fields.py:nfields_from_nspectra")])
prop("C02", "Reordering between GLASS and HEALPix order is lossless",
 "Converting a complete set of spectra from standard order to HEALPix order puts the spectrum of every pair of fields where HEALPix expects it (all auto-spectra first, then the first off-diagonal, and so on). Converting back gives the original sequence, and vice versa, for any number of fields and any entries. A set whose size is not a triangle number is rejected.",
 ["inputs"], "every number of fields and arbitrary distinct entries",
 "Tests use one or two small sizes; the permutation must be right at every size and be a bijection.",
 F, [("to HEALPix order", "glass/fields.py:glass_to_healpix_spectra"), ("to standard order", "glass/fields.py:healpix_to_glass_spectra")])
prop("C03", "Discretising spectra truncates, decorrelates and smooths exactly",
 "Discretising a set of angular power spectra keeps the order and number of spectra, truncates each to the requested mode number, empties exactly the spectra of fields further apart than the requested number of correlated fields, and multiplies every remaining spectrum by the squared pixel window function mode by mode. Options that are not given have no effect, spectra shorter than the limits are not extended, and empty spectra stay empty.",
 ["inputs", "configurations"], "every set of spectra with any (ragged) lengths and values and every combination of mode limit, number of correlated fields and map resolution",
 "Tests sample a few option combinations with equal-length spectra.",
 F + ["glass/healpix.py"], [("discretisation", "glass/fields.py:discretized_cls"), ("pixel window", "glass/healpix.py:pixwin")])
prop("C04", "Effective spectra are the weighted sums over all field pairs",
 "The effective angular power spectrum for two sets of weights equals the sum over all ordered pairs of fields of weight times weight times the spectrum of that pair, at every mode up to the mode limit, with shorter spectra treated as zero beyond their end. With one set of weights the result is symmetric in its two leading index groups, and extra weight axes give one spectrum per combination of their indices. Weights whose first axis is not the number of fields are rejected.",
 ["inputs", "configurations"], "all spectra and weights, any weight shapes, any mode limit",
 "Tests compare a few fixed weight arrays; cross terms, ragged lengths and index combinations are not covered exhaustively.",
 F, [("effective spectra", "glass/fields.py:effective_cls")])
prop("C05", "Covariance matrices contain every spectrum, symmetric and zero padded",
 "The covariance built from a set of spectra has, at each mode number and pair of fields, exactly the value of the corresponding spectrum, in both symmetric positions. Modes beyond the end of a spectrum are zero, and modes beyond the requested or longest length are absent.",
 ["inputs"], "all spectra of any ragged lengths, any number of fields, any mode limit",
 "Tests use one small fixed set of equal-length spectra.",
 F, [("covariance from spectra", "glass/fields.py:cov_from_spectra")])
prop("C06", "Regularised spectra are a valid covariance at every mode",
 "Regularising a complete set of spectra returns the same number of spectra in standard order, all with the requested (or longest) length, each being the corresponding entry of the regularised covariance matrix. At every mode the matrix obtained by eigenvalue clipping is symmetric with all eigenvalues at least the relative tolerance times the largest one, and equals the input when the input already satisfies that. The test for positive semi-definiteness answers true exactly if no mode has a negative eigenvalue.",
 ["inputs"], "all spectra, any method and tolerance",
 "Tests check a handful of matrices numerically.",
 F + ["glass/algorithm.py"], [("regularisation", "glass/fields.py:regularized_spectra"), ("eigenvalue clipping", "glass/algorithm.py:cov_clip"), ("positive test", "glass/fields.py:check_posdef_spectra")])
prop("C07", "Iterative sampling weights reproduce the requested covariance",
 "If correlated normal variates are built iteratively from the weight vectors derived from a sequence of covariance rows, every new variate has exactly the requested variance and exactly the requested covariance with each of the previous variates that its row covers, for stacks of matrices elementwise. This holds for every positive semi-definite covariance if rows cover all previous variates, and for every sequence with positive conditional variances if they cover a limited number of them. Rows that are empty, change their stack shape, or are not positive semi-definite are rejected. Rows derived from angular power spectra hold half of the corresponding spectrum at each mode, zero beyond its end, and negative auto-spectra are rejected.",
 ["inputs", "histories"], "every positive semi-definite sequence of covariance rows, any number of fields and any number of correlated fields, including zero variances",
 "Tests verify one small example against known numbers; limited-correlation windows and degenerate variances appear in few or no tests.",
 F, [("iterative weights", "glass/fields.py:iternorm"), ("spectra to covariance rows", "glass/fields.py:cls2cov")],
 state=[("weights of earlier rows", "the running inverse factor kept between steps")])
prop("C08", "Generated fields have the requested joint power spectra",
 "The spherical harmonic coefficients sampled for a sequence of Gaussian random fields are linear in independent standard normals such that the covariance of any two fields at each mode is the requested spectrum of that pair (for pairs within the correlation limit), with real coefficients for order zero and complex coefficients otherwise, and no correlation between different modes. Each field is passed through its own transformation with the variance of its own auto-spectrum. Mismatched numbers of fields and spectra and all-empty spectra are rejected.",
 ["inputs", "histories", "configurations"], "all spectra with a valid covariance, any number of fields, modes and correlated fields, any transformations",
 "Tests can only compare sample statistics of a few realisations with loose tolerances.",
 F + ["glass/harmonics.py"], [("field sampler", "glass/fields.py:generate"), ("Gaussian sampler", "glass/fields.py:_generate_grf")])
prop("C09", "Field transformations have exact correlation, inverse and derivative",
 "For every pair of supported transformations of Gaussian fields, the correlation transform equals the true covariance of the two transformed Gaussian variables, the inverse transform undoes it (on the increasing branch of the squared-normal transform, the one that holds zero), and the derivative transform is its derivative; swapping the two transformations gives the same result and unsupported pairs are refused. The transformed fields have zero mean and never fall below minus their shift parameter.",
 ["inputs"], "all Gaussian correlations, variances and transformation parameters, all pairs of transformations",
 "Tests evaluate a few random points; exact functional identities must hold for all parameters.",
 ["glass/grf/_transformations.py", "glass/grf/_core.py"], [("transformations", "glass/grf/_transformations.py"), ("dispatch", "glass/grf/_core.py:corr")])
prop("C10", "The spectrum solver reports convergence truthfully",
 "The Gaussian spectrum returned by the iterative solver has the length of the input, the returned realised spectrum is the transform of exactly that solution, and the convergence flags are set only if the stated relative error bounds hold; a fixed monopole is returned unchanged and ignored in the error. A step is only taken if it does not increase the error, and the number of iterations never exceeds the limit. The solvers for sets of spectra use the transformations of the right pair of fields for each spectrum, keep empty spectra empty, and reject mismatched numbers.",
 ["inputs", "histories", "configurations"], "all spectra, transformation pairs, paddings, initial values, tolerances, iteration limits",
 "Tests check a few converging cases; the truthfulness of the flags must hold for every path through the solver.",
 ["glass/grf/_solver.py", "glass/grf/_core.py", "glass/fields.py"], [("solver", "glass/grf/_solver.py:solve"), ("sets of spectra", "glass/fields.py:solve_gaussian_spectra")])
prop("C11", "Harmonic coefficients are scaled and reordered mode by mode",
 "Multiplying harmonic coefficients in degree-major order by a function of degree multiplies every coefficient by the value at its own degree, for all degrees and orders. Reordering to HEALPix order places each degree and order where HEALPix expects it and is a permutation.",
 ["inputs"], "all coefficient arrays of any valid size",
 "Tests check one array size.",
 ["glass/harmonics.py", "glass/fields.py"], [("scaling", "glass/harmonics.py:multalm"), ("reordering", "glass/fields.py:_glass_to_healpix_alm")])
prop("C12", "Tophat windows tile the redshift bins",
 "Each tophat window covers exactly its redshift bin from edge to edge on an increasing uniform grid whose spacing approximates the requested one, with at least two points, and carries the given weight function (or one) at every grid point. Its effective redshift is the weighted mean redshift and lies within the bin. Invalid bin arrays are rejected and a first edge other than zero gives a warning.",
 ["inputs", "configurations"], "all increasing bin edges, spacings and weight functions",
 "Tests use a couple of fixed edges.",
 S, [("tophat windows", "glass/shells.py:tophat_windows")])
prop("C13", "Triangular and cubic windows interpolate between their nodes",
 "Each triangular or cubic spline window starts at zero on one node, rises to its weight at the next, which is its effective redshift, and falls to zero at the following node, on a strictly increasing grid of about the requested spacing with no duplicated points. The unweighted windows follow the linear or smoothstep shape in each interval, so that neighbouring windows sum to one between the nodes, and every other window vanishes at the effective redshift of a window. A weight function multiplies the window at every grid point; invalid node arrays are rejected and a first node other than zero gives a warning.",
 ["inputs", "configurations"], "all increasing nodes, spacings and weight functions",
 "Tests use fixed nodes and check few values.",
 S, [("triangular windows", "glass/shells.py:linear_windows"), ("cubic windows", "glass/shells.py:cubic_windows")])
prop("C14", "Restricting a function to a window gives the exact product",
 "Restricting a function to a window returns the sorted union of the window grid and of those function grid points strictly inside the window, and at each of them the product of the linearly interpolated function and the linearly interpolated window. The function counts as zero outside its own grid, and leading axes are treated independently.",
 ["inputs"], "all function grids, window grids, values, overlaps and leading axes",
 "Tests use a few fixed grids.",
 S, [("restriction", "glass/shells.py:restrict")])
prop("C15", "Partition and combination of functions are consistent",
 "Combining weights evaluates, at any redshift, the sum over shells of weight times the unit-normalised window, zero outside of the windows. A function that is a combination of the windows (each of which vanishes at its ends, or ends where the common grid does) is recovered by the least-squares and non-negative partitions exactly in its weights (non-negative ones for the latter), partitions of several functions at once equal the partitions one by one with shells on the leading axis, and the restriction method returns the integral of the restricted function per shell. Non-negative partitions are never negative and unknown methods are rejected.",
 ["inputs", "configurations"], "all window sets with independent windows, all weights, grids, methods and leading axes",
 "Tests use random data with loose tolerance for one window set.",
 S + ["glass/algorithm.py"], [("partition", "glass/shells.py:partition"), ("combination", "glass/shells.py:combine")])
prop("C16", "Redshifts are only assigned to shells that contain them",
 "Each redshift is assigned to a shell with probability proportional to the window of that shell at that redshift, independently for each redshift and in input order and shape. A redshift outside of every window gets index -1 with certainty, and a redshift inside at least one window never gets -1 or a shell whose window vanishes there.",
 ["inputs", "fault_sequences"], "all redshift arrays of any shape and size, all sets of windows, every outcome of the random draw",
 "Tests check a few hundred random draws on fixed windows and cannot cover every random outcome or batch boundary.",
 S, [("distribution over shells", "glass/shells.py:distribute")])
prop("C17", "Redshift grids are uniform and span the requested range",
 "A grid built with a number of steps has exactly that many equal steps, starting at the minimum and ending at the maximum; a grid built with a step size starts at the minimum, has that spacing, and covers the maximum without going more than one step beyond. Distance grids do the same in comoving distance and return the corresponding redshifts. Exactly one of step size and number must be given.",
 ["inputs", "configurations"], "all ranges, numbers of steps and step sizes, any monotonic distance function",
 "Tests check two parameter sets.",
 S, [("uniform grids", "glass/shells.py:_uniform_grid"), ("distance grid", "glass/shells.py:distance_grid")])
prop("C18", "Shell weight functions follow distance, volume and density",
 "For any cosmology, the distance weight is the inverse Hubble function, the volume weight is the squared dimensionless transverse distance divided by the Hubble function, and the density weight is the volume weight times the matter density parameter at that redshift times the critical density, for every redshift in an array.",
 ["inputs"], "all redshifts and all cosmology functions",
 "Tests use one mock cosmology with constant functions.",
 S, [("weights", "glass/shells.py:DistanceWeight, VolumeWeight, DensityWeight")])
prop("C19", "Every sampled galaxy is placed exactly once in its own pixel",
 "When positions are sampled from a map, each pixel of each population yields exactly as many positions as were drawn for it, every position is placed in its pixel, pixels are neither skipped nor repeated across batches and pixel groups, and the reported counts per population add up to the number of positions in every batch. A batch never holds more positions than the requested size unless a single pixel alone exceeds it, and longitudes and latitudes come in pairs. An empty population yields nothing.",
 ["inputs", "fault_sequences", "configurations"], "all numbers of objects per pixel, all batch sizes, map sizes and population shapes",
 "Tests run a few random maps with big batches; the batching loop has many boundary cases that depend on the exact counts.",
 PT + ["glass/healpix.py"], [("batch sampling", "glass/points.py:_sample_galaxies_per_pixel"), ("positions", "glass/points.py:positions_from_delta")])
prop("C20", "Expected galaxy counts follow density, bias and visibility",
 "The Poisson mean of each pixel and population is the number density per square arcminute times the pixel area times one plus the biased density contrast, times the visibility if given, and never negative. With monopole removal the mean of the density contrast after biasing is subtracted first, so that without visibility the total expected number equals density times full sky area. Density, contrast, bias and visibility broadcast over populations, each population using its own values, and the caller's maps are left unchanged.",
 ["inputs", "configurations"], "all maps, densities, biases, bias models, visibilities and broadcast shapes",
 "Tests look at a single shape with fixed values.",
 PT, [("expected count", "glass/points.py:_compute_expected_count"), ("broadcasting", "glass/points.py:_broadcast_inputs")])
prop("C21", "Uniform positions cover the sphere with the reported counts",
 "Uniformly sampled positions have as many longitudes and latitudes as reported for each population, which is the Poisson draw with mean density times the area of the sphere in square arcminutes. Longitudes are uniform in degrees over the full circle and the sines of the latitudes are uniform between minus one and one, so every latitude lies between -90 and 90 degrees. Array densities give one set of positions per entry, with the count in the matching place of an array of that shape.",
 ["inputs", "fault_sequences"], "all densities and shapes, every outcome of the random draws",
 "Tests check sizes for a few seeds.",
 PT, [("uniform positions", "glass/points.py:uniform_positions")])
prop("C22", "Displacements move points along geodesics by exactly their size",
 "Displacing a point by a complex displacement moves it by exactly the angle given by its modulus, along the great circle with the bearing given by its argument (zero towards north, a quarter turn towards east), with the resulting latitude between -90 and 90 degrees. Computing the displacement between two positions and applying it to the first gives the second, complex and two-component input agree, zero displacement changes nothing. The older deflection function is the same map with longitude running the opposite way.",
 ["inputs"], "all positions and displacements",
 "Tests use a few cardinal directions and random points within numerical tolerance.",
 PT + L, [("displace", "glass/points.py:displace"), ("displacement", "glass/points.py:displacement"), ("deflect", "glass/lensing.py:deflect")])
prop("C23", "Bias models and effective bias follow their definitions",
 "The linear model multiplies the density contrast by the bias, and the log-linear model raises one plus the density contrast to the power of the bias, so that contrasts above -1 stay above -1. The effective bias of a window is the integral of bias times window over their common range, both taken as piecewise linear functions sampled on the union of both grids, divided by the integral of the window; a constant bias covering the window gives that constant.",
 ["inputs"], "all density contrasts, biases, bias functions and windows",
 "Tests evaluate a few points.",
 PT + ["glass/arraytools.py"], [("bias models", "glass/points.py:linear_bias, loglinear_bias"), ("effective bias", "glass/points.py:effective_bias")])
prop("C24", "Position weights are normalised densities times bias",
 "The relative clustering weights without bias sum to one over the shells for every combination of extra axes and are proportional to the densities. With a bias the result is the normalised density times the bias of that shell, with scalar, per-shell and higher-dimensional biases broadcast along the first axis.",
 ["inputs", "configurations"], "all densities, biases and shapes",
 "Tests compare a few shapes with random values.",
 PT + ["glass/arraytools.py"], [("position weights", "glass/points.py:position_weights")])
prop("C25", "Multi-plane convergence equals the lensing sum over planes",
 "After any sequence of matter planes at increasing source redshifts, the current convergence is the sum over all earlier planes of the plane times its weight times the lensing efficiency 3/2 Omega_m times distance to the plane times distance from plane to source over distance to the source times one plus redshift over the Hubble function; the newest plane does not contribute. The matrix and weight forms give the same linear map, per shell and for weights normalised over shells with extra axes. Non-increasing source redshifts are rejected without changing the state, and the current redshift, weight and matter plane reported are those last added.",
 ["inputs", "histories"], "all sequences of planes, weights, redshifts and distance functions of a flat geometry",
 "Tests check two planes; the three-term recurrence must equal the full sum for every history.",
 L, [("multi-plane recurrence", "glass/lensing.py:MultiPlaneConvergence"), ("matrix", "glass/lensing.py:multi_plane_matrix"), ("weights", "glass/lensing.py:multi_plane_weights")],
 state=[("last two convergence planes and three redshifts", "the recurrence state")])
prop("C26", "Lensing maps are derived from convergence with the right mode factors",
 "For every combination of requested outputs, the potential, deflection and shear maps are returned in that order, with harmonic modes equal to the convergence modes times -2/(l(l+1)), times sqrt(l(l+1)) for the deflection, and times half of sqrt((l-1)(l+2)) more for the shear, zero at the monopole, using spin 0, 1 and 2. With pixel window correction the shear modes are additionally multiplied by the ratio of the spin-2 to the spin-0 pixel window. The older convergence-to-shear conversion produces the same shear modes.",
 ["inputs", "configurations"], "all convergence maps, mode limits and combinations of outputs",
 "Tests compare a few numeric maps or check only the number of outputs.",
 L + ["glass/healpix.py"], [("lensing maps", "glass/lensing.py:from_convergence"), ("shear", "glass/lensing.py:shear_from_convergence")])
prop("C28", "Sampled redshifts invert the cumulative distribution",
 "Redshifts sampled from a distribution are the values at which its normalised cumulative trapezoidal integral, interpolated linearly, equals independent uniform random numbers, so they always lie within the redshift range and never strictly inside a range where the distribution vanishes. The number of redshifts is the requested count, for arrays of counts and distributions the results are concatenated population by population in row-major order, each population using its own count and distribution.",
 ["inputs", "fault_sequences", "configurations"], "all distributions, counts, shapes and random outcomes",
 "Tests check sample moments within sampling noise.",
 G + ["glass/arraytools.py"], [("redshift sampling", "glass/galaxies.py:redshifts_from_nz"), ("window sampling", "glass/galaxies.py:redshifts")])
prop("C29", "Redshifts drawn by bin label use the distribution of that label",
 "For a catalogue of bin labels, every entry receives a redshift drawn from the distribution belonging to its own label, in the shape and order of the catalogue, with every draw used exactly once. A label without a distribution is an error.",
 ["inputs", "fault_sequences"], "all label arrays, label sets, distributions and random outcomes",
 "Tests use distributions with disjoint support for one catalogue.",
 G, [("label sampling", "glass/galaxies.py:redshifts_from_bins")])
prop("C30", "Observed shears combine each galaxy with the lensing maps at its position",
 "The observed shear of each galaxy is (e+g)/(1+conj(g)e), where e is its own intrinsic ellipticity and g the reduced shear, the complex shear divided by one minus the convergence, of the pixel that contains its own position, for catalogues of any length. Without reduction it is the intrinsic ellipticity plus the shear of its pixel.",
 ["inputs", "configurations"], "all catalogues of any size and all lensing maps",
 "Tests use a catalogue much smaller than the internal batches and check only shapes or a single value.",
 G, [("galaxy shear", "glass/galaxies.py:galaxy_shear")])
prop("C31", "Photometric redshifts respect bounds and the error model",
 "Photometric redshifts are normal draws around the true redshift with standard deviation (1+z) times the given error, redrawn individually until they lie within the lower and upper bounds (zero and unbounded by default), so that no returned value is out of bounds and accepted values are kept. Scalar and array redshifts, errors and bounds broadcast; bounds that are not strictly ordered or do not match in shape are rejected.",
 ["inputs", "fault_sequences", "configurations"], "all redshifts, errors, bounds and sequences of random outcomes",
 "Tests look at finite samples with easy bounds.",
 G, [("photometric redshifts", "glass/galaxies.py:gaussian_phz")])
prop("C32", "Intrinsic alignments follow the non-linear alignment formula",
 "The effective convergence from intrinsic alignments equals the matter density contrast times minus the amplitude, times the normalised mean matter density over the growth factor, times the redshift ratio to its power and the luminosity ratio to its power, for every pixel.",
 ["inputs"], "all density contrasts, parameters and cosmologies",
 "Tests check one numeric case.",
 G, [("alignment model", "glass/galaxies.py:_kappa_ia_nla")])
prop("C33", "Sampled ellipticities have modulus at most one and the right counts",
 "All ellipticity samplers return complex ellipticities with modulus at most one for every random outcome, as many as requested, in row-major order over populations, each population using its own parameters. Gaussian ellipticities are independent normal components scaled by the standard deviation of the population, redrawn only where the modulus exceeds one; intrinsic-normal ones scale a pair of independent normals by the standard deviation that their own formula assigns to the requested one, shrink such a draw to hyperbolic-tangent of half its modulus without changing its direction and reject inadmissible standard deviations; projected ellipsoids have modulus (1-q)/(1+q) for the axis ratio q of an ellipsoid with axis ratios between zero and one.",
 ["inputs", "fault_sequences", "configurations"], "all counts, parameters, shapes and sequences of random outcomes",
 "Tests sample with small dispersions where rejection never or rarely happens.",
 ["glass/shapes.py"], [("Gaussian", "glass/shapes.py:ellipticity_gaussian"), ("intrinsic normal", "glass/shapes.py:ellipticity_intnorm"), ("projected ellipsoids", "glass/shapes.py:ellipticity_ryden04")])
prop("C34", "Projected axis ratios lie between minor axis and one",
 "The axis ratio of a projected triaxial ellipsoid with axis ratios 1 >= zeta >= xi > 0 is that of the true projected ellipse for the sampled viewing direction, and always lies between xi and one. Scalar and array axis ratios broadcast to the requested size.",
 ["inputs", "fault_sequences"], "all axis ratios and viewing directions",
 "Tests check that samples fall in range for a few values.",
 ["glass/shapes.py"], [("projection", "glass/shapes.py:triaxial_axis_ratio")])
prop("C35", "Resampled shapes keep or exactly rescale their moduli",
 "Resampling shapes with random orientations keeps the modulus of every shape and gives it an independent uniform phase; with a shear variance the mean squared modulus is reduced by exactly that variance, and with a reduced-shear variance all moduli shrink by a common factor that solves the documented variance relation. Variances larger than the shape variance, or both variances at once, are rejected, and the input is unchanged.",
 ["inputs", "fault_sequences"], "all shape arrays, variances and random phases",
 "Tests check sample variances statistically.",
 ["glass/shapes.py"], [("resampling", "glass/shapes.py:resample_shapes")])
prop("C36", "Analytic redshift distributions have the right shape and norm",
 "Gaussian and Smail redshift distributions are proportional to their defining formulas at every redshift and integrate (trapezoidal rule) to one, or to the given normalisation, for each entry of their parameter arrays, which become the leading axes; the Smail formula is the one with its maximum at the given mode.",
 ["inputs", "configurations"], "all grids, parameters, normalisations and parameter shapes",
 "Tests evaluate a few grids.",
 ["glass/observations.py"], [("Gaussian", "glass/observations.py:gaussian_nz"), ("Smail", "glass/observations.py:smail_nz")])
prop("C37", "Tomographic bins are contiguous and cover the range",
 "Fixed-size bins start at the minimum, are contiguous and of equal size, with the requested number of bins ending at the maximum, or of the requested size and covering the maximum without an extra empty bin. Equal-density bins are contiguous, start and end with the range of the distribution, and each contains the same share of the trapezoidal integral of the distribution under linear interpolation of its cumulative. Exactly one of number and size must be given.",
 ["inputs", "configurations"], "all ranges, numbers and sizes of bins, all distributions",
 "Tests use a couple of values; boundary rounding and zero-density ranges are not covered.",
 ["glass/observations.py"], [("fixed bins", "glass/observations.py:fixed_zbins"), ("equal density", "glass/observations.py:equal_dens_zbins")])
prop("C38", "Tomographic distributions split the total by error probability",
 "The distribution of each tomographic bin is the total distribution times the probability that a Gaussian error of standard deviation (1+z) times the given error, truncated to positive redshifts, scatters a redshift into the bin. Probabilities are between zero and one, contiguous bins add up to the bin formed by their union, and bins covering all positive redshifts recover the total.",
 ["inputs"], "all distributions, errors, redshifts and bin edges",
 "Tests check shapes and one recovered sum.",
 ["glass/observations.py"], [("tomographic split", "glass/observations.py:tomo_nz_gausserr")])
prop("C39", "Saved spectra are read back identically",
 "A list of angular power spectra saved to a file and loaded again has the same number of spectra, in the same order, with the same lengths and values, including empty spectra and spectra of different lengths.",
 ["inputs"], "all non-empty lists of spectra of any lengths and values",
 "Tests round-trip one list.",
 ["glass/user.py"], [("save", "glass/user.py:save_cls"), ("load", "glass/user.py:load_cls")])
prop("C40", "Catalogue writes append all rows in order and lose none",
 "Any sequence of writes to a catalogue, of tables or of named columns, results in one table whose rows are those of all writes in order, under the column names given; every column keeps its own values, and rows written earlier are never overwritten. A named extension is created on the first write and used by all later ones, and an empty write adds nothing.",
 ["inputs", "histories"], "all sequences and sizes of writes, with and without extension name",
 "Tests write at most two fixed chunks.",
 ["glass/user.py"], [("catalogue writer", "glass/user.py:_FitsWriter"), ("context manager", "glass/user.py:write_catalog")],
 state=[("open table", "extension created on first write")])
prop("C41", "Non-negative least squares returns the optimal solution",
 "Whenever the non-negative least-squares solver terminates within its iteration limit, its solution is non-negative and optimal: the gradient of the squared residual vanishes for positive components and is not favourable (up to the tolerance) for zero components. Inputs of inconsistent shape are rejected.",
 ["inputs", "histories"], "all matrices with independent columns and all right-hand sides",
 "Tests compare a few random problems in which no variable ever has to leave the active set.",
 ["glass/algorithm.py"], [("active set iteration", "glass/algorithm.py:nnls")])
prop("C42", "Nearest covariance keeps the variances and a valid correlation",
 "Regularising a covariance matrix through the nearest correlation matrix keeps the diagonal unchanged, keeps zero rows for zero variances, returns a symmetric matrix, leaves a matrix that is already valid unchanged, and rejects negative variances. The nearest correlation matrix always has a unit diagonal, treats the matrices of a stack independently, follows the alternating projections with correction, and warns if it did not converge.",
 ["inputs", "histories"], "all symmetric matrices and stacks, iteration limits and tolerances",
 "Tests check a few known matrices.",
 ["glass/algorithm.py"], [("nearest correlation", "glass/algorithm.py:nearcorr"), ("nearest covariance", "glass/algorithm.py:cov_nearest")])
prop("C43", "Array helpers broadcast, interpolate and integrate exactly",
 "Broadcasting along the first axis or along leading axes gives every entry the value that ordinary broadcasting of the remaining axes prescribes. Interpolation along any axis equals the piecewise linear interpolant of each one-dimensional slice with the given outside values; the cumulative trapezoidal integral starts at zero and adds the exact area of each interval; and the trapezoidal integral of a product of functions uses the exact product on the union of all grid points within the common range.",
 ["inputs", "configurations"], "all array shapes, values, grids and axes",
 "Tests use small fixed arrays.",
 ["glass/arraytools.py"], [("broadcast_first", "glass/arraytools.py:broadcast_first"), ("leading axes", "glass/arraytools.py:broadcast_leading_axes"), ("interpolation", "glass/arraytools.py:ndinterp"), ("integration", "glass/arraytools.py:trapezoid_product, cumulative_trapezoid")])
prop("C44", "Results do not depend on the array backend",
 "Helper functions missing from some array libraries compute the same values for arrays of any backend as for the reference library, return arrays of the caller's backend (except vectorised functions, which return arrays of the reference library), and accept every optional argument. Functions delegated to the reference library convert arrays nested in tuples, lists and dictionaries of any argument and convert all results nested likewise back, leaving other arguments and results untouched.",
 ["inputs", "configurations"], "all array values, helper functions, optional arguments and nesting of arguments",
 "Tests compare backends on single examples and skip combinations of optional arguments.",
 ["glass/_array_api_utils.py"], [("helpers", "glass/_array_api_utils.py:xp_additions"), ("reference fallback", "glass/_array_api_utils.py:numpy_fallback")])
prop("C45", "Random number wrappers pass draws through and never reuse keys",
 "Random number generators wrapped for any backend return exactly the draws of the wrapped generator for the same arguments, converted to the backend. The key-based generator combines location, scale, bounds and shape as documented, never uses the same key for two draws, splits or children under any interleaving of threads, and rejects shapes that do not match. Functions given a generator draw only from it, and without one use a fixed default seed.",
 ["inputs", "schedules"], "all distributions, arguments and shapes, all interleavings of two concurrent callers",
 "Tests are single-threaded and compare a few draws.",
 ["glass/rng.py", "glass/jax.py", "glass/healpix.py"], [("wrapper", "glass/rng.py:Generator"), ("key-based generator", "glass/jax.py:Generator")],
 state=[("generator key", "advanced by each draw under a lock")])
prop("C47", "Windows are immutable and default to their mean redshift",
 "A radial window keeps the redshifts, weights and effective redshift it was created with and cannot be reassigned. When no effective redshift is given it is the weighted mean redshift under the trapezoidal rule, which lies between the first and last redshift for non-negative weights, and it is undefined for an empty window; unpacking yields redshifts, weights and effective redshift in that order.",
 ["inputs", "histories"], "all window functions",
 "Tests check one window.",
 S, [("radial window", "glass/shells.py:RadialWindow")])
prop("C48", "Visibility masks block exactly the galactic and ecliptic stripes",
 "The visibility map has the number of pixels of its resolution and is built from a map of ones in this order: exactly the pixels of the galactic stripe become zero, the map is rotated from the galactic to the celestial frame, exactly the pixels of the ecliptic stripe become zero with all other pixels unchanged, and the map is rotated from the celestial to the ecliptic frame. Stripes that are not a pair of numbers are rejected, and the strip mask marks exactly the pixels reported for the stripe in the requested type.",
 ["inputs", "configurations"], "all resolutions and stripes, any pixel selection and rotation",
 "Tests only check shapes and errors or one reference sum.",
 ["glass/observations.py", "glass/healpix.py"], [("visibility map", "glass/observations.py:vmap_galactic_ecliptic"), ("strip mask", "glass/healpix.py:query_strip")])
prop("C49", "Wrapped HEALPix operations pass every argument unchanged",
 "Each wrapped HEALPix operation calls the corresponding library operation exactly once with the caller's arguments under the right names, including resolution, mode limit, spin, longitude-latitude flag, pixel weights and data path, and returns its result in the documented structure. A configured data path that is not a directory is rejected.",
 ["inputs", "configurations"], "all arguments and flag combinations",
 "Tests call the wrappers with default flags and compare with the library.",
 ["glass/healpix.py"], [("wrappers", "glass/healpix.py")])
prop("C50", "Shell-based field sets match their shells",
 "Gaussian and lognormal field sets have one transformation per shell in order, with the lognormal shift evaluated at the effective redshift of that shell (one if no shift function is given), and the convergence shift formula is the documented polynomial without constant term. The deprecated generators and spectra functions give exactly what the general functions give for the corresponding transformations, and warn.",
 ["inputs", "configurations"], "all shell sequences, shift functions and redshifts",
 "Tests check lengths and a couple of values.",
 F, [("field sets", "glass/fields.py:gaussian_fields, lognormal_fields"), ("shift", "glass/fields.py:lognormal_shift_hilbert2011"), ("deprecated forms", "glass/fields.py:generate_gaussian, generate_lognormal, lognormal_gls")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
