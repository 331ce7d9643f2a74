"""Source of properties.jsonl and MANIFEST.json: python3 tools/meta.py"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note):
    P.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=["pyirf/" + f for f in files],
                     mechanism=[dict(name=n, where="pyirf/" + w) for n, w in mechanism]),
        technique=technique, note=" ".join(note.split()),
    ))


TRUST = (" Assurance is that of random search: absence of counterexamples in the generated cases, see the"
         " evidence file for their number and distribution. Trusts numpy, astropy and the oracle in props/.")

prop("C01", "Every value is assigned to the one bin that contains it",
     """A value belongs to bin i exactly if lower_edge[i] <= value < upper_edge[i], whatever the unit, dtype,
     shape or memory layout of values and edges. Values below the first edge get the documented underflow index and
     values at or above the last edge (and nan) the documented overflow index, each flagged as invalid; all other
     values are flagged as valid.""",
     ["inputs"], "all strictly increasing edges and all values, including on edges, one ulp beside them, nan and infinities",
     "The tests bin a handful of round numbers in uniform bins; edges, nan, units and shapes are unbounded input space.",
     ["binning.py"], [("searchsorted based bin lookup with side right and index correction", "binning.py:calculate_bin_indices")],
     "property-based testing against a reference model (scan over all bins)",
     "Exact comparison of index and validity for every value; values in other units are only compared away from edges by more than rounding.")
prop("C02", "Bin edges survive splitting, joining, overflow bins and log binning",
     """Splitting edges into lower and upper limits and joining them again gives the same edges (for any number of
     dimensions and any unit), bin centers are the arithmetic mean of the limits, and joining bins that are not
     adjacent is an error. Under- and overflow bins are added exactly once at the documented limits (0 or -infinity
     and infinity) only where missing, without changing any other edge. Logarithmic bins start at the requested
     minimum, have exactly the requested number of bins per decade, keep unit semantics and include the maximum if and
     only if it lies on that grid.""",
     ["inputs"], "all edges in one to three dimensions with any unit; all energy ranges and numbers of bins per decade",
     "Tests check single examples with one unit each; rounding of the last edge and mixed units depend on the values.",
     ["binning.py"], [("split / join", "binning.py:split_bin_lo_hi, join_bin_lo_hi"), ("overflow bins", "binning.py:add_overflow_bins"),
                      ("log bins", "binning.py:create_bins_per_decade")],
     "property-based testing: round trip and reference model",
     "Round trips are exact; logarithmic edges are compared to 1e-9.")
prop("C03", "Histogram tables hold every event once, with its weight and energy bin",
     """A histogram table has one row per bin with its lower edge, upper edge and center; n is the number of events
     inside of the bin (only the last bin includes its upper edge) and n_weighted the sum of their weights (equal to n without weights, also for an empty table).
     If particle types are present, every type gets its own pair of columns computed from its events only, which add
     up to the totals. Events outside of the bins never count, and the event table is not changed.""",
     ["inputs"], "all event tables (none to thousands of events, any weights, types, units, column types), all bins and binning columns",
     "Tests use one random sample in one binning and unit; empty tables, edges and units are combinations the tests never reach.",
     ["binning.py"], [("weighted histogram", "binning.py:create_histogram_table")],
     "property-based testing against a reference model",
     "Counts exactly, sums of weights to rounding.")
prop("C04", "Resampling a histogram keeps its content",
     """Resampling a histogram along any axis interpolates its cumulative sum: new bins between old edges contain exactly
     the sum of the old bins, a constant density stays constant between them, too, the total is kept if the new bins cover the old ones, bins outside of the old range are
     empty, the result is linear in the content and every slice along the other axes is resampled on its own, with
     these axes unchanged. Empty histograms stay empty, integers are supported, units of edges and content are respected
     and unchanged bins return the same histogram.""",
     ["inputs"], "all 1d to 3d histograms, any axis, old and new bins in any units (finer, coarser, shifted, not overlapping)",
     "Tests resample two hand made histograms with simple bins; conservation has to hold for every content, axis and binning.",
     ["binning.py"], [("cumulative distribution interpolated at the new edges", "binning.py:resample_histogram1d")],
     "property-based testing against a reference model and metamorphic relations", "Agreement to 1e-9 of the total content.")
prop("C05", "Percentile cuts are the percentile of each bin, clipped and smoothed",
     """In every bin with at least the minimum number of events the cut is the requested percentile of exactly
     the values of this bin (ignoring nan), limited by minimum and maximum, in all other bins it is the fill value; smoothing is a
     gaussian filter along the bins, applied separately for every percentile. The table has the edges and centers of the
     bins and the number of events, percentiles given as a list are one column with one entry per percentile in the given order,
     and units of values, bins, fill value, minimum and maximum can all be different.""",
     ["inputs"], "all values and bins, percentiles, limits, fill values, minimum numbers of events, smoothing widths and units",
     "Tests check three percentiles of large samples; bins with few events, nan, several percentiles and mixed units depend on the data.",
     ["cuts.py"], [("grouping by bin and percentile", "cuts.py:calculate_percentile_cut")],
     "property-based testing against a reference model", "Own implementation of linear percentiles and of the gaussian filter.")
prop("C06", "An event passes a binned cut only by the cut of its own bin",
     """Evaluating a binned cut compares every value to the cut of the bin which contains its bin value, with the given
     operator and value on the left hand side, in any units; values outside of the range of the table (or marked as not valid) never pass and the
     order of events is kept. Comparing cut tables is true exactly if all tables have equal contents in every bin.""",
     ["inputs"], "all cut tables, values (also nan, equal to the cut), bin values (also on edges and outside), operators and units",
     "Tests evaluate one table with five values; order, under- and overflow and unit conversion must hold for all events.",
     ["cuts.py"], [("lookup of the cut by bin index", "cuts.py:evaluate_binned_cut, evaluate_binned_cut_by_index"), ("comparison", "cuts.py:compare_irf_cuts")],
     "property-based testing against a reference model", "Exact for values not within rounding of the cut.")
prop("C07", "Spectra and event weights follow their formulas in any unit",
     """All spectra (power law, log parabola, power law with gaussian in log10(E), tabulated) return their documented formula for
     scalars and arrays of energies in any unit, tables go exactly through their points, and published spectra have the
     published parameters. Power laws derived from a simulation
     integrate over energy, area, time and (if diffuse) viewcone to the number of simulated showers, also for spectral index -1,
     integrating over a cone multiplies by the solid angle of this cone and keeps the shape. Event weights are the ratio of target and simulated flux at the energy
     of every event, a simulated flux averaged over solid angle is never mixed with a point like one.""",
     ["inputs"], "all parameters, energies over many decades, units of every argument, simulations, cones and tables",
     "Tests evaluate single parameter sets; index -1, other units and the normalisation integral are continuous input space.",
     ["spectral.py"], [("formulas", "spectral.py:PowerLaw, LogParabola, PowerLawWithExponentialGaussian, TableInterpolationSpectrum"),
                       ("normalisation", "spectral.py:PowerLaw.from_simulation"), ("weights", "spectral.py:calculate_event_weights")],
     "property-based testing against closed formulas and numerical integration", "Relative agreement of 1e-9 (1e-6 for numerical integrals).")
prop("C08", "Simulated showers per energy and offset are conserved",
     """The expected number of simulated showers in an energy (or offset) bin is the integral of the simulated
     spectrum (or of the viewcone, uniform in solid angle) over the part of the bin inside of the simulated range; bins
     outside get zero, adjacent bins add up to the number of the merged bin, and bins covering the range add up to the number
     of simulated showers. This holds for any units, any spectral index including -1, and bins of any size; energy and offset
     bins combined give the product of both fractions. Offset bins for point-like simulations are an error.""",
     ["inputs"], "all simulated spectra, energy ranges, viewcones (also rings) and bins (inside, outside, crossing limits, infinite)",
     "Tests use one simulated range with bins mostly inside of it; clipping at the limits depends on how bins and limits interleave.",
     ["simulations.py"], [("clipped integrals", "simulations.py:_powerlaw_pdf_integral, _viewcone_pdf_integral"),
                          ("counts", "simulations.py:SimulatedEventsInfo.calculate_n_showers_per_energy, _per_fov, _per_energy_and_fov")],
     "property-based testing against numerical integrals and additivity", "Relative agreement of 1e-9 with closed integrals.")
prop("C09", "Simulated showers in 3d bins follow the solid angle inside the viewcone",
     """In polar bins the expected number of showers is that of the energy and offset bin times the fraction of the full circle
     covered by the position angle bin. In longitude / latitude bins it is that of the energy bin times the solid
     angle of the overlap of the bin with the viewcone relative to the viewcone (to the accuracy of the documented subpixel sampling); axes are energy, longitude (offset), latitude
     (position angle) in this order, for different numbers and widths of bins, units and negative coordinates.""",
     ["inputs"], "all simulated spectra and viewcones, all numbers, widths and units of bins on each axis",
     "Tests use the same number of equal bins on both axes in degrees, so swapped axes, widths and units are invisible.",
     ["simulations.py"], [("polar", "simulations.py:SimulatedEventsInfo.calculate_n_showers_3d_polar"),
                          ("lonlat", "simulations.py:SimulatedEventsInfo.calculate_n_showers_3d_lonlat, _fov_lonlat_grid_overlap")],
     "property-based testing against analytic and fine grid integration", "Longitude / latitude overlap within the error of the subpixel grid of the implementation.")
prop("C10", "Effective area is selected over simulated events times the simulated area",
     """In every bin of energy, energy and offset, polar or longitude / latitude coordinates the effective area is the number of
     selected events in exactly this bin divided by the expected simulated showers of this bin times the area of
     the simulated disk, in m2 convertible units; bins with simulated but without selected events have zero area and events outside of the bins never count.
     Axes are in the documented order, and the expected rate (effective area times simulated flux integrated over time and bin) reproduces the number of selected events.""",
     ["inputs"], "all selected events, simulations, bins on each axis and units",
     "Tests use few events in square or single-bin layouts; axis order, edges and units need different shapes and generated events.",
     ["irf/effective_area.py", "simulations.py"], [("ratio of histograms", "irf/effective_area.py:effective_area and callers")],
     "property-based testing against a reference model", "Relative agreement of 1e-9 outside of ambiguous bins.")
prop("C11", "Energy dispersion is normalised and uses the migration of the right events",
     """For every true energy and offset bin with events the energy dispersion is the histogram of reconstructed over
     true energy of exactly the events of this bin, integrating to one over the migration axis (including bins of different width);
     bins without events (inside of the migration range) are all zero, never nan. The migration matrix has the same
     meaning with reconstructed energy bins as second axis and rows summing up to one. Axes are true energy, migration
     (reconstructed energy), offset, all units can be different.""",
     ["inputs"], "all events (in and outside of bins, none), numbers and widths of bins of each axis, units",
     "Tests check widths of a gaussian sample on one grid; normalisation and assignment have to hold for every histogram, also empty ones.",
     ["irf/energy_dispersion.py"], [("histogram and normalisation", "irf/energy_dispersion.py:energy_dispersion, energy_migration_matrix, _normalize_hist")],
     "property-based testing against a reference model", "Relative agreement of 1e-9.")
prop("C12", "Dispersion to migration matrix conversion conserves probability",
     """Converting a normalised energy dispersion to a matrix in true and reconstructed energy bins gives rows which
     sum up to one if all migrations end inside of the reconstructed energy bins. If reconstructed edges coincide with
     migration edges (at the center of the true energy bin) the probabilities are those of the dispersion in the covered true energy bins, true energy bins without events stay all zero,
     nothing is outside of the range of migration, and merging reconstructed bins adds their probabilities. Offset bins are independent of each other and all units are respected.""",
     ["inputs"], "all dispersions, new true energy bins inside of the old range, reconstructed energy bins and units",
     "Tests convert one gaussian dispersion with wide tolerances; conservation must hold for every matrix and every pair of binnings.",
     ["irf/energy_dispersion.py", "binning.py"], [("resampling", "irf/energy_dispersion.py:energy_dispersion_to_migration")],
     "property-based testing: conservation, aligned grids, metamorphic relations", "Agreement within 1e-6 where bins are aligned, conservation otherwise.")
prop("C13", "PSF tables are normalised over solid angle for the right events",
     """For every true energy and offset bin with events (inside of the source offset range) the point spread function is the number
     of events of exactly this bin in each source offset bin, divided by the total and the solid angle of the ring, so that it integrates to one;
     it is zero and never nan without events, has units of inverse solid angle and axes energy, offset, source offset.""",
     ["inputs"], "all events (in and outside of bins, none), numbers and widths of bins of each axis, units",
     "Tests check containment of one rayleigh sample; normalisation, assignment and axis order must hold for all samples and shapes.",
     ["irf/psf.py", "utils.py"], [("histogram and normalisation", "irf/psf.py:psf_table, _normalize_psf"), ("solid angles", "utils.py:cone_solid_angle")],
     "property-based testing against a reference model", "Relative agreement of 1e-9.")
prop("C14", "Background rates reproduce the weighted event rate of each bin",
     """In every bin the background rate times observation time, bin width in energy and solid angle of the bin (ring resp. exact
     longitude / latitude rectangle) is the sum of weights of exactly the events of this bin, so that integrating over all bins gives the total weighted rate.
     Axes are energy, then offset (or longitude, latitude), units and numbers of bins on each axis are arbitrary, empty bins are zero.""",
     ["inputs"], "all weighted events, numbers and widths of bins, units and observation times",
     "Tests use few events on a symmetric grid; solid angle, weights and axes have to be right for every bin.",
     ["irf/background.py", "utils.py"], [("histogram, width and solid angle", "irf/background.py:background_2d, background_3d_lonlat"),
                                         ("solid angles", "utils.py:cone_solid_angle, rectangle_solid_angle")],
     "property-based testing against a reference model", "Relative agreement of 1e-9.")
prop("C15", "Li & Ma significance is the likelihood ratio of equation 17",
     """The significance is that of equation 17 of Li and Ma (1983), also for weighted counts, n_off = 0 and n_on = 0;
     it is zero if n_on is not larger than alpha times n_off, never nan or negative for valid counts, and increases with n_on. Scalars,
     lists, arrays and dimensionless quantities (also scaled, e.g. percent) of any broadcastable shapes are evaluated element-wise, scalars returned as scalars.""",
     ["inputs"], "all counts (zero to 1e12, integers, floats), all alpha, all broadcastable shapes",
     "Tests check published values only; cancellation close to zero excess and broadcasting depend on values and shapes.",
     ["statistics.py"], [("likelihood ratio", "statistics.py:li_ma_significance")],
     "property-based testing against extended precision reference", "Reference evaluated in extended precision.")
prop("C16", "The relative sensitivity is the smallest flux that passes all requirements",
     """The relative sensitivity is the factor by which the excess (n_on minus alpha n_off) has to be scaled, with the background kept, so that the
     significance reaches the required one, the excess is at least the minimum number of signal events and at least the minimum fraction
     of the background - the smallest such factor, also when far from one. Without excess it is infinite, for nan counts
     nan, and negative counts are an error; other significance functions, requirements and broadcasting of all parameters are respected.""",
     ["inputs"], "all counts, ratios, requirements, significance functions and broadcastable shapes",
     "Tests check consistency at a few counts; which of the three requirements is the limit depends on the counts.",
     ["sensitivity.py", "statistics.py"], [("root finding and limits", "sensitivity.py:_relative_sensitivity, relative_sensitivity")],
     "property-based testing: defining equation with independent solver", "Solutions with significance above 0.5 sigma and counts up to 1e8.")
prop("C17", "Sensitivity and background estimates use the events of each energy bin",
     """In every energy bin of the sensitivity table the relative sensitivity is that of the weighted counts of exactly this bin
     (n_on is the signal plus alpha times the background, n_off the background), with signal counts scaled to it, the significance at this flux,
     edges and background counts of the histograms, also for weighted counts as dimensionless quantities (also scaled); histograms with different bins are rejected. The background estimate of a bin is the number
     of background events of this energy in the ring (lower limit included, upper excluded), times the ratio of the solid angle of the off region (cone of the
     theta cut interpolated at the center of the bin, divided by alpha) to that of the ring, for weighted and unweighted counts of every particle type.""",
     ["inputs"], "all signal and background histograms, background events, ring limits, theta cuts, alphas, requirements and units",
     "Tests run one example with equal bins; bin alignment, weights, particle types and ring limits vary with the data.",
     ["sensitivity.py", "utils.py"], [("per bin sensitivity", "sensitivity.py:calculate_sensitivity"), ("ring background", "sensitivity.py:estimate_background")],
     "property-based testing against a reference model", "Relative agreement of 1e-6 with an independent solver.")
prop("C18", "Cut optimisation returns the best of all scanned cuts in every bin",
     """The optimisation of the gamma/hadron cut (also combined with theta and multiplicity cuts) returns in every energy bin the combination of scanned
     efficiencies with the smallest relative sensitivity, evaluated with the events passing exactly these cuts
     and the background scaled by area; no other scanned combination is better. Returned cut tables contain the cuts which give the
     returned sensitivity, for any order of efficiencies, score operators, binning and units, and events are not changed.""",
     ["inputs"], "all signal and background events, efficiencies, operators, theta cuts, bins and limits of the background ring",
     "Tests only check that a single large example runs with plausible results; the best combination can be anywhere in the grid.",
     ["cut_optimization.py", "cuts.py", "sensitivity.py"], [("grid search", "cut_optimization.py:optimize_gh_cut, optimize_cuts")],
     "property-based testing: brute force over all combinations", "Ties and sensitivities equal to rounding accept any of the best combinations.")
prop("C19", "Angular distances and field of view coordinates are spherical geometry",
     """Theta, source offset, position angle and field of view longitude / latitude of every event agree with vector geometry on the sphere, for
     any positions (poles, wrap of azimuth, opposite directions, zero distance), units, dtypes and numbers of events, also in GADF
     convention (longitude reversed resp. angle in the documented range). Adding full turns to azimuths or
     rotating everything around the zenith changes nothing, true and reconstructed columns are never mixed.""",
     ["inputs"], "all pairs of positions on the sphere, in all units and dtypes",
     "Tests check a few positions close to one pointing; wraps and poles are corners of a continuous space.",
     ["coordinates.py", "utils.py"], [("offset frames", "coordinates.py:gadf_fov_coords_lon_lat, gadf_fov_coords_theta_phi"),
                                      ("separations", "utils.py:calculate_theta, calculate_source_fov_offset, calculate_source_fov_position_angle, calculate_source_fov_lonlat")],
     "property-based testing against vector arithmetic", "Absolute agreement to rounding of double precision positions.")
prop("C20", "Resolution and bias are quantiles of exactly the events of each bin",
     """In every bin (of true or reconstructed energy, as requested) the angular resolution is the requested quantile(s) of theta, energy bias
     and resolution are the given estimators (default: median and half of the central 68 percent interval) of reco / true - 1
     of exactly the events in this bin; bins without events are nan, with edges, centers and number of events
     of the bin. Any units, also of the limits, and several quantiles are supported, input tables are not changed.""",
     ["inputs"], "all events (none, outside, on edges, nan), bins, quantiles, estimators and units",
     "Tests check gaussian samples in two bins within tolerances; assignment and empty bins depend on the data.",
     ["benchmarks/angular_resolution.py", "benchmarks/energy_bias_resolution.py"],
     [("grouped quantiles", "benchmarks/angular_resolution.py:angular_resolution"), ("grouped estimators", "benchmarks/energy_bias_resolution.py:energy_bias_resolution")],
     "property-based testing against a reference model", "Own quantile implementation, relative agreement of 1e-9.")
prop("C21", "Bias and resolution from a dispersion are quantiles of its migration",
     """For every energy and offset the bias is the median minus one and the resolution half of the central 68 percent interval of
     the migration distribution (linear cumulative distribution inside of a bin), for bins of any width, gaps, and content concentrated
     in the first or last bin; without content both are nan and entries do not influence each other.""",
     ["inputs"], "all normalised dispersions and migration bins",
     "Tests use one gaussian with uniform bins; gaps, edge bins and empty entries depend on the matrix.",
     ["benchmarks/energy_bias_resolution.py"], [("inverted cumulative distribution", "benchmarks/energy_bias_resolution.py:energy_bias_resolution_from_energy_dispersion")],
     "property-based testing against a reference model", "Quantiles anywhere in a gap without content are accepted.")
prop("C22", "IRFs written to FITS read back the same with valid GADF headers",
     """Every response exported to a HDU, written to a file and read back has the same values, axes and units of effective area, energy
     dispersion, point spread function, background and theta cuts, in the axis order of the GADF format, follows the published schema, has the
     mandatory and all additional header cards, and its own extension name. Earlier and later exports do not
     influence each other, inputs are not changed, and gammapy reads the exported responses with the same values.""",
     ["inputs", "histories"], "all shapes, units, dtypes and memory layouts of responses; sequences of exports",
     "Tests export one response per kind with the schema as only oracle; swapped axes and units pass with symmetric shapes.",
     ["io/gadf.py"], [("transposition and column units", "io/gadf.py:create_aeff2d_hdu, create_psf_table_hdu, create_energy_dispersion_hdu, create_background_2d_hdu, create_background_3d_hdu, create_rad_max_hdu"),
                      ("header cards", "io/gadf.py:_add_header_cards")],
     "property-based testing: round trip over histories of exports, schema, differential with gammapy", "Round trip to the precision of the written columns; trusts ogadf-schema and gammapy as readers.")
prop("C23", "Gammapy objects have the same values and axes as the input",
     """Effective area, point spread function and energy dispersion converted to gammapy objects contain the same values, axes (edges, units, order, linear)
     as the input, and evaluating them at the middle of the bins, or exporting and reading the file, gives the same values.
     Values or edges with wrong physical type are an error and inputs are not changed.""",
     ["inputs"], "all shapes, units, dtypes and memory layouts of responses",
     "Tests convert one response each with few shapes; axis mix ups need different lengths for each axis.",
     ["gammapy.py"], [("axes and data", "gammapy.py:create_effective_area_table_2d, create_psf_3d, create_energy_dispersion_2d")],
     "property-based testing: differential against input and the file export", "Trusts gammapy for evaluation and reading.")
prop("C24", "Event display files are read completely with correct units and counts",
     """Reading a DL2 file gives all events in their order, with every documented column under its new name with the documented unit
     and values, and the simulation information of the run headers: energy range, spectral index, viewcone, maximum impact, and the number of simulated showers
     (sum of the histogram, or showers times uses for every combination of run and pointing of the events, as requested), for any integer types, column and table order, additional tables and columns, without overflow.""",
     ["inputs"], "all files with the documented tables, any numbers of runs and events, types, units and orders",
     "The existing tests need private data files and do not run at all.",
     ["io/eventdisplay.py"], [("column map and run header", "io/eventdisplay.py:read_eventdisplay_fits")],
     "property-based testing: generated files, round trip", "Files are generated with astropy following the code's documented column map.")

prop("C25", "Estimators interpolate inside the grid and extrapolate only outside",
     """A component estimator gives targets inside of the convex hull of the grid (one dimension: between the smallest and largest grid point,
     both included) to the interpolator, and all other targets to the extrapolator with a warning, or raises ValueError if there is none. In one
     dimension the result does not depend on the order of grid points (with their templates), keyword arguments
     reach the inter- and extrapolator they are for, repeated and mixed targets do not influence each other. Wrong types, shapes,
     numbers of templates, too few or degenerate grid points and targets of wrong dimension are errors at creation resp. call.""",
     ["inputs", "histories"], "all grids in one to three dimensions, templates, sequences of targets, user defined inter- and extrapolators and invalid inputs",
     "Tests place one or two targets in a regular grid; hull membership and dispatch depend on the geometry of grid and target.",
     ["interpolation/component_estimators.py", "interpolation/base_interpolators.py", "interpolation/base_extrapolators.py"],
     [("hull test and dispatch", "interpolation/component_estimators.py:BaseComponentEstimator.__call__")],
     "property-based testing against a geometric model with recording inter- and extrapolators",
     "Targets within rounding of the hull (2D, 3D) count as inside or outside.")
prop("C26", "Parametrized estimates are barycentric combinations of the right simplex",
     """Linear interpolation of parameters uses the barycentric weights of the simplex of the Delaunay triangulation which contains the target,
     nearest simplex extrapolation those of the simplex nearest to the target (also in one dimension: the two outermost grid points), visible edges extrapolation blends
     the extrapolations of all simplices with an edge visible from the target, with angles to the power m + 1 (in a single
     visible edge and in one dimension it is the nearest simplex). Grid points are reproduced, linear parameters are reproduced everywhere (inside and outside), weights do
     not depend on the templates, the visible edges method is continuous, and m has to be an integer larger than zero.""",
     ["inputs"], "all grids in one and two dimensions, templates of any shape and targets in all directions",
     "Tests check linear parameters in one regular grid with few targets; which simplex or edge is used depends on the geometry.",
     ["interpolation/griddata_interpolator.py", "interpolation/nearest_simplex_extrapolator.py", "interpolation/visible_edges_extrapolator.py", "interpolation/utils.py"],
     [("griddata", "interpolation/griddata_interpolator.py:GridDataInterpolator"),
      ("nearest simplex", "interpolation/nearest_simplex_extrapolator.py:ParametrizedNearestSimplexExtrapolator, interpolation/utils.py:find_nearest_simplex"),
      ("visible edges", "interpolation/visible_edges_extrapolator.py:find_visible_facets, compute_extrapolation_weights")],
     "property-based testing against a geometric model (own weights from the triangulation) and metamorphic relations",
     "Ties (equal distances, cocircular points) accept every candidate; nearly collinear grids are outside of the domain.")
prop("C27", "Interpolated distributions stay normalised with interpolated mean and width",
     """Quantile interpolation and moment morphing (inside and extrapolating with the nearest simplex) of binned distributions give non-negative
     histograms with total one for bin width (energy dispersion) resp. solid angle (psf) normalisation, for uniform and
     non-uniform bins. Each slice of further dimensions is estimated on its own, empty templates give an empty result, templates are
     reproduced at their grid point, and equal templates everywhere. Moment morphing combines the templates with the barycentric weights,
     each transformed to the interpolated mean and standard deviation; quantile interpolation averages quantiles with these weights.""",
     ["inputs"], "all grids in one and two dimensions, bins, binned distributions (peaks, random, gaps, single bin, empty), normalisations and targets",
     "Tests interpolate gaussians between two grid points with loose tolerances; normalisation, gaps and empty slices depend on the templates.",
     ["interpolation/quantile_interpolator.py", "interpolation/moment_morph_interpolator.py", "interpolation/nearest_simplex_extrapolator.py", "interpolation/utils.py"],
     [("quantiles", "interpolation/quantile_interpolator.py:QuantileInterpolator"), ("moments", "interpolation/moment_morph_interpolator.py:moment_morph_estimation"),
      ("extrapolation", "interpolation/nearest_simplex_extrapolator.py:MomentMorphNearestSimplexExtrapolator")],
     "property-based testing against reference models, with invariants and metamorphic relations",
     "Shapes of quantile interpolated distributions are compared for gapless templates only. Two known findings: results narrower than one bin can be empty.")
prop("C28", "Estimated effective areas are interpolated in logarithm and never negative",
     """The effective area estimator combines the logarithms of the effective areas (values below the minimum count as the minimum), so that results inside of the grid are
     between the smallest and largest template, positive, in the unit of the input, and grid points are reproduced; results not above the minimum are
     exactly zero. Areas which depend exponentially on the parameters are reproduced also outside of the grid. Minimum and templates can
     have different units, scaling all areas and the minimum scales the result, bins are independent, and templates are not changed.""",
     ["inputs"], "all effective areas of any shape and unit over grids in one to three dimensions, minimum areas, inter- and extrapolators, and targets",
     "Tests check one linear example in one grid; zeros, minimum and units are combinations which depend on the templates.",
     ["interpolation/component_estimators.py"], [("logarithm and minimum", "interpolation/component_estimators.py:EffectiveAreaEstimator")],
     "property-based testing against a reference model", "Relative agreement of 1e-6; results within 1e-6 of the minimum are not compared.")
prop("C29", "Estimated theta cuts never exceed the fill value and keep fill value bins",
     """The estimator of theta cuts (rad max) interpolates each bin on its own with linear weights, results are never negative. With a fill value (given, or inferred
     as the largest of all values) results never exceed it, and a bin depends on how many of the relevant templates (in one dimension the two
     neighboring resp. outermost grid points; in two the corners of the simplex containing the target or nearest to it) have the fill value: none - the interpolated value; in one
     dimension any - the fill value; in two dimensions one - the smallest template value of the corners, two or three - the fill value. Nearest neighbour searching
     returns the template instead. Without fill value nothing is treated specially. Any order of grid points gives the same result.""",
     ["inputs"], "all tables of theta cuts over grids in one and two dimensions, with any pattern of fill values, and all targets",
     "Tests check three patterns of fill values in a small grid; the pattern and position of the target select the rule.",
     ["interpolation/component_estimators.py"], [("fill values", "interpolation/component_estimators.py:RadMaxEstimator")],
     "property-based testing against a reference model", "Ties of simplices accept every candidate.")
prop("C30", "Dispersion and PSF estimators treat the right axis, units and normalisation",
     """Energy dispersion and point spread function estimators estimate the distribution along the given axis for every other bin, at any position of this axis
     and any number of further axes, with the result in the axis order and unit of the templates. Energy dispersions are normalised with the width of migration
     bins, psf with the solid angle of the source offset bins, given in any unit. Moving the axis moves the axis of the result, a different unit of
     offsets or psf gives the same physical result, all inter- and extrapolators are supported, templates are not changed and wrong shapes are errors.""",
     ["inputs"], "all shapes, axes, units, bins, grids in one and two dimensions, methods and targets",
     "Tests use the default axis and units in one grid; axis mix ups need different lengths and units for each axis.",
     ["interpolation/component_estimators.py"], [("axis and units", "interpolation/component_estimators.py:EnergyDispersionEstimator, PSFTableEstimator")],
     "property-based testing: differential against the bare inter- and extrapolators, metamorphic relations",
     "Relative agreement of 1e-6 with the methods checked in C27.")
prop("C31", "Nearest neighbour searchers return the template of the nearest grid point",
     """Nearest neighbour searchers return the unchanged template (values, unit) of the grid point with the smallest distance to the target in
     the norm of the given order (a positive integer, by default 2; anything else is an error), for any dimension, inside and outside of the grid, for parametrized components and
     discrete distributions, also as inter- and extrapolator of the estimators. Changing a result does not change later
     results.""",
     ["inputs", "histories"], "all grids in one to three dimensions, templates, norms and sequences of targets",
     "Tests check a few targets with two norms; which point is nearest depends on norm and geometry.",
     ["interpolation/nearest_neighbor_searcher.py"], [("distance and selection", "interpolation/nearest_neighbor_searcher.py:BaseNearestNeighborSearcher")],
     "property-based testing against exhaustive search", "Equally near points (to rounding) are all accepted.")
prop("C32", "Solid angles and table checks are exact and reject what is inconsistent",
     """The solid angle of a cone is 2 pi (1 - cos(theta)), of a rectangle the difference of longitudes times the difference of
     sines of latitude, for any units and shapes; both add up for adjacent ranges. Checking a table raises for missing columns and columns without or with non-equivalent unit and for nothing else.
     Checking two histograms raises if number or edges (lower, upper, center) of the bins differ in any bin. Scalars (numbers, quantities and zero
     dimensional arrays) are recognised, everything with dimensions is not, and normalisation widths are bin widths resp. cone solid angles.""",
     ["inputs"], "all angles, units, tables, histograms and objects",
     "Tests check one example for each; units, shapes and mismatches in a single bin depend on the values.",
     ["utils.py", "binning.py", "interpolation/utils.py"],
     [("solid angles", "utils.py:cone_solid_angle, rectangle_solid_angle"), ("tables", "utils.py:check_histograms, is_scalar; exceptions.py"),
      ("width", "interpolation/utils.py:get_bin_width")],
     "property-based testing against reference formulas", "Agreement to rounding of double precision (of the full sphere).")
prop("C33", "No function keeps state, changes its inputs or depends on earlier calls",
     """Calling any function of the library (binning, cuts, spectra, responses, sensitivity, optimisation, benchmarks, coordinates, export, interpolation) does not change its inputs (values, units, columns,
     metadata), any constant or spectrum of the library, default headers, the random state, numpy, warning or unit settings, or files. Results are the same when
     called again with the same objects, in any order with any other calls before, in several threads at once, and after earlier results were overwritten. Results are independent objects: later calls do not change
     them, and changing them does not change inputs (besides parts of edges and gammapy objects, which are views). An
     estimator gives the same result for a target whatever was evaluated before, as a new estimator.""",
     ["inputs", "histories", "schedules"], "all sequences of calls of all functions with any inputs, also in several threads, and all sequences of targets for all estimators",
     "Every test calls functions once with fresh inputs; mutation and caching show only in later calls of a history.",
     ["binning.py", "cuts.py", "spectral.py", "simulations.py", "sensitivity.py", "cut_optimization.py", "irf/effective_area.py", "irf/energy_dispersion.py",
      "irf/psf.py", "irf/background.py", "io/gadf.py", "gammapy.py", "interpolation/component_estimators.py"],
     [("functions without side effects", "binning.py:create_histogram_table (and all public functions)"), ("headers", "io/gadf.py:DEFAULT_HEADER")],
     "stateful property-based testing: random histories, compared call by call and in another order",
     "State is compared for everything public and the global settings of numpy, warnings and units.")
prop("C34", "Results do not depend on the representation of the input",
     """The same values in other equivalent units, byte order, memory layout (strided, reversed, Fortran order), as read-only arrays, as integers, as dimensionless quantities (also scaled) instead of plain numbers where these are supported, as angles instead of quantities,
     as events in another order, or in tables with other column order, additional columns and metadata give the same physical results (per event: in
     the order of the events) with same shape, type and unit dimension, for all functions of the library.""",
     ["inputs"], "all functions, inputs and pairs of representations",
     "Tests use one representation per function (mostly TeV, deg, contiguous arrays in fixed order).",
     ["binning.py", "cuts.py", "spectral.py", "simulations.py", "sensitivity.py", "cut_optimization.py", "irf/effective_area.py", "irf/energy_dispersion.py",
      "irf/psf.py", "irf/background.py", "io/gadf.py", "gammapy.py", "utils.py", "benchmarks/angular_resolution.py", "benchmarks/energy_bias_resolution.py",
      "interpolation/component_estimators.py"],
     [("unit conversion at the entry of each function", "irf/background.py:background_2d (and all public functions)")],
     "metamorphic property-based testing over a registry of operations",
     "Tolerance of 1e-8 for direct calculations and down to 1e-5 for iterative and interpolated results.")
prop("C35", "Responses fold back to the counts, rates and weights they were made from",
     """Responses from different parts of the library agree with each other: effective area times simulated showers times energy migration is the reconstructed spectrum of the selected events, the
     mean over field of view bins weighted with the showers is the effective area of the whole viewcone, event weights add up to flux times effective
     area, time, width and solid angle of the viewcone (so that spectra from the simulation, weights, showers and effective area have consistent normalisation, for point-like and diffuse simulations), the background
     model integrated over the on region is the background estimate, effective area after a theta cut is that before times the psf integrated
     up to the cut, and percentile cuts keep that fraction of the events; also after export to files.""",
     ["inputs"], "all simulations (spectrum, viewcone), events, binnings, units, times and spectra",
     "Tests check each function alone; inconsistent factors (area, solid angle, time, shower number) cancel or show only in combination.",
     ["irf/effective_area.py", "irf/energy_dispersion.py", "irf/psf.py", "irf/background.py", "simulations.py", "spectral.py", "sensitivity.py", "cuts.py", "io/gadf.py"],
     [("normalisation of simulated spectra and showers", "spectral.py:PowerLaw.from_simulation, simulations.py:SimulatedEventsInfo"),
      ("normalisation of responses", "irf/effective_area.py, irf/psf.py, irf/background.py")],
     "property-based testing: differential between components (conservation relations)",
     "Relative agreement of 1e-5 or better; spectra in bins of relative width 1e-6.")

#: claimed properties, in order
if __name__ == "__main__":
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            p = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    checks = [
        dict(property=p["id"], quick_cmd=f"./check {p['id']}",
             thorough_cmd=f"VERIF_TIER=thorough ./check {p['id']}",
             technique=p["technique"], level="exploration", level_note=p["note"] + TRUST)
        for p in P if os.path.exists(os.path.join(VERIF, "props", p["id"].lower() + ".py"))
    ]
    claimed = {c["property"] for c in checks}
    assert claimed == {p["id"] for p in P}, "properties without a check"
    manifest = dict(
        version=1, setup_cmd="./setup", checks=checks, not_applicable=[],
        notes="Every check is a set of hypothesis strategies with explicit oracles, see DESIGN.md."
              " ./check <id> --replay FILE repeats a violation.",
    )
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
