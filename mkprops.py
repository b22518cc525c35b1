"""writes properties.jsonl (one place to edit the property texts)"""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": [{"input": "inputs", "history": "histories", "schedule": "schedules"}[o] for o in over], "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = state
    P.append(d)


ROI, UT = "skbeam/core/roi.py", "skbeam/core/utils.py"

prop("P01", "Ring and bar ROIs label exactly the pixels between their edges",
     "For a non-decreasing even-length edge list, ring labelling gives pixel (row, col) the label k exactly when its Euclidean distance from the center lies in the k-th half-open interval [inner, outer), and 0 when it lies in none. "
     "Bar labelling does the same with the row index (horizontal), the column index (vertical) or caller-supplied pixel values in place of the distance. "
     "Odd-length or decreasing edge lists are rejected with ValueError, and the returned array has the requested image shape.",
     ["input"], "every sorted edge list, center (inside, outside, fractional), image shape and pixel",
     "Boundary pixels, degenerate zero-width rings, non-square shapes and centers off the image are a continuum; tests sample a few.",
     [ROI, UT], [("rings", ROI + ":rings"), ("bar", ROI + ":bar"), ("_make_roi", ROI + ":_make_roi"), ("radial_grid", UT + ":radial_grid")])
prop("P02", "Rectangle ROIs label exactly the clipped rectangle and never overlap",
     "Labelling a list of rectangles (start, start, extent, extent) gives every in-image pixel of the i-th rectangle the label i and every other pixel 0, with parts beyond the image clipped away. "
     "If two rectangles share an in-image pixel a ValueError is raised, and box labelling of all combinations of horizontal and vertical edge pairs labels exactly the pixels inside each pair product.",
     ["input"], "every list of integer rectangles (including partly or wholly outside the image) and every image shape",
     "Clipping and overlap depend on the relative position of all rectangles and the image border.",
     [ROI], [("rectangles", ROI + ":rectangles"), ("box", ROI + ":box")])
prop("P03", "Segmented rings label each (ring, angular segment) cell uniquely",
     "With n equal angular segments and no offset, each pixel whose distance lies in ring i (half-open) and whose polar angle in [0, 2*pi) lies in segment s (half-open) gets label i*n + s + 1, all other pixels get 0. "
     "With explicit segment edges the label follows the explicit edges in the same way for every pixel whose angle they cover.",
     ["input"], "every sorted edge list, segment count or list, center and shape",
     "Angle wrap-around, ring boundaries and label arithmetic interact for every pixel position.",
     [ROI, UT], [("segmented_rings", ROI + ":segmented_rings"), ("angle_grid", UT + ":angle_grid")])
prop("P04", "Generated ring edges follow inner radius, widths and spacings exactly",
     "The generated edge table has one (inner, outer) row per ring: the first inner edge is the inner radius, every ring is exactly its width wide, and consecutive rings are separated by exactly the requested spacing. "
     "Widths and spacings may each be a constant or a list, the ring count is inferred from the lists when not given, and inconsistent list lengths or a missing ring count raise ValueError.",
     ["input"], "every inner radius, width/spacing scalar-or-list combination and ring count",
     "Scalar/list combinations times arbitrary lengths cannot be enumerated.",
     [ROI], [("ring_edges", ROI + ":ring_edges")])
prop("P05", "ROI extraction and ROI statistics use exactly the labelled pixels",
     "Label extraction returns, for exactly the pixels with positive label and in row-major order, their label and flat pixel index; ROI pixel values, kymographs, mean intensities and maximum counts are computed from exactly the pixels carrying the requested label, frame by frame. "
     "Mean intensity returns one row per frame and one column per requested label, in the order requested (all labels present except 0 when none are requested).",
     ["input"], "every label array, image stack and label selection",
     "Correctness is per pixel, frame and label over arbitrary label maps.",
     [ROI], [("extract_label_indices", ROI + ":extract_label_indices"), ("roi_pixel_values", ROI + ":roi_pixel_values"),
             ("mean_intensity", ROI + ":mean_intensity"), ("kymograph", ROI + ":kymograph"), ("roi_max_counts", ROI + ":roi_max_counts")])
prop("P06", "1-D binning and circular averaging conserve counts and intensity",
     "Binning values by position puts every sample whose position lies within the given (or data) range into exactly one of the equal-width bins, so the per-bin counts and sums are those of the samples inside each bin's edges and add up to the totals inside the range. "
     "The circular average at a bin center is the mean of the unmasked pixels whose calibrated distance from the center falls in that bin, and bins holding no more than the threshold number of pixels are left out.",
     ["input"], "every position/value array, bin count, range limits, mask, center and pixel size",
     "Double counting or loss at bin borders depends on exact positions.",
     [UT, ROI], [("bin_1D", UT + ":bin_1D"), ("bin_edges_to_centers", UT + ":bin_edges_to_centers"), ("circular_average", ROI + ":circular_average"),
                 ("statistics_1D", "skbeam/core/stats.py:statistics_1D"), ("bin_grid", UT + ":bin_grid")])
prop("P07", "Generated bin edges meet exactly the requested constraints",
     "Given any three of (minimum, maximum, bin count, step), the generated edges are equally spaced and honour the three given values: start at the minimum, end at the maximum, have count+1 entries, or advance by the step, never running past a given maximum. "
     "Giving fewer or more than three, an inverted range, a non-positive count or a step larger than the range raises ValueError.",
     ["input"], "every combination and value of the four parameters",
     "The four parameter modes times real-valued inputs cannot be sampled exhaustively.",
     [UT], [("bin_edges", UT + ":bin_edges")])
prop("P08", "Scattering unit conversions are exact mutual inverses",
     "Converting q to d-spacing and back, q to two-theta and back, or distance to angle follows d = 2*pi/q, q = (4*pi/wavelength)*sin(two_theta/2) and two_theta = arctan(radius/distance), element by element, so every round trip returns its input. "
     "The inputs are never modified.",
     ["input"], "all positive q, d, wavelength and angles in the physical range, scalars and arrays",
     "An identity over the reals; tests sample a handful of values.",
     [UT], [("q_to_d", UT + ":q_to_d"), ("d_to_q", UT + ":d_to_q"), ("q_to_twotheta", UT + ":q_to_twotheta"),
            ("twotheta_to_q", UT + ":twotheta_to_q"), ("radius_to_twotheta", UT + ":radius_to_twotheta")])
prop("P09", "The histogram accumulator counts every in-range sample exactly once",
     "After any sequence of fills with 1-D coordinate arrays (contiguous or strided), lists or scalars, each cell of a histogram of one or more dimensions holds the sum of the weights (one, a scalar or one per sample) of all samples whose every coordinate lies inside that cell's half-open bin; samples with a coordinate outside the half-open axis range (or NaN) are ignored and all others are counted in exactly one cell, never outside the bin array, however close to the upper limit. Reset empties the histogram, bin edges and centers are evenly spaced between the limits, coordinates are not modified, and a wrong number of coordinates, or coordinates or weights of different lengths, raise ValueError and leave the histogram unchanged.",
     ["input", "history"], "every axis specification, every coordinate/weight array and fill sequence",
     "Floating-point bin arithmetic at the edges and arbitrary fill histories.",
     ["skbeam/core/accumulators/histogram.pyx"], [("Histogram", "skbeam/core/accumulators/histogram.pyx:Histogram"),
                                                 ("find_indices", "skbeam/core/accumulators/histogram.pyx:find_indices")])
prop("P10", "Reusable binned statistics equal a direct per-bin computation",
     'A binned-statistic object built once on sample positions (one, two or more dimensions, bin counts or explicit edges per dimension, optional range and mask) returns, for each values array, the requested statistic (mean, sum, count, median, standard deviation or a callable) of exactly the unmasked values whose position falls in each bin; bins are half-open with the last one closed on the right, empty bins give NaN for mean and median and 0 for count, sum and standard deviation. Positions outside the range and masked-out positions never contribute, the bin map gives each unmasked position its bin number per dimension (0 and n+1 outside), the radial and polar variants bin by distance (and angle) from the origin, neither positions, mask nor values are altered, and an unknown statistic or a mask or values of the wrong shape raise ValueError.',
     ["input", "history"], "every sample set, bin specification, mask, statistic and repeated evaluation",
     "The cached bin map must be right for every later values array and every bin layout.",
     ["skbeam/core/accumulators/binned_statistic.py"], [("BinnedStatisticDD", "skbeam/core/accumulators/binned_statistic.py:BinnedStatisticDD"),
                                                        ("RPhiBinnedStatistic", "skbeam/core/accumulators/binned_statistic.py:RPhiBinnedStatistic"),
                                                        ("RadialBinnedStatistic", "skbeam/core/accumulators/binned_statistic.py:RadialBinnedStatistic")])
prop("P11", "3-D gridding assigns every in-range point to exactly one voxel",
     'Gridding intensities at 3-D reciprocal-space positions gives, per voxel, the mean, the number and the standard error (standard deviation over the square root of the number) of the intensities of the points inside it; points outside the given half-open bounds, masked out (2-D or 3-D mask) or with NaN intensity contribute nothing, and total occupancy equals the number of in-range points. The result does not depend on the thread count or on the order of the points, with default bounds every point is inside whatever the sign or magnitude of the coordinates, inputs are not modified, and positions that are not N x 3 or a mask of another shape raise ValueError.',
     ["input", "schedule"], "every point cloud, intensity, bounds, grid size and mask; every interleaving of the worker threads",
     "Edge points and thread interleavings are not reachable by fixed examples.",
     [UT, "src/ctrans.c"], [("grid3d", UT + ":grid3d"), ("c_grid3d", "src/ctrans.c:c_grid3d")])
prop("P12", "Reciprocal-space coordinates follow the geometry formulas",
     'Converting detector pixels and diffractometer angles (degrees, order delta, theta, chi, phi, mu, gamma) to q obeys the six-circle geometry at every pixel of every image, images in order and pixels row by row: in the theta, phi and Cartesian frames the q vector is k times the difference of the outgoing and incoming unit vectors turned into that frame, so its length equals 4*pi/wavelength times the sine of half the scattering angle of that pixel, and the hkl frame applies the inverse UB matrix on top. The length of a list of hkl vectors is the Euclidean norm of each, and the grazing-incidence angles and q components obey their defining formulas (incidence and exit angles from the direct and reflected beam positions, rotation by the tilt) at every pixel. Settings that do not have six angles raise ValueError and an unknown frame KeyError.',
     ["input"], "all angle settings, detector calibrations, energies, UB matrices and pixels",
     "A geometric identity over real-valued settings.",
     ["skbeam/core/recip.py", "src/ctrans.c"], [("process_to_q", "skbeam/core/recip.py:process_to_q"), ("hkl_to_q", "skbeam/core/recip.py:hkl_to_q"),
                                                ("gisaxs", "skbeam/core/recip.py:gisaxs"), ("c_ccdToQ", "src/ctrans.c:ccdToQ")])
prop("P13", "Multi-tau g2 is the normalised average over all frame pairs at every delay",
     "After any number of frames, each delay of the first level holds, for every label, the mean over all frame pairs at that delay of the label's mean of I(t)*I(t+delay), divided by the product of the means of the label's average intensities of the earlier and of the later frames of those pairs; each higher level holds the same for the frames averaged in successive pairs of the level below, at the second half of its channels only. "
     "A pair in which any labelled pixel is NaN is left out of the averages and of their pair count. The delays reported are the multi-tau lag times before the first delay that has no contributing pair yet (or at which some label's earlier frames are all dark). "
     "Labels are treated independently, in ascending order; feeding frames lazily one at a time, resuming from a yielded state or processing them in one call give the same results, an odd number of channels raises ValueError, and the images are not modified.",
     ["input", "history"], "every frame sequence, label map, level and buffer count, and every way of splitting the stream",
     "Ring-buffer indices and level promotion depend on the whole frame history.",
     ["skbeam/core/correlation.py"], [("lazy_one_time", "skbeam/core/correlation.py:lazy_one_time"), ("_one_time_process", "skbeam/core/correlation.py:_one_time_process"),
                                      ("multi_tau_auto_corr", "skbeam/core/correlation.py:multi_tau_auto_corr")])
prop("P14", "Two-time correlation is exact, symmetric and reduces to one-time",
     "For a single level the two-time matrix of a label at frames (t1, t2) closer than the number of channels is the mean over the label's pixels of I(t1)*I(t2) divided by the product of the two mean intensities; every further level fills, at the delays of the second half of its channels, the entries of the blocks whose averaged frames it correlates, with the correlation of those averaged frames. "
     "Entries no level covers stay zero and the matrix is symmetric. "
     "The one-time curve derived from a two-time matrix is, at every lag, the mean of the corresponding diagonal.",
     ["input", "history"], "every frame sequence, label map and buffer size; every square two-time matrix",
     "Depends on every pair of frames and the ring-buffer history.",
     ["skbeam/core/correlation.py"], [("lazy_two_time", "skbeam/core/correlation.py:lazy_two_time"), ("_two_time_process", "skbeam/core/correlation.py:_two_time_process"),
                                      ("one_time_from_two_time", "skbeam/core/correlation.py:one_time_from_two_time")])
prop("P15", "Multi-tau lag times and geometric series follow their schedules",
     "The lag schedule for L levels of b channels lists lags 0..b-1 at level one and then, for every further level l, the b/2 lags (b/2 + j)*2^(l-1), so lags are strictly increasing and their number is (L+1)*b/2; an odd channel number raises ValueError. "
     "The geometric series starts at the first term, multiplies by the ratio and contains exactly the further terms that lie below the limit.",
     ["input"], "every level count, even channel count, ratio and limit",
     "A closed form for all sizes.",
     [UT], [("multi_tau_lags", UT + ":multi_tau_lags"), ("geometric_series", UT + ":geometric_series")])
prop("P16", "Masked spatial cross-correlation normalises by the true pair counts",
     "For each labelled region, in ascending label order, the result at displacement d (a map over all displacements inside the region's bounding box, zero displacement at its centre) is the sum over the pixel pairs of the region separated by d of first-image intensity times second-image intensity; 'regular' normalisation divides it by the number of such pairs and by the two images' mean intensities over the region, 'symavg' multiplies by that number and divides by the intensity sums of the pixels taking part on either side, and with any normalisation displacements without pairs are NaN. "
     "A constant image therefore gives exactly one wherever pairs exist. Pixels outside the region never influence the result, the images are not modified, repeated calls on the same object are independent, and images of another shape raise ValueError.",
     ["input", "history"], "every 1-D or 2-D region map, image pair, normalisation and call sequence",
     "Per-displacement normalisation over arbitrary region shapes.",
     ["skbeam/core/correlation.py"], [("CrossCorrelator", "skbeam/core/correlation.py:CrossCorrelator"), ("_cross_corr", "skbeam/core/correlation.py:_cross_corr")])
prop("P17", "Speckle visibility histograms are normalised photon-count distributions",
     "For successive doubling integration times 1, 2, 4, ... and every region, the reported distribution over photon counts is the mean over image sets of the mean over the disjoint windows of that many consecutive frames of the normalised histogram of the region's pixel counts summed over the window, with unit bins from 0 to the maximum count times the window length minus one; windows containing a bad (NaN) frame are left out. It is non-negative and sums to one whenever every window has a count inside the bins, and the reported spread is the square root of the mean of squares minus the square of the mean. Normalised bin edges at level i are the counts 0, 1, ... divided by the region mean times the integration time, with their midpoints as centers, the expected distributions (gamma, negative binomial, Poisson) are the analytic formulas, and images are not modified.",
     ["input", "history"], "every image sequence, label map, time-bin count and maximum count",
     "The sliding buffers depend on the whole frame history.",
     ["skbeam/core/speckle.py"], [("xsvs", "skbeam/core/speckle.py:xsvs"), ("normalize_bin_edges", "skbeam/core/speckle.py:normalize_bin_edges"),
                                  ("nbinom_dist", "skbeam/core/fitting/lineshapes.py:nbinom_dist")])
prop("P18", "Masks keep exactly the pixels their rule keeps",
     "The bad-frame filter yields an all-NaN frame for exactly the listed frame indices and every other frame unchanged; the threshold mask yields per frame a mask that is 0 exactly where some frame so far reached the threshold (or the given mask already was 0); the margin mask keeps exactly the pixels at least the edge size away from every border. "
     "The binned outlier mask keeps exactly the unmasked pixels lying strictly within alpha standard deviations of the mean of the unmasked pixels in their (half-open, last one closed) radial bin.",
     ["input"], "every image, threshold, border width, bin layout and prior mask",
     "Per-pixel rules on arbitrary data including empty borders and shared outputs.",
     ["skbeam/core/mask.py"], [("bad_to_nan_gen", "skbeam/core/mask.py:bad_to_nan_gen"), ("threshold", "skbeam/core/mask.py:threshold"),
                               ("margin", "skbeam/core/mask.py:margin"), ("binned_outlier", "skbeam/core/mask.py:binned_outlier")])
prop("P19", "Image logic operators are exact pixelwise Boolean functions",
     "The derived logic operators satisfy, at every pixel and for any mix of array types: nand = not(a and b), nor = not(a or b), subtraction = a and not b. "
     "Operands are never modified, an optional output array receives the result, and the result is Boolean of the operands' shape.",
     ["input"], "all arrays of equal shape and any number of operands",
     "Truth tables over arbitrary arrays and operand counts.",
     ["skbeam/core/arithmetic.py"], [("logical_nand", "skbeam/core/arithmetic.py:logical_nand"), ("logical_nor", "skbeam/core/arithmetic.py:logical_nor"),
                                     ("logical_sub", "skbeam/core/arithmetic.py:logical_sub")])
prop("P20", "Dark subtraction and pixel-to-relative coordinates are exact",
     "Subtracting reference images from an image stack subtracts from every data frame the most recent preceding reference frame flagged in the flag list, and returns only data frames in order; a first frame that is not a reference is rejected. "
     "Relative pixel coordinates list, for every pixel of an image in row-major order, its x (column) and y (row) offset from the center, scaled by the pixel sizes, together with its intensity.",
     ["input", "history"], "every flag sequence and stack; every rectangular image and center",
     "Depends on the flag history and on image aspect ratio.",
     [UT], [("subtract_reference_images", UT + ":subtract_reference_images"), ("img_to_relative_xyi", UT + ":img_to_relative_xyi"),
            ("angle_grid", UT + ":angle_grid")])
prop("P21", "Spectrum ROI integration and re-alignment use exactly the requested window",
     "Integrating a spectrum over a list of intervals adds up, per interval, Simpson's rule over exactly the samples from the first at or above the lower bound through the first at or above the upper bound, for ascending or descending axes; the binned version integrates at the bin centers; intervals outside the data or inverted, mismatched lengths and non-monotonic axes raise ValueError. "
     "The largest-peak finder fits the window around the true maximum, clipped to the data, and aligning spectra shifts each axis by its peak position and scales it by the first peak width over its own, leaving the inputs unmodified.",
     ["input"], "every spectrum, interval list and window",
     "Window borders depend on arbitrary axis values.",
     ["skbeam/core/spectroscopy.py"], [("integrate_ROI", "skbeam/core/spectroscopy.py:integrate_ROI"), ("integrate_ROI_spectrum", "skbeam/core/spectroscopy.py:integrate_ROI_spectrum"),
                                       ("find_largest_peak", "skbeam/core/spectroscopy.py:find_largest_peak"), ("align_and_scale", "skbeam/core/spectroscopy.py:align_and_scale")])
prop("P22", "Images rebuilt from radial profiles interpolate the profile at every pixel",
     "The image constructed from a circular average has, at every pixel, the linear interpolation of the profile at that pixel's calibrated distance from the center, with the given fill values outside the profile. "
     "The image constructed from an (r, phi) map interpolates linearly in radius and (periodically) in angle, is NaN outside the radii and where masked samples enter, and leaves the caller's arrays unmodified.",
     ["input"], "every profile, center, pixel size, shape and mask",
     "Interpolation at every pixel, including outside the profile range and at the angular wrap.",
     ["skbeam/core/image.py"], [("construct_circ_avg_image", "skbeam/core/image.py:construct_circ_avg_image"),
                                ("construct_rphi_avg_image", "skbeam/core/image.py:construct_rphi_avg_image")])
prop("P23", "Powder and image files round-trip the data they are given",
     "Saving a diffraction pattern as chi, dat or xye text and loading it back returns exactly the same x, y and error columns in order, with a header naming the file, the kind of x values and the number of points. The GSAS writer reads back, in each of its STD, ESD and FXYE formats and for every number of points, to the same number of points, the two-theta values, and the intensities (scaled down by the power of ten that makes the largest fit the format) up to the printed precision, with the reciprocal squared errors (reciprocal intensities for STD) as weights. The file name keeps its base name with the format's extension and an existing file is replaced, Fit2D masks and raw binary arrays read back unchanged, and mismatched lengths, missing errors, unknown formats or a missing directory raise ValueError without leaving a file.",
     ["input"], "every data length and value range, file name and format",
     "Fixed-column formats fail only at particular lengths and magnitudes.",
     ["skbeam/io/save_powder_output.py", "skbeam/io/gsas_file_reader.py"], [("save_output", "skbeam/io/save_powder_output.py:save_output"),
      ("gsas_writer", "skbeam/io/save_powder_output.py:gsas_writer"), ("gsas_reader", "skbeam/io/gsas_file_reader.py:gsas_reader")])
prop("P24", "Peak line shapes obey their analytic definitions",
     "For every point, area, center and positive width: the Gaussian and Lorentzian equal their textbook formulas normalised to the given area, the pseudo-Voigt is their exact linear mix, the Voigt is their convolution, the squared Lorentzian integrates to the given area, the step is area*erfc((x-c)/(sqrt(2) s))/(2 E) and the tail is the erfc-damped exponential whose exponent is clamped to zero above the center. "
     "The elastic shape is the Gaussian of the calibrated energy with variance (offset/2.355)^2 + energy*epsilon*fano, and the Compton shape is the documented mix of Gaussian, step and two tails at the Compton-shifted energy, divided by one plus the step and tail fractions. Inputs are not modified.",
     ["input"], "every energy axis and parameter set in the valid domain",
     "An identity over real parameters.",
     ["skbeam/core/fitting/lineshapes.py"], [("gaussian", "skbeam/core/fitting/lineshapes.py:gaussian"), ("lorentzian", "skbeam/core/fitting/lineshapes.py:lorentzian"),
      ("pvoigt", "skbeam/core/fitting/lineshapes.py:pvoigt"), ("gaussian_tail", "skbeam/core/fitting/lineshapes.py:gaussian_tail"), ("compton", "skbeam/core/fitting/lineshapes.py:compton"), ("elastic", "skbeam/core/fitting/lineshapes.py:elastic")])
prop("P26", "Element data and powder standard lookups are consistent",
     "Looking up an element by symbol or name in any letter case or by atomic number gives the same element with the constants of the shipped table, elements compare and sort by atomic number, and unknown keys raise KeyError. "
     "Fluorescence line, edge, jump and yield lookups return the xraylib value of exactly that element and line or shell (zero where xraylib has none), and the line search returns exactly the lines whose energy lies strictly inside the window and whose cross section at the incident energy is not zero, grouped by element, leaving out elements without a line. "
     "Powder standards list every reflection once, ascending in q, with q*d = 2*pi, keep each reflection's hkl, and convert to two-theta by Bragg's law.",
     ["input"], "all elements, key spellings, energy windows and reflection lists",
     "All elements times all spellings and windows.",
     ["skbeam/core/constants/basic.py", "skbeam/core/constants/xrf.py", "skbeam/core/constants/xrs.py"], [("BasicElement", "skbeam/core/constants/basic.py:BasicElement"),
      ("XrfElement", "skbeam/core/constants/xrf.py:XrfElement"), ("emission_line_search", "skbeam/core/constants/xrf.py:emission_line_search"),
      ("PowderStandard", "skbeam/core/constants/xrs.py:PowderStandard")])
prop("P27", "Nested metadata dictionaries keep every stored leaf",
     'After any sequence of operations on dotted paths, storing a value under a path and reading the same path returns it, leaves under other paths are unchanged, iteration lists exactly the stored leaf paths, and deleting a path removes just that leaf or subtree. Reading never changes the dictionary: a missing path gives None from the metadata dictionary and KeyError from the parameter dictionary. Reading, storing or deleting a path that runs through an existing leaf raises and destroys nothing.',
     ["history"], "every sequence of set, get, delete and iterate operations on arbitrary dotted paths",
     "A property of operation histories.",
     [UT, "skbeam/core/utils.py"], [("MD_dict", UT + ":MD_dict"), ("RCParamDict", UT + ":RCParamDict"), ("verbosedict", UT + ":verbosedict")])
prop("P29", 'Phase-gradient integration and DPC fitting steps are exact',
     'The DPC image reduction returns exactly the column and row sums of the region of interest with bad pixels counted as zero, and the fit residual is the squared distance between the shifted, scaled reference spectrum and the measured one. Phase reconstruction from two gradients returns, for any image size, step, padding and weighting in [0, 1], the weighted least-squares integral in Fourier space (zero where the denominator vanishes) cropped to the image; other weightings raise ValueError. Feeding images one at a time or in several calls that resume from the returned state fills the scan in row-major order with the same values, scaling multiplies the gradients only when requested, and inputs are unchanged.',
     ['input', 'history'], 'every image, ROI, bad-pixel list, gradient pair, spacing, padding, weighting and split of the image sequence',
     'Fourier indexing and edge cases (odd sizes, padding, zero weighting) are only sampled by tests.',
     ['skbeam/core/dpc.py'], [('image_reduction', 'skbeam/core/dpc.py:image_reduction'), ('_rss_factory', 'skbeam/core/dpc.py:_rss_factory'), ('recon', 'skbeam/core/dpc.py:recon'), ('lazy_dpc', 'skbeam/core/dpc.py:lazy_dpc'), ('reconstruct_phase_from_partial_info', 'skbeam/core/dpc.py:reconstruct_phase_from_partial_info')])
prop("P30", 'Phase-retrieval building blocks follow their definitions',
     'The modulus projection gives the object whose normalised spectrum has, wherever the measured amplitude is positive, the measured amplitude with the phase kept (up to the offset), and is unchanged elsewhere; the diffraction error is the relative norm of the amplitude mismatch. Box and disk supports contain exactly the pixels within the radius of the center pixel (size // 2 per axis), the Gaussian is normalised and the shrink-wrap support keeps exactly the pixels whose smoothed magnitude reaches the threshold fraction of its maximum. The difference-map reconstruction applies these projections with the documented feedback each iteration, averages the iterations after the averaging start, calls the callback every cb_step iterations and leaves its inputs unmodified.',
     ['input', 'history'], 'every complex object, support, measured amplitude, radius, array shape and iteration count',
     'Projections must hold for every pixel value, shape parity and iteration.',
     ['skbeam/core/cdi.py'], [('pi_modulus', 'skbeam/core/cdi.py:pi_modulus'), ('cal_diff_error', 'skbeam/core/cdi.py:cal_diff_error'), ('find_support', 'skbeam/core/cdi.py:find_support'), ('generate_box_support', 'skbeam/core/cdi.py:generate_box_support'), ('generate_disk_support', 'skbeam/core/cdi.py:generate_disk_support'), ('gauss', 'skbeam/core/cdi.py:gauss'), ('_dist', 'skbeam/core/cdi.py:_dist'), ('generate_random_phase_field', 'skbeam/core/cdi.py:generate_random_phase_field'), ('cdi_recon', 'skbeam/core/cdi.py:cdi_recon')])
prop("P32", "Peak candidates and filters keep exactly the qualifying peaks",
     "The count filter returns the candidates with the n largest values in descending order, the height filter keeps, in order, exactly the candidates whose peak-to-peak height in the window clipped to the data exceeds the threshold. "
     "Peak refinement passes each candidate's window, clipped at the data border, to the refinement function, and the quadratic refinements return the vertex of the least-squares parabola of the values or of their logarithm, rejecting peaks whose fit quality is below the threshold.",
     ["input"], "every candidate list and data array",
     "Depends on arbitrary peak positions and heights.",
     ["skbeam/core/feature.py"], [("filter_n_largest", "skbeam/core/feature.py:filter_n_largest"), ("filter_peak_height", "skbeam/core/feature.py:filter_peak_height"),
      ("peak_refinement", "skbeam/core/feature.py:peak_refinement"), ("refine_quadratic", "skbeam/core/feature.py:refine_quadratic"), ("refine_log_quadratic", "skbeam/core/feature.py:refine_log_quadratic")])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
    print(len(P), [d["id"] for d in P if len(d["title"]) > 80])
