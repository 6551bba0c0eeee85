#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": w} for n, w in state]
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

U = "RMutils/util_RM.py"; M = "RMutils/util_misc.py"
S1 = "RMtools_1D/do_RMsynth_1D.py"; C1 = "RMtools_1D/do_RMclean_1D.py"
S3 = "RMtools_3D/do_RMsynth_3D.py"; C3 = "RMtools_3D/do_RMclean_3D.py"

prop("P01", "RM synthesis is the weighted Faraday sum of each pixel's spectrum",
 "For every 1-, 2- or 3-D Stokes Q/U array, every set of channel wavelengths, every list of trial Faraday depths (symmetric or not, uniform or not) and every non-negative weight vector, each output value is (sum of w*(Q+iU)*exp(-2i*phi*(lambda^2-lambda0^2))) / (sum of w), both sums over the channels that are valid in that pixel. lambda0^2 is the weight-averaged lambda^2 of the channels that are valid in at least one pixel, unless the caller forces a value, and it is returned with the result; a missing weight vector means equal weights and a NaN weight means weight zero.",
 ["inputs"], "all spectra/cubes, channel sets, weight vectors, Faraday-depth lists, forced or computed reference wavelength, 32 and 64 bit",
 "The tests compare a handful of fixed spectra with stored numbers to 1e-3 on symmetric, uniform depth grids with no flags and smooth weights; they cannot reach arbitrary weights, grids or per-pixel normalisation.",
 [U], [("do_rmsynth_planes", U+":97"), ("per-pixel K and global lambda0^2", U+":176")],
 ["return value of do_rmsynth_planes"])

prop("P02", "A flagged channel is treated as absent, and only in the pixel it flags",
 "Flagging (NaN in Q or U of) some channels of a pixel gives that pixel the FDF obtained by deleting those channels, for the same reference lambda^2, and leaves every other pixel's FDF unchanged; a channel that is flagged in all pixels, or has zero or NaN weight, has no influence on anything, including lambda0^2. A pixel without any usable non-zero data is NaN at all depths. The result for a pixel does not depend on the array's dimensionality or on the pixel's position, and the caller's arrays are not modified.",
 ["inputs"], "all flag patterns over channels and pixels, all layouts of the same spectra as 1-D, 2-D and 3-D arrays",
 "No test flags individual voxels; the interplay of per-pixel and global flag bookkeeping is only visible over all flag patterns.",
 [U], [("mskCube/mskPlanes/KArr", U+":163"), ("zeromap", U+":213")], ["return value of do_rmsynth_planes, and the argument arrays after the call"])

prop("P03", "The RMSF is the normalised transform of the sampling used for that pixel",
 "The spread function of each pixel equals the weighted Faraday sum of a unit source at depth zero over exactly that pixel's unflagged channels (so it is 1 at depth zero, never exceeds 1 in modulus, is conjugate-symmetric in depth, and equals the FDF of Q=1,U=0 data with lambda0^2=0 phases removed), whether or not other pixels have isolated flags, and depends on mask layout only through each pixel's own flags. It is sampled on the FDF's depth grid extended by half its length at both ends with the same spacing, or exactly on the FDF grid when doubling is off. Without fitting the reported width is 3.8/(lambda^2 range) and the fit status -1; with fitting it is the width of the fitted main lobe.",
 ["inputs", "configurations"], "all channel sets, weights, masks (whole-plane, isolated, mixed), depth grids, doubling on/off, fitting on/off, forced reference wavelength",
 "Tests evaluate one mask-free RMSF and compare against an older implementation; the per-pixel branch, the extension grid and the mask bookkeeping are not sampled.",
 [U], [("get_rmsf_planes", U+":244"), ("extrap", U+":801"), ("fit_rmsf", U+":819")], ["return value of get_rmsf_planes"])

prop("P04", "RM-CLEAN conserves the signal: dirty = residual + model * RMSF",
 "After any number of iterations the dirty FDF of each pixel equals its residual plus the sum of its clean components convolved with its RMSF (each component multiplying the RMSF centred on the component), and the clean FDF equals the residual plus the components convolved with a Gaussian of unit peak and the given full width at half maximum. This holds for each pixel with its own RMSF and width, and the input arrays are left unmodified.",
 ["inputs", "histories"], "all dirty FDFs, RMSFs (complex, off-centre peak), gains, cutoffs, iteration limits, windows, depth grids",
 "Tests compare final scalars of one cleaned spectrum to 1e-3; conservation has to hold after every iteration for all spectra and component positions including the band edges.",
 [U], [("do_rmclean_hogbom", U+":472"), ("RMcleaner._cleanloop", U+":681")], ["return value of do_rmclean_hogbom for every iteration limit"])

prop("P05", "RM-CLEAN iterates exactly by its peak/cutoff/limit/window rules",
 "Each iteration subtracts gain times the residual at the currently strongest depth; cleaning goes on while the strongest residual is at or above the cutoff and fewer than the maximum number of iterations were made, so a spectrum below the cutoff is returned untouched with zero iterations. If a window threshold is given, cleaning then continues down to that threshold only at depths within half an RMSF width (to within one depth sample) of a component found before, clipped at the ends of the depth axis, under the same iteration limit; without a threshold (NaN) there is no such second stage. The reported iteration count is the number of iterations made, and no spectrum is iterated beyond the limit.",
 ["inputs", "histories"], "all dirty spectra, gains, cutoffs, window thresholds, limits; the whole iteration history observed by raising the limit one step at a time",
 "Tests check one final iteration count; the stopping, windowing and peak-selection decisions form a history whose every step matters.",
 [U], [("main loop and windowed loop", U+":696")], ["state after n iterations, n = 0..N, via the iteration limit"])

prop("P06", "RM-CLEAN results do not depend on pixel layout, order or parallelism",
 "Cleaning a cube gives in every pixel exactly what cleaning that pixel's spectrum alone gives: same clean FDF, components, residual and iteration count, at that pixel's own position, for every cube shape and for every worker pool, order of completion and chunk size. Pixels below the cutoff in the same cube do not affect and are not affected by the others.",
 ["schedules", "inputs"], "all cube shapes and contents, all serial/pool executions and chunk sizes, worker processes with separate memory",
 "The only cube test is a serial run that checks the exit code; results under a pool are never compared.",
 [U, C3], [("inputs/xyCoords/pool.imap", U+":573")], ["return value of do_rmclean_hogbom with and without pool"])

prop("P07", "Peak measurements follow from the FDF by the documented formulas",
 "For every FDF the reported peak depth and amplitude are the vertex of the parabola through the strongest interior depth sample and its two neighbours (NaN when the vertex lies outside the depth range), the polarisation angle is half the phase at that depth in [0,180), and the derotated angle is that angle minus depth*lambda0^2 modulo 180. Errors, signal-to-noise, and the bias-corrected amplitude sqrt(A^2-2.3*noise^2) (applied only at S/N of at least the threshold) derive from the supplied noise (or, if none is given, the robust scatter of the spectrum away from the peak), the RMSF width and the channel wavelengths. Scaling FDF and noise together scales amplitudes and leaves depths and angles alone, and shifting the depth axis shifts only the depth.",
 ["inputs"], "all FDFs, depth grids, noise levels, widths, channel sets",
 "Tests pin one simulated spectrum; edge peaks, wrap-around angles, the S/N branch and out-of-range vertices are not covered.",
 [U, M], [("measure_FDF_parms", U+":980"), ("calc_parabola_vertex", M+":386")], ["returned dictionary"])

prop("P08", "Stokes I fit: model order is chosen by AIC, flagged channels do not count",
 "A fit of fixed order p is the least-squares fit of that order to the unflagged channels (finite Stokes I and error); with a negative order the fitter starts at order 0 and raises the order one at a time only while AIC = 2*(p+1)+chi^2 strictly decreases, up to the limit, and reports parameters, chi^2, AIC and order of the last accepted order. The order never exceeds the limit, unused higher coefficients are zero, and reported degrees of freedom, reduced chi^2 and reference frequency follow from the unflagged channels alone.",
 ["inputs", "configurations"], "all spectra, error vectors, flag patterns, order settings -5..5, both function families",
 "Tests compare a few fixed spectra; the order search is a state machine over data-dependent decisions.",
 [M], [("fit_StokesI_model", M+":449"), ("fit_spec_poly5", M+":896")], ["FitResult"])

prop("P09", "Changing a Stokes I model's reference frequency never changes the model",
 "Re-expressing a fitted model (linear or log polynomial, any coefficients) at another reference frequency leaves its value at every frequency unchanged and records the new reference frequency; going via an intermediate frequency gives the same coefficients as going directly, and returning restores the originals. After one change the parameter uncertainties are the first-order propagation of the fit covariance through the same transformation.",
 ["inputs", "histories"], "all coefficient vectors, covariances, frequency pairs and chains of changes",
 "One test renormalises a fit by a tiny ratio; the polynomial identities and error terms only show for larger ratios and all coefficients.",
 [M], [("renormalize_StokesI_model", M+":557"), ("calculate_StokesI_model", M+":536")], ["FitResult and model values"])

prop("P10", "Fractional spectra divide Q, U and errors by one model, with truthful status",
 "The fractional Q, U and their errors equal the inputs divided channel by channel by the returned Stokes I model (the fitted or the supplied one), non-finite results becoming NaN in that channel only. For a fitted model the fit status carries +128 if and only if the model is negative in some channel and +64 if and only if it is below the Stokes I error in some channel; when the fitter fails with an exception the model is unity with status 9, and a supplied model is used unchanged with status 0.",
 ["inputs"], "all I/Q/U spectra and errors, NaN patterns, supplied models, fit failures",
 "Tests contain only well-behaved positive spectra.",
 [M], [("create_frac_spectra", M+":706")], ["returned tuple"])

prop("P11", "1-D RM synthesis delivers a self-consistent result for every spectrum",
 "The depth grid is uniform, symmetric, has an odd number of samples with zero at the centre and covers the requested range and spacing; weights are 1/noise^2 or uniform as asked; the FDF is the Faraday sum of the fractional spectra scaled by the Stokes I model at the reference frequency; and the RMSF uses the same channels, weights and reference wavelength. The reported reference frequency, Stokes I value, noise (error propagation of the weights), channel counts and frequency range, and peak parameters agree with these arrays, and unusable channels (NaN data or NaN/infinite noise) are excluded from all of them alike. The record also names the units and fit it used: median channel width (a positive number in any channel order) and median channel noise, the coefficients and errors of the Stokes I model, and the complexity metrics of the fractional residuals.",
 ["inputs", "configurations"], "all five- and seven-column spectra, flag patterns, weightings, grid options, fit options, 32/64 bit",
 "Tests pin one simulated spectrum without flags at default options.",
 [S1, U, M], [("run_rmsynth", S1+":74")], ["mDict, aDict"])

prop("P12", "1-D synthesis to CLEAN hand-over through files loses nothing",
 "Reading back the files written by 1-D synthesis yields the same arrays and measurements (to the stored precision), so cleaning from files equals cleaning in memory. A negative cutoff or window means that multiple of the theoretical noise and a positive one is absolute, and the files written by CLEAN hold its arrays and its measurements of the clean FDF, with the iteration count and cutoff actually used. The command-line tools give the same files and numbers as the library calls on the same files with the same options.",
 ["inputs", "histories"], "all spectra and option combinations through synthesise-save-read-clean-save",
 "Tests check that files exist and a few scalars for one spectrum.",
 [S1, C1], [("saveOutput/readFile", S1+":531"), ("run_rmclean/saveOutput/readFiles", C1+":51")], ["files, dictionaries"])

prop("P13", "3-D RM synthesis files equal the 1-D result of each sky pixel",
 "For every FITS cube the dirty FDF, RMSF, peak and width files contain at sky position (x,y) exactly what 1-D synthesis of that pixel's spectrum gives (divided by the Stokes I model before and multiplied by its value at the reference frequency after, if one is given), whatever the position of the frequency axis and the presence of degenerate axes. Output axes are written so that the header's Faraday-depth axis reproduces the depth of every plane, sky coordinates (including a rotation of the axes) are carried over unchanged, the units and the reference wavelength are recorded. Where the user leaves the Faraday depth grid, the weights or the RMSF width to the tool they follow the documented rules: samples across the theoretical width, an extent of at least ten widths, noise used only with variance weighting, super-resolution referred to zero wavelength.",
 ["inputs", "configurations"], "all cube shapes (non-square), axis orders, flag patterns, options (I model, weights, no RMSF, separate or multi-extension files, default grids, fitted widths, super-resolution)",
 "The cube test checks axis lengths of one square cube.",
 [S3, U], [("run_rmsynth", S3+":57"), ("writefits", S3+":272"), ("readFitsCube", S3+":733"), ("create_peak_maps", S3+":685")], ["FITS files"])

prop("P14", "3-D RM-CLEAN reads, cleans and writes every pixel in place",
 "Cleaning the files written by 3-D synthesis gives at each sky pixel the 1-D CLEAN of that pixel's dirty FDF with its own RMSF and width, written at the same position with the same axes and header as the input and per-pixel iteration counts; it does so for every directory and prefix name, axis layout, single or separate files, and number of workers.",
 ["inputs", "configurations", "schedules"], "all cubes, axis orders, file naming, worker counts, cutoffs/windows",
 "The cube test only checks the exit code.",
 [C3], [("run_rmclean", C3+":56"), ("writefits", C3+":168"), ("read_FDF_cubes", C3+":388")], ["FITS files"])

prop("P15", "Splitting a cube into chunks and assembling them restores the cube",
 "For every cube and chunk size, including a single chunk and a short last chunk, the chunk files together hold every sky pixel exactly once, with its whole spectrum, and assembling them (also after per-chunk processing that changes the number of planes) yields the processed value of each pixel at its original position with the original sky header.",
 ["inputs", "histories"], "all cube shapes and dimensionalities, chunk sizes, processed planes, more than ten chunks",
 "Tests use one cube and one chunk size.",
 ["RMtools_3D/create_chunks.py", "RMtools_3D/assemble_chunks.py"], [("create_chunks.main", "RMtools_3D/create_chunks.py:28"), ("assemble_chunks.main", "RMtools_3D/assemble_chunks.py:22")], ["FITS files"])

prop("P16", "Region extraction keeps exactly the requested pixels at their coordinates",
 "Extracting pixel ranges (inclusive, counted from 1) from a 2-, 3- or 4-D file returns exactly those pixels and planes, and the new header assigns to each kept pixel and plane the same world coordinate it had in the original file.",
 ["inputs"], "all dimensionalities, boxes touching the borders, plane ranges",
 "The test checks only that the tool exits normally.",
 ["RMtools_3D/extract_region.py"], [("extract_region.main", "RMtools_3D/extract_region.py:22")], ["FITS file"])

prop("P17", "Stokes I cube fitting is the 1-D fit of each pixel, however it is parallelised",
 "Coefficient, error, covariance, reference-frequency and model outputs hold at each sky pixel the result of the 1-D Stokes I fit of that pixel's spectrum (with each channel weighted by the noise measured over the cube's source-free pixels), whatever the order of the cube's axes and its dtype; pixels excluded by the mask are blank in all outputs alike and a pixel without data has a blank model; the noise of a channel is the two-pass MAD that ignores blanks, and the mask selects the pixels with any channel above the threshold. Results do not depend on number of workers, chunk size, completion order or verbosity, and the coefficient and reference-frequency maps reproduce the model cube; covariance maps keep their two coefficient axes apart from the sky axes.",
 ["inputs", "schedules", "configurations"], "all cubes (non-square), masks, orders, thresholds, worker counts",
 "Tests compare verbose and quiet runs of one cube.",
 ["RMtools_3D/do_fitIcube.py", M], [("make_model_I", "RMtools_3D/do_fitIcube.py:447")], ["FITS files, returned arrays"])

prop("P18", "Rescaling a Stokes I model cube keeps every pixel's model unchanged",
 "Converting coefficient maps to a new reference frequency (a common one or per-pixel) leaves each pixel's model spectrum unchanged, applies the same transformation as the 1-D tool to coefficients and errors, keeps blank pixels blank and all coefficient planes in their order, and does not depend on the number of workers.",
 ["inputs", "schedules"], "all coefficient maps including zero coefficients, reference-frequency maps, worker counts",
 "The test checks only that the tool exits normally.",
 ["RMtools_3D/rescale_I_model_3D.py", M], [("rescale_I_model_3D", "RMtools_3D/rescale_I_model_3D.py:251"), ("write_new_parameters", "RMtools_3D/rescale_I_model_3D.py:301")], ["FITS files, returned arrays"])

prop("P19", "Cube peak fitting gives each map pixel its own 1-D peak measurement",
 "Each output map holds at each sky pixel the peak measurement of that pixel's FDF (with that pixel's RMSF width and noise), for non-square cubes and every axis order, NaN where the pixel is blank, and its header describes the same sky; the channel summary (count, range, median width) describes the frequency list it was given.",
 ["inputs"], "all cubes, shapes, axis orders, noise/width maps, blank pixels",
 "The test checks only that files exist.",
 ["RMtools_3D/RMpeakfit_3D.py"], [("pixelwise_peak_fitting", "RMtools_3D/RMpeakfit_3D.py:24"), ("save_maps", "RMtools_3D/RMpeakfit_3D.py:164")], ["maps, FITS files"])

prop("P20", "QU-fitting models are the polarisation models they document and nest correctly",
 "Each built-in model returns the complex polarisation of its documented formula for every parameter set: periodic in angle with 180 degrees, additive over components, proportional to the fractional polarisation, rotating by exactly RM*lambda^2, and reducing to the simpler models when its extra parameters vanish. The parameter description of every model names each parameter the model uses exactly once, with consistent bounds, priors and wrap flags.",
 ["inputs", "configurations"], "all built-in models, parameter vectors and wavelength sets",
 "The QU-fit test only runs the tool on two models and does not compare values.",
 ["RMtools_1D/models_ns"], [("model()", "RMtools_1D/models_ns/m1.py")], ["model(pDict, lambda^2)"])

prop("P21", "QU-fit likelihood, statistics and reported angles are consistent",
 "The log-likelihood of a parameter vector is the Gaussian one of the unflagged Q and U channels against the selected model (up to a constant that depends on the errors only), and the reported chi^2, degrees of freedom, reduced chi^2, AIC, AICc, BIC and evidence of the best fit follow from it, flagged channels not counting as data. For a posterior of an angle that spans less than a quarter of the circle, the reported median and errors do not depend on where the 180-degree wrap falls; parameters held fixed keep their value; the other reported values and errors are the percentiles of the samples. Files hold the reported numbers, and the model used is the one in the working directory if present and the installed one otherwise.",
 ["inputs", "histories"], "all samples/chains, data sets, models",
 "The test runs the sampler on one data set and its value comparison is disabled.",
 ["RMtools_1D/do_QUfit_1D_mnest.py"], [("lnlike_call", "RMtools_1D/do_QUfit_1D_mnest.py:603"), ("run_qufit", "RMtools_1D/do_QUfit_1D_mnest.py:231")], ["likelihood values, result dictionary, files"])

prop("P22", "Predicting Q/U from clean components inverts synthesis of those components",
 "The Q/U spectrum predicted from clean components is at each frequency the Stokes I model shape times the sum of components rotated by 2*phi*(lambda^2-lambda0^2), so that a single component at depth phi gives a Faraday-thin source which RM synthesis maps back to that amplitude, angle and depth; written model files hold these values.",
 ["inputs"], "all component lists, frequency sets, reference wavelengths and Stokes I coefficients",
 "No test touches the prediction tool.",
 ["RMtools_1D/clean_model.py"], [("calculate_QU_model", "RMtools_1D/clean_model.py:20")], ["returned arrays, file"])

prop("P23", "Pixel, plane and axis coordinates are addressed consistently in FITS tools",
 "A FITS axis yields one coordinate per pixel, CRVAL+(i-CRPIX)*CDELT, for every length and step sign; the frequency-file tool writes exactly those values for the frequency axis; and 1-D synthesis from FITS cubes takes the spectrum of the requested pixel (or box) at the same position in Q and U (and I) for every axis order; its command line gives the result of 1-D synthesis of those spectra with the same options, in the cube's units.",
 ["inputs", "configurations"], "all headers (axis position, CRPIX, CDELT of either sign and any magnitude), all pixel positions",
 "Tests use one header and one on-diagonal pixel.",
 [U, "RMtools_3D/make_freq_file.py", "RMtools_1D/do_RMsynth_1D_fromFITS.py"], [("fits_make_lin_axis", U+":782"), ("get_freq_array", "RMtools_3D/make_freq_file.py:50"), ("get_data_Q_U", "RMtools_1D/do_RMsynth_1D_fromFITS.py:275")], ["returned arrays, files"])

prop("P24", "Channel-bandwidth depolarisation is the average rotation over the channel",
 "The response of a channel to a source at depth phi is the average of exp(2i*phi*lambda^2) over the channel's band (frequency-weighted) for every centre, width and depth, tending to the plain rotation as the width goes to zero and never exceeding 1. The adjoint synthesis is the weighted sum of the data times the conjugate responses (referred to lambda0^2), and sensitivity, noise curve and spread function are built from exactly these responses with the same weights, flags and reference wavelength as ordinary synthesis; the prediction tool gives the same curves. A run reports the spectrum over the sensitivity, finds the peak where the signal-to-noise is largest, and derives amplitude, errors, angles, Stokes I and channel summary from these arrays.",
 ["inputs", "configurations"], "all channel centres, widths (per channel, common, or estimated), depths, weights, flags, column layouts",
 "The test checks only that the tool exits normally.",
 ["RMtools_1D/rmtools_bwdepol.py", "RMtools_1D/rmtools_bwpredict.py"], [("rotation_operator", "RMtools_1D/rmtools_bwdepol.py:104"), ("adjoint_theory", "RMtools_1D/rmtools_bwdepol.py:158"), ("do_adjoint_rmsynth_planes", "RMtools_1D/rmtools_bwdepol.py:812"), ("bwdepol_compute_predictions", "RMtools_1D/rmtools_bwpredict.py:57")], ["returned arrays, dictionaries, files"])

prop("P25", "Robust statistics and complexity metrics follow their definitions",
 "The median-absolute-deviation noise ignores NaNs and scales with the data, percentiles of a distribution are the points where the cumulative curve crosses the level, moments of a component spectrum are shift-invariant, and the additional-scatter metric is computed from residuals against the fitted Faraday-thin model with the data's own errors, zero excess giving a value consistent with zero.",
 ["inputs"], "all arrays, NaN patterns, distributions",
 "Tests pin single numbers for one spectrum.",
 [M, U], [("MAD", M+":1055"), ("cdf_percentile", U+":1128"), ("calc_mom2_FDF", M+":372"), ("calc_sigma_add", U+":1150")], ["return values"])

prop("P26", "Simulated spectra, data sets and cubes are those of the catalogued sources",
 "A simulated spectrum is the sum over its components of the documented closed form: fractional polarisation times the rotation exp(2i(psi0+RM lambda^2)), times exp(-2 sigma^2 lambda^4) for Burn (external) depolarisation or the sinc of the RM width for internal rotation, times a Stokes I power law of the given flux, spectral index and reference frequency, so that it agrees with the QU-fit model of the same source. The ASCII generator writes, for every catalogued source in order, one file with the requested frequencies, those Stokes I/Q/U values, flagged channels blank in all of them, noise of the requested level and errors equal to it; the cube generator adds each source's beam-shaped profile at its catalogued sky position with the same spectra in I, Q and U, writes the channel frequencies, beam and axes it used, blanks flagged planes, and gives every plane independent noise of the requested level.",
 ["inputs", "configurations"], "all component lists, Faraday depths, dispersions, spectral indices, frequency sets, catalogues, flag ranges, noise levels, beams and fields",
 "The tests use the generators only to make input for other tests, with one catalogue and no flags; nothing compares what they write with the formula.",
 [M, "RMtools_1D/mk_test_ascii_data.py", "RMtools_3D/mk_test_cube_data.py"],
 [("create_IQU_spectra_burn", M+":create_IQU_spectra_burn"), ("create_IQU_ascii_data", "RMtools_1D/mk_test_ascii_data.py"), ("create_IQU_cube_data", "RMtools_3D/mk_test_cube_data.py")], ["returned arrays, files"])

prop("P27", "The RMSF calculator reports the resolution, sidelobe and limits of a sampling",
 "For any list of channel frequencies (in a file, with or without weights in a second column or a second file) or any frequency range and channel width, the calculator reports the theoretical width 3.8/(lambda^2 range), the main-lobe width of the weighted spread function as the library measures it on the requested (or default) depth grid, the height and depth of the highest sidelobe beside the main lobe, the largest scale pi/lambda_min^2 and the largest depth sqrt(3)/(median lambda^2 step); whole-number inputs, channels in any order and weights in any unit give the same report; a super-resolution report is that of the real spread function referred to zero wavelength; a description without channels is refused.",
 ["inputs", "configurations"], "all channel sets, weights, weight units, file layouts, grids, super-resolution on/off",
 "No test runs the calculator.",
 ["RMtools_1D/calculate_RMSF.py"], [("main/determine_RMSF_parameters", "RMtools_1D/calculate_RMSF.py")], ["printed report"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
