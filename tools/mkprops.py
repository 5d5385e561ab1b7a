#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
S = 'src/emva1288/'
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {'files': [S + f for f in files], 'mechanism': [{'name': n, 'where': S + w} for n, w in mech]}
    if observe: a['observe_at'] = observe
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': S + w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})

p('C01', 'Reducing an image series is exact and leaves the images untouched',
  'For any series of up to 1000 equally sized integer images (8 to 16 bit, any unsigned or signed storage type that holds the values), the reduction returns the number of images L, the exact per-pixel sum, the exact per-pixel integer L*(L*sum(y^2)-(sum y)^2), and the sum of the successive differences of the image means, as if computed in unbounded integer arithmetic. No wrap-around, clipping or rounding may occur for any pixel content or series length, and the input images are not modified.',
  ['inputs'], 'all pixel values of all images of a series, all storage types, all series lengths up to 1000',
  'The tests only look at series of two or fifty low-valued 8-bit camera frames and never compare the sums with an independent value; wrap-around needs particular bright pixel values or wide types.',
  ['process/routines.py'], [('get_int_imgs', 'process/routines.py:get_int_imgs')], ['the dictionary returned for a list of images'])

p('C02', 'The loader files every series under its own kind, exposure and photon count',
  'After loading, the data of every (kind, exposure time, photon count) is computed from exactly the images listed for that entry, wherever it appears: spatial entries keep the image count, the summed image and the pseudo-variance image, temporal entries keep the totals over all pixels of the summed image and of the pseudo-variance image together with the mean difference, and height and width are the row and column count of the images. A set with an exposure time that has no dark (0 photon) series or no bright series raises ValueError, images whose shape differs anywhere in the set raise ValueError, a missing file raises IOError (OSError), and the input description is not modified.',
  ['inputs', 'configurations'], 'all image contents, all assignments of images to exposure times and photon counts, all positions of a defective entry',
  'The tests load one generated set and look at key names and counts only; an exchange or omission of entries, or a shape check that misses one series, gives plausible numbers.',
  ['process/loader.py', 'process/routines.py'], [('LoadImageData', 'process/loader.py:LoadImageData'), ('get_int_imgs', 'process/routines.py:get_int_imgs')])

p('C03', 'Temporal mean and noise are exact and immune to drift between the two images',
  'For a pair of images the temporal mean reported for a point (bright or dark) is the mean of all pixels of both images, and the temporal variance is half the population variance over the pixels of their difference image (mean squared difference halved, minus half the squared mean difference). Hence the variance is never negative, does not change when a constant is added to one of the two images, is invariant under permuting pixels or exchanging the two images, and is zero for images that differ only by a constant.',
  ['inputs'], 'all contents of all image pairs, any image size',
  'The tests check types and lengths of the temporal data, and K within 0.1 on one simulated camera; they never compare a variance with its definition.',
  ['process/data.py', 'process/loader.py', 'process/routines.py'],
  [('_get_temporal_data', 'process/data.py:Data1288._get_temporal_data'), ('_get_temporal', 'process/data.py:Data1288._get_temporal'), ('get_int_imgs', 'process/routines.py:get_int_imgs')])

p('C04', 'Temporal measurement series are sorted and stay aligned',
  'Whatever the order in which exposure times and photon counts are supplied, the temporal series come out ordered by exposure time and then by photon count, each bright mean and variance standing at the index of its own photon count, each exposure time and each dark mean and variance appearing once per exposure time in that order, with dark (0 photon) points only in the dark series. If there is only one exposure time, it and its dark mean and variance are repeated once per bright point so that all six series have equal length. An exposure time without a dark or without a bright point, or spatial data that is not exactly one exposure time with one dark and one bright point, raises ValueError.',
  ['inputs', 'configurations'], 'all orders of all exposure times and photon counts, all values of the sums',
  'The generated sets used by the tests are already sorted and have one bright point per exposure or one exposure only, so alignment and ordering are never exercised.',
  ['process/data.py'], [('_get_temporal', 'process/data.py:Data1288._get_temporal'), ('_get_spatial', 'process/data.py:Data1288._get_spatial')])

p('C05', 'Spatial statistics follow their definitions for bright and dark images',
  'From L images of M rows and N columns, the spatial data reports for the bright and for the dark series separately: the summed image, L, M and N, the mean of the average image, its variance over the pixels with M*N-1 in the denominator, the mean over the pixels of the unbiased (L-1) temporal variance, and the row- and column-mean variances (population variance of the column means and of the row means of the average image) each corrected by the temporal variance divided by L*M for columns and by L*N for rows. The bright values come from the series with photons and the dark values from the 0-photon series of the same exposure time.',
  ['inputs'], 'all pixel values, all M, N, L (also M != N and different L for bright and dark)',
  'The tests check that keys exist and two shapes; the numerical definitions are not compared, and the tests use the same L for bright and dark.',
  ['process/data.py', 'process/routines.py'], [('_get_spatial_data', 'process/data.py:Data1288._get_spatial_data'), ('_get_spatial', 'process/data.py:Data1288._get_spatial')])

p('C06', 'Spatial variance splits into row, column and pixel parts that add up',
  'Spatial variance is the measured spatial variance minus the temporal stack variance divided by the number of averaged images; its row, column and pixel components satisfy, for bright and for dark images alike: total = row + column + pixel, variance of the column means = column + pixel/M, variance of the row means = row + pixel/N (M rows, N columns). Transposing the images exchanges the row and the column component and leaves the pixel component and the total unchanged.',
  ['inputs'], 'all measured variances (any sign after correction) and all image sizes with M, N >= 2 and M*N > M+N',
  'The tests only recompute the DSNU values from the very components under test, so an error in the split is invisible.',
  ['process/results.py'], [('s_2_y, s_2_y_row, s_2_y_col, s_2_y_pixel and the dark variants', 'process/results.py:Results1288')])

p('C07', 'Gain, responsivity and QE are least-squares fits, exact on ideal data',
  'Responsivity is the least-squares slope through the origin of the dark-corrected mean signal against photons, and system gain the least-squares slope through the origin of the dark-corrected temporal variance against the dark-corrected mean signal, both over exactly the points from the first one up to and including the last one whose dark-corrected signal does not exceed 70 % of that at saturation. For data of a linear camera (signal = dark + K*QE*photons, variance = dark variance + K*(signal - dark)) the exact K and K*QE are returned whatever the dark values, and quantum efficiency in percent is 100 times responsivity over gain, and 1/K its reciprocal.',
  ['inputs'], 'all measurement series with increasing signal, all camera parameters',
  'The tests recover K only within 0.1 and QE within 10 percentage points for one simulated camera, where points outside the fit range hardly change the result.',
  ['process/results.py', 'process/routines.py'], [('R, K, QE, inverse_K', 'process/results.py:Results1288'), ('LinearB0', 'process/routines.py:LinearB0')])

p('C08', 'Thresholds, capacities, SNR and dynamic range follow their definitions',
  'With gain K, quantum efficiency QE (percent), temporal dark noise s (DN) and photons at the saturation point p_sat: the dark noise in electrons is sqrt(s^2 - 1/12)/K, the sensitivity threshold is (100/QE)*(s/K + 1/2) photons, electron quantities are QE/100 times the photon quantities, SNR_max is the square root of the saturation capacity in electrons, the dynamic range is p_sat over the sensitivity threshold, decibel values are 20*log10, the bit value is log2 and the inverse is in percent. The per-area values are the same quantities divided by the pixel area, and are None when no pixel area (or 0) is given.',
  ['inputs'], 'all measurement series with positive gain and QE, all pixel areas',
  'The tests recompute some of the figures on one or two simulated cameras using the same properties; several figures (thresholds, dark noise in electrons, electron threshold) are only tested to be positive floats.',
  ['process/results.py'], [('sigma_d, u_p_min, u_e_min, u_p_sat, u_e_sat, SNR_max*, DR*', 'process/results.py:Results1288')])

p('C09', 'The saturation point is the variance peak, and the fit ranges derive from it',
  'If the temporal variance rises strictly up to one point and does not rise afterwards, that point, wherever it lies in the series, is the saturation point; if a saturation index is forced (any valid index including 0), it is used instead. For non-decreasing dark-corrected signals the sensitivity fit range is the first point up to and including the last point not above 70 % of the signal at saturation, and the linearity range goes from the first point not below 5 % up to and including the last point not above 95 % of it.',
  ['inputs', 'configurations'], 'all variance series with one peak and all positions of it; all non-decreasing signals; all forced indexes',
  'The tests only check that the indexes are integers inside the series.',
  ['process/results.py'], [('index_u_ysat', 'process/results.py:Results1288.index_u_ysat'), ('index_sensitivity_max, index_linearity_min, index_linearity_max', 'process/results.py:Results1288')])

p('C10', 'The linearity fit minimises the relative deviation and reports its extremes',
  'Slope and offset of the linearity fit minimise the sum of squared relative deviations (each residual divided by the measured dark-corrected signal) over exactly the linearity fit range. The reported deviation of every measurement point, inside or outside of the range, is 100*(measured - fitted)/fitted, and the linearity errors are the minimum and the maximum of it over the fit range; for exactly linear data they are zero and the line is recovered.',
  ['inputs'], 'all measurement series with positive signal in the fit range and distinct photon counts',
  'The tests check only that both linearity errors are floats.',
  ['process/results.py'], [('linearity, LE_min, LE_max', 'process/results.py:Results1288.linearity')])

p('C11', 'Dark current and temporal dark noise come from dark data versus exposure time',
  'With at least three different exposure times, the dark current from the mean is the ordinary least-squares slope (with offset) of the dark mean against exposure time in nanoseconds times 1e9 (DN/s), divided by K in electrons/s; the dark current from the variance is the slope of the dark variance divided by K (DN/s) and divided by K again (e-/s), or NaN if that slope is negative; the temporal dark noise is the square root of the offset of that variance fit. With one or two exposure times all dark currents are NaN and the temporal dark noise is the square root of the dark variance at the first one. The variance under the square root is never taken below 0.24.',
  ['inputs', 'configurations'], 'all dark means and variances, all sets of exposure times (also repeated ones)',
  'The tests recover the dark current within 5 to 10 e-/s on one simulated camera and test NaN on one data set; the offset, floor and threshold between two and three exposure times are not tested.',
  ['process/results.py', 'process/routines.py'], [('u_I_mean, u_I_var, sigma_y_dark', 'process/results.py:Results1288'), ('LinearB', 'process/routines.py:LinearB')])

p('C12', 'DSNU and PRNU are the roots of the right variance component, or NaN',
  'DSNU (overall, row, column, pixel) is the square root of the corresponding dark spatial variance divided by K, its DN variant the square root alone, and NaN if that variance is negative. PRNU (overall, row, column, pixel) in percent is 100 times the square root of the difference of the corresponding bright and dark spatial variances divided by the difference of the bright and the dark mean, and NaN if the variance difference is negative.',
  ['inputs'], 'all spatial data (any sign of each component) with bright mean above dark mean',
  'The tests repeat the formula of DSNU for one data set and of overall PRNU for one camera; row, column and pixel PRNU and the negative cases of each component are not tested.',
  ['process/results.py'], [('DSNU1288*, PRNU1288*', 'process/results.py:Results1288')])

p('C13', 'The high-pass filter is exactly pixel minus local box mean, scaled, borders cut',
  'For any image and odd filter size d, every output pixel is (number of pixels considered)*(centre pixel) minus the sum over the d x d neighbourhood, where the number considered is d*d, or for an image masked by a periodic colour filter the number of unmasked pixels in the neighbourhood, and masked pixels contribute nothing; that number is returned as the factor. The output is smaller than the input by d-1 rows and columns and centred, keeps the mask, is zero for constant images, and does not change when a constant is added to the image; the input is not modified. Even sizes, and masks for which that number differs between unmasked pixels, raise ValueError.',
  ['inputs', 'configurations'], 'all pixel values, all odd sizes, all masks',
  'The test filters one random image and compares means within 3 and with an added signal within 1e-3; it compares no pixel with the definition.',
  ['process/routines.py'], [('high_pass_filter', 'process/routines.py:high_pass_filter')])

p('C14', 'A histogram counts every pixel exactly once in uniform integer bins',
  'For any integer image and bin limit Qmax, the histogram has at most Qmax bins of one uniform integer width, which is 1 whenever the value range max-min+1 does not exceed Qmax; the bins are given by their lower limits, start at the smallest value and reach the largest. Each count is exactly the number of pixels v with lower limit <= v < lower limit + width, so that the counts sum to the number of pixels, each pixel being counted once; the image is not modified. The model values are, at the lower limits of the bins, those of the normal distribution with the mean and the standard deviation of the image, times the number of pixels and (max-min)/(number of bins).',
  ['inputs'], 'all integer images and all bin limits',
  'The test checks one ramp image of 512 values with 256 bins.',
  ['process/routines.py'], [('Histogram1288', 'process/routines.py:Histogram1288')])

p('C15', 'Defect-pixel histograms describe the right deviation image in the right unit',
  'The DSNU histogram is that of the averaged dark image minus its mean; the PRNU histogram is that of the 5x5 high-pass filtered difference of the averaged bright and dark image; both have one entry per bin with bins in DN per single image, and together count every (remaining) pixel once. The accumulated histograms are over the absolute deviation from the integer part of the mean; each gives per bin the percentage of pixels whose deviation is at least the lower limit of that bin, hence starts at exactly 100 % and never increases.',
  ['inputs'], 'all summed images and all (also different) bright and dark image counts',
  'The tests check the lengths of the histograms of a simulated camera; the unit, the image they describe and monotony are not checked.',
  ['process/results.py', 'process/routines.py'], [('histogram_PRNU, histogram_DSNU and accumulated variants', 'process/results.py:Results1288'), ('Histogram1288', 'process/routines.py:Histogram1288'), ('high_pass_filter', 'process/routines.py:high_pass_filter')])

p('C16', 'Evaluating results is pure: order, repetition and sharing change nothing',
  'The value of every result is a function of the measurement data and the constructor arguments only: evaluating results in any order, repeatedly, or all at once gives the same values, and evaluating any result (also histograms and linearity) never modifies the measurement data or a previously returned value. Two result objects on the same data, and results evaluated before or after plotting or exporting, agree.',
  ['histories', 'inputs'], 'all evaluation histories of the results of a data set, all data contents',
  'Each test evaluates a few results once on a fresh object; hidden mutation of shared arrays or stale caches need a sequence of evaluations.',
  ['process/results.py', 'process/routines.py'], [('Results1288 properties', 'process/results.py:Results1288'), ('obj_to_dict', 'process/routines.py:obj_to_dict')],
  state=[('temporal, spatial', 'shared measurement data, read only', 'process/results.py:Results1288.__init__'), ('_index_u_ysat', 'cached or forced saturation index', 'process/results.py:Results1288.index_u_ysat')])

p('C17', 'The spectrogram is the row-averaged power spectrum of the mean-free image',
  'For any image the spectrogram has cols//2+1 entries, entry k being the average over the rows of |DFT_k of (row - image mean)|^2 / cols, divided by n^2 when the image is the sum of n images; with rotation it is that of the transposed image. Hence (Parseval) the entries, each inner one counted twice, sum to the sum of squared deviations from the image mean divided by the number of rows; adding a constant changes nothing, reordering rows changes nothing, scaling the image by c scales it by c^2, and the image is not modified.',
  ['inputs'], 'all images of any size, all n, with and without rotation',
  'The tests only require that one entry exceeds 1 for images with a strong pattern.',
  ['process/routines.py'], [('FFT1288', 'process/routines.py:FFT1288'), ('GetImgShape', 'process/routines.py:GetImgShape')])

p('C18', 'Masked pixels never influence spectrograms, filters, histograms or profiles',
  'For a masked image, the spectrogram, the high-pass filter, the histogram (bins and counts), and the image profiles depend on the unmasked pixels only: changing the data stored under the mask changes nothing in the results, and the input image, its data and its mask are left as they were. The spectrogram is that of the image formed by the unmasked pixels of each row that has any, cut to the smallest number of them in such a row, and histogram counts sum to the number of unmasked pixels.',
  ['inputs', 'configurations'], 'all masks and all data stored under the mask',
  'The tests use zero-mean random images with a chequerboard mask and compare only loose means; nothing varies the hidden data.',
  ['process/routines.py', 'process/plotting.py'], [('_row_wise_compress', 'process/routines.py:_row_wise_compress'), ('FFT1288', 'process/routines.py:FFT1288'), ('high_pass_filter', 'process/routines.py:high_pass_filter'), ('Histogram1288', 'process/routines.py:Histogram1288'), ('ProfileBase._get_image_profiles', 'process/plotting.py:ProfileBase')])

p('C19', 'Every image listed in a descriptor file is attributed to its own point',
  'For a well-formed descriptor with its series in any order, each image file appears exactly once, in file order, under the exposure time and photon count of the closest preceding bright line, or under photon count 0 for a dark line; series of exactly two images are temporal and longer ones spatial. Comment lines and blank lines anywhere, surrounding white space and a decimal comma instead of a point change nothing, bit depth, width, height and version are those stated, and image paths are resolved relative to the given path or else to the directory of the descriptor, with either kind of path separator.',
  ['inputs', 'configurations'], 'all well-formed descriptors: any order, number and length of series, any exposure times and photon counts',
  'The tests parse one generated file, without comments, in canonical order, and look at one temporal and one spatial series.',
  ['process/parser.py'], [('_fill_info, _get_images_filenames, _add_pcount, _get_kind, _load_file', 'process/parser.py:ParseEmvaDescriptorFile')])

p('C20', 'Malformed or ambiguous descriptors are rejected instead of misread',
  'A descriptor raises SyntaxError if a series has fewer than two images, if a line has only one word, if an image, bright, dark or format line has the wrong number of fields, if the format line occurs twice, or if two series of the same kind have the same exposure time and photon count, wherever in the file that occurs. A file that is no text raises UnicodeDecodeError naming it. Such files never yield a partially filled or overwritten image list.',
  ['inputs', 'configurations'], 'all positions of each defect in descriptors, all exposure times and photon counts',
  'All these branches are excluded from coverage; no test feeds a malformed descriptor.',
  ['process/parser.py'], [('_get_images_filenames, _add_pcount, _fill_info, _split_line', 'process/parser.py:ParseEmvaDescriptorFile')])

p('C21', 'Results written to XML read back with the same values',
  'Writing a results dictionary (sections of entries with a value or with data arrays) to XML, as returned text or to a file, and reading that back gives the same sections, entries and array keys (names in lower case) and the numerically identical values and arrays, element by element and in order, for every finite float, integer or None value; reading accepts a decimal comma in values. Something that is not a well-formed XML document gives None and does not raise.',
  ['inputs', 'configurations'], 'all values and arrays, all entry structures, both transports',
  'No test reads XML back; only a report is generated from results directly.',
  ['process/routines.py'], [('dict_to_xml', 'process/routines.py:dict_to_xml'), ('xml_to_dict', 'process/routines.py:xml_to_dict')])

p('C22', 'Comparing two result files reports OK exactly for agreeing entries',
  'When two result files are compared, every entry of either file gets exactly one verdict: OK if both hold finite values, or arrays with the same keys and lengths, that agree when rounded to seven significant digits, and FAIL if any value or array element differs by more than 1e-6 relative, if signs differ, or if the entry is in one file only; a section in one file only is reported as FAIL as well. Identical files with finite contents give no FAIL, and exchanging the files does not change the verdicts; a report written to a file is the one returned.',
  ['inputs', 'configurations'], 'all values and arrays of all magnitudes and signs, all structures',
  'There is no test of the comparison at all.',
  ['process/routines.py'], [('compare_xml', 'process/routines.py:compare_xml'), ('round_significant', 'process/routines.py:round_significant')])

p('C23', 'Simulated images stay in range and model the sensor equation',
  'For every radiance, every camera setting and every outcome of the random noise, a simulated image has the shape of the sensor, integer values from 0 to 2^bits-1 in a type that holds them, and each pixel is the rounded and clipped K*e + black offset + quantisation noise (at most 1/2), where e, clipped to 0..full well, is the sum of the dark non-uniformity of that pixel, electronic noise, thermal and light induced electrons. The mean number of light induced electrons of a pixel is the wavelength sum of photons times quantum efficiency times its PRNU factor, the thermal one is the dark current (doubling with each doubling temperature above the reference) times exposure time in seconds, the electronics noise has the configured mean and variance, and grabbing changes neither the camera settings nor the arrays passed in.',
  ['inputs', 'configurations', 'histories'], 'all noise outcomes, radiances, gains, offsets, non-uniformities, bit depths',
  'The tests compare mean values of a few random images within several DN; rare noise outcomes, saturation, high bit depths and state changes are not reached.',
  ['camera/camera.py'], [('Camera.grab, _u_e, _u_therm, _u_i', 'camera/camera.py:Camera')])

p('C24', 'Photon count and radiance conversions are inverse and proportional',
  'Photons computed from a radiance and the radiance computed from those photons with the same exposure time, pixel area, f-number and wavelengths give back the original value, in both orders and element by element. Photons equal pi * radiance * pixel area * exposure time * wavelength^2 / (h * c * (1 + 4 f^2)) in SI units (area in um^2, time in ns, wavelength in nm, with h = 6.63e-34 and c = 3e8), hence are proportional to radiance, area and time; the camera uses its current exposure time and f-number unless others are given, also when a value other than the current one is passed.',
  ['inputs'], 'all positive settings and radiances',
  'No test checks the conversion; tests use both directions only inside the simulator where errors cancel.',
  ['camera/routines.py', 'camera/camera.py'], [('get_photons, get_radiance', 'camera/routines.py'), ('Camera.get_photons', 'camera/camera.py:Camera.get_photons')])

p('C25', 'The radiance for a target signal produces exactly that target',
  'For every camera and every positive target mean and exposure time, the radiance returned for them makes the expected thermal plus light induced signal, with mean quantum efficiency, times the gain equal to the target at that exposure time (current exposure time and full digital range if not given); it has the shape of the sensor times wavelengths and is uniform over the pixels, and asking does not change the camera.',
  ['inputs', 'configurations'], 'all targets, exposure times, gains, dark currents, quantum efficiencies with equal response per wavelength sum',
  'The tests use it at the current exposure time with tolerances above the thermal signal.',
  ['camera/camera.py', 'camera/routines.py'], [('Camera.get_radiance_for', 'camera/camera.py:Camera.get_radiance_for'), ('get_radiance', 'camera/routines.py:get_radiance')])

p('C26', 'Gain and black offset always take the nearest available step',
  'Setting gain or black offset to any value, at construction or later, selects an available step such that no other available step is closer to the requested value; the available steps are equally spaced from the stated minimum to the stated maximum (default maximum black offset: one sixteenth of the full digital range, rounded down) and are never changed by it.',
  ['inputs', 'histories'], 'all requested values and all step grids, sequences of assignments',
  'No test sets a value between steps.',
  ['camera/camera.py', 'camera/routines.py'], [('nearest_value', 'camera/routines.py:nearest_value'), ('Camera.K, Camera.blackoffset setters', 'camera/camera.py:Camera')])

p('C27', 'Patterns and colour filters are tiled periodically over the requested size',
  'Tiling a 1D or 2D pattern to a given height and width gives exactly that size (one-dimensional for height 1) with element (i, j) equal to the pattern at (i mod its rows, j mod its columns). A Bayer filter for any width and height, odd ones included, has shape height x width x wavelengths, repeats the four given transmissions in the order first/second in even rows and third/fourth in odd rows, and each transmission curve is normalised to a maximum of one.',
  ['inputs', 'configurations'], 'all pattern contents, all pattern and target sizes',
  'The tests tile patterns of zeros only, and build one filter of even size.',
  ['camera/routines.py'], [('get_tile', 'camera/routines.py:get_tile'), ('get_bayer_filter, array_tile', 'camera/routines.py:get_bayer_filter')])

p('C28', 'Operating points cover the requested range with one dark per exposure',
  'In exposure mode the temporal points are the requested number of exposure times equally spaced (to one decimal) from minimum to maximum, each with one bright and one zero radiance, the bright one being the radiance that saturates at the longest exposure time; the spatial point is the middle one of them. In illumination mode there is a single exposure time with the requested number of equally spaced radiances, from the given or default minimum to the given or default (saturating) maximum, plus one zero radiance, and the spatial point is the middle radiance with a dark one; a given gain and black offset are set on the camera.',
  ['inputs', 'configurations'], 'all exposure and radiance limits and numbers of steps',
  'The tests use two configurations with default limits and check only counts.',
  ['camera/points_generator.py'], [('PointsGenerator', 'camera/points_generator.py:PointsGenerator')])

p('C29', 'A generated data set read back gives exactly the points and images generated',
  'Parsing and loading a generated data set returns for every generated operating point its exposure time, photon count 0 for dark points and otherwise the mean photon count at that exposure time to three decimals, and exactly the images grabbed at that point: two per temporal point and L per spatial point, bit-exact for every bit depth up to 16. Each image is grabbed at the exposure time and radiance of the point it is listed under, and bit depth, width and height in the descriptor are those of the camera and the version is the given one.',
  ['inputs', 'configurations'], 'all noise outcomes (image contents), exposure times, numbers of points and images',
  'The tests compare exposure times, counts and one photon count; pixel values read back are never compared with those grabbed.',
  ['camera/dataset_generator.py', 'process/parser.py', 'process/loader.py', 'process/routines.py'],
  [('DatasetGenerator.run_test, save_image, _get_descriptor_line', 'camera/dataset_generator.py:DatasetGenerator'), ('ParseEmvaDescriptorFile', 'process/parser.py'), ('load_image', 'process/routines.py:load_image')])

p('C30', 'Defect-pixel injection changes exactly the requested number of pixels',
  'Injecting n bad pixels (n not above the number of pixels) sets the dark non-uniformity of exactly n distinct pixels to the given fraction of the full well capacity (all of it if no fraction or None is given), for every outcome of the random selection, and leaves all the other pixels, the camera settings and the array the camera was given, which other cameras may share, unchanged.',
  ['inputs', 'configurations'], 'all outcomes of the random selection, all n, fractions and sensor sizes',
  'No test covers it, and a duplicate position in a random selection is rare.',
  ['camera/bad_images.py'], [('bad_pixel', 'camera/bad_images.py:bad_pixel')])

p('C31', 'Plots show the measured data and exactly the reported results',
  'For every test passed to the plotting object, every requested plot draws: the sensitivity, photon transfer and linearity plots the dark-corrected measurement series, the fit with the reported slope (and offset), and markers at the reported fit range and saturation points; the deviation plot the reported deviations over the linearity range; the histogram plots the reported histograms; the spectrograms of DSNU (PRNU) the square root of the spectrogram of the averaged dark image in DN (of the averaged dark-corrected bright image in percent of its mean), horizontal along the rows and vertical along the columns, at the frequencies k/(pixels per line), with the reported DSNU (PRNU) and, in the same unit, the root of the temporal variance of the stack. The SNR plot shows the measured signal over temporal noise of all points with noise and the ideal, theoretical and total SNR that follow from the reported QE, dark noise, gain, DSNU and PRNU between the reported threshold and saturation. The profile plots show the mean, minimum, maximum and middle line of the averaged dark and dark-corrected bright image along the stated direction.',
  ['inputs', 'configurations'], 'all data sets, any number of tests and plots',
  'The tests only run the plots once inside the report generation without looking at any drawn value.',
  ['process/plotting.py'], [('plot methods of the plot classes', 'process/plotting.py'), ('Plotting1288', 'process/plotting.py:Plotting1288')])

p('C32', 'Reports number every operating point and mark missing numbers',
  'Operating points added to a report are kept in order, numbered from one with distinct identifiers, unnamed ones are named by their identifier and named ones keep their name, and each carries the results and plots of its own data. A number that is None or NaN, however it was computed, is rendered as the missing sign, any other number, also zero, with the requested precision; in the data sheet every result number of an operating point stands in its own place. The information dictionaries passed to a report are not modified.',
  ['inputs', 'histories'], 'all numbers of points, all values',
  'The test adds one or two points and only checks that the file generation does not fail; the missing marker is not tested.',
  ['report/report.py'], [('Report1288.add', 'report/report.py:Report1288.add'), ('missing number filters', 'report/report.py:Report1288.template_renderer'), ('data sheet', 'report/templates/op.tex')])

p('C33', 'The exported results contain every documented quantity with its own value',
  'The results dictionary has exactly one entry for every documented result quantity, holding the value (dictionaries as data, all else as value) that evaluating this quantity returns, with its section, symbol, unit and short name; grouping by section moves every entry unchanged to exactly the section it states.',
  ['inputs'], 'all measurement data',
  'The tests check that a list of names is present in the dictionary, not their values or sections.',
  ['process/routines.py', 'process/results.py'], [('cls_1288_info, obj_to_dict, _sections_first', 'process/routines.py'), ('results, results_by_section', 'process/results.py:Results1288')])

p('C34', 'Quantum efficiency tables are validated and never shared by accident',
  'A quantum efficiency object accepts a given table only if its shape is height x width x number of wavelengths and raises ValueError for any other shape; its table is the given (or simulated, non-negative) efficiency times the given filter, element by element, and the table passed in is not modified.',
  ['inputs', 'configurations'], 'all tables, filters and sizes',
  'The tests only use the default table, with one filter.',
  ['camera/routines.py'], [('Qe', 'camera/routines.py:Qe')])

p('C35', 'A data set uses the smallest black offset and gain that meet the standard',
  'Where no black offset is given, a generated data set (searching the black offset first, at the smallest exposure time) uses the smallest available black offset at which more than 99.5 % of the pixels of a dark image are not zero, and where no gain is given, the smallest available gain at which the standard deviation of the difference of two dark images exceeds 0.5 DN, or the largest available step if none does; the given ones, 0 included, are used as they are (nearest step). All the images of the data set are taken with them.',
  ['inputs', 'configurations'], 'all outcomes of the noise, all step grids and given values',
  'The tests check one default camera for which the search ends at the same step every time.',
  ['camera/dataset_generator.py'],
  [('DatasetGenerator.__init__, _get_emva_gain, _get_emva_blackoffset', 'camera/dataset_generator.py:DatasetGenerator')])

p('C36', 'Processing a descriptor gives the results the standard defines on the pixels',
  'Processing a descriptor file of a complete measurement, with series in any order, and writing the results to XML or printing them gives for every numeric result the value the definitions of the standard give on the pixels of the images listed: photon transfer and responsivity fits, quantum efficiency, dark noise, dark current, thresholds, saturation, SNR and dynamic range, linearity errors, spatial variances, DSNU and PRNU; results that do not exist for the data (no dark current from a single exposure time, roots of negative variances, areas) have no value, and each histogram counts every pixel once.',
  ['inputs', 'configurations'], 'all pixel values, photon counts and exposure times of a measurement, all orders of its series',
  'The tests run the whole processing on random simulated images and check types and names, never a value against the pixels.',
  ['process', 'process/parser.py', 'process/loader.py', 'process/data.py', 'process/results.py', 'process/routines.py'],
  [('Emva1288', 'process/__init__.py:Emva1288'), ('Data1288', 'process/data.py:Data1288'), ('Results1288', 'process/results.py:Results1288')])

p('C37', 'Simulations are reproducible: same seed and settings, same images',
  'Two cameras with the same settings and seed that are asked for the same sequence of images (radiance, temperature, f-number) return identical images, whatever happens in between: images and changes of other cameras, with or without a seed and sharing the same arrays, queries of photon counts and radiances, injection of defect pixels into other cameras and uses of the global random generator.',
  ['inputs', 'histories', 'schedules'], 'all noise outcomes and all interleavings of the uses of several cameras',
  'No test uses a seed or more than one camera.',
  ['camera/camera.py', 'camera/bad_images.py', 'camera/routines.py'],
  [('Camera.__init__, Camera.grab', 'camera/camera.py:Camera')])

p('C38', 'A report shows all information given in its place and has the files it uses',
  'Every entry of the basic information (those of CCD or CMOS sensors for these sensors only), of the setup, and of the settings and parameters of each operating point stands next to its own name in the report, 0 included, and the missing sign where it is None, NaN or not given; vendor and model are in the page header, watermark and cover page are there exactly if given. Every file the report refers to exists in its directory: logo and quantum efficiency plot are the files given, else the given missing plot or the default ones, whatever their names, and the plots of each operating point are each shown once, of summaries only the main ones. Dictionaries with some of the entries will do, and the files can be written repeatedly and over a former report.',
  ['inputs', 'configurations'], 'all values and combinations of the information, files and operating points',
  'The only test gives no information at all and checks that two files exist.',
  ['report/report.py'], [('Report1288, info_basic, info_setup, info_marketing, info_op', 'report/report.py:Report1288'), ('templates', 'report/templates/general_info.tex')])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
