#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the artefact is committed; this keeps it editable)."""
import json
import os

P = []
S = "src/viqa/"


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f if not f.startswith("src/") else f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


prop("C01", "Volume files load voxel for voxel, or not at all",
     "Loading a raw or mhd volume of X x Y x Z elements yields an image of shape (X, Y, Z) in the element type announced by the file name or header, whose element (x, y, z) is bit for bit the file element number x + X*(y + Y*z). It does so for every supported element type, every extent including one, and every spelling of name or header that carries the same information (order of the lines, blank lines, line ends, missing final newline, spaces, position of the size and bit depth in the name). A data file whose length in bytes differs from the announced size, or a name/header/extension that does not announce a supported format, is rejected with a ValueError and never yields an image.",
     ["inputs", "crash_points"], "all extents, element types, header spellings, and all truncations/extensions of the data file at byte granularity",
     "The tests need sample data that is not in the repository and load one volume of one type; axis mix-ups, dropped header lines and torn files need the whole space of extents, spellings and lengths.",
     ["utils/loading.py"], [("load_raw / load_mhd / binary reader", S + "utils/loading.py")], ["viqa.load_data", "viqa.utils.load_raw", "viqa.utils.load_mhd"])

prop("C02", "The score does not depend on how an image is handed over",
     "For every metric, the score of a pair (or single image) is the same no matter whether the same pixels are passed as NumPy array in any memory layout (C or Fortran order, reversed or strided views, read-only, memory-mapped, unaligned, big-endian), as ImageArray, as torch tensor, or as path (text or path object) to a raw, mhd, NIfTI (plain or gzipped), PNG, BMP or TIFF file holding them, and the two images of a pair may be passed in different ways. Loading such an input always yields an image array with exactly the same values and shape as the source, which is not affected if its file is changed or removed afterwards.",
     ["inputs", "configurations"], "all metrics x all containers x all memory layouts x mixed pairs",
     "The tests pass C-contiguous arrays only; containers, layouts and mixed pairs multiply to a space no example covers.",
     ["utils/loading.py", "_metrics.py", "utils/misc.py"], [("input dispatch", S + "utils/loading.py:load_data"), ("tensor conversion", S + "utils/misc.py")], ["viqa.load_data", "score() of every metric"])

prop("C03", "Normalisation is the linear map onto the requested range",
     "Normalising an image maps every value v to (v - min) * R / (max - min), up to one quantisation step for integer results and for all values double precision can tell apart, where R is the requested range (1, 255 or 65535) and min and max are those of the whole image or the explicitly given input range; the result has type float32, uint8 or uint16 respectively, so the smallest value becomes 0, the largest R and the order of values is kept. A constant image becomes all zero, an image whose integer type already spans exactly the requested range is returned unchanged, and other ranges or non-numeric types are rejected with a ValueError. The same holds when normalisation is requested while loading or through a metric, where it refers to the full image even if only a region is then used.",
     ["inputs"], "all numeric types, all value patterns over extreme-value alphabets, all target ranges, automatic and explicit input ranges",
     "No test normalises integer types at their limits; wrap-around and identity errors only appear for particular type/value combinations.",
     ["utils/loading.py"], [("normalize_data", S + "utils/loading.py")], ["viqa.normalize_data", "viqa.load_data(normalize=True)", "metrics constructed with normalize=True"])

prop("C04", "A region of interest selects exactly the requested pixels",
     "Cropping an image with per-axis bounds (a, b) inside the image returns exactly the pixels with a <= index < b on each axis, with values, element type and order kept, for 2D images, color images (both spatial axes, all three channels) and 3D volumes. A region as large as the image leaves it unchanged, a region larger than the image on some axis or without z bounds for a volume is rejected with a ValueError, and z bounds are ignored for 2D images. A metric, loader or batch given a region scores exactly the image pair cropped that way.",
     ["inputs"], "all shapes and all regions of small images, for every interface that accepts a region",
     "Tests crop no image with axis-specific bounds; all (start, stop) combinations per axis are needed to exclude axis and border mistakes.",
     ["utils/loading.py", "_metrics.py", "multiple.py"], [("crop_image", S + "utils/loading.py")], ["viqa.crop_image", "viqa.load_data(roi=)", "metric constructor roi"])

prop("C05", "Invalid input is rejected and leaves everything as it was",
     "Image pairs that differ in shape or element type, images that are not 2D or 3D, unsupported input types or files, color metrics on gray images, invalid metric parameters (window sizes, constants, centers, radii, region types, slice numbers, dimensions, missing data range) and inconsistent lists given to the batch interfaces are rejected with a ValueError, TypeError or (slice numbers) IndexError. A rejected call records no score, leaves the previous score, results and parameters of the object untouched, and the next valid call returns what it would have returned without the rejected one (a batch run that fails part-way may keep the results of the pairs calculated before).",
     ["inputs", "histories"], "every class of invalid argument for every metric and batch interface, before and after a valid call",
     "Tests check a few error messages on fresh objects, none after a successful call.",
     ["utils/loading.py", "_metrics.py", "multiple.py", "nr_metrics/cnr.py", "nr_metrics/snr.py", "fr_metrics/ssim.py", "fr_metrics/mad.py", "fr_metrics/fsim.py"], [("argument checks", "all score() methods"), ("pair check", S + "utils/loading.py:_check_imgs")], ["exception type", "score_val", "parameters", "results"])

prop("C06", "RMSE and PSNR equal their definitions",
     "For every pair of images of equal shape and type, RMSE is the square root of the mean squared difference over all elements computed without overflow or wrap-around, and PSNR is 20*log10(R / RMSE) with R the configured data range, infinite exactly for identical images. Color images are scored over all channels if the metric is chromatic and on their luminance 0.2125 R + 0.7154 G + 0.0721 B otherwise, for every bit depth.",
     ["inputs", "configurations"], "all pairs of tiny images over extreme-value alphabets; all types, shapes, data ranges and color settings",
     "Tests use random images and check sign or zero, not the value.",
     ["fr_metrics/rmse.py", "fr_metrics/psnr.py", "utils/loading.py", "utils/misc.py"], [("score", S + "fr_metrics/rmse.py"), ("score", S + "fr_metrics/psnr.py")], ["score() return value", "score_val"])

prop("C07", "SSIM and UQI equal their definitions",
     "SSIM is the mean over all windows that lie inside the image of luminance^alpha * contrast^beta * structure^gamma, with Gaussian (given sigma, cut at 3.5 sigma) or uniform windows (given odd size, default 7, sample covariance), constants (K1*R)^2, (K2*R)^2 and half the latter, for 2D and 3D images and every admissible parameter; color images combine the three channel scores as mean of weight times score. UQI is the same with uniform windows, exponents one and all constants zero.",
     ["inputs", "configurations"], "all parameter combinations from a grid x image patterns x shapes x types x data ranges",
     "Tests check identity and error cases only; a wrong constant, window or crop changes values they never look at.",
     ["fr_metrics/ssim.py", "fr_metrics/uqi.py"], [("structural_similarity", S + "fr_metrics/ssim.py")], ["score() return value"])

prop("C08", "CNR is computed on exactly the selected regions",
     "For every 2D or 3D image, every pair of centers and every positive radius whose regions lie inside the image, CNR is (mean of signal region - mean of background region) / standard deviation of the background region, and 0 if that deviation is 0, where the cubic region around c with radius r holds the pixels with c-r <= index < c+r on each axis, the spherical region those at Euclidean distance at most r, and region type full or original the whole image. Centers closer to any border than the radius are rejected with a ValueError.",
     ["inputs", "configurations"], "all centers, radii and region types of small 2D and 3D images",
     "Value tests need missing sample data; border and axis errors need all centers.",
     ["nr_metrics/cnr.py", "utils/misc.py"], [("contrast_to_noise_ratio", S + "nr_metrics/cnr.py"), ("region masks", S + "utils/misc.py")], ["CNR().score"])

prop("C09", "SNR is computed on exactly the selected region",
     "For every gray 2D or 3D image, center and positive radius whose region lies inside the image, SNR is mean / standard deviation of the region (0 if the deviation is 0), with regions as for CNR. For color images it is a triple (mean luma divided by the deviation of each YUV channel, Y = 0.2126 R + 0.7152 G + 0.0722 B) or, with YUV switched off, the luminance SNR followed by mean / deviation of each RGB channel, and a deviation of 0 yields 0 for that entry.",
     ["inputs", "configurations"], "all centers, radii, region types and color modes of small images",
     "Value tests need missing sample data; color SNR has no working test.",
     ["nr_metrics/snr.py", "utils/misc.py"], [("signal_to_noise_ratio", S + "nr_metrics/snr.py"), ("region masks, color conversion", S + "utils/misc.py")], ["SNR().score"])

prop("C10", "Batch results equal scoring every pair on its own",
     "For every list of image pairs, list of metrics with parameters and choice of regions (one per pair, one for all, or none), the batch interface returns for each pair and metric exactly the score a fresh metric gives for that pair alone, after resizing the modified image to the shape of the reference and cropping both; no-reference metrics are reported for both images under the metric name with suffix _r and _m. This is independent of repetition and order of pairs, of earlier runs of the same object and of failed runs, and the single-pair interface gives the same results.",
     ["histories", "configurations", "fault_sequences"], "all sequences of pairs over a small image pool x region assignments x metric lists, repeated runs, missing files at each position",
     "Batch processing has no stable test; its reuse of earlier results is only wrong for particular successions of pairs and regions.",
     ["multiple.py"], [("result reuse", S + "multiple.py:BatchMetrics.calculate"), ("calculation", S + "multiple.py:_calc")], ["calculate() return value", "results attribute"])

prop("C11", "Exports and pair lists keep every value and association",
     "An exported result table contains, for every pair (or the single pair) and every metric, the recorded score under the right metric and file names, so that reading the table back yields the identical numbers in the order of calculation; exporting metric objects writes name and score of every scored metric and returns n/a for unscored ones without changing them. Metadata lists every metric with its data range and all custom parameters, and a report writes exactly the requested files under the project name. A pair list is read identically for comma, semicolon or tab separated columns in any column order and with additional columns.",
     ["inputs", "configurations"], "all score values from an extreme alphabet, metric lists, report flag combinations, separators, column orders and file names",
     "There are no tests of exports.",
     ["utils/export.py", "multiple.py", "_metrics.py"], [("export_results, export_metadata", S + "utils/export.py"), ("report, pair list", S + "multiple.py")], ["files written", "return values", "pairs attribute", "printed values"])

prop("C12", "Slice-wise metrics score the requested slices of a volume",
     "For every metric that works slice by slice (FSIM, VSI, MS-SSIM, VIFp, GSM, MAD), every volume, axis and slice number (negative ones counting from the end), the score of a slice equals the score of that 2D slice alone, and the score of the volume along an axis is the mean of the scores of all slices along that axis. An axis other than 0, 1 or 2 and a missing axis are rejected with a ValueError, and axis and slice are ignored for 2D images.",
     ["inputs", "configurations"], "all axes and slices of non-cubic volumes for all slice-wise metrics",
     "Tests use cubic random volumes and compare no slice with its 2D score.",
     ["fr_metrics/fsim.py", "fr_metrics/vsi.py", "fr_metrics/msssim.py", "fr_metrics/vif.py", "fr_metrics/gsm.py", "fr_metrics/mad.py"], [("slicing in score()", "all listed files")], ["score() return value", "score_val"])

prop("C13", "Full-reference metrics satisfy the axioms of their score",
     "For every image, element type, data range and admissible parameter, comparing an image with itself gives the perfect score (0 for RMSE and MAD, infinity for PSNR, 1 for SSIM, UQI, MS-SSIM, FSIM, VSI, GSM and VIFp), (for GSM on images that are not constant, for UQI without windows that are entirely zero, for MAD on images larger than two blocks), and no pair scores better than perfect for RMSE, PSNR, SSIM, UQI, MS-SSIM, FSIM, VSI and MAD. RMSE, PSNR, SSIM, UQI, MS-SSIM, FSIM and VSI do not change when reference and modified image are exchanged, and RMSE, PSNR, SSIM and UQI do not change when both images are mirrored or transposed together.",
     ["inputs", "configurations"], "image patterns x types x data ranges x parameters x transformations",
     "Tests check identity for one random image per metric.",
     ["fr_metrics/rmse.py", "fr_metrics/psnr.py", "fr_metrics/ssim.py", "fr_metrics/uqi.py", "fr_metrics/msssim.py", "fr_metrics/fsim.py", "fr_metrics/vsi.py", "fr_metrics/gsm.py", "fr_metrics/vif.py", "fr_metrics/mad.py"], [("score", "all listed files")], ["score() return value"])

prop("C14", "No call changes the data it is given",
     "No loading, normalising, cropping, scoring, statistics, region search, filtering, fusion, batch, export or visualisation call changes the pixels, shape or type of an image passed to it, nor any list, dictionary, weight array or other argument object passed to it. This holds for every container and memory layout and for every parameter combination, and files given as input stay as they are.",
     ["inputs", "configurations"], "all public operations x containers x argument objects",
     "No test compares the inputs before and after a call.",
     ["utils/loading.py", "utils/misc.py", "multiple.py", "fr_metrics/mad.py", "fr_metrics/ssim.py", "nr_metrics/cnr.py", "nr_metrics/snr.py", "utils/visualization.py", "utils/export.py"], [("copies before in-place work", "all listed files")], ["argument objects after the call"])

prop("C15", "Scores do not depend on what a metric object did before",
     "For every sequence of operations on metric objects (scoring different images, rejected calls, printing, exporting, comparing, interleaved use of several objects of one class), each scoring call returns what a fresh object with the same settings returns, and the recorded score is always the one of the last successful scoring call and none before the first. The only memory is that CNR and SNR reuse center and radius of the last successful call (or of construction) for arguments not given again; explicitly given values always win.",
     ["histories"], "all operation sequences up to a depth bound for every metric, one and two objects",
     "Tests use each object once; stale state needs sequences.",
     ["_metrics.py", "nr_metrics/cnr.py", "nr_metrics/snr.py", "fr_metrics/mad.py"], [("state of metric objects", S + "_metrics.py"), ("remembered parameters", S + "nr_metrics")], ["score() return value", "score_val", "print_score()", "comparison"])

prop("C16", "Metrics may be computed concurrently in threads",
     "When several threads compute scores at the same time with metric objects of their own (same or different metrics, different images, parameters and image sizes), every thread obtains exactly the score it would obtain alone, for every interleaving of the threads. The same holds for loading, normalising and cropping, for region search, filtering, image statistics, exports to different files, for batch objects of their own, and for the value returned by full-reference metric objects that are shared between threads.",
     ["schedules"], "all interleavings of two threads at source-line granularity up to a preemption bound",
     "No test starts a thread; module-level or class-level scratch state is only visible in an interleaving.",
     ["fr_metrics/mad.py", "fr_metrics/gsm.py", "fr_metrics/ssim.py", "_metrics.py", "utils/loading.py", "utils/misc.py", "nr_metrics/cnr.py", "nr_metrics/snr.py", "multiple.py"], [("no shared mutable state between calls", "all listed files")], ["score() return value per thread"])

prop("C17", "Block statistics are those of the blocks, within bounds",
     "For every 2D image (any number of rows and columns, memory layout and numeric type), block size and stride not larger than the block, the block statistics give for each block position the sample standard deviation, skewness and kurtosis (0 for constant blocks) of that block in the stride x stride area starting at the position, and the minimum variant the smallest deviation among the position itself and those reached from it by steps of stride + 1 pixels down and right within half a block. They never read or write outside the arrays, never change the image and release what they allocate.",
     ["inputs"], "all row/column counts, block sizes, strides and layouts within bounds; every memory access instrumented",
     "Tests reach the extension only through MAD of square contiguous images.",
     ["fr_metrics/stat_utils/statisticsmodule.c"], [("minstd, getstatistics", S + "fr_metrics/stat_utils/statisticsmodule.c")], ["returned arrays", "memory sanitizer"])

prop("C18", "Image arrays behave as the arrays they hold",
     "An image array gives for every arithmetic, comparison, reduction, indexing and in-place operation the same values and element types as the plain array it was made from, stays an image array under element-wise operations, and wrapping never copies or changes values. The statistics of a newly wrapped array are absent until calculated; calculating them yields mean, median, population variance and standard deviation, skewness, excess kurtosis, minimum, maximum and histogram of exactly its current values, and the description reports and exports those numbers.",
     ["inputs", "histories"], "all types, shapes, operation methods and value patterns",
     "Only a doctest touches the class.",
     ["utils/loading.py"], [("ImageArray", S + "utils/loading.py")], ["operation results", "statistics attributes", "describe()"])

prop("C19", "Automatic regions lie deepest inside the object",
     "For every binary image the region search returns, after closing holes with the given number of iterations and removing a one pixel rim, a center whose distance to the nearest background pixel is the largest of all pixels, that distance rounded down as radius, and the mask of the requested shape (cube, sphere, eroded, original or cleaned object) around that center; images that are not binary are rejected with a ValueError. CNR and SNR with automatic centers equal CNR and SNR with the centers and radius found this way in the images thresholded at the documented percentiles.",
     ["inputs"], "all binary images of small sizes, iterations and region types",
     "No test calls the search.",
     ["utils/misc.py", "nr_metrics/cnr.py", "nr_metrics/snr.py"], [("find_largest_region", S + "utils/misc.py")], ["viqa.utils.find_largest_region", "score(auto_center=True)"])

prop("C20", "Filter kernels and filter operations equal their definitions",
     "Every gradient kernel (Sobel, Prewitt, Scharr and the GSM kernels, 2D and 3D) has the documented weights, zero sum, responds to a linear ramp only along its own axis (diagonal kernels equally along both of their axes) and is the transposed or mirrored counterpart of the kernels for the other axes; each call returns it anew, whatever was done to arrays returned earlier. Filtering with absolute mean response gives for every pixel the mean absolute product of kernel and the neighbourhood centered on that pixel under the chosen border treatment, convolution being correlation with the mirrored kernel, and unknown border treatments are rejected with a ValueError. The log-Gabor filter bank returns for each scale and orientation the response of the log-Gabor filter with the given wavelength, bandwidth and angular spread, for even and odd image sizes.",
     ["inputs", "configurations"], "all kernels, border modes, image sizes and filter parameters within bounds",
     "Doctests call the functions without looking at the result.",
     ["kernels.py", "utils/misc.py"], [("kernels", S + "kernels.py"), ("correlate_convolve_abs, gabor_convolve", S + "utils/misc.py")], ["returned arrays"])

prop("C21", "Comparing and fusing metrics uses exactly their scores",
     "Comparing a metric object with another metric or a number by any of the six comparison operators gives the result of comparing the scores, its text form shows class and score, and a printed score is the recorded score rounded to the requested decimals under the metric name (a RuntimeWarning and no score if there is none). Linear fusion returns the sum of score times weight over all metrics in order and rejects lists of different length with a ValueError; a metric without a score is never fused (ValueError or TypeError).",
     ["inputs", "histories"], "all pairs of scores and operators; all metric/weight lists up to a length",
     "Tests compare nothing; fusion has one doctest.",
     ["_metrics.py", "fusion.py"], [("comparison operators", S + "_metrics.py"), ("fusion", S + "fusion.py")], ["operators", "repr", "print_score()", "fuse_metrics_linear_combination"])

prop("C22", "Visualisations show the requested slices, regions and scores",
     "For every image and every choice of slices (negative ones counting from the end), the visualisations and the exported comparison show exactly the pixels of the requested slice (of both images in the same orientation, after resizing and cropping; color images of a comparison in gray), the slice positions as lines, and the CNR/SNR region with its outline exactly at the center and radius used for scoring (given, stored or scored with before); slices outside the image and more or less than one axis of a comparison are rejected. Titles and axis labels name the slice and axes shown. The comparison lists every given score exactly once, and an export path produces the file with that content, also if showing the figure closes it.",
     ["inputs", "configurations"], "all slices of non-cubic volumes, region types, images and result sets",
     "One doctest calls a visualisation without looking at it.",
     ["utils/visualization.py", "utils/export.py", "nr_metrics/cnr.py", "nr_metrics/snr.py"], [("plotting", S + "utils/visualization.py"), ("export_image", S + "utils/export.py")], ["figures drawn", "files written"])

prop("C23", "The command line tools keep the geometry of volumes",
     "Cropping a raw volume file by a factor keeps exactly its central part, reducing projections keeps every n-th projection, and combining a stack of raw slices in name order yields a volume whose slices are those files; the written file has the announced name, size and element type and every voxel value of the source at its place. Writing pair lists lists every modified file whose name starts with the three-letter reference name exactly once, and copies the files if asked; converting to MAT stores the volume normalised to [0, 1].",
     ["inputs", "configurations"], "all extents, factors, element types and file sets within bounds",
     "The scripts have no tests.",
     ["src/scripts/crop_image.py", "src/scripts/reduce_projections.py", "src/scripts/combine_stack.py", "src/scripts/write_to_csv.py", "src/scripts/write_to_mat.py"], [("scripts", "src/scripts")], ["files written by the scripts"])

prop("C24", "Interactive center selection stores what the user selected",
     "In a notebook, after any sequence of slider movements, region type changes, region calculations and clicks on the save button in one or several open selections (of one or several CNR or SNR objects), the parameters of each metric object are the values shown in its own selection at its last save (for a full region those it was calculated with, centers and radius being unset), or its starting values if nothing was saved. Every selectable region lies inside the image. A following score without arguments uses exactly the saved centers and radius, a visualisation without arguments shows the saved region, and opening a selection again starts from the saved values.",
     ["histories"], "all sequences of widget events up to a depth over one and two selections",
     "No test opens a selection; mixing up two selections needs interleaved event sequences.",
     ["nr_metrics/cnr.py", "nr_metrics/snr.py"], [("set_centers", S + "nr_metrics")], ["parameters attribute after widget events"])

prop("C25", "Perceptual metrics equal their reference algorithms",
     "For every image pair and admissible parameter, FSIM, VSI, MS-SSIM and VIFp equal the result of their published algorithm as implemented by the underlying library on the unchanged pixel values (gray as one channel, color as three) with the configured data range and the given parameters, and GSM and MAD equal their documented formulas with every documented parameter taking effect (for MAD block size and overlap, thresholds, weights, luminance, contrast sensitivity, monitor and scaling parameters). The score recorded in the object is that value.",
     ["inputs", "configurations"], "parameter grids x image patterns x types x data ranges x shapes",
     "Tests check identity and error messages for these metrics.",
     ["fr_metrics/fsim.py", "fr_metrics/vsi.py", "fr_metrics/msssim.py", "fr_metrics/vif.py", "fr_metrics/gsm.py", "fr_metrics/mad.py"], [("score", "all listed files"), ("MAD formulas", S + "fr_metrics/mad.py")], ["score() return value", "score_val"])

prop("C26", "Q-Measure evaluates exactly the given volume",
     "For every volume (any extents, element type, memory layout, container or file, normalised or cropped if requested), the Q-Measure calculation receives every voxel of the loaded volume exactly once as 32 bit float, its extents, the integer parts of its smallest and largest value as value range and the requested number of histogram bins and peaks (128 and 2 if not given); the score is exactly the value calculated from them, returned and recorded. A volume whose last extent is three is reported with a RuntimeWarning as probable color image, 2D images are rejected with a ValueError before anything is calculated and leave the recorded score.",
     ["inputs", "call histories"], "all volumes, layouts, types and parameters; all call sequences",
     "The metric cannot be run by the test suite here.",
     ["nr_metrics/qmeasure.py", "nr_metrics/qmeasure_utils/qmeasurecalcmodule.cpp"], [("Q-Measure", S + "nr_metrics/qmeasure.py"), ("glue code", S + "nr_metrics/qmeasure_utils/qmeasurecalcmodule.cpp")], ["QMeasure().score", "arguments of the library call"])

prop("C27", "Optional arguments have their documented defaults",
     "Leaving out any combination of optional arguments of a constructor, scoring method, function, export or report gives the same outcome (value, recorded parameters, exception, printed text, written files and figure) as giving their documented default values explicitly, whatever values the other arguments have; this includes the entries of dictionary arguments such as luminance and contrast sensitivity functions. In particular metrics assume a data range of 255 (RMSE: none) without normalisation or color, dimensions default to the last one, and files without a path are written to the working directory.",
     ["inputs", "configurations"], "all subsets of omitted arguments x alternative values of the remaining ones",
     "Tests and doctests pass the arguments they need and never compare with the documented defaults.",
     ["fr_metrics", "nr_metrics", "utils/misc.py", "utils/export.py", "utils/loading.py", "multiple.py"], [("signatures and keyword defaults", "all listed files")], ["results", "files", "console output", "figures"])

prop("C28", "The notebook packages are optional",
     "Whichever of the optional notebook packages (ipywidgets, IPython) are absent or cannot be imported, inside and outside of a notebook and whichever module is imported first, the package can be imported, warns about exactly the missing ones, offers every public name, and every score, loading, export and visualisation is the same as with all packages. Opening a center selection in a notebook without them raises an ImportError naming exactly the missing packages, shows nothing and leaves the stored parameters; outside of a notebook it shows the given or stored centers without storing anything, or raises an ImportError if there are none.",
     ["configurations"], "all subsets of missing packages x environment x module imported first x selection arguments",
     "The test environment has all packages and is no notebook.",
     ["utils/_module.py", "nr_metrics/cnr.py", "nr_metrics/snr.py", "__init__.py"], [("try_import, is_ipython, check_interactive_vis_deps", S + "utils/_module.py"), ("set_centers", S + "nr_metrics")], ["import viqa", "warnings", "set_centers"])

prop("C29", "Calls neither change nor depend on process-wide settings",
     "No public call, successful or rejected, changes process-wide state: random number generators, numpy error handling and print options, default tensor type, gradient mode and threads, matplotlib settings and the user's open figures, warning filters, working directory, environment, locale, standard streams, signal handlers; none leaves files open or writes files other than those asked for. Results do not depend on the state of the random number generators, the working directory (for absolute paths), print options, warning-only numpy error handling, the number of tensor threads, other open figures or interactive plotting.",
     ["inputs", "configurations"], "all public calls and arguments x ambient settings",
     "Tests look at return values only, in one setting.",
     ["_metrics.py", "fr_metrics", "nr_metrics", "utils", "multiple.py", "fusion.py"], [("all public calls", "src/viqa")], ["process state", "results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
