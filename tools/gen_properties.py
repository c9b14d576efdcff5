#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run once by the author; the .jsonl is the committed artefact)."""
import json, os
S = "boofcpp/src/boofcv/"
J = "boofcpp-jni/src/main/cpp/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
            mechanism=[dict(name=a, where=b) for a, b in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            observe_at=observe, hook_needed=None)))

p("C01", "Blob labelling equals the connected components of the binary image",
  "For every binary image of zeros and ones, and for the 4- and the 8-connect rule, the labelled image gives 0 to every background pixel and gives two foreground pixels the same label exactly when a chain of connected foreground pixels joins them. Labels are the consecutive numbers 1..N in the order a raster scan first meets each blob, and the list of blobs has one entry per label in that order. This holds whatever the label image held before, and for images and label images that are views into larger buffers, of which nothing outside the view is changed.",
  ["inputs", "configurations"], "every binary image, every shape (1xN, Nx1 included), both connect rules, every view layout of input and label image",
  "Tests trace a handful of hand-drawn patterns; the single-pass labelling depends on the exact order in which contours mark pixels, so a wrong shortcut shows only on particular shapes.",
  [S+"contour.cpp", S+"contour.h"],
  [("single raster pass with three label steps", S+"contour.cpp process/handleStep1..3"), ("contour tracer marks visited background", S+"contour.cpp searchBlack/checkBlack")],
  ["labelled image and list of blobs after processing"],
  [("border image", "copy of the input with a one-pixel zero frame", S+"contour.h"), ("contours", "one entry per blob", S+"contour.h")])

p("C02", "Each blob gets its exact external contour and one contour per hole",
  "For every binary image and both connect rules, each blob has exactly one external contour and exactly one internal contour for every hole in it. Each contour is a closed walk over pixels of its own blob, consecutive points being neighbours under the rule, that goes clockwise and visits exactly the blob pixels that border the outside region (external) or that hole (internal), starting at the first pixel of the blob met by the raster scan (external) or at the pixel directly above the first pixel of the hole (internal). All coordinates are inside the image and refer to the image passed in.",
  ["inputs", "configurations"], "every binary image and shape, both connect rules",
  "Tests check sizes of a few contours; the stopping criterion and start direction matter only on one-pixel-wide, self-touching or nested shapes, which exhaustive small images contain and samples do not.",
  [S+"contour.cpp", S+"contour.h", S+"packed_sets.h"],
  [("clockwise neighbour search and next-direction table", S+"contour.cpp trace"), ("external/internal index book-keeping", S+"contour.cpp handleStep1/handleStep2")],
  ["stored point sets, external and internal set indexes of each blob"])

p("C03", "Contour size limits and the save-internal switch only drop points",
  "Changing the minimum or maximum contour size, or the switch that saves internal contours, never changes the labelled image, the list of blobs or how many contours each blob has. The points of a contour are all recorded when its length is at least the minimum and below the maximum (and it is external or the switch is on), and none are recorded otherwise. Points of other contours are never affected by a contour that was dropped.",
  ["inputs", "configurations"], "every binary image x every small (minimum, maximum, save-internal) setting x both rules",
  "Tests never set the limits together with images that have several blobs and holes around the limit, and a leak from a dropped contour into the next one needs a sequence of contours.",
  [S+"contour.cpp", S+"packed_sets.h"],
  [("tracer stops storing at the maximum", S+"contour.cpp add"), ("tail set removed and replaced by an empty one", S+"contour.cpp handleStep1/handleStep2")],
  ["point sets after processing, compared with the unlimited run"])

p("C04", "A contour finder gives the same answer whatever it processed before",
  "A contour finder that has already processed any sequence of images, with any rule changes, limit changes and image size changes in between, gives for the next image exactly the labels, blobs and contours a newly created finder gives with the same settings. The input image is never modified. Results of one call do not depend on the earlier contents of the label image.",
  ["histories", "configurations"], "every sequence of small images, rule switches, limit switches, save-internal switches and label buffers up to a depth",
  "Tests use a new finder for each image or the same image twice; state carried over (padded copy, point storage, limits left in the tracer) needs a specific history to show.",
  [S+"contour.cpp", S+"contour.h", S+"packed_sets.h"],
  [("border image reused; frame only re-zeroed on a size change", S+"contour.cpp process"), ("storage cleared per call", S+"contour.cpp process")],
  ["labels, blobs, contours after each call of a history"])

p("C05", "A packed set collection behaves as a list of lists",
  "After any sequence of starting a set, appending to the last set, removing the last set, overwriting a set and clearing, the collection holds exactly the sets and elements a plain list of lists would hold, for any block length and across block boundaries. Reads outside the held sets or elements, and overwrites of the wrong length, are refused and change nothing. All memory is released exactly once.",
  ["histories", "configurations"], "every operation sequence up to a depth, for block lengths 1,2,3 and larger, including histories that clear and regrow",
  "Tests use one fixed sequence with one block length; block reuse after removal or clearing and set starts at block boundaries need particular histories.",
  [S+"packed_sets.h"],
  [("block list grown on demand", S+"packed_sets.h _add_element"), ("sets addressed by block and offset", S+"packed_sets.h start_new_set/at/load_set/write_set")],
  ["at, load_set, size_of_tail, number_of_sets after every operation"])

p("C06", "A growable array behaves as a sequence with a default for new elements",
  "After any sequence of constructing, resizing, growing, filling, assigning, copying and element writes, the array has the elements a plain sequence would have: resizing keeps the common prefix and gives new elements the default value, and filling sets every element to the given value for any element type. Copies are independent of the original and each array releases its memory exactly once. A wrapper around memory it does not own is never resized or freed, and out-of-range checked access is refused.",
  ["histories", "configurations"], "every operation sequence up to a depth over element types of 1, 2, 4 and 8 bytes",
  "Tests resize once or twice with bytes; shrinking then growing, non-zero defaults, multi-byte fills and copies need a sequence of operations.",
  [S+"base_types.h"],
  [("capacity vs size book-keeping", S+"base_types.h GrowArray::resize/grow_array"), ("ownership flag", S+"base_types.h GrowArray::can_resize")],
  ["size and every element after every operation; allocation balance"])

p("C07", "A gray image is a rectangle of pixels; views share, copies do not",
  "After any sequence of constructing, reshaping, taking sub-images, copying, assigning and writing pixels, every image has the shape and pixels of a plain two-dimensional array: a sub-image shows and changes exactly the parent's rectangle, a copy is independent, and reported width, height, pixel count, index and bounds answers agree with the shape. Reshaping a view to another shape, copying a differently shaped image into a view, and checked access or sub-images outside the bounds are refused and change nothing. Memory is released exactly once by its owner and never by a view.",
  ["histories", "configurations"], "every operation sequence up to a depth on a pool of images and views, pixel types of 1, 2, 4 and 8 bytes",
  "Tests exercise each operation once on one image; ownership and stride mistakes appear only when views, reshapes and assignments are combined.",
  [S+"image_types.h"],
  [("offset/stride addressing", S+"image_types.h Gray::at/unsafe_at/index_of"), ("view flag decides ownership", S+"image_types.h Gray::~Gray/operator=/reshape")],
  ["shape, every pixel of every live image after every operation; allocation balance"])

p("C08", "Multi-band images keep every band in place through any history",
  "After any sequence of constructing, reshaping, changing the number of bands, taking sub-images, copying from another image and writing pixels, an interleaved or planar image has the shape, bands and pixels of a plain three-dimensional array, and copying an image (or a view of one) yields every pixel of every band for every pixel type. Access to a pixel or band that does not exist, and changes that a view cannot take, are refused and change nothing. Each buffer is released exactly once.",
  ["histories", "configurations"], "every operation sequence up to a depth, interleaved and planar, pixel types of 1, 2, 4 and 8 bytes, views included",
  "Tests for planar images are empty and interleaved tests use bytes; multi-byte copies, band changes and destruction are never executed.",
  [S+"image_types.h"],
  [("interleaved addressing and copy", S+"image_types.h Interleaved"), ("band list management", S+"image_types.h Planar")],
  ["shape, every pixel of every band after every operation; allocation balance"])

p("C09", "Kernels hold what they were given and generated kernels are right",
  "A kernel keeps its width, origin and weights through construction, reshaping, copying and assignment, and its sum, largest, smallest and largest/smallest magnitude are those of its weights. Generated kernels are exact: the table kernel is all ones, the mean kernel sums to one with equal weights, Gaussian kernels in one and two dimensions are symmetric, peak at the centre, have the ratios of the Gaussian for the requested (or derived) width and sigma, and sum to one in floating point, while integer ones are the floating ones scaled so that the smallest significant weight is one. Origins outside the kernel, ragged tables and undefined sizes are refused.",
  ["inputs", "configurations", "histories"], "every width up to a bound, every origin, odd and even, a grid of sigmas, derived width or derived sigma, 1D and 2D, integer and floating weights",
  "Tests look at one or two widths per generator and never normalise a two-dimensional kernel or copy one.",
  [S+"convolve_kernels.h", S+"base_types.h"],
  [("generators", S+"convolve_kernels.h FactoryKernel"), ("weight storage", S+"convolve_kernels.h Kernel1D/Kernel2D")],
  ["weights and statistics of each kernel"])

p("C10", "Pixels outside an image follow the chosen border policy",
  "For every image, including one-pixel-wide ones and views, and for every pair of coordinates, inside or however far outside, border access returns the pixel itself inside the image and otherwise the value the policy defines: the nearest edge pixel (extended), the mirror image about the edge pixel repeated as often as needed (reflected), the periodic repetition (wrapped), or the fixed value. It never reads memory outside the image's pixels, and never changes the image. Policies obtained from the factory match the requested type, and unsupported types are refused.",
  ["inputs", "configurations"], "every small image shape and layout, every coordinate within several image sizes of it, every policy and pixel type",
  "Tests read one or two pixels outside a large image; coordinates more than one image size away and one-pixel images are never read.",
  [S+"image_border.h"],
  [("index adjustment per policy", S+"image_border.h adjust"), ("factory", S+"image_border.h FactoryImageBorder")],
  ["value returned for each coordinate"])

p("C11", "Convolution equals its definition at every pixel, border included",
  "For every image, every kernel width and origin (kernels larger than the image included), every border policy and both one-dimensional directions as well as two dimensions, each output pixel is the sum over the kernel of weight times the input pixel at that displacement, taken through the border policy. The optimised inner code, the border code and the plain code agree wherever they are defined, with and without a divisor (integers rounded by adding half the divisor). The output takes the input's shape, and the input is unchanged.",
  ["inputs", "configurations"], "all shapes up to a bound x all kernel widths x all origins x policies x pixel/output types x view layouts, with data that separates every (pixel, tap) pair",
  "Tests use a few widths with one image size and random data; per-width fast paths, even widths, off-centre origins and width/height confusion need the whole grid.",
  [S+"convolve.h", S+"image_border.h"],
  [("inner loops selected by kernel width", S+"convolve.h ConvolveImage_Inner"), ("border loops", S+"convolve.h ConvolveImage_Border"), ("plain code for large kernels", S+"convolve.h ConvolveNaive")],
  ["every output pixel"])

p("C12", "Normalised convolution weighs only pixels inside the image",
  "For every image, kernel width and origin with positive weights, kernels larger than the image included, each output pixel of the normalised convolution is the weighted sum of the pixels the kernel covers inside the image divided by the sum of those weights (for integer pixels half the divisor is added first and the division truncates). A constant image therefore stays constant and every output lies between the smallest and largest input under the kernel. Horizontal then vertical passes combine to the two-pass result for the separable call, whatever the shapes of the output and workspace were before.",
  ["inputs", "configurations"], "all shapes up to a bound x all kernel widths and origins x pixel types x view layouts, weights including ones larger than a byte",
  "Tests compare fast and plain code of the same library on few sizes; a mistake shared by both, or one for large weights or kernels longer than the image, is not seen.",
  [S+"convolve.h"],
  [("border-only code", S+"convolve.h ConvolveNormalized_JustBorder"), ("plain code", S+"convolve.h ConvolveNormalizedNaive"), ("selection by kernel and image size", S+"convolve.h ConvolveNormalized")],
  ["every output pixel"])

p("C13", "Mean blur is the box average of the pixels in the window",
  "For every image shape, pixel type and positive radius, the horizontal and vertical mean filters give at each pixel the average of the pixels within the radius that are inside the image (integers: the sum plus half the count, divided with truncation), and the blur is the horizontal pass followed by the vertical pass. This holds when the window is wider or taller than the image in either direction. Only output and workspace are written, and they take the input's shape.",
  ["inputs", "configurations"], "all shapes up to a bound (wide, tall, tiny) x all radii up to beyond the image x pixel types x view layouts",
  "Tests use one image shape and small radii; running sums and the choice between code paths depend on how width, height and window compare.",
  [S+"image_blur.h", S+"convolve.h"],
  [("running sums", S+"image_blur.h inner_horizontal/inner_vertical"), ("path selection", S+"image_blur.h horizontal/vertical")],
  ["every output pixel"])

p("C14", "Gaussian blur is the two-pass normalised Gaussian filter",
  "For every image shape, pixel type, sigma and width, given or derived from each other, Gaussian blur gives at each pixel the horizontal then vertical normalised weighted average with the Gaussian kernel of that sigma and width. A constant image stays constant and flipping the input flips the output for odd widths. Only output and workspace are written and they take the input's shape; asking for neither a width nor a sigma is refused.",
  ["inputs", "configurations"], "all shapes up to a bound x sigmas x widths (odd, even, larger than the image) x pixel types x view layouts",
  "Tests run two configurations on one image size against code from the same library.",
  [S+"image_blur.h", S+"convolve_kernels.h", S+"convolve.h"],
  [("kernel from sigma/width", S+"convolve_kernels.h gaussian1D"), ("two passes", S+"image_blur.h gaussian")],
  ["every output pixel"])

p("C15", "Global thresholding classifies every pixel by the one threshold",
  "For every image, threshold and direction, the binary output has the input's shape and each pixel is 1 exactly when the input pixel is at most the threshold (down) or above it (up), and 0 otherwise. The automatic global filter uses the Otsu threshold of the image's pixel values within the stated value range, wherever that range starts. The input is unchanged and earlier contents of the output do not matter.",
  ["inputs", "configurations"], "every pixel value against every threshold, small images over the value alphabet, value ranges starting anywhere, both directions, view layouts",
  "Tests of the Otsu filter are empty and fixed thresholds are tried with one value.",
  [S+"binary_ops.h"],
  [("comparison loops", S+"binary_ops.h ThresholdOps::threshold"), ("filter objects", S+"binary_ops.h GlobalFixedBinaryFilter/GlobalOtsuBinaryFilter")],
  ["every output pixel"])

p("C16", "The Otsu threshold maximises the between-class variance",
  "For every histogram, the standard threshold is the lowest intensity whose split into values at or below and values above it maximises the variance between the two classes (up to floating point rounding), and the alternative variant returns the midpoint between the two class means of that split. The low-texture penalty moves the threshold down or up according to the direction by the tuned amount, never below zero, and the scale multiplies the result, rounded to nearest. The answer depends only on the histogram and settings, not on histograms seen before.",
  ["inputs", "configurations", "histories"], "every histogram up to a length and count bound, both variants, a grid of tuning, scale and direction, sequences of histograms on one object",
  "There is no test of the threshold value at all; optimality is a claim over all histograms.",
  [S+"binary_ops.cpp", S+"binary_ops.h"],
  [("scan over split points", S+"binary_ops.cpp computeOtsu/computeOtsu2"), ("penalty and scale", S+"binary_ops.cpp compute")],
  ["threshold and variance after computing"])

p("C17", "Local-mean thresholding compares each pixel with its window average",
  "For every image, window length (fixed or relative), scale and direction, each output pixel is 1 exactly when the pixel is at most scale times the mean blur of the image at that pixel (down), or scale times the pixel exceeds that mean (up), where the blur window is the configured length for an image of this size. The output takes the input's shape. Reusing the filter object for images of other sizes, in any order, gives what a new object gives.",
  ["inputs", "configurations", "histories"], "small images over an intensity alphabet, all shapes up to a bound, window lengths, scales and directions, sequences of images on one filter",
  "The test is empty.",
  [S+"binary_ops.h", S+"image_blur.h"],
  [("mean blur then comparison", S+"binary_ops.h ThresholdOps::localMean"), ("work images kept in the filter", S+"binary_ops.h LocalMeanBinaryFilter")],
  ["every output pixel"])

p("C18", "Block thresholds tile the image and use the right neighbour blocks",
  "For every image shape and requested block length, fixed or relative, every pixel belongs to exactly one block of a regular grid whose block size is the image size divided evenly among as many blocks of the requested length as fit, the last row and column taking the remainder. Each pixel is classified from statistics of all and only the pixels of its own block, or of the 3x3 blocks around it clipped to the grid when local blocks are on. A requested length that is larger than the image, or not positive, is refused before anything is written.",
  ["inputs", "configurations"], "all image shapes up to a bound x all requested lengths x both neighbourhood settings, for each block statistic, checked by perturbing single pixels",
  "Tests use a few shapes that divide almost evenly; grid arithmetic errors appear for particular remainders.",
  [S+"threshold_block_filters.h"],
  [("block size selection", S+"threshold_block_filters.h selectBlockSize/process"), ("block loops", S+"threshold_block_filters.h computeStatistics/applyThreshold")],
  ["which input pixels each output pixel depends on; the output itself"])

p("C19", "Block-mean thresholding follows the mean of the neighbouring blocks",
  "For every image, block length, scale, direction and neighbourhood setting, each output pixel is 1 exactly when the comparison of the pixel with the average over its neighbouring blocks of the scaled block means (at most, for down; above, for up) holds, block means being rounded (half up, truncating division) and limited to the range of the pixel type, and averages of block means truncated, for integer images. All shapes, views and reuses of the filter object give the same answer as a new object on a plain image. The input is unchanged.",
  ["inputs", "configurations", "histories"], "small images over intensity alphabets, shapes, block lengths, scales, both directions and settings, sequences on one filter",
  "Tests check one random image per option against another option, never against the definition.",
  [S+"threshold_block_filters.h"],
  [("block mean", S+"threshold_block_filters.h ThresholdBlockMean::computeBlockStatistics"), ("3x3 average and comparison", S+"threshold_block_filters.h ThresholdBlockMean::thresholdBlock")],
  ["every output pixel"])

p("C20", "Block min-max thresholding uses the mid-range, with a texture guard",
  "For every image, block length, spread limit, scale, direction and neighbourhood setting, each output pixel is 1 when the largest minus the smallest pixel of its neighbouring blocks does not exceed the spread limit, and otherwise is the comparison of the pixel with the scaled midpoint of those extremes, truncated to the pixel type for integers (at most, for down; above, for up). This holds for negative pixels too. All shapes, views and reuses of the filter object give the same answer as a new object on a plain image.",
  ["inputs", "configurations", "histories"], "small images over intensity alphabets with negative floats, shapes, block lengths, spread limits, scales, directions, settings, sequences on one filter",
  "Tests check relations between options on random byte images, never the definition, and never negative values.",
  [S+"threshold_block_filters.h"],
  [("block extremes", S+"threshold_block_filters.h ThresholdBlockMinMax::computeBlockStatistics"), ("spread test and comparison", S+"threshold_block_filters.h ThresholdBlockMinMax::thresholdBlock")],
  ["every output pixel"])

p("C21", "Block Otsu thresholding applies Otsu to the neighbouring blocks' histogram",
  "For every image, block length, tuning, scale, direction, variant and neighbourhood setting, each output pixel is the comparison (at most, for down; above, for up) of the pixel with the Otsu threshold, under the same settings, of the histogram of the integer parts of all pixels in its neighbouring blocks. All shapes, views and reuses of the filter object give the same answer as a new object on a plain image. The input is unchanged.",
  ["inputs", "configurations", "histories"], "small images over intensity alphabets, shapes, block lengths, both variants, settings, sequences on one filter",
  "Tests check relations between options on random images, never the definition; stale histograms need a history.",
  [S+"threshold_block_filters.h", S+"binary_ops.cpp"],
  [("block histograms", S+"threshold_block_filters.h ThresholdBlockOtsu::computeBlockStatistics"), ("summation and threshold", S+"threshold_block_filters.h ThresholdBlockOtsu::thresholdBlock")],
  ["every output pixel"])

p("C22", "Binary logic and 4-neighbour erosion and dilation follow set algebra",
  "For every pair of binary images the logical and/or outputs are the pixelwise and/or, also when the output is one of the inputs. For every binary image of any shape, erosion gives 1 exactly where the pixel and its four neighbours are all 1, and dilation gives 1 exactly where the pixel or one of its four neighbours is 1, pixels outside the image counting as 0. Outputs take the input's shape, do not depend on their earlier contents, and different input shapes are refused.",
  ["inputs", "configurations"], "every binary image (pair) up to a shape bound incl. one-pixel-wide and empty ones, view layouts, aliasing",
  "Tests check the centre pixel of a few 3x3 patterns.",
  [S+"binary_ops.cpp", S+"binary_ops.h"],
  [("row loops", S+"binary_ops.cpp logicAnd/logicOr"), ("neighbour sums", S+"binary_ops.cpp erode4/dilate4")],
  ["every output pixel"])

p("C23", "Image statistics and fills cover exactly the pixels of the image",
  "For every image or view and pixel type, minimum, maximum, sum and mean (truncated for integers) are those of exactly its pixels (negative values included), and the histogram counts each pixel once in the bin of its distance from the given minimum, whatever the histogram held before. Fill, border fill and random fill set exactly the pixels of the image or view (for border fill, exactly those within the given distance of its edge) and random values lie in the requested range. Averaging bands into a gray image gives the mean of the bands of each pixel.",
  ["inputs", "configurations"], "every small image over value alphabets with negatives, all shapes and view layouts, all border radii, pixel types",
  "Tests use one non-view image of non-negative values per function.",
  [S+"image_statistics.h", S+"image_misc_ops.h", S+"image_convert.h"],
  [("statistics loops", S+"image_statistics.h"), ("fill loops", S+"image_misc_ops.h"), ("band average", S+"image_convert.h")],
  ["returned values, every pixel of the image and of its surroundings"])

p("C24", "Operations on views touch only the view and never their inputs",
  "Every image operation gives the same result when its inputs, outputs or work images are views into larger buffers as when they are plain images. It reads and writes no memory outside the views, leaves every buffer cell outside the output views and every input unchanged. The result does not depend on the previous contents of outputs and work images.",
  ["inputs", "configurations"], "every operation x every combination of plain and view operands (offset, stride and padding variants) x shapes x previous contents",
  "Tests use views for some operations, with one layout; reads outside a view usually go unnoticed.",
  [S+"convolve.h", S+"image_blur.h", S+"binary_ops.h", S+"binary_ops.cpp", S+"threshold_block_filters.h", S+"contour.cpp", S+"image_types.h"],
  [("offset/stride addressing in each loop", S+"all operations")],
  ["results and all buffer cells around the views, under address checking"])

p("C25", "Length settings resolve to pixels as documented",
  "A fixed length resolves to itself, and a relative one to the fraction of the total but at least the minimum length. The integer form rounds to the nearest integer, and gives -1 when nothing non-negative results. A setting is valid exactly when its length or its fraction is non-negative, and reports itself relative exactly when its fraction is non-negative.",
  ["inputs"], "a full grid of lengths, fractions and totals around the rounding and sign boundaries",
  "Tests check three values.",
  [S+"config_types.cpp", S+"config_types.h"],
  [("compute/computeI/checkValidity", S+"config_types.cpp")],
  ["returned values"])

p("C26", "Refused calls raise an error, stay inside and leave objects usable",
  "Every call the library documents as illegal (mismatched image shapes, reshaping or resizing something it does not own, out-of-range access, images smaller than a block, non-positive radius or block, kernel origin outside the kernel, unknown border type, neither sigma nor width) raises an error. It never crashes, never changes an input, never writes outside its outputs and work images (which may already have been resized), leaks nothing, and leaves arguments and filter objects fully usable: the same objects give correct results in later legal calls.",
  ["histories", "fault_sequences", "configurations"], "every illegal call in the alphabet placed at every position of short histories of legal calls",
  "Tests check that a few calls throw, never what state they leave behind.",
  [S+"sanity_checks.cpp", S+"image_types.h", S+"base_types.h", S+"threshold_block_filters.h", S+"convolve_kernels.h", S+"image_blur.h"],
  [("argument checks", S+"sanity_checks.cpp and constructors/reshape functions")],
  ["error raised; state and later results"])

p("C27", "The Java bridge passes images, kernels and settings through unchanged",
  "For every supported image type, shape, start index and stride, kernel, border type and setting, a native filter called through the Java bridge writes into the Java output array exactly what the library gives for the same input and settings, and changes no element of an input array or outside the output rectangle. Native filter objects keep the settings they were created with through any number of calls and are destroyed once, however often destroy is called. Getters return what the setters stored.",
  ["inputs", "configurations", "histories"], "all bridge entry points x image types x shapes, start indexes and strides x settings, under a simulated Java environment that enumerates copying and pinning behaviour",
  "No test loads the bridge at all.",
  [J+"JNIBoofCPP.cpp", J+"NativeGlobalFixed.cpp", J+"NativeGlobalOtsu.cpp", J+"NativeLocalMean.cpp", J+"NativeBlockMean.cpp", J+"NativeBlockMinMax.cpp", J+"NativeBlockOtsu.cpp", J+"NativeImageBlurOps.cpp", J+"NativeImageConvolve.cpp", J+"NativeImageConvolveNormalized.cpp"],
  [("field extraction", J+"JNIBoofCPP.cpp extractInfo*"), ("entry points", J+"Native*.cpp")],
  ["Java arrays before and after each call"])

p("C28", "The Java bridge returns every array it takes, also when calls fail",
  "In every call through the Java bridge, each Java array obtained is released exactly once, with the same pointer it was obtained with, input arrays without and output arrays with copy-back, and no other Java call is made while an array is held in a critical section. This also holds when the native operation refuses its arguments or the Java side reports an error at any step or native memory runs out, and then no native memory is leaked, no native error escapes into the Java machine, no Java call is made while a Java exception is pending, and the Java caller sees an exception instead of a call that silently did nothing; the filter works again afterwards.",
  ["fault_sequences", "configurations"], "all bridge entry points x settings x illegal arguments x an injected failure at every single step of the Java environment and at every native memory allocation",
  "No test loads the bridge; failure paths need injected faults.",
  [J+"JNIBoofCPP.cpp", J+"JNIBoofCPP.h", J+"NativeGlobalFixed.cpp", J+"NativeBlockMean.cpp", J+"NativeImageBlurOps.cpp", J+"NativeImageConvolve.cpp", J+"NativeImageConvolveNormalized.cpp"],
  [("acquire/release pairs", J+"Native*.cpp nativeprocess")],
  ["log of Java environment calls; allocation balance"])

p("C29", "The Java bridge hands over all blobs, contours and points",
  "After processing an image through the Java bridge, the Java side has been told of every blob with its number, its external contour index and its list of internal contour indexes, and the Java point storage holds every contour's points at the place announced for it, equal to what the library found. This holds for any sequence of images and settings on one bridge object, whatever the Java containers held or how large they were before.",
  ["inputs", "histories", "configurations"], "all small binary images, sequences of images and settings, initial sizes of the Java containers, point counts that cross storage blocks",
  "No test loads the bridge.",
  [J+"NativeChang2004.cpp", J+"JNIBoofCPP.cpp"],
  [("index list transfer", J+"JNIBoofCPP.cpp WrapJGrowQueue_I32"), ("point transfer", J+"JNIBoofCPP.cpp copy_into_java")],
  ["simulated Java containers after each call"])

p("C30", "Threads using separate objects and outputs never disturb each other",
  "When two threads each run any library operation on their own filter objects, outputs and work images, sharing at most inputs that neither writes, then under every interleaving each thread gets exactly the result it would get alone. The library keeps no state outside the objects it is given.",
  ["schedules", "programs"], "all pairs of operations x all interleavings of their memory accesses (reduced by independence)",
  "All tests are single threaded.",
  [S+"convolve.h", S+"image_blur.h", S+"binary_ops.cpp", S+"threshold_block_filters.h", S+"contour.cpp", S+"convolve_kernels.h", S+"image_statistics.h"],
  [("no shared mutable state; work memory passed in or owned by the object", S+"all operations")],
  ["results of both threads in every explored schedule"])

p("C31", "Filter objects give the same output whatever they processed before",
  "Any binary filter object that has processed any sequence of images of any sizes gives for the next image exactly the output that a newly created object with the same settings gives, including after a call that was refused. Two objects never influence each other.",
  ["histories", "configurations"], "every sequence of images of different sizes and contents up to a depth, for every filter kind, integer and floating images, including refused calls in between",
  "Tests call each filter once or on one size.",
  [S+"threshold_block_filters.h", S+"binary_ops.h"],
  [("statistics storage reshaped per call", S+"threshold_block_filters.h process"), ("work images reshaped per call", S+"binary_ops.h LocalMeanBinaryFilter")],
  ["output after each call of a history"])

p("C32", "Java callers get the same results as the original Java library",
  "Every operation that is replaced by native code gives, through the Java classes, the result the original Java library gives, up to floating point precision. Initialising the replacement overrides exactly the supported functions and leaves all others to Java.",
  ["inputs", "configurations"], "all inputs of all overridden Java operations",
  "The Java tests need the BoofCV jars and are not part of the build here.",
  ["boofcpp-jni/src/main/java/org/boofcpp/BoofCPP.java", "boofcpp-jni/src/main/java/org/boofcpp/NativeBase.java"],
  [("override registration", "boofcpp-jni/src/main/java/org/boofcpp/BoofCPP.java")],
  ["results of the Java API"])

p("C33", "Small value types: distances and shape checks are exact",
  "The squared distance between two points is the sum of the squared coordinate differences, symmetric and zero exactly for equal points, for every supported coordinate type as long as the result fits. The shape checks for two and three images accept exactly the combinations with equal widths and equal heights, wherever the images live and whatever their strides.",
  ["inputs"], "all pairs of points over boundary alphabets and type ranges; all shape combinations up to a bound",
  "Tests check single values.",
  [S+"geometry_types.h", S+"sanity_checks.cpp"],
  [("difference in a signed type", S+"geometry_types.h"), ("comparisons", S+"sanity_checks.cpp")],
  ["returned values and raised errors"])

p("C34", "Calls keep no memory: results depend only on the arguments",
  "The outcome of any library call (results, refusal, images written) depends only on its arguments and, for methods, on the documented state of its object: never on which other calls, with which settings and images, the process made before. Repeating a call with the same arguments repeats its outcome bit by bit.",
  ["histories", "programs"], "every ordered pair of operations of the library with several settings each, on equal and on different images, in one process, against each call alone in a new process",
  "Tests run each function in one fixed order and never compare with a fresh process.",
  [S+"convolve.h", S+"image_blur.h", S+"convolve_kernels.h", S+"binary_ops.cpp", S+"binary_ops.h", S+"threshold_block_filters.h", S+"contour.cpp", S+"image_statistics.h", S+"image_misc_ops.h"],
  [("no state outside the objects handed over", S+"all operations")],
  ["results of every call of every pair"])

JJ = "boofcpp-jni/src/main/java/org/boofcpp/"
p("C35", "The Java classes hand every call to the library with its arguments in place",
  "After BoofCPP.initialize(), exactly the operations the library has are overridden. Every call of an overridden operation from Java gives what the library gives for the same arguments, each argument in its place: thresholds, mean and Gaussian blur (radius 0 or less: chosen from sigma), convolution with the border the Java border object stands for, normalised convolution, and the contour finder with its settings, label image, blobs and loaded or overwritten contours. Outputs of another shape are reshaped (normalised convolution excepted); sub-images stay in place; inputs and kernels are not changed. Image types, bands and borders that the library does not have end in an ordinary Java exception and change no pixels. Garbage collecting one object does not disturb another one.",
  ["inputs", "configurations", "histories"], "all settings of each operation x memory layouts of Java images x output shapes; all 3x3 binary images and blobs with contours across storage blocks; unsupported types; calls on several objects, also after garbage collection",
  "No test runs Java here, and the Java tests of the repository need jars that the build does not fetch; they sample a few images.",
  [JJ+"BoofCPP.java", JJ+"NativeBase.java", JJ+"convolve/NativeConvolveImage.java", JJ+"convolve/NativeImageBlurOps.java", JJ+"convolve/NativeImageConvolveNormalized.java", JJ+"contour/NativeChang2004.java", JJ+"threshold/NativeBlockOtsu.java", JJ+"threshold/NativeBlockMinMax.java", JJ+"threshold/NativeThresholdBase.java", J+"NativeImageBlurOps.cpp", J+"NativeChang2004.cpp"],
  [("override registration", JJ+"BoofCPP.java initialize"), ("image type to native type", JJ+"NativeBase.java setImageType"), ("border object to border code", JJ+"convolve/NativeConvolveImage.java borderToType"), ("contour transfer", JJ+"contour/NativeChang2004.java")],
  ["state of the Java images, kernels and contour storage after each call; exceptions; death of the Java machine"])

p("C36", "Java filters may be called from several threads at once",
  "The blur and convolution objects that BoofCPP.initialize() installs are shared by all threads of a Java program, and its factories make threshold filters and contour finders which each belong to one thread. When two threads make such calls at the same time on separate images, with equal or different operations and image types, then under every schedule each call gives what it gives alone: the same pixels, labels and contours, or the same refusal.",
  ["schedules", "programs"], "all pairs of operations and image types (filters, threshold filters, contour finders) x all schedules of their steps with a bounded number of preemptions",
  "Tests of the bridge are single threaded.",
  [JJ+"convolve/NativeConvolveImage.java", JJ+"convolve/NativeImageBlurOps.java", JJ+"convolve/NativeImageConvolveNormalized.java", JJ+"NativeBase.java", JJ+"BoofCPP.java"],
  [("no state shared between calls", JJ+"convolve/NativeImageBlurOps.java")],
  ["results of both calls in every explored schedule"])

p("C37", "The native library is loaded from the first place that has a usable one",
  "When the Java entry class BoofCPP is first used, it loads exactly one native library: the first usable one among java.library.path, build/boofcpp-jni, ../build/boofcpp-jni, and the folders /, /arm64-v8a and /armeabi-v7a of the class path (in each but the first place the names .so, .dll, .dylib in this order). Files that the machine cannot use (built for another processor, empty, damaged, refusing to load) in earlier or later places do not prevent this and cause no error. If no place has a usable library, or no temporary file can be made to unpack one, the class is still usable and only its native calls fail. No unpacked copy is left in the temporary directory.",
  ["configurations", "inputs"], "all combinations of absent, usable and unusable library files in all places and under all names; temporary directory present or not; entry calls in any order",
  "The Java tests run with one library in one place; every other combination of files occurs only on users' machines.",
  [JJ+"BoofCPP.java", "boofcpp-jni/src/main/java/cz/adamh/utils/NativeUtils.java"],
  [("chain of places", JJ+"BoofCPP.java static initialiser"), ("unpacking from the jar", "boofcpp-jni/src/main/java/cz/adamh/utils/NativeUtils.java _loadLibraryFromJar"), ("file names per system", "boofcpp-jni/src/main/java/cz/adamh/utils/NativeUtils.java getFullNames")],
  ["which library was loaded; exceptions; content of the temporary directory"])

p("C38", "Native calls keep few references to Java objects",
  "However large the images and however many blobs, holes, contours and points there are, no call through the Java bridge holds more than 512 local references to Java objects at any moment (the table of a phone's Java machine has room for no more), and repeating calls does not make the number of global references grow.",
  ["inputs", "histories", "configurations"], "all bridge entry points x settings, repeated; images with every combination of few and many blobs, holes, single pixels and blocks of points",
  "A desktop machine has no such limit; reaching it on a phone needs a large noisy image.",
  [J+"JNIBoofCPP.cpp", J+"NativeChang2004.cpp"],
  [("one block array per storage block", J+"JNIBoofCPP.cpp copy_into_java"), ("one set object per contour", J+"JNIBoofCPP.cpp copy_into_java"), ("array of a grown index list", J+"JNIBoofCPP.cpp WrapJGrowQueue_I32::resize")],
  ["references held by the simulated Java machine during and after each call"])

p("C39", "Calls that run out of memory say so and leave every object valid",
  "When any memory allocation inside any call of the library fails, alone or together with all later ones, the call ends with std::bad_alloc (or does its work without that memory). It releases everything it took itself, changes no input and no object it has nothing to do with, and leaves all objects valid: an image, array, kernel or set never claims more elements than it has memory for, all bands of a planar image keep one shape, everything can be read, reshaped, assigned and destroyed, and later calls give the same results as on new objects. An image or kernel shape whose number of values does not fit the 32-bit length is refused with an error instead of giving an object without memory for its elements.",
  ["fault_sequences", "histories", "configurations"], "every allocation of every call (object operations after every history of one or two others, every image operation, filter and contour finder calls) fails once, alone and with all later ones; every pair of sizes of a list up to 2^32-1",
  "No test makes an allocation fail, and the sizes that overflow cannot be allocated in a test.",
  [S+"image_types.h", S+"base_types.h", S+"packed_sets.h", S+"convolve_kernels.h", S+"contour.cpp", S+"threshold_block_filters.h", S+"image_blur.h"],
  [("growing an image", S+"image_types.h Gray::reshape, Interleaved::reshape, Planar::setNumberOfBands"), ("growing an array", S+"base_types.h GrowArray::resize, grow_array"), ("adding a block", S+"packed_sets.h _add_element")],
  ["kind of error; contents of all objects; allocation balance; later results"])

p("C40", "Printed images, kernels and differences show every value in its place",
  "Printing a gray image writes its shape, then one line per row with every pixel of the row in order (integers in hexadecimal, floating point values with four decimals), for plain images and views and every pixel type. Printing a kernel writes every weight in order, for 2-d kernels row by row after origin and width. The difference map of two images of one shape has one line per row and an X exactly where the pixels differ by more than the tolerance (0 for integers and the square root of the machine epsilon for floating point when none is given); images of different shapes are refused. Nothing is changed by printing.",
  ["inputs", "configurations"], "all small images over boundary alphabets, all small shapes and layouts, every place of a difference, tolerances around it",
  "No test looks at what is printed.",
  [S+"print_structures.h"],
  [("one mark per pixel", S+"print_structures.h print_difference"), ("one value per pixel", S+"print_structures.h print, print_kernel")],
  ["text written to the standard output"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
