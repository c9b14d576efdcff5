"""What each check enumerates, in words: used for MANIFEST.json, the evidence files and DESIGN.md.
D(technique, quick bounds, what thorough adds, oracle, why tests cannot settle it)"""
T = {}
def D(i, technique, quick, thorough, oracle, reach): T[i] = dict(technique=technique, quick=quick, thorough=thorough, oracle=oracle, reach=reach)

ENUM = 'stateless model checking of the real code: exhaustive enumeration of a bounded input space, every execution compared with a reference model'
HIST = 'explicit-state exploration of operation histories on the real objects in lock-step with a reference model'

D('C01', ENUM,
  'all binary images of every shape of up to 12 pixels in all 25 combinations of memory layouts of image and label image, both rules; all binary images of 13 more shapes up to 20 pixels (5x4, 4x5, 6x3, 2x8, ...); all left-right/top-bottom symmetric 7x7, 8x7, 7x8 images; 21+ structured patterns up to 700x700 (nested rings, combs, spirals, many blobs and holes); textures of 4 densities on the shape ladder (below); more than 2^16 blobs, holes and contour points',
  'all images of shapes up to 25 pixels (5x5, 6x4), symmetric 9x7, 7x9, 8x9',
  'union-find over neighbour pairs plus raster-order numbering, written without contour tracing',
  'labels are decided by which contour trace marks which pixel first; a wrong corner case needs a particular 3x3-5x5 pattern next to a particular border, which the exhaustive space contains and a handful of images does not')
D('C02', ENUM, 'same space as C01 (same executions, other oracle)', 'same as C01',
  'per blob: number of holes by flood fill of the dual connectivity, the exact set of border pixels per region, and the exact clockwise walk from the stated start',
  'contour walks depend on the whole neighbourhood history; every small topology (holes touching the frame of the blob, holes sharing pixels, one-pixel necks) occurs in the space')
D('C03', ENUM, 'all images of the small shapes and all symmetric 7x7 and 6x7 images, each with every pair of minimum and maximum on both sides of each contour length that occurs and both states of the switch; all structured patterns with limits around the storage block size (2000) and around each contour length',
  'larger shapes, all pairs of limits',
  'the unlimited result of the reference, with sizes compared to the limits',
  'a dropped contour must be taken back from the packed storage, across storage blocks; the fault only shows for one contour length against one limit with a neighbour behind it')
D('C04', HIST, 'every ordered pair of the 512 3x3 images times rules; every ordered pair of images of two different shapes up to 16 pixels together; histories of 3 images from a menu (large, small, empty, more blobs, longer contours) with rule, limit and layout changes in between and arbitrary earlier label contents',
  'pairs up to 18 pixels together, histories of 4', 'a new finder, and the C01/C02 reference',
  'leftovers (border pixels, marks, label counts, recycled storage) need a particular predecessor; tests use one finder per image')
D('C05', HIST, 'all sequences of 8 (ints) or 7 (points) operations (start a set, append, remove the last, overwrite each set, clear, refused reads and overwrites) for block lengths 1..5 and starting contents 0..6 elements in 4 arrangements, state-merged; sequences of 3 around 1, 2 and 3 blocks of 64, 1000, 2000',
  'sequences of 10; of 4 for large blocks', 'a vector of vectors; allocation counting for leaks and double release',
  'block-boundary arithmetic fails only for one alignment of set start, set length and block length')
D('C06', HIST, 'all histories of up to 3 operations (construct in every way, resize, grow, fill, assign, copy, move, write, wrap, refused access) on two arrays and a wrapper, 6 element types', 'depth 4 for int', 'std::vector; allocation tracking and ASan-free canaries around wrapped memory',
  'growth, default values and ownership interact: a fault needs e.g. shrink-grow after a copy')
D('C07', HIST, 'all histories of up to 3 operations (11 kinds, with every sub-image rectangle of the menu) on a pool of 3 images that may be owners, wrappers or views of one another, 5 element types, from 3 starting pools; all small tables incl. ragged; all shapes of the ladder with all pairs of layouts, views of views, shrinking and growing', 'depth 4 for 2 types, shapes up to 3 M pixels', 'plain arrays with explicit ownership; allocation tracking; canaries around all memory',
  'aliasing and ownership bugs need two or three steps in a particular order')
D('C08', HIST, 'as C07 for interleaved (1..33 bands) and planar images (setNumberOfBands, band reshapes, copies, setTo between every pair of shapes)', 'depth 4-5', 'plain arrays per band',
  'as C07; band offsets and element sizes multiply the cases')
D('C09', HIST + '; exhaustive grid for the generators', 'all histories of up to 3 operations on two kernels (1-d, 2-d, 4 element types); all weight vectors over a 6-value boundary alphabet up to length 4 and 2x2; generators for every width -1..41 (1-d) and -1..11 (2-d) times 18 sigmas incl. undefined and derived ones; every ordered pair of 84 generator calls; table and mean kernels of every width up to 70; refusals of every width/origin pair', 'depth 4, length 5, widths up to 65', 'a plain vector; long-double Gaussian',
  'statistics of negative weights, width/sigma derivation and origin updates each fail only in a corner')
D('C10', ENUM, 'every image shape up to 6x6 in every layout, every policy, 6 pixel types, every coordinate up to 4 image sizes (plus 3) away on both sides, plus far ones up to the integer limits; one border object over every ordered pair of 6 images; the shape ladder with all coordinates near 0, half, 1, 2, 3 sizes; unsupported types',
  'shapes up to 9x9', 'the mathematical definition of clamp, mirror, modulo', 'only coordinates more than one image size outside show the fold-back faults (two such defects were repaired)')
D('C11', ENUM, 'every shape up to 6x6, every kernel width up to 9 (5 in 2-d), every origin, every policy, 9 pixel type pairs, the optimised inner, naive inner, border and complete code, with and without divisor; one-tap kernels tap by tap; layouts; long shapes with widths up to 23; the shape ladder', 'shapes up to 7x7, widths up to 11',
  'the sum of the definition in exact integers or in long double with a rounding bound', 'unrolled code per width 3,5,7,9,11 and the generic code, three border strips, each wrong only for one width/origin/shape relation')
D('C12', ENUM, 'every shape up to 6x6, every kernel width up to 11 and origin, several kinds of weights (normalised, nearly normalised, growing, float), 6 pixel types, inner, edge, naive and separable code, layouts; long shapes with widths up to 27; the shape ladder; shape refusals', 'shapes up to 8x8',
  'definition in exact integers or long double', 'the kernel is re-weighted per border pixel; the branch inside/outside and the larger-than-image path only differ in corner geometry')
D('C13', ENUM, 'every shape up to 9x9, every radius up to 7, 6 pixel types, horizontal, vertical, both; long shapes with radii up to 24; every ordered pair of settings in a row; images of up to 2.2 million columns or rows; the shape ladder', 'shapes up to 11x11, radii up to 48', 'definition in exact integers or long double',
  'sliding windows with three zones per row; the choice between the two implementations depends on the shape')
D('C14', ENUM, 'every shape up to 6x6 with every width up to 9 and several sigmas, given and derived, 6 pixel types; long shapes; flips; every ordered pair of settings in a row; large shapes', 'shapes up to 8x8', 'long-double Gaussian, then the definition of C12 twice',
  'derived widths and caching of kernels depend on earlier calls and on the width/sigma combination')
D('C15', ENUM, 'all small images over a boundary alphabet times every threshold of the alphabet and direction, 6 pixel types, operation and filter object; every shape 0..8 x 0..8 in every layout pair; the automatic filter on all small images over value ranges starting at positive, zero and negative values, and on 640x410 images with every division into groups of 4 sizes', 'shapes to 19x19',
  'the comparison itself; the Otsu reference of C16', 'range offset, narrow sums and direction interact')
D('C16', ENUM, 'every histogram up to length 6 with counts up to 3-5; histograms of length 16..1000 with up to 2-4 occupied bins at boundary places with counts up to 10^6; both variants, directions, 4 tunings, 5 scales; one object over every history of 3 histograms of different lengths', 'length 7, more counts, histories of 4',
  'maximum of the between-class variance in exact rational arithmetic; ties and floating point rounding are admitted as intervals', 'ties, empty bins and several peaks need particular histograms')
D('C17', ENUM, 'all small images over an alphabet, all lengths, scales, directions; every shape up to 7x7; histories of 3 images of different sizes incl. refused calls on one filter; the ladder', 'up to 12x12; histories of 4', 'definition of C13 and the comparison; pixels whose comparison hangs on rounding may go either way',
  'relative lengths depend on the image size, so stale state only shows on a second image')
D('C18', ENUM, 'every shape up to 9x9 and long ones, every requested length fixed and relative, every single changed pixel, with and without local blocks, three statistics, 3 pixel types: which output pixels react', 'up to 13x13', 'the block grid computed from the documentation; the set of deciding blocks per output pixel',
  'the remainder row/column and the clipped neighbourhood differ per shape/length pair')
D('C19', ENUM, 'all images up to 9 pixels over an alphabet with every block length; every shape up to 11x11 and long ones with every length, layouts; blocks of more than 2^17 pixels; histories of 3 images on one filter with settings changed and refused calls; the ladder', '16x16, histories of 4', 'exact block statistics; interval of admissible thresholds for floats', 'partial blocks, rounding and clamping only differ in particular pixels')
D('C20', ENUM, 'as C19 with spreads on both sides of the occurring ones and negative pixels', 'as C19', 'exact extremes per neighbourhood', 'a wrong extreme shows only if the extreme pixel is at one particular place (every place is tried)')
D('C21', ENUM, 'as C19 with tuning, variants', 'as C19', 'the Otsu reference on the union histogram', 'as C19')
D('C22', ENUM, 'every binary image up to 15 pixels of every shape; a single odd pixel at every place of every shape up to 7x7 in 25 layout pairs; every pair of images up to 6 pixels with every aliasing; refusals; the ladder', 'up to 20 pixels; pairs up to 8', 'set algebra on plain arrays', 'border rows/columns and aliasing are separate code paths')
D('C23', ENUM, 'all small images over boundary alphabets (incl. negative, extreme); the extreme pixel at every place of every shape up to 6x6; fills of every shape and border radius; random fills with every answer of the generator from a boundary alphabet; band averages; the ladder; 6 pixel types', 'up to 10x10 (14x14 fills)', 'plain arrays and exact sums; canaries',
  'views and negative values fail together with shape; a random generator is an environment whose answers are enumerated')
D('C24', ENUM, 'every operation of the library (list in lib/ops.h) on every combination of the 5 layouts of all its operands for every shape up to 6x6 and long ones, with two different earlier contents of outputs and work images; one in 31 combinations on the shape ladder', 'up to 10x10', 'the run on plain images; byte canaries around each view; bitwise comparison of inputs',
  'an operation that ignores offset or stride of one operand passes all tests on plain images')
D('C25', ENUM, 'full grid of lengths, fractions and totals around rounding and sign boundaries; objects whose fields change (3 steps)', '4 steps, denser grid', 'the documented formulas', 'rounding at .5 and the order of the checks')
D('C26', HIST, 'every illegal call of a list of about 65 at every position of histories of 3 calls on one pool of images, kernels, borders and filters, 2 pixel types', 'histories of 4', 'a fresh pool; byte comparison of everything an illegal call may not change; allocation tracking',
  'an exception half-way through leaves a state that only the next legal call exposes')
D('C27', 'exhaustive enumeration of Java calls on a simulated Java machine driving the real JNI code, outcomes compared with direct library calls', 'all native methods times settings, image types, array layouts (tight, offset, strided, long array) of input, output and work image, kernels and offsets, border codes, several shapes, in copying and pinning machines; several objects and images in between; repeated destroy', 'more shapes and settings', 'the C++ library called directly; array elements outside the rectangle unchanged',
  'start index/stride of Java sub-images and stale native settings are invisible to tests with plain images; the simulated machine is validated against a real one by C35')
D('C28', 'fault enumeration: every JNI call that may fail is made to fail, one after another and in pairs, on the simulated Java machine', 'every method and setting of a reduced C27 space; failure at each fallible JNI step, and a second failure at each later step; failure of each native memory allocation, alone and with all later ones; refused arguments; both machine kinds; a normal call afterwards', 'full second-failure space', 'the JNI rules checked by the machine (acquire/release balance, mode, critical sections, pending exceptions), allocation tracking',
  'cleanup after the n-th failing step is never executed in tests')
D('C29', HIST, 'every binary image of small shapes; every list of up to 3 blobs with 0,1,2,4,11 holes; contour lengths around the ends of 2000-point blocks; every history of 3 images and settings on two bridge objects, from Java containers of several earlier states', 'larger shapes, lists of 4, every length 1990..2006', 'a new library object; the Java containers read back',
  'container reuse, capacity growth and block boundaries only interact in histories')
D('C30', 'partial-order reduced exploration of two-thread schedules: per-operation access recording, one trace per pair without conflict, preemption-bounded schedules at conflicting accesses otherwise', 'all pairs of over 430 operations, 2 input configurations, every schedule with up to 2 preemptions at conflicting accesses (if there is any conflict)', '4 configurations, 3 preemptions', 'each operation alone in a fresh process',
  'a hidden static only disturbs another thread in a short window')
D('C31', HIST, 'every history of 3 calls on two objects over 13 images (sizes, contents, views, refused ones) for 36 filter settings, two pixel types', 'histories of 4', 'a newly created object', 'state kept between calls shows only for particular predecessors')
D('C33', ENUM, 'all byte coordinates on a grid, boundary alphabets of 8 coordinate types; every combination of shapes 0..3 of two and three images of every kind; shapes around 2^8, 2^16', 'denser grid', 'exact integers', 'narrow intermediate types')
D('C34', 'exhaustive enumeration of ordered pairs of calls in one process, each compared bit by bit with the call alone in a new process', 'every ordered pair of several hundred operation settings on 3 pairs of image configurations', 'every pair of configurations', 'the call alone in a fresh process', 'hidden caches keyed by too little need two calls with different settings')
D('C35', 'exhaustive enumeration of calls from the real Java classes in a real Java machine (-Xcheck:jni) with the real JNI library, outcomes compared with direct library calls', 'all thresholds settings, blur and convolution arguments times Java array layouts times output shapes; all 512 3x3 images times rule, switch and limits for the contour finder; patterns crossing point blocks; unsupported types; garbage collection of neighbours; the set of overrides', 'more shapes and settings', 'the C++ library called directly',
  'swapped arguments of equal type and wrong border codes pass with symmetric settings')
D('C36', 'stateless exploration of all schedules of two Java threads with a preemption bound, real Java classes and JNI library', 'every pair of 33 jobs (19 filter calls, 12 threshold filters, 2 contour finders); scheduling points at each call into the image classes, at each access to a non-final field of the Java bridge that is not the thread\'s own (the compiled classes are rewritten) and at each access to static data of the native library which both jobs use (the library is compiled with instrumented memory accesses); up to 2 preemptions', 'both orders of each pair, 3 preemptions', 'the call alone', 'state shared between calls (a field of a shared filter, static data of the library) is only damaged when two calls overlap')
D('C37', 'explicit-state exploration of the states of the file system, each executed in a real Java machine', 'every combination of absent, usable and unusable in the six places (729); in each of the five places with system-specific names every combination of the three names; four kinds of unusable files against each later or earlier usable place, with and without a directory for temporary files, two orders of the entry calls', 'all four kinds of unusable files in the 729 combinations', 'the first usable file in the documented order, and an empty temporary directory afterwards', 'the fall-back chain is taken only on machines where the first place fails')
D('C38', 'explicit-state exploration of calls on a simulated Java machine that counts references', 'all entry points x settings x legal and illegal arguments, each sequence of calls 30 times; images with up to 600 blobs with holes (three orders of their numbers), 5000 single pixels and 520 blocks of points, in all combinations, with and without internal contours and limits of the contour length, copying and pinning machine', 'rounds 120; up to 1100 blocks of points at every count around 256 and 512', 'at most 512 local references at any moment of a call, no growth of the global references after ten rounds', 'a machine with a small table is met on phones only, and only with large images')
D('C39', 'fault enumeration: every memory allocation of every call is made to fail, one after another', 'every step of a list of about 75 on images, arrays, kernels and sets after every other one, every operation of the library (several hundred settings) on plain images and views, every legal call of the pool of C26 after every other one, with its outputs and work images too small; each allocation of the call fails, alone and together with all later ones; new and reshaped images and kernels of every pair of 21 sizes up to 2^32-1 and 10 numbers of bands', 'after every pair of steps and calls; more shapes', 'objects are asked for everything they hold (under a memory checker), then all of them must give what new ones give; allocation balance; inputs and bystanders bit by bit', 'code after a failed allocation never runs in tests; pixel counts beyond 32 bits cannot be tested by allocating them')
D('C40', ENUM, 'all images of up to 3 pixels over boundary alphabets, every shape up to 6x6 in every layout, 6 pixel types; differences of every shape up to 4x4 in all pairs of layouts with each place differing by 7 amounts against 4 tolerances, 5 pixel types; kernels of every width and origin up to 9 (5 in 2-d); refusals', 'up to 8x8 and 6x6, 4 pixels', 'the text built value by value', 'the tests look at no output')
