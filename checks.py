"""What each property's check is: the command under mc/cmd, the evidence level,
the deciding method, and what assurance it gives. tools/mkmanifest.py writes
MANIFEST.json from this table."""
E, M, F = "exploration", "model_checking", "fault_enumeration"

def c(cmd, level, technique, note, **kw):
    return dict(cmd=cmd, level=level, technique=technique, note=note, **kw)

CHECKS = {
 "C21": c("sortmc", E, "bounded-exhaustive enumeration of input order types on the real code",
    "Every weak ordering of up to 7 (quick) or 8 (thorough) elements, and every run-structured and one-swap array at lengths around the small-slice and recursion thresholds, is sorted by the real code and compared with a reference sort. Assumes behaviour depends on values only through comparisons; NaN is outside the alphabet; the pivot rule is explored only through the inputs."),
 "C22": c("sortmc", E, "bounded-exhaustive enumeration of input order types x ranks on the real code",
    "Every weak ordering of up to 6/7 elements with every rank, median and 17 percentiles, plus run-structured and one-swap arrays at larger lengths, against ranks of a reference sort. NaN is outside the alphabet."),
 "C08": c("rendermc", E, "bounded-exhaustive enumeration of sheets, grids and regions rendered by the real code", 
    "Every combination of the sheet, size, pixel, particle, worker, subsampling and placement alphabets is rendered; whole-box means must be 1 to 1e-7 and regions must hold exactly the mass of the files inside them. Segments spanning half the box or more are outside the domain; random sample positions are fixed by a frozen clock, so other sample positions are covered only through the deposit check (C09).", shards=8),
 "C09": c("rendermc", E, "bounded-exhaustive enumeration of (domain, segment, point) geometries against a pixel oracle on the real code",
    "All one-axis geometries with partner axes that select each deposit strategy; two- and three-axis interactions only through the partners."),
 "C10": c("rendermc", E, "bounded-exhaustive enumeration of box requests on the real code",
    "Requests on a quarter-pixel lattice for 1 to 11 pixels; inexact widths with a tolerance of 1e-9."),
 "C11": c("rendermc", M, "stateless model checking of the real workers: preemption-bounded enumeration of schedules under a controlled scheduler, plus a race-detector pass",
    "The real render.Manager goroutines run one at a time between deposits, every schedule within the preemption and deviation bounds is executed and the grid compared with the recorded samples. Interleavings inside one deposit are not scheduled; the race detector pass covers them only by observing unsynchronised accesses.", shards=8, race="racemc"),
 "C12": c("rendermc", E, "bounded-exhaustive enumeration of block pairs and of regions over one-pixel files on the real code",
    "All pairs of blocks for up to 6 (9) pixels per axis; culling inside the renderer is decided on one-pixel files (exact grids) and on cubes straddling a face (half the mass within twenty deviations under a frozen clock).", shards=8),
 "C36": c("rendermc", M, "explicit enumeration of region lists and manager histories replayed on the real code",
    "All ordered lists of up to three regions of the alphabet and all render/subsample histories to the bound; grids are exactly predictable because every file lies in one pixel.", shards=8),
 "C37": c("rendermc", E, "bounded-exhaustive enumeration of sheets, subsamplings and regions on the real code",
    "Every sample of the affine sheets is decoded back to its cube and velocity; pixels of the step sheets are bounded by the cubes inside them and the cubes that reach them, so mass moved within one mixed cube is not judged there. Segments of up to 8 (16) cubes.", shards=8),
 "C13": c("geommc", E, "bounded-exhaustive enumeration of cubes, steps and orientations on the real code",
    "All cubes, steps and orientations for grids of up to 9 (18) nodes; tiling is decided by exact integer geometry on a generic lattice of 125 points per cube. The index rule is the same arithmetic for wider grids, which is assumed, not explored."),
 "C14": c("geommc", M, "bounded-exhaustive enumeration of corner sets and query points, and of call histories on one reused object, on the real code",
    "Corners from small lattices in three frames; points within 0.2 % of a face are not judged; equidistribution is decided by the moments up to third order of a folded lattice."),
 "C15": c("geommc", E, "bounded-exhaustive enumeration of operand pairs and aliasings on the real code",
    "Alphabet of box faces, half widths and their float neighbours for six widths; wrapping is judged for operands within one period of the box."),
 "C16": c("geommc", M, "bounded-exhaustive enumeration of grids, stencils and basis fields, and of call histories sharing options, on the real code",
    "The operators are linear in the field, so delta fields decide them up to float32 rounding, for the grid shapes explored (up to 12 per axis)."),
 "C17": c("geommc", M, "explicit enumeration of operation histories on each buffer kind against an array model",
    "All histories of up to 4 (5) steps from eight operations on 5^3 and 6^3 windows; deposits are written through the exported views, the renderer's own deposits are C09's."),
 "C03": c("iomc", E, "bounded-exhaustive enumeration of Gadget-2 files against an independent writer of the format, read by the real code",
    "Every byte order, ID width, float width and particle count of the alphabet with each box-edge coordinate in every particle and component; sequences of up to three (four) reads into shared buffers. Files are built by a separate writer of the format."),
 "C04": c("iomc", M, "bounded-exhaustive enumeration of sheet files and explicit enumeration of write/read histories on the real code",
    "All sheets of width 2 to 7 in both byte orders, and all histories of writes and reads over two paths to the bound, against the documented byte layout. Descriptor leaks are part of the state."),
 "C05": c("iomc", F, "exhaustive fault enumeration: cuts at every byte, writers failing at every byte, size limits on outputs, unusable paths",
    "Library readers and writers meet every cut and every failing byte of small files; the built program is run on every block boundary and every fourth other byte (thorough: every byte) of its inputs, and with outputs limited to the same sizes. Larger files are assumed to behave as small ones.", cli=True),
 "C06": c("iomc", M, "bounded-exhaustive enumeration of grids and explicit enumeration of write/read histories on the real code",
    "All quantities, projections and spans of the alphabet against the documented layout, and all histories over two paths to the bound."),
 "C07": c("iomc", E, "bounded-exhaustive enumeration of files written by the real Go writer and read by the real Python readers",
    "All quantities, projections, spans and sheet widths of the alphabet; runs under the Python 3 that is installed (Python 2 is not)."),
 "C18": c("histmc", M, "explicit enumeration of manager histories and bounded-exhaustive enumeration of regions, fields, bins and worker counts on the real code, plus a race-detector pass",
    "Exact on files collapsed to a point or held in one pixel; sheets that fill the box have two-sided bounds, because samples are random. The interleaving of the workers is not controlled: they share nothing but their result, which the race detector pass observes.", race="histmc"),
 "C01": c("iomc", E, "bounded-exhaustive enumeration of snapshots (size, cells, file split, particle order, widths, units) converted by the built program",
    "Snapshots of up to 6^3 (9^3) particles in every cell count, five splits and five orders, every width/unit combination on one size, and larger ones around the buffer capacity and two-digit cell indices; the particle buffer itself meets every permutation of up to 6 (7) particles, every cut and every capacity. Particle orders of whole snapshots are five structured ones, not all permutations.", cli=True),
 "C02": c("iomc", E, "bounded-exhaustive enumeration of deformed sheets and velocity fields converted by the built program, headers against exact interval arithmetic",
    "Every combination of six sheet shapes, shifts across the faces, reversed and collapsed axes and velocity fields of the alphabet; boxes must be tight to single-precision rounding. Segments spanning half the box or more are outside the domain.", cli=True),
 "C19": c("iomc", E, "bounded-exhaustive enumeration of configuration values, keys, boxes and balls on the real code",
    "Every field meets the boundary alphabet (integers from -70 to 1030, NaN and infinities for lengths), one or two fields at a time; boxes and balls on lattices for three simulation widths. Spellings differing in case are not judged."),
 "C20": c("iomc", E, "bounded-exhaustive enumeration of command lines and configurations run by the built program",
    "All subsets of the mode flags, all single edits of the configurations, the printed examples with each option on its own and all together, and every combination of the setting, quantity, projection, subsampling and region-list alphabets; the particles used are derived from the density values, which are whole numbers of samples.", cli=True),
 "C38": c("iomc", E, "bounded-exhaustive enumeration of snapshots converted, rendered and histogrammed by the built program",
    "Every combination of the pattern, shift, cell, split, order, layout, unit, subsampling, thread and region alphabets goes through the three modes, and every grid value and bin is predicted from the snapshot alone, because every cube lies in one pixel. Segments spanning half the box or more are outside the domain.", cli=True),
 "C23": c("mathmc", E, "bounded-exhaustive enumeration of coordinate tables, unit tables and queries on the real code",
    "Linear interpolation is linear in the values, so unit tables decide all values for the tables explored: nine kinds of axis with 2 to 7 nodes in one dimension, 2 to 3 (4) in two and 2 to 4 (5) in three, queries at every node and inside every cell. Queries one ulp outside the range are not judged."),
 "C24": c("mathmc", E, "bounded-exhaustive enumeration of knot patterns, unit data, queries and re-initialisation sequences on the real code",
          "oracle is an independent natural spline solved densely on the sorted table; the third derivative at a knot, where it jumps, is not judged"),
 "C25": c("mathmc", M, "explicit enumeration of every query history of the real interpolators up to a bound, against a stateless model (nested one-dimensional splines)",
          "histories of 4 (5) queries over 10 points in two dimensions and 3 (4) over 18 in three, out-of-range queries included; static answers for unit tables on all pairs (a third of the triples) of nine kinds of axis. The Ref methods, which are not implemented, are not judged"),
 "C26": c("mathmc", E, "bounded-exhaustive enumeration of kernels, unit signals, boundary rules and sequences of convolutions on the real code",
          "convolution is linear, so unit signals decide all signals of the lengths explored (kernel width up to twice that and 4 (12) more); signals shorter than the kernel are outside the domain. Taps are worked out independently"),
 "C27": c("mathmc", E, "bounded-exhaustive enumeration of kernel kinds, widths, orders and build sequences on the real code",
          "odd widths to 13 (25), orders to 6 (7): beyond that double precision leaves too little of the normal equations; oracle is a fit by orthogonal polynomials"),
 "C28": c("mathmc", E, "bounded-exhaustive enumeration of integer matrices, right-hand sides, shapes and factorisation sequences on the real code",
          "all 2x2 matrices over 7 entries, 3x3 over 3 (4), 4x4 over 2 and every row order of four families to 5x5 (6x6), in both precisions; exact integer determinants, solutions judged by their residual. Solving singular systems is not judged"),
 "C29": c("mathmc", M, "explicit enumeration of every history of draws on two real generators up to a bound, against independent recurrences",
          "histories of 4 (5) operations, 2 (3) where the slow-starting lagged generator takes part; ranges for the seeds whose first draws are the extreme ones. Integer ranges of 2^53 values and more and reversed bounds are not judged"),
 "C30": c("mathmc", M, "explicit enumeration of every history of draws and restarts on two real sequences up to a bound, and of every point up to 2^20 (thorough: the whole sequence), against the published construction",
          "histories of 5 (7) operations, points to 2^13 (2^18) in each of the six dimensions; sequences drawn in changing dimensions are not judged"),
 "C31": c("mathmc", E, "bounded-exhaustive enumeration of spacing patterns, orders and monomials on the real code",
          "all patterns of three spacings to 7 (9) points in both directions, uniform tables to 101 points; differentiation is linear, so monomials decide all polynomials"),
 "C32": c("mathmc", E, "bounded-exhaustive enumeration of a parameter lattice on the real code",
          "6 x 8 x 4 x 11 parameter combinations; universes that are not flat are judged by the relations as documented (curvature left out)"),
 "C33": c("halomc", E, "bounded-exhaustive enumeration of definitions, cosmologies, masses and names on the real code",
          "five definitions, 108 (1000) cosmologies, masses over 23 decades, names of up to five (six) symbols of eleven and every single edit of a known one. Names differing in case are not judged"),
 "C34": c("halomc", M, "bounded-exhaustive enumeration of objects, spheres and search histories on the real code, against all pairs",
          "lattices in an eight-unit box, one to sixteen cells a side; up to three (four) objects and every sequence of three (four) searches on one finder; pairs closer to touching than rounding are not judged unless exact. Grids are filled once", shards=4),
 "C35": c("halomc", E, "bounded-exhaustive enumeration of tables, column selections, mass orderings and every cut of the binary file on the real code",
          "up to 5 (8) rows with every pair of columns, all weak orderings of 5 (6) masses; the text reader is a stand-in for the table package, which is not installed"),
}
