#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one entry per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": None,
        **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {})}})

p("C01", "Snapshot conversion keeps every particle once, in its Lagrangian slot",
  "Converting a Gadget-2 snapshot - split over any number of files, with its particles in any order, 32- or 64-bit IDs, single- or double-precision vectors and any unit factors - writes one sheet file per Lagrangian cell, in which the node at Lagrangian grid position (x, y, z) holds exactly the position and velocity of the particle with ID 1 + x + y*N + z*N^2, the layer shared with the next cell (periodically) included. Every particle of the snapshot is in some file and no file is overwritten by another, for every number of cells that divides N; a number of cells that does not divide N, or a snapshot that lacks some of its files, is refused instead of silently dropping particles. Iterated conversion does this for every snapshot of its range, up to the first missing one when no end is given. Positions are in [0, box width) times the position unit, and every file's header carries the snapshot's cosmology, particle counts, particle mass and box width in the converted units.",
  ["inputs", "configurations", "histories"],
  "every split of the particle list over files, every particle order up to a bound, every number of cells, ID width, float width and unit factor of the alphabet",
  "No test runs the converter; the guarantee is over every particle order, file split and cell count, and loss of a particle is silent.",
  ["render/main/main.go", "render/io/io.go", "render/io/buffer.go"],
  [("createGrids scatters particles by ID", "render/main/main.go"), ("copyToSegment / writeGrids", "render/main/main.go"), ("ParticleBuffer flush", "render/io/buffer.go")],
  ["files written by `main -ConvertSnapshot`"])

p("C02", "Sheet headers bound their segment's positions and velocities exactly",
  "In every sheet file written by conversion, each node position lies inside the periodic box given by the header's origin and width, and each node velocity inside the header's velocity box. Both boxes are tight up to single-precision rounding: for segments spanning less than half the simulation box each face of the position box touches a node of that segment, and the velocity box is always the per-component range of that segment's own nodes.",
  ["inputs", "configurations"],
  "every placement of a segment's particles on a small lattice including ones straddling the periodic boundary, every cell of every conversion",
  "The renderer culls files by these boxes, so a box that is too small silently loses mass; tests never convert anything.",
  ["render/main/main.go", "render/io/io.go"],
  [("incremental periodic bounding box", "render/main/main.go: boundingBox.Add"), ("velocity bounds", "render/main/main.go: copyToSegment")],
  ["headers of files written by `main -ConvertSnapshot`"])

p("C03", "Gadget snapshot files are decoded exactly as their bytes say",
  "Reading a Gadget-2 file in either byte order returns the header's counts, redshift, cosmology, box width and particle mass, and for every particle the ID (32 or 64 bit), the position (32- or 64-bit floats) wrapped into [0, box width), and the velocity multiplied by the square root of the scale factor. Each particle keeps its own position, velocity and ID, and reading is independent of what was read before.",
  ["inputs", "configurations"],
  "every combination of byte order, ID width, position/velocity float width and particle count of the alphabet, positions at, beyond and within one ulp of the box faces",
  "No test reads a Gadget file; byte-order, width and wrap errors only show on particular encodings.",
  ["render/io/io.go"],
  [("byte-order aware block readers", "render/io/io.go: readVecAsByte, readVec64AsByte, readInt64AsByte, readInt32AsByte"), ("WrapDistance", "render/io/io.go")],
  ["return values of the exported readers"])

p("C04", "Sheet files read back exactly what was written, in either byte order",
  "A sheet file that was written can be read back to an identical header, positions and velocities, whatever was at that path before and whatever else was read or written in between, and its bytes follow the documented layout (endianness flag, header size, header, positions, velocities). Files of the opposite byte order with the same content read back to the same values, and the buffers handed to the writer are left unchanged.",
  ["histories", "inputs"],
  "every sequence of writes and reads up to a bound over two paths and several sheet contents and both byte orders",
  "No test writes a sheet; overwriting, stale tails and shared state only show over histories.",
  ["render/io/io.go"],
  [("WriteSheet / ReadSheet*At", "render/io/io.go")],
  ["bytes on disk and exported reader results"])

p("C05", "Truncated input and failed writes are reported, never taken as data",
  "Reading a sheet, Gadget or grid file cut short at any byte ends in an error (returned, panicked or fatal) for any block the cut removes, never in silently wrong data, while blocks wholly present may still be read. Rendering or converting from such files ends with an error and a non-zero exit, and an output that cannot be created or fully written makes the program exit non-zero instead of reporting success.",
  ["crash_points", "fault_sequences"],
  "every truncation length of every file kind, every byte position of a failing writer, missing/unwritable/full output targets",
  "Tests have no fault injection; a short read that is treated as success yields zeros that look like particles.",
  ["render/io/io.go", "render/io/output.go", "render/main/main.go", "render/render.go"],
  [("error returns of readers and writers", "render/io/io.go, render/io/output.go"), ("loadFile propagates errors", "render/render.go")],
  ["error values, exit status"])

p("C06", "A rendered grid file carries exactly the grid and how it was made",
  "Writing a finished buffer of any quantity produces a header followed by exactly the buffer's finalized values as 32-bit floats (one block, or three consecutive component blocks for vector quantities), with the header's size, endianness/version, quantity, scalar-or-vector flag, cosmology, render settings and location fields equal to what was passed in. The projection depth it suggests is positive and in proportion to the pixels per sample (pixels³ · subsampling³ / particles, rounded up). Reading the header back returns those fields, and reading a scalar grid back returns the written values in order, for three-dimensional and projected grids alike; vector grids are refused by the scalar reader.",
  ["inputs", "histories", "configurations"],
  "every quantity, small span (including projections along each axis), and write/read history up to a bound",
  "No test writes or reads a grid file.",
  ["render/io/output.go", "render/density/buffer.go"],
  [("WriteBuffer / ReadGridHeader / ReadGrid", "render/io/output.go")],
  ["bytes written", "reader results"])

p("C07", "The Python readers return what the Go writers wrote",
  "For every grid file the program writes - any quantity, any span, projected or not, version and byte-order flag included - the shipped Python readers parse it without error and return the same header fields and the same values. The array they return is indexed as documented, so element (z, y, x) of a 3D array (or the documented order of a projection) is the pixel at that position. The sheet reader returns every header field under its own name, and the positions and velocities of the file in (z, y, x) order. Run as a script, gotetra.py prints every header field under its own name. Files of the earlier version 1, whose header ends before the velocity location, are read the same way, and a file cut short anywhere is refused with an error.",
  ["inputs", "configurations"],
  "every quantity and small span of the alphabet, each projection axis",
  "There is no Python test at all and nothing ties the two implementations of the format together.",
  ["python/gotetra.py", "python/gtet.py", "render/io/output.go"],
  [("read_header / read_grid", "python/gotetra.py"), ("struct.unpack header", "python/gtet.py")],
  ["Python return values"])

p("C08", "Rendering conserves mass",
  "When the whole simulation box is rendered, the mean of the density grid is exactly one in units of the cosmic mean (up to rounding), for every sheet configuration, number of sheet files, pixel count, particles per tetrahedron, thread count, valid subsampling and placement of the box origin. When a sub-region or a projection is rendered, the deposited total is exactly the share of sampled points that fall in the region, nothing being dropped or counted twice at file, tetrahedron or periodic boundaries.",
  ["inputs", "configurations", "schedules"],
  "every combination of lattice sheet (identity, shifted, folded, collapsed), cells, pixels, particles, subsample, workers and box offset of the alphabet",
  "Only a unit test of cell-centre deposits exists; conservation is a sum over all files, tetrahedra and boundaries.",
  ["render/render.go", "render/box.go", "render/density/interpolator.go", "render/geom/grid.go"],
  [("per-sample value", "render/render.go: ptVal"), ("overlap add", "render/box.go"), ("Monte Carlo sampling", "render/density/interpolator.go")],
  ["grid values of a Box after rendering"])

p("C09", "Each sample lands in exactly the pixel that contains it",
  "A point at position p contributes its weight to the pixel of the global pixel grid that contains p (periodically) if that pixel belongs to the requested region, and to nothing else, whichever of the internal deposit strategies is used; count grids count the same points. A projected density is the average along the projection axis of the three-dimensional render of the same region, and a projected velocity the mean over all samples of its column.",
  ["inputs", "configurations"],
  "every pixel-lattice position including pixel faces and box faces, every small domain origin and width, every segment box, both deposit strategies, 2D and 3D, scalar and vector",
  "Tests deposit four points into one grid; wrap, offset and strategy selection are never exercised together.",
  ["render/box.go", "render/geom/grid.go", "render/density/interpolator.go"],
  [("segmentOverlap/domainOverlap Interpolate and Add", "render/box.go"), ("ScaleVecsSegment/ScaleVecsDomain", "render/geom/grid.go")],
  ["grid values"])

p("C10", "The rendered pixel block covers the requested box and never exceeds the sim",
  "For every requested box the rendered pixel block is aligned to the global pixel grid, contains every point of the request, extends at most one pixel beyond it on each side, and never spans more than the whole simulation in any direction. The reported pixel width, pixel count and buffer length agree with that block, projections dropping only the projected axis.",
  ["inputs", "configurations"],
  "every origin and width on a lattice finer than the pixels (pixel faces included), several pixel counts, all projection axes and quantities",
  "No test constructs a box; off-by-one pixels appear only for particular alignments.",
  ["render/box.go", "render/geom/grid.go"],
  [("newBox2D/newBox3D pixel bounds", "render/box.go")],
  ["Box accessors"])

p("C11", "Results do not depend on thread count or scheduling",
  "For a given set of sampled points the rendered grid is the sum of all their contributions for every number of worker threads and every interleaving of the workers, with no contribution lost, duplicated or moved by concurrent updates, and workers never share writable state without synchronisation. Every tetrahedron of every needed file is processed by exactly one worker.",
  ["schedules", "configurations"],
  "every worker interleaving at deposit granularity up to a preemption bound, for 1-4 workers, several files and boxes; a separate free-running race-detector pass",
  "Tests are single-threaded and never start the worker pool.",
  ["render/render.go", "render/density/interpolator.go", "render/density/buffer.go"],
  [("per-worker workspaces, channel hand-off, strided index ranges", "render/render.go")],
  ["grid values", "race detector"],
  [("workspaces", "one private buffer and interpolator per worker", "render/render.go")])

p("C12", "Culling never discards a file or tetrahedron that touches the region",
  "Two periodic pixel blocks are judged to intersect if and only if they share a pixel, and a one-dimensional slab relation or an 'unbounded' block gives the same answer as brute force over pixels. Consequently adding or removing sheet files outside a region never changes its rendered values, and no file or tetrahedron that contributes to the region is skipped.",
  ["inputs", "configurations"],
  "every pair of blocks (origin, width per axis) in a small periodic grid including wrapping and full-width blocks",
  "Tests check none of the intersection code; a false negative silently removes mass.",
  ["render/geom/grid.go", "render/render.go", "render/density/interpolator.go", "render/io/io.go"],
  [("CellBounds.Intersect", "render/geom/grid.go"), ("NewManager file selection", "render/render.go"), ("per-tetrahedron culling", "render/density/interpolator.go")],
  ["Intersect results", "grid values with and without extra files"])

p("C13", "Six tetrahedra tile every Lagrangian cube, for every position and step",
  "For every cube of the particle grid and every step size, the six tetrahedra address only the cube's eight corner nodes, each has one sixth of the cube's volume, they do not overlap and together fill the cube. Neighbouring cubes split their shared face along the same diagonal, so the whole sheet is tiled without gaps. Centred octants, which reach out from a node, are refused exactly when one of their corners would leave the grid on any axis.",
  ["inputs", "configurations"],
  "every cube position, grid width and step of the alphabet; every lattice sub-cell of the cube",
  "Tests check one index pattern; tiling is a statement over all six directions and all positions.",
  ["render/geom/tetra.go"],
  [("TetraIdxs.Init direction tables", "render/geom/tetra.go")],
  ["TetraIdxs values", "Tetra.Contains"])

p("C14", "Tetrahedron volume, containment, bounds and sampling agree with geometry",
  "For every tetrahedron the reported volume, centre, containment and cell bounds agree with exact geometry: containment holds exactly for points inside, the bounds contain every corner, and the answers depend only on the current corners however the object was used or re-initialised before. Points produced by sampling are always inside the tetrahedron, are an affine image of the unit sample (so they are equidistributed), and weights sampled together with positions are interpolated at the same place.",
  ["inputs", "histories"],
  "every tetrahedron with corners on a small lattice (degenerate and both orientations included), every query point of a half-step lattice, every call sequence up to a bound on one reused object",
  "Tests use a couple of fixed tetrahedra and never reuse an object.",
  ["render/geom/tetra.go", "render/geom/vec.go"],
  [("cached volume/barycenter invalidation", "render/geom/tetra.go: Init, Volume, Contains"), ("unit-cube folding", "render/geom/tetra.go: DistributeUnit, DistributeTetra")],
  ["exported Tetra methods"],
  [("volumeValid/baryValid", "cached results valid for the current corners", "render/geom/tetra.go")])

p("C15", "Periodic vector arithmetic is exact and in range",
  "Periodic subtraction returns the shortest displacement, wrapping a coordinate returns the equivalent value in [0, width), and addition, scaling, dot and cross products follow their mathematical definitions (right-handed cross product of receiver with argument), for every operand including ones on the periodic boundary. In-place and out-of-place forms give the same result, also when the output aliases an operand, and inputs that are not outputs are unchanged.",
  ["inputs", "histories"],
  "every pair of vectors over a lattice with boundary and ulp-neighbour values, every aliasing pattern",
  "Tests cover no vector operation with aliasing or at the period boundary.",
  ["render/geom/vec.go"],
  [("SubAt, ModAt, CrossAt", "render/geom/vec.go")],
  ["method results"])

p("C16", "Grid derivatives are the stated stencils on every axis and edge",
  "Differentiating a field along any axis is exact for polynomials up to the stencil's order in the interior, treats periodic axes periodically and non-periodic edges one-sidedly, and gives the same answer on each axis as on a transposed field. Gradient, divergence and curl are the corresponding combinations of partial derivatives, add-mode adds to the output, and neither the caller's options nor the input fields are modified by a call, so later calls are unaffected by earlier ones. A stencil that does not fit in the array is refused, and grid indices and coordinates are inverse to each other for every origin and width.",
  ["inputs", "configurations", "histories"],
  "every axis, order, grid shape, periodic/edge combination and operation of the alphabet on a basis of fields; every sequence of calls up to a bound sharing one options object",
  "Tests differentiate one axis of one grid; the operators are linear, so checking a basis decides all fields, which no test does.",
  ["render/geom/deriv.go"],
  [("Deriv, Gradient, Divergence, Curl", "render/geom/deriv.go")],
  ["output buffers", "options after the call"])

p("C17", "Grid buffers accumulate and finalize each quantity correctly, in any order",
  "For every sequence of deposits, clears, slices and additions, a buffer's finalized values equal those of a plain model: density is the sum, velocity is the weighted mean with unsampled pixels zero, and gradient, curl and divergence are those operators applied to the averaged field with component k differentiated as component k. Reading a finalized buffer has no side effect on later deposits, and clearing leaves no trace of earlier content.",
  ["histories", "inputs"],
  "every operation sequence up to a bound on each buffer type over a small grid",
  "Tests do not exercise the buffer types at all.",
  ["render/density/buffer.go", "render/density/quantity.go"],
  [("Buffer implementations", "render/density/buffer.go")],
  ["FinalizedScalarBuffer / FinalizedVectorBuffer / CountBuffer"])

p("C18", "Tetrahedron histograms count each in-region sample once, in its bin",
  "A tetrahedron histogram counts every sampled point inside the region exactly once, in the bin whose range contains the value of the density grid's pixel holding the point, whatever the thread count, subsampling, number of files and order of regions. Regions reaching across the periodic boundary count the same samples as their wrapped image, and values outside the histogram range, or points outside the grid, are ignored. Subsampling lengths that are no power of two or do not divide a segment are refused.",
  ["inputs", "configurations", "schedules"],
  "every small region, sheet, grid, bin layout, worker count and subsample of the alphabet",
  "No test runs the histogram mode.",
  ["render/hist.go"],
  [("HistManager, cube selection, binning", "render/hist.go")],
  ["HistBox.Counts"])

p("C19", "Configuration is accepted only when meaningful, and means what it says",
  "Each configuration check accepts exactly the values its documentation allows, every documented quantity name maps to its quantity and back, and unknown or ill-formed files are refused with an error. A box is accepted only if it lies in the simulation and has positive widths, and a ball is accepted only with positive radius and multiplier and its centre in the simulation, and is turned into the smallest enclosing periodic box, with origin inside the simulation and its own name and projection axis.",
  ["inputs", "configurations"],
  "every combination of field values from boundary classes, every quantity name, every box/ball on a lattice",
  "No test loads a configuration.",
  ["render/io/config.go", "render/density/quantity.go"],
  [("Valid* methods, CheckInit, Ball.Box", "render/io/config.go"), ("QuantityFromString/String", "render/density/quantity.go")],
  ["method results"])

p("C20", "The command line runs exactly the requested mode and labels its output",
  "The program runs only when exactly one mode flag is given and exits non-zero with a message otherwise, and every printed example configuration is accepted by the mode it is for once its paths are filled in. Each rendered file is named from the prefix, bound name and suffix, is written once per bound (bounds that share a name are refused), and its header records the particles, pixels, subsampling, projection axis, cosmology and location actually used, which the values bear out. A particle number left to the program (ProjectionDepth, AutoParticles) is positive, in proportion to pixels³ · subsampling³ / depth (rounded up) so that every setting gets the same samples, and is the region's own whatever is rendered along with it. Values that cannot be used - unknown quantities, missing or non-positive counts, no bounds, no threads - are refused before anything is written. A run replaces the files it names with what it would write into an empty directory, whatever earlier runs left there, and changes no other file. In every mode the log and the profile go to the files LogFile and ProfileFile name, if they name any.",
  ["configurations", "inputs"],
  "every subset of mode flags, every example config, every combination of pixel/particle settings, quantities and projections of the alphabet",
  "No test runs the command.",
  ["render/main/main.go", "render/io/output.go", "render/io/config.go"],
  [("getModeName", "render/main/main.go"), ("renderMain output", "render/main/main.go")],
  ["exit status, stdout, output files"])

p("C21", "Sorting returns a sorted permutation of its input",
  "For every slice of numbers, each sorting routine leaves exactly the same multiset of values in ascending order, and reversing yields the exact reverse in place. Nothing outside the slice is touched.",
  ["inputs"],
  "every order type (weak ordering) of up to 8 elements, every 0/1 pattern and structured order around each internal size threshold",
  "Tests sort random data a few times; the pivot and small-slice thresholds need every order pattern.",
  ["math/sort/quick.go", "math/sort/shell.go", "math/sort/sort.go"],
  [("Quick with Shell fallback", "math/sort/quick.go")],
  ["slice after the call"])

p("C22", "Order statistics return the requested rank",
  "The nth-largest selection returns the nth largest element for every n and leaves values that are a permutation of the input, the median of an odd number of values is the middle one and of an even number one of (or the mean of) the two middle ones, consistently, and percentiles run monotonically from the minimum at 0 to the maximum at 1. When the non-destructive form is used with a buffer the input is left unchanged.",
  ["inputs"],
  "every order type of up to 7 elements, every n, every percentile on a grid, structured inputs around the internal thresholds",
  "The one median test uses a single length.",
  ["math/sort/median.go"],
  [("NthLargest, Median, Percentile", "math/sort/median.go")],
  ["return values"])

p("C23", "Linear interpolation is exact on multilinear data and never shares axes",
  "Linear, bilinear and trilinear interpolation return the tabulated value at every node and the exact value of any multilinear function anywhere inside the table, each axis using its own coordinates, for uniform and arbitrary, increasing or decreasing coordinate tables; tables whose size does not fit their values, and queries outside them, are refused. Results do not depend on which points were evaluated before.",
  ["inputs", "histories"],
  "every table shape and axis type of the alphabet, a basis of multilinear functions, every lattice query, every pair of successive queries",
  "No test covers the linear interpolators.",
  ["math/interpolate/linear_interpolators.go", "math/interpolate/search.go"],
  [("searcher", "math/interpolate/search.go")],
  ["Eval results"])

p("C24", "Splines interpolate their nodes with consistent derivatives and integrals",
  "A cubic spline over any strictly monotone (increasing or decreasing) table passes through every node, is continuous with continuous first and second derivative, reproduces straight lines exactly and has zero second derivative at both ends. Its derivative and integral functions are those of the interpolant, the integral being additive over intervals and changing sign with their orientation, and re-initialising a spline gives the same results as a fresh one.",
  ["inputs", "histories"],
  "every table shape of the alphabet over a basis of data vectors, all interval endpoint pairs on a lattice (knots and non-knots), every re-initialisation pair",
  "The spline test only draws a plot.",
  ["math/interpolate/spline.go"],
  [("Spline.Init, Eval, Deriv, Integrate", "math/interpolate/spline.go")],
  ["method results"])

p("C25", "Two- and three-dimensional spline interpolation depends only on the query",
  "Bicubic and tricubic interpolation return the tabulated value at every node and reproduce multilinear functions exactly inside the table, and agree with one-dimensional splines applied axis by axis. Results never depend on earlier evaluations of the same interpolator, and the tables passed in are not modified.",
  ["histories", "inputs"],
  "every sequence of evaluations up to a bound over queries that hit each internal cache transition, every table shape of the alphabet",
  "No test evaluates these interpolators; the internal caches make results history-dependent if wrong.",
  ["math/interpolate/cubic_interpolators.go"],
  [("BiCubic/TriCubic row caches", "math/interpolate/cubic_interpolators.go")],
  ["Eval results"],
  [("lastY, lastZ caches", "row splines prepared for the previous query", "math/interpolate/cubic_interpolators.go")])

p("C26", "Convolution applies the kernel with the stated boundary rule",
  "Convolving a signal equals the direct sum of kernel times signal, where values beyond the ends come from the chosen boundary rule: zeros, the edge value, the mirror image about the edge sample, or the periodic continuation, symmetrically at both ends. The signal and the kernel are not modified and the form writing into a supplied slice gives the same result. Single look-ups beyond the ends follow the rule too (the mirror with or without repeating the end sample, alike at both ends). Signals are at least as long as the kernel.",
  ["inputs", "configurations"],
  "every signal length down to the kernel's own, every kernel width and centre, every boundary rule, over the basis of unit impulses",
  "Tests check one kernel away from the edges; convolution is linear, so impulses decide all signals.",
  ["math/interpolate/filter.go"],
  [("Kernel.ConvolveAt", "math/interpolate/filter.go")],
  ["output slice"])

p("C27", "Smoothing and averaging kernels have their defining moments",
  "Tophat and Gaussian kernels are symmetric, non-negative and sum to one, and a Savitzky-Golay kernel of order d reproduces every polynomial of degree at most d exactly (and its derivative forms the corresponding derivative), for every valid width and order. Kernels do not depend on which kernels were built before.",
  ["inputs", "configurations"],
  "every width and order up to a bound, every monomial up to the order",
  "Tests compare one tabulated kernel.",
  ["math/interpolate/filter.go"],
  [("NewSavGolKernel etc.", "math/interpolate/filter.go")],
  ["kernel values / convolution results"])

p("C28", "Linear algebra solves the systems it is given",
  "For every non-singular matrix the solver returns x with A x = b, the inverse times the matrix is the identity, the determinant has its exact value including sign, and matrix products follow the definition for every compatible shape, others being refused, in double and single precision alike. Solving leaves inputs that are not outputs unchanged, works for several right-hand sides and after re-factoring another matrix in the same storage, and singular matrices have determinant zero to rounding or are refused as singular. The tridiagonal solver likewise solves every diagonally dominant system.",
  ["inputs", "histories"],
  "every 2x2 and 3x3 matrix over a small integer alphabet, every permutation and sign matrix of size 4, structured sizes up to 6, all right-hand sides of a basis",
  "Tests solve a handful of matrices that need at most one row swap.",
  ["math/mat/mat.go", "math/mat/mat32.go"],
  [("LU factorisation with pivoting", "math/mat/mat.go")],
  ["results of exported functions"])

p("C29", "Random generators are reproducible and in range",
  "Every generator with the same seed produces the same sequence however the calls are split between single and bulk draws, different instances do not influence one another, and seeded sequences follow the generator's recurrence. Uniform draws lie in [low, high) and integer draws in the half-open integer range, for every pair of bounds low < high (integer ranges below 2^53 values).",
  ["histories", "inputs"],
  "every interleaving of single and bulk draws on two generators up to a bound, every seed of the alphabet, every bound pair",
  "Tests only plot or time the generators.",
  ["math/rand/rand.go", "math/rand/tausworthe.go", "math/rand/xorshift.go", "math/rand/golang.go"],
  [("generatorBackend.Next / NextSequence", "math/rand/rand.go")],
  ["draw values"])

p("C30", "Sobol sequences are stratified and restartable",
  "The origin and the first 2^k - 1 points of a Sobol sequence put exactly one point in each of the 2^k equal intervals of every coordinate and exactly two in each elementary box of area 2^(1-k) of the first two coordinates, and the points are those of the tabulated primitive polynomials and initial numbers in Gray code order. Every point lies in the unit cube, and re-initialising restarts the same sequence, whatever was drawn before and by other sequences.",
  ["histories", "inputs"],
  "every k and dimension up to a bound, every interleaving of draws and restarts up to a bound",
  "The Sobol code has no test.",
  ["math/rand/sobol.go"],
  [("Gray-code recurrence", "math/rand/sobol.go")],
  ["NextAt output"])

p("C31", "Numerical derivatives of tables are exact for low-order polynomials",
  "Differentiating a tabulated function with order 2 or 4 returns, at every point including the ends, the exact derivative of any polynomial up to that order's degree, on increasing or decreasing tables of any length the order supports, evenly spaced or not. Outputs may be supplied or allocated, with identical results, and the inputs are not modified.",
  ["inputs", "configurations"],
  "every order, length, spacing of the alphabet and monomial basis",
  "No test exists for the package.",
  ["math/calc/deriv.go"],
  [("Deriv", "math/calc/deriv.go")],
  ["output slice"])

p("C32", "Cosmological densities follow the Friedmann equations",
  "The critical and mean matter densities at every redshift satisfy the Friedmann relations: mean matter density scales as (1+z)^3, their ratio at z = 0 is the matter density parameter, and the critical density equals 3 H(z)^2 / (8 pi G) in the documented units with H(z) from the given parameters. Results depend only on the arguments.",
  ["inputs"],
  "every parameter combination of a lattice",
  "No test exists for the package.",
  ["cosmo/param.go", "cosmo/const.go"],
  [("HubbleFrac, RhoCritical, RhoAverage", "cosmo/param.go")],
  ["return values"])

p("C33", "Halo radius and mass definitions are mutually inverse",
  "For every supported overdensity definition, converting a radius to a mass and back returns the radius, the mass inside the radius corresponds to the stated multiple of the stated reference density, and every supported name is parsed while others are refused.",
  ["inputs", "configurations"],
  "every supported definition, masses, redshifts and parameter lattice",
  "The package cannot even be compiled by the existing test setup.",
  ["render/halo/radius.go"],
  [("Radius methods", "render/halo/radius.go")],
  ["return values"])

p("C34", "Subhalo search and its cell lists agree with brute force",
  "The cell list returns every object whose position lies in a queried cell exactly once, including objects on cell and box faces, and the subhalo finder lists for every object exactly those others whose scaled spheres meet its own (centres no further apart, under periodic distance, than the sum of the scaled radii), each once and in catalogue order, split into hosts (earlier in the catalogue) and subhalos (later). The cell-aligned bounds of a sphere cover exactly the cells its extent reaches, each once, across the faces too. Inputs are unchanged, and a search does not depend on previous ones.",
  ["inputs", "histories"],
  "every placement of up to four objects on a lattice (faces included), every grid size and radius of the alphabet",
  "No test exists for the package.",
  ["render/halo/finder.go", "render/halo/grid.go"],
  [("Grid.Insert / SphereBounds / FindSubhalos", "render/halo/finder.go, render/halo/grid.go")],
  ["Subhalo results"])

p("C35", "Halo catalogs survive conversion to and from the binary form",
  "Converting a text halo catalog to the binary form and reading any selection of columns from it returns the original table's values in order (sizes in Mpc, radii from masses by their definition), for every column selection and row count; converting only the n most massive keeps exactly those rows, whole. Reading a catalog by size gives whole rows from the largest to the smallest. Requests for columns that are not there, and binary files that are truncated or whose count does not match their size, are refused with an error, a conversion that cannot write its whole output is an error, and no file is left open.",
  ["inputs", "configurations", "crash_points"],
  "every column subset of the alphabet, row counts, truncations",
  "The package cannot be compiled by the existing test setup.",
  ["render/halo/io.go"],
  [("RockstarConvert / ReadBinaryRockstar", "render/halo/io.go")],
  ["return values"])

p("C36", "Rendering several regions together equals rendering each alone",
  "Rendering any list of regions in one run gives each region the same grid as rendering it on its own, whatever the order and overlap of the regions, their pixel counts and particles, the quantity rendered (the density, velocity, gradient, divergence and curl), and however often the same manager renders. A velocity-derived quantity of a velocity field rendered end to end is the matching differential operator applied to the rendered velocity field. Repeating a render adds the same contributions again, and a subsampling length is accepted exactly when it is a power of two that divides the segment, from any previous setting.",
  ["histories", "configurations"],
  "every ordered list of up to three regions from a region alphabet, every history of render/subsample calls up to a bound",
  "No test renders.",
  ["render/render.go", "render/box.go"],
  [("shared workspaces re-sliced per region", "render/render.go: initWorkspaces"), ("Subsample", "render/render.go")],
  ["grid values"])

p("C37", "Each Lagrangian cube is rendered where it lies and as it moves",
  "Every cube of particles of every sheet file, and every coarser cube under subsampling, is rendered exactly once, with all of its samples inside the cube's own corners and spread evenly through it: each pixel holds at least the mass of the cubes that lie in it and at most that plus the cubes that reach it. Every sample carries the velocity of the sheet at the sample's own position, interpolated between the corners of its cube. This holds for every segment width, subsampling, orientation or deformation of the sheet, region, projection, number of files and worker count; particles left out by subsampling have no influence, and rendering several regions in one run changes none of it.",
  ["inputs", "configurations"],
  "every segment width, subsampling, reorientation, step threshold and region of the alphabet",
  "No test renders.",
  ["render/density/interpolator.go", "render/render.go", "render/geom/tetra.go"],
  [("mcarlo.Interpolate: cube addressing", "render/density/interpolator.go"), ("Manager.RenderDensityFromFile", "render/render.go")],
  ["grid values"])

p("C38", "Converting, rendering and histogramming compose into one answer about the snapshot",
  "Taking a snapshot through the whole program - conversion to sheet files, rendering of those files, histogramming of the rendered grid - gives what the snapshot's particles say, whatever lies between: each pixel of a rendered grid holds exactly the mass of the Lagrangian cubes in it and the velocity of their particles in the configured units, and each bin of the histogram counts every sample of the cubes in pixels of that density once. The answer does not depend on how the snapshot is split into files, ordered or stored, how many cells the sheet is cut into, where the sheet lies across the periodic boundary or which way round it is, the number of threads, the particles per tetrahedron, the subsampling of a sheet that is straight between the nodes kept, or which other regions and projections are computed in the same run.",
  ["inputs", "configurations"],
  "every snapshot layout, cell count, sheet pattern, shift, orientation, thread count, subsampling and region of the alphabet, through all three modes of the built program",
  "No test runs two stages after one another.",
  ["render/main/main.go", "render/render.go", "render/hist.go", "render/io/io.go", "render/io/buffer.go"],
  [("lGadget2Main, renderMain, tetraHistMain", "render/main/main.go"), ("Manager.RenderDensity", "render/render.go"), ("HistManager.Hist", "render/hist.go")],
  ["sheet files, grid values and histogram counts of the built program"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
