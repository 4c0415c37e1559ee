#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Transforms of orthogonal bases are the exact basis expansion on the grid",
 "For every size and every input, the forward transform of the Chebyshev, real-Fourier and complex-Fourier bases yields the coefficients of the expansion that interpolates the samples at the base's own grid points, and the backward transform evaluates an expansion at those points, up to rounding, in single and double precision. "
 "For Fourier bases the forward transform is unnormalised and the backward transform carries 1/n; coefficients are in the order 0,1,..,-2,-1 (complex) or 0..n/2 (real), and the real backward transform ignores the imaginary parts of the zero and Nyquist modes. "
 "This holds for every magnitude of finite input and for any content of the output buffer before the call.",
 ["inputs", "configurations"],
 "every size n >= 2 (Chebyshev) or n >= 1 (Fourier), every input vector, both precisions, forward and backward",
 "Unit tests check one or two vectors at n = 4, 5, 6 with tolerance 1e-3; a defect tied to a size class (parity, the naive/FFT switch, powers of two), to an index, or to a magnitude is never sampled.",
 ["src/chebyshev/ortho.rs", "src/fourier/r2c.rs", "src/fourier/c2c.rs", "src/enums.rs"],
 [("cosine transform with reversal and end-point correction", "src/chebyshev/ortho.rs forward_slice/backward_slice"),
  ("complex and real FFT with 1/n correction", "src/fourier/*.rs forward_slice/backward_slice"),
  ("enum dispatch to the concrete base", "src/internal_macros.rs impl_funspace_elemental_for_base")],
 ["results of forward/backward on slices and one-dimensional arrays, compared with the grid returned by coords"])

prop("C02", "Forward and backward are mutually inverse; composite bases project",
 "For every base and size it supports, backward followed by forward returns the original spectral coefficients (for real Fourier, of any coefficient vector whose zero and Nyquist modes are real). "
 "For the orthogonal bases forward followed by backward returns the original samples; for composite bases it is a projection: it leaves every function of the space unchanged and applying it twice equals applying it once. "
 "The same holds in one, two and three-dimensional spaces built from any admissible combination of bases.",
 ["inputs", "configurations"],
 "every base, size, dimensionality and admissible combination of bases, every input array, both precisions",
 "Existing tests round-trip a handful of vectors on three sizes and never check a composite space's projection in 2D or 3D.",
 ["src/chebyshev/ortho.rs", "src/chebyshev/compo.rs", "src/fourier/r2c.rs", "src/fourier/c2c.rs", "src/space/space1.rs", "src/space/space2.rs", "src/space/space3.rs"],
 [("normalisation split between forward and backward", "forward_slice/backward_slice of every base"),
  ("least-squares reduction to composite coefficients", "src/chebyshev/stencils/helpers.rs solve_inplace"),
  ("axis order last-to-first / first-to-last", "src/space/space*.rs")],
 ["results of forward, backward on bases and spaces"])

prop("C03", "Composite bases satisfy their advertised boundary conditions",
 "Every function represented by a composite Chebyshev base satisfies that base's boundary conditions at x = -1 and x = 1 up to rounding: Dirichlet u = 0; Neumann u' = 0; Dirichlet-Neumann u(-1) = 0 and u'(1) = 0; biharmonic A u = u' = 0; biharmonic B u = u'' = 0 at both ends. "
 "It holds for every size and every coefficient vector, real or complex, whether the function is observed through its orthogonal coefficients, its stencil, its derivatives or its grid values, and along the composite axes of multi-dimensional spaces. "
 "The base functions are linearly independent, so the space has the advertised dimension (n-2, or n-4 for the biharmonic bases).",
 ["inputs", "configurations"],
 "every composite base, every size it supports, every coefficient vector (real, complex, f32, f64), every axis of a space",
 "The tests compare a few forward-transform numbers; no test evaluates a boundary value or derivative, and only one size per base is used.",
 ["src/chebyshev/stencils.rs", "src/chebyshev/stencils/helpers.rs", "src/chebyshev/compo.rs"],
 [("stencil coefficients of each base", "src/chebyshev/stencils.rs *::new"),
  ("banded stencil product", "src/chebyshev/stencils/helpers.rs dot_inplace/to_array")],
 ["to_ortho, stencil, gradient and backward results evaluated at the end points"])

prop("C04", "Composite and orthogonal coefficients convert consistently and invertibly",
 "Converting composite to orthogonal coefficients multiplies by the base's stencil matrix and represents the same function (same grid values as the composite backward transform); for orthogonal bases it is the identity in both directions. "
 "Converting orthogonal to composite coefficients returns the least-squares projection onto the stencil's column space, hence is an exact left inverse of the other direction, and the explicit inverse stencil is a left inverse of the stencil. "
 "This holds for real and complex coefficients and every supported size.",
 ["inputs", "configurations"],
 "every base and supported size, every real or complex coefficient vector, f32 and f64, slices, arrays and spaces",
 "Tests exercise two sizes of the Dirichlet base only; the five-diagonal solvers and last rows of the banded products are never checked against the matrix.",
 ["src/chebyshev/stencils/helpers.rs", "src/chebyshev/stencils.rs", "src/chebyshev/linalg/tdma.rs", "src/chebyshev/linalg/pdma.rs", "src/chebyshev/linalg/pdma2.rs", "src/chebyshev/compo.rs", "src/fourier/r2c.rs", "src/fourier/c2c.rs"],
 [("banded product", "helpers.rs dot_inplace"), ("normal equations solved by banded elimination", "helpers.rs solve_inplace, linalg/*"),
  ("lower-triangular left inverse", "helpers.rs pinv")],
 ["to_ortho, from_ortho, stencil, stencil_inv"])

prop("C05", "Gradient is the exact derivative, for any order",
 "For every base, size, derivative order (including zero and orders above the polynomial degree) and coefficient vector, the gradient yields the orthogonal coefficients of the exact derivative of the represented function; for Fourier bases it multiplies mode k by (ik)^order, with k = 0,1,..,-2,-1 in storage order. "
 "Consequently differentiating a times and then b times equals differentiating a+b times, and order zero equals conversion to orthogonal coefficients.",
 ["inputs", "configurations"],
 "every base and supported size, every derivative order, every coefficient vector (real or complex), f32 and f64",
 "Each base has a single gradient example at n = 4..6 with orders 1 or 2; the complex-Fourier one accepts any imaginary part because of how the comparison helper is written.",
 ["src/chebyshev/ortho.rs", "src/chebyshev/compo.rs", "src/fourier/r2c.rs", "src/fourier/c2c.rs"],
 [("two-step recurrence for Chebyshev coefficients", "src/chebyshev/ortho.rs gradient_slice"),
  ("multiplication by powers of ik", "src/fourier/*.rs gradient_slice")],
 ["gradient results on slices, arrays and spaces"])

prop("C06", "Matrix operators agree with the matrix-free operators and their identities",
 "For every base and size, the differentiation matrix of each supported order, applied to orthogonal coefficients, equals the gradient of that order, and the Laplacian equals the second-derivative matrix. "
 "The pseudo-inverse and pseudo-identity returned together satisfy pinv * D = pseudo-identity on the non-null modes, with the documented shapes, for the derivative and for the Laplacian; the stencil matrix and its inverse satisfy inverse * stencil = identity. "
 "Spaces return along each axis exactly the operators of the base on that axis.",
 ["inputs", "configurations"],
 "every base, every size, every supported derivative order, f32 and f64",
 "Only sizes 4..14 and one order per matrix are tested; the closed-form entries contain integer arithmetic whose failures depend on the size.",
 ["src/chebyshev/ortho.rs", "src/chebyshev/compo.rs", "src/fourier/r2c.rs", "src/fourier/c2c.rs", "src/chebyshev/stencils/helpers.rs", "src/space/space1.rs", "src/space/space2.rs", "src/space/space3.rs"],
 [("closed-form matrices", "src/chebyshev/ortho.rs _dmat/_pinv/_pinv_eye; src/fourier/*.rs"),
  ("per-axis dispatch", "src/space/space*.rs")],
 ["diffmat, diffmat_pinv, laplacian, laplacian_pinv, stencil, stencil_inv"])

prop("C07", "Along an axis, every lane of an array is treated as an independent 1D problem",
 "Applying forward, backward, to-orthogonal, from-orthogonal or gradient along one axis of an array of any dimensionality gives, in every lane of that axis, exactly what the one-dimensional operation gives for that lane, and a result whose shape differs from the input only along that axis. "
 "The input is not modified, lanes never influence one another, and the in-place form overwrites the whole output regardless of its previous contents and equals the allocating form. "
 "Arrays with zero lanes, single-element axes and contiguous sub-views behave the same way.",
 ["inputs", "configurations"],
 "every dimensionality, shape, axis, base and operation, every array content and every previous content of the output",
 "Tests use two 2D shapes with zeroed outputs; scratch reuse between lanes, axis selection in 3D and above and stale output are not sampled.",
 ["src/internal_macros.rs", "src/traits.rs", "src/utils.rs"],
 [("lane iteration with and without scratch", "src/internal_macros.rs apply_along_axis!, src/traits.rs gradient_inplace"),
  ("shape derivation", "src/utils.rs array_resized_axis")],
 ["allocating and in-place array operations on arrays of 1 to 4 dimensions"])

prop("C08", "Multi-dimensional spaces are separable: axis by axis, in either description",
 "In 1D, 2D and 3D spaces of every admissible combination of bases, forward, backward, to-orthogonal, from-orthogonal and gradient equal the composition of the corresponding one-dimensional operation of each axis' own base, with the requested derivative order on each axis and the result divided by the product of scale_i^order_i. "
 "Shapes, coordinates, base kinds, transform kinds and matrix operators reported for an axis are those of that axis' base, and allocating, in-place and parallel variants agree.",
 ["inputs", "configurations"],
 "every admissible combination of bases, every combination of distinct sizes, derivative orders and scales, every array content",
 "The tests construct a few spaces with equal sizes and equal bases, on which exchanged axes cannot be seen, and never take a 3D gradient.",
 ["src/space/space1.rs", "src/space/space2.rs", "src/space/space3.rs", "src/space/traits.rs"],
 [("order of axes and dispatch on axis index", "src/space/space*.rs")],
 ["all public methods of Space1, Space2, Space3"])

prop("C09", "Parallel variants equal the serial ones under every schedule",
 "Every parallel variant of an operation on a base or a space returns the same result as its serial counterpart, for every number of worker threads, every way the lanes are divided among them and every interleaving of their execution. "
 "It never deadlocks, and the input array is never modified.",
 ["schedules", "inputs", "configurations"],
 "every work split, every assignment of lanes to threads, every interleaving, every operation, axis, shape and base",
 "The tests call the parallel variants on tiny arrays under one operating-system schedule; an interference between two lanes needs a specific interleaving.",
 ["src/internal_macros.rs", "src/traits.rs", "src/space/space1.rs", "src/space/space2.rs", "src/space/space3.rs"],
 [("parallel lane iteration with per-lane scratch", "src/internal_macros.rs par_apply_along_axis!, src/traits.rs gradient_inplace_par"),
  ("shared transform plans behind Arc", "src/chebyshev/ortho.rs, src/fourier/*.rs")],
 ["results of *_par and *_inplace_par compared with the serial results"])

prop("C10", "Bases and spaces are stateless: history, sharing and cloning have no effect",
 "The result of any operation depends only on the base or space it was constructed as and on the arguments, never on what was called before (including calls on other bases or sizes and calls that panicked), on whether the object is a clone, or on operations running at the same time on the same object from other threads.",
 ["histories", "schedules", "inputs"],
 "every sequence of operations on one or several bases or spaces, and every interleaving of operations issued concurrently from several threads on a shared object",
 "Every test builds a fresh object and calls it once or twice from one thread.",
 ["src/chebyshev/ortho.rs", "src/chebyshev/compo.rs", "src/chebyshev/stencils/helpers.rs", "src/chebyshev/linalg/tdma.rs", "src/chebyshev/linalg/pdma.rs", "src/chebyshev/linalg/pdma2.rs", "src/fourier/r2c.rs", "src/fourier/c2c.rs", "src/internal_macros.rs", "src/traits.rs", "src/space/space1.rs", "src/space/space2.rs", "src/space/space3.rs"],
 [("all methods take &self and allocate scratch per call", "forward_slice, backward_slice, solve_inplace, tdma/pdma/pdma2"),
  ("plans are immutable and shared", "Arc<dyn Dct1>, Arc<dyn Fft>")],
 ["results of repeated, interleaved and concurrent calls"])

prop("C11", "Mismatched sizes are refused and no memory outside the arguments is touched",
 "Operations on arrays or slices never read or write memory outside the slices they were given, whatever their lengths. "
 "Array operations whose input or output does not have the base's size along the axis (or, on a space, its shape) panic instead of returning a result, and so do the forward and backward transforms of one-dimensional slices of the wrong length. "
 "A refused call leaves the object usable.",
 ["inputs", "configurations"],
 "every pair of input and output lengths around the documented ones, every base, operation, axis and dimensionality",
 "No test passes a wrong length to a base operation, and the inner loops use unchecked indexing, so a missing check is invisible until memory is corrupted.",
 ["src/internal_macros.rs", "src/traits.rs", "src/utils.rs", "src/chebyshev/ortho.rs", "src/chebyshev/stencils/helpers.rs", "src/chebyshev/linalg/tdma.rs", "src/chebyshev/linalg/pdma.rs", "src/chebyshev/linalg/pdma2.rs", "src/fourier/r2c.rs", "src/fourier/c2c.rs"],
 [("length assertions before unchecked loops", "src/chebyshev/*, src/fourier/*"), ("axis check", "src/utils.rs check_array_axis")],
 ["panic or result of every operation; accesses outside the buffers (guard pages)"])

prop("C12", "Pencil decomposition partitions the grid exactly, evenly and in rank order",
 "For every grid shape and number of processes not exceeding the split dimension, the x- and y-pencils of all ranks are non-empty contiguous index ranges in rank order that cover the split axis exactly once, span the other axis completely, and differ in size by at most one. "
 "Every rank computes the same table; start, end, size and length are mutually consistent, counts and displacements for collectives describe exactly these blocks, and splitting a global array returns exactly the rank's block.",
 ["configurations", "inputs"],
 "every global shape, number of processes, rank and choice of contiguous axis",
 "No unit test covers the decomposition; the examples need an MPI runtime with a fixed number of processes.",
 ["src/space_mpi/decomp2d/distribute.rs", "src/space_mpi/decomp2d/mod.rs"],
 [("even split with the remainder on the last ranks", "distribute.rs distribute"), ("counts and displacements", "distribute.rs get_counts_*")],
 ["Distribution and Decomp2d fields and methods"])

prop("C13", "Distributed data movement delivers every element to its place",
 "For every grid shape, number of ranks and element type, transposing between x- and y-pencils, gathering on the root, gathering on all ranks and scattering from the root place every element of the global array at its global position, leave the sent arrays unchanged, overwrite the receiving arrays completely, and transposing forth and back is the identity. "
 "Rank-local arrays of the wrong shape, and root/non-root routines called on the wrong rank, are refused with a panic.",
 ["inputs", "configurations", "schedules"],
 "every global shape (including those not divisible by the number of ranks), number of ranks, element type and arrival order of the ranks",
 "The repository has only MPI example programs, which are not run by the test suite and use one shape.",
 ["src/space_mpi/decomp2d/mod.rs", "src/space_mpi/decomp2d/distribute.rs", "src/space_mpi/space2.rs"],
 [("packing and unpacking around all-to-all", "decomp2d/mod.rs transpose_x_to_y, transpose_y_to_x"),
  ("gather/scatter with counts and displacements", "decomp2d/mod.rs gather_*, scatter_*, all_gather_*")],
 ["contents of the arrays on every rank after the operation"])

prop("C14", "Distributed space operations equal the serial ones",
 "For every admissible base pair, grid shape and number of ranks, forward, backward, to-orthogonal, from-orthogonal and gradient of the distributed two-dimensional space, applied to each rank's pencil, produce on each rank exactly the pencil of the result the serial space computes on the global array, in both the allocating and the in-place form. "
 "The pencil shapes, arrays, rank, size and metadata it reports agree with the decomposition and the serial space.",
 ["inputs", "configurations", "schedules"],
 "every base pair, shape, number of ranks, derivative order and scale, every field content",
 "Distributed spaces are never executed by the test suite.",
 ["src/space_mpi/space2.rs", "src/space_mpi/traits.rs", "src/space_mpi/decomp_handler.rs", "src/space_mpi/decomp2d/mod.rs"],
 [("choice of decomposition by global shape at each stage", "space_mpi/space2.rs"), ("registration of all needed shapes", "space_mpi/space2.rs new")],
 ["results of *_mpi methods on every rank"])

prop("C15", "All ranks issue matching collectives: no deadlock, no order dependence",
 "In every distributed operation all ranks take part in the same sequence of collective communications with the same root and with counts that agree pairwise, so that no rank waits forever, whatever the order in which ranks arrive and whether or not a collective synchronises. "
 "Sequences of distributed operations can be composed freely, and results do not depend on the arrival order.",
 ["schedules", "histories", "configurations"],
 "every arrival order of ranks, every completion behaviour MPI allows, every sequence of distributed operations up to a bound, every shape and number of ranks including one",
 "The tests never start more than zero MPI ranks; a rank-dependent shortcut hangs only for particular shapes.",
 ["src/space_mpi/decomp2d/mod.rs", "src/space_mpi/decomp2d/functions.rs", "src/space_mpi/decomp2d/distribute.rs", "src/space_mpi/space2.rs"],
 [("unconditional collective calls with rank-independent order", "decomp2d/mod.rs, decomp2d/functions.rs"), ("pairwise agreeing counts", "distribute.rs get_counts_all_to_all")],
 ["sequence of collectives seen by the (simulated) MPI layer"])

prop("C16", "Broadcast and sum reductions give every rank the right value",
 "Broadcasting a scalar sets it on every rank to the root's value; gathering a sum sets the root's result to the sum of all ranks' contributions and leaves other ranks' results untouched; the all-ranks sum gives every rank that sum. "
 "This holds for every number of ranks, every contribution and every scalar type, and repeated calls do not accumulate.",
 ["inputs", "configurations", "schedules"],
 "every number of ranks, every tuple of contributions, every arrival order",
 "No test executes these functions.",
 ["src/space_mpi/decomp2d/functions.rs"],
 [("gather then sum", "functions.rs")],
 ["value on each rank after the call"])

prop("C17", "Sizes, kinds and grids reported by bases and spaces are exact and consistent",
 "For every base and size, the physical, spectral and orthogonal sizes are the documented ones, and the coordinates are exactly len_phys strictly increasing points: Chebyshev points -cos(pi k/(n-1)) from -1 to 1, or n equispaced points 2 pi k/n in [0, 2 pi). "
 "Base kind and transform kind identify the constructor used, distinct kinds have distinct names, and spaces report the same along each axis and create zeroed arrays of exactly these shapes.",
 ["configurations"],
 "every base, size and precision, every axis of every space",
 "Only a few sizes are constructed in tests; grid generation by accumulating a floating-point step can produce one point too many at sizes never tried.",
 ["src/chebyshev/ortho.rs", "src/chebyshev/compo.rs", "src/fourier/r2c.rs", "src/fourier/c2c.rs", "src/enums.rs", "src/lib.rs", "src/space/space1.rs", "src/space/space2.rs", "src/space/space3.rs"],
 [("grid formulas", "nodes"), ("size bookkeeping", "len_phys/len_spec/len_orth")],
 ["coords, len_*, base_kind, transform_kind, shape_*, ndarray_*"])

prop("C18", "Operations are linear and independent of the scalar type",
 "Forward, backward, conversion and gradient are linear maps over the whole range of magnitudes: scaling or adding inputs scales or adds outputs up to rounding, zero maps to zero, and there are no thresholds or value-dependent shortcuts. "
 "Complex coefficients are treated componentwise by real operators, and single precision agrees with double precision to single-precision accuracy.",
 ["inputs", "configurations"],
 "every base, size and operation, every pair of inputs and every scale, every scalar type",
 "Tests use small integers in double precision only.",
 ["src/types.rs", "src/chebyshev/ortho.rs", "src/chebyshev/compo.rs", "src/chebyshev/stencils/helpers.rs", "src/chebyshev/linalg/tdma.rs", "src/chebyshev/linalg/pdma.rs", "src/chebyshev/linalg/pdma2.rs", "src/fourier/r2c.rs", "src/fourier/c2c.rs", "src/internal_macros.rs"],
 [("straight-line arithmetic generic over the scalar", "all *_slice functions")],
 ["results of all operations for scaled, summed and retyped inputs"])

prop("C19", "Array helpers accept and reject exactly what they document",
 "The approximate-equality helpers return normally if every pair of corresponding elements (real and imaginary part) differs by less than 1e-3 and panic if any pair differs by more (or one of the two is not a number), wherever in the array it is and however large the values are. "
 "The axis check panics exactly when the array's length along the given axis differs from the expected size, and resizing an axis yields a zero array with only that axis' length replaced.",
 ["inputs", "configurations"],
 "every shape, dimensionality, axis and size, and every pair of arrays",
 "The helpers are used by the tests as their own oracle and are never tested to reject anything.",
 ["src/utils.rs"],
 [("element-wise tolerance test", "src/utils.rs approx_eq*"), ("axis length", "src/utils.rs check_array_axis, array_resized_axis")],
 ["panic or normal return; returned array"])

prop("C20", "Decomposition lookup returns the decomposition of the requested global shape",
 "After any sequence of insertions, including repeated shapes, looking up a global shape returns a decomposition of exactly that shape if one was inserted and panics otherwise, and every decomposition returned describes this rank in this universe. "
 "Cloning the registry preserves this, and registrations made later never change what an earlier shape resolves to.",
 ["histories", "configurations"],
 "every sequence of insertions and lookups over a set of shapes, on every rank",
 "The registry needs an MPI universe and is not tested.",
 ["src/space_mpi/decomp_handler.rs", "src/space_mpi/decomp2d/mod.rs"],
 [("shape -> index -> decomposition maps", "decomp_handler.rs insert, get_decomp_from_global_shape")],
 ["global shape and pencils of the returned decomposition"],
 state=[("map_shape_global", "global shape to lookup index", "src/space_mpi/decomp_handler.rs"), ("decomp", "lookup index to decomposition", "src/space_mpi/decomp_handler.rs")])

prop("C21", "Repeated use retains no memory, threads or open files",
 "However often a history of calls is repeated - transforms, conversions, gradients, matrices, refused calls, cloning, constructing and dropping bases, spaces and decompositions, serial, parallel or distributed - what the process holds (allocated memory, threads, open files) stops growing. "
 "Tables that are set up once and caches of bounded size are allowed; something left behind by every repetition is not.",
 ["histories", "configurations"],
 "every history of calls, repeated without end",
 "Tests make each call a handful of times and never look at what remains; a simulation makes millions.",
 ["src/traits.rs", "src/internal_macros.rs", "src/chebyshev/ortho.rs", "src/chebyshev/compo.rs", "src/fourier/r2c.rs", "src/fourier/c2c.rs", "src/space/traits.rs", "src/space_mpi/space2.rs", "src/space_mpi/decomp2d/mod.rs"],
 [("scratch vectors and intermediate arrays are owned by the call", "slice and array operations, space operations, data movements"), ("plans are shared by Arc and released with the last base", "constructors")],
 ["live heap of the process, threads and open files after n repetitions"])

prop("C22", "A base is the same however it is made and held",
 "The bases a user constructs directly (Chebyshev, ChebyshevComposite, FourierR2c, FourierC2c), the base enums made by the crate's functions or by wrapping a type by hand, clones that outlive their originals, and bases made on another thread agree in every operation, matrix, size, kind and grid. "
 "The functions of the types agree with the bases: nodes(n) is the grid, wavenumber(n) is i times 0, 1, 2, .. (complex Fourier: followed by the negative ones -n/2, .., -2, -1), and the Chebyshev matrices made without a base are those of a base.",
 ["inputs", "configurations"],
 "every base, size, precision, operation, input, array shape and axis",
 "Tests use one form of each base at one or two sizes, and the wavenumbers of the types at none.",
 ["src/enums.rs", "src/internal_macros.rs", "src/lib.rs", "src/traits.rs", "src/chebyshev/ortho.rs", "src/chebyshev/compo.rs", "src/fourier/r2c.rs", "src/fourier/c2c.rs"],
 [("enums delegate to the type they hold", "src/internal_macros.rs impl_funspace_elemental_for_base"), ("type-level grids, wavenumbers and matrices", "nodes, wavenumber, _dmat, _pinv, _pinv_eye")],
 ["results of every form against the enum and against closed formulas"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
