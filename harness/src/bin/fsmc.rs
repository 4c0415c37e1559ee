use fsmc::fw::CheckDef;
const T: &[&str] = &["tolerances scale with the scalar type's roundoff and the magnitude of the terms", "between the enumerated sizes the code behaves like at the enumerated ones; linear operations are determined by a basis, confirmed by C18"];
fn main() {
    let d = |id, f, bounds| CheckDef { id, f, bounds, assumptions: T };
    fsmc::fw::main(&[
        d("C01", fsmc::bases::c01, "state = (base, precision, size, input vector), transition = one transform, trace = one result compared with the dense expansion. Every n up to 260 and selected n up to 4097 with the complete standard basis of inputs (times i if complex), dense, scaled (1e-280..1e270), zero; every n up to 1100 (thorough 2100) with dense and selected unit inputs; every vector over a 3-5 letter alphabet for n<=5 (7); slices and arrays; outputs pre-filled with garbage."),
        d("C02", fsmc::bases::c02, "state = (base or space, size, input), transition = one transform, trace = one round trip. Every n up to 130 with complete bases of the spectral and the physical side, every n up to 520 (thorough 1025) with dense and selected unit inputs, selected n up to 2048; alphabet vectors; every admissible 1D, 2D, 3D base combination, one axis up to 513 points."),
        d("C03", fsmc::bases::c03, "state = (composite base, scalar, size, coefficient vector), transition = one call, trace = one function observed at both boundaries by four routes. Every n up to 180 (thorough 300) with every unit vector, every n up to 600 (1100) with dense and selected ones, selected n up to 4097; linear independence of the stencil columns by elimination; spaces: every combination with a composite axis."),
        d("C04", fsmc::bases::c04, "state = (base, scalar, size, vector), transition = one conversion or stencil product, trace = one compared result. Every n up to 160 (thorough 300) with all unit vectors of both representations, every n up to 600 (1100) with dense and selected ones, selected n up to 4097; scaled and alphabet vectors; least-squares property through the normal equations with the reference stencil."),
        d("C05", fsmc::bases::c05, "state = (base, scalar, size, vector, order), transition = one gradient, trace = one compared result. Every n up to 130 with all unit vectors, every n up to 500 (thorough 1100) with dense and selected ones, Fourier to 4097; orders 0..n+2 for small n and a selection up to and beyond the degree above, Fourier to order 40; compositions a then b."),
        d("C06", fsmc::bases::c06, "state = (base, precision, size), transition = one matrix or matrix-free call, trace = one matrix compared. Every n up to 130 (thorough 260) and selected n up to 513 (1025), orders 1..4 (Chebyshev) or 1..6 (Fourier), all matrices of every base and of every axis of every admissible space."),
        d("C07", fsmc::arrays::c07, "state = (base, scalar, size, operation, array shape, axis), transition = one array call, trace = one array compared lane by lane with the slice operation. Shapes of 1 to 5 dimensions incl. empty lanes and 0..9, 15..17, 31..33, 63..65, 100, 129, 257 lanes (thorough: all up to 70, 513, 1025), every axis, static and dynamic dimensionality, memory layouts C, sub-view, F, strided, reversed; lanes of very different magnitude and lanes with non-finite values."),
        d("C08", fsmc::arrays::c08, "state = (base combination, sizes, operation, field), transition = one space call, trace = one field compared with the axis-by-axis composition of slice calls. Every admissible combination of bases in 1, 2 and 3 dimensions, distinct and equal sizes, one axis up to 513 points, all derivative multi-orders up to 4 (2 in 3D), no scale and every tuple over a set of scales incl. 1, below 1 and negative, dense/zero/single-entry/patchy fields, layouts, allocating/in-place/parallel."),
        d("C11", fsmc::arrays::c11, "state = (base, size, operation, wrong lengths or shapes), transition = one call, trace = one refusal or in-bounds access. All input and output lengths 0..n+4 and larger for n up to min+7 (+14); guard pages on both sides of every slice; arrays of 1-3 dimensions and spaces with every wrong shape near the right one; the object is used again after every refusal."),
        d("C19", fsmc::arrays::c19, "state = (length or shape, position, difference), transition = one helper call, trace = one accept/reject verdict. Slices up to 20 (thorough 40) and selected lengths up to 1025, arrays of 0-5 dimensions and layouts, differing element at every position, real and imaginary part, differences on both sides of the threshold, values of every magnitude, NaN and infinities; every axis and expected length for the axis helpers."),
        d("C21", fsmc::memory::c21, "state = (objects, history), transition = one call, trace = one history repeated 512 times in a process of its own, with the memory, threads and files it holds compared after 64, 128, 256 and 512 repetitions. All histories of one and two calls over an alphabet of 15-25 calls (operations, matrices, refused calls, clones, constructions) per base and scalar type and per space; every single call at more sizes, and the parallel variants on the unmodified pool."),
        d("C17", fsmc::bases::c17, "state = (base, precision, size), transition = one query, trace = one object compared. Every n up to 2100 (thorough 4200) and selected n up to 100000; every admissible space combination, distinct and equal sizes."),
        d("C18", fsmc::bases::c18, "state = (base, scalar, size, operation, inputs), transition = one call, trace = one linearity or agreement relation. n up to min+30 (thorough +64) and selected n up to 300; scalings 2^k and decimal over the whole exponent range, sums, single negligible entries next to dominant ones, complex against componentwise, f32 against f64; every admissible space."),
        d("C22", fsmc::held::c22, "state = (base, scalar, size, operation, input, form), transition = one call, trace = one object in all its forms. Forms: concrete type, clones that outlive their originals, clone of a clone of the enum, made on another thread, enum variant filled by hand. Slices: every n up to 72 (thorough 150) and selected up to 2048; matrices up to 40 (100) and 129; arrays of 1-3 dimensions, every axis, four variants, static and dynamic dimensionality, n up to min+5 (12) and 65; grids, wavenumbers of the types up to 1300 (3000) and selected to 100000, matrices of the type up to 70 (140) and 257."),
    ])
}
