//! C12-C16, C20: the distributed part on a simulated MPI library.
#[path = "../../harness/src/alloc.rs"]
#[allow(dead_code)]
mod alloc;
#[path = "../../harness/src/fw.rs"]
#[allow(dead_code)]
mod fw;
#[path = "../../harness/src/num.rs"]
#[allow(dead_code)]
mod num;
mod arr;
mod handler;
mod moves;
mod pencils;
mod reduce;
mod seqs;
mod spaces;
mod world;

#[global_allocator]
static GLOBAL: alloc::A = alloc::A;

const A: &[&str] = &[
    "ranks are threads of one process: state private to a process is shared unless it is thread-local",
    "the simulated MPI library matches collectives of the world communicator in program order, checks operation, root, counts and types, and lets each collective synchronise or return as early as MPI allows",
    "interleavings at MPI calls; code between two calls of a rank only touches that rank's data",
];

fn main() {
    let d = |id, f, bounds, assumptions| fw::CheckDef { id, f, bounds, assumptions };
    fw::main(&[
        d("C12", pencils::c12, "state = (grid, ranks, rank), transition = one decomposition, trace = one table compared with its definition. Every grid up to 40 x 40 (thorough 64 x 64) with every p not exceeding the smaller extent, selected larger ones with blocks beyond 65536 elements; splitting and counts of both pencils, allocating and in place.", A),
        d("C13", moves::c13, "state and transition = scheduling decisions and movements, trace = one execution of all ranks. Every grid up to 8 x 8 (11 x 11) and every p, selected grids up to 1000 x 5 with up to 16 ranks; 14 element types; memory layouts; physical and spectral arrays of spaces; every wrong shape and rank for grids up to 5 x 5 (6 x 6); all arrival orders of pairs of movements over 2 ranks, bounded preemptions over 3-5 ranks.", A),
        d("C14", spaces::c14, "state and transition = scheduling decisions and operations, trace = one execution of all ranks compared with the serial space. All 44 admissible base pairs, p up to 4 (5), a triangle (square) of sizes from the smallest upwards plus selected grids up to 130 points and up to 12 ranks; dense, tiny, huge fields, zero in parts and on some ranks only; all derivative orders up to 5 and some up to 8, 49 pairs of scales; f64 and f32; wrong shapes; all arrival orders over 2 ranks, bounded over 3.", A),
        d("C15", seqs::c15, "state and transition = scheduling decisions, trace = one execution of a program on all ranks. Programs: every single operation of 23 with six contents on eleven grids and up to 9 ranks, every pair for p up to 6, every triple of the plain operations (thorough: of all, and sequences of four); arrival orders: every schedule of pairs over 2 ranks with each collective synchronising or not, bounded preemptions for triples and for 3 ranks.", A),
        d("C16", reduce::c16, "state and transition = scheduling decisions, trace = one execution on all ranks. Every tuple of contributions over a four-letter alphabet for p up to 4, wild magnitudes and repeated calls with different contributions per round for p up to 9 (thorough 16), 12 scalar types; every arrival order over 2 ranks, of one and of two successive calls, bounded preemptions for 3 and 4.", A),
        d("C21", seqs::c21, "as for the serial part; distributed: every operation of every pair of bases repeated 256 times over 1 to 3 ranks (larger arrays: to 5) with the blocks of memory compared after 32, 64, 128 and 256 repetitions, on the same and on new objects; refused calls; every pair of operations over 2 ranks.", A),
        d("C20", handler::c20, "state = (insertion history, clones), transition = one insertion, fork or lookup, trace = one history after every step of which every shape is looked up. All histories up to the recorded length over an alphabet of shapes, several ranks and sizes of the world.", A),
    ])
}
