//! C09, C10: the instrumented scalar type is instantiated only here.
use fsmc::erased::*;
use fsmc::fw::CheckDef;
use fsmc::sf::*;
use funspace::*;
use std::marker::PhantomData;

fn mk_base(k: Kind, n: usize) -> Box<dyn Bs> {
    match k {
        Kind::R2c => Box::new(W::<_, Zs> { b: fourier_r2c::<Sf>(n), t: PhantomData }),
        Kind::C2c => Box::new(W::<_, Zs> { b: fourier_c2c::<Sf>(n), t: PhantomData }),
        _ => Box::new(W::<_, Sf> { b: r2r::<Sf>(k, n), t: PhantomData }),
    }
}
const T: &[&str] = &["tolerances scale with the scalar type's roundoff and the magnitude of the terms", "sequentially consistent interleavings at allocations, arithmetic operations, joins, blocking and, in the instrumented build, at memory accesses to addresses that two tasks share", "the simulated rayon pool splits and steals as rayon-core may; its results are cross-checked on the real pool"];
fn main() {
    fsmc::sched::instrumented(mk_base);
    let d = |id, f, bounds| CheckDef { id, f, bounds, assumptions: T };
    fsmc::fw::main(&[d("C09", fsmc::sched::c09, "state and transition = scheduling decisions, trace = one complete execution of the real code. Every way the simulated pool of 1..16 threads may split and steal (unbounded steals up to 6 lanes, 2-3 above) for every base, operation, variant; every interleaving at allocation points within 1-2 preemptions, at single arithmetic operations (instrumented scalar) and at single memory accesses that conflict (instrumented build) within 1 (thorough up to 3); also of the first parallel calls on an object; spaces of every combination; conformance and large arrays on the unmodified rayon-core pool."), d("C10", fsmc::sched::c10, "state = (object set, call history), transition = one call, trace = one history whose last result is compared bit for bit with a fresh process. All histories of length 2 (and of length 3 in one process) over an alphabet of about 25 calls on six objects per pair of bases and per space, incl. refused calls that panic, objects replaced in place, sizes one after another; concurrent calls from 2-3 threads, all interleavings at allocation points within 2 (thorough 3) preemptions, at arithmetic operations and conflicting memory accesses within 1, and of the first calls of a fresh process.")])
}
