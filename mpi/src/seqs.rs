//! C15: programs of distributed operations: matching collectives, no deadlock, no order dependence.
use crate::arr::*;
use crate::fw::*;
use crate::moves::{one_move, SpaceMover};
use crate::spaces::{one_op, pairs, with_spaces, K};
use crate::world::*;
use funspace::space_mpi::{all_gather_sum, broadcast_scalar, gather_sum, BaseSpaceMpi, Decomp2d, Space2Mpi, Universe};
use funspace::*;
use ndarray::Array2;
use std::marker::PhantomData;

/// Operations on a decomposition and scalars.
pub const PLAIN: usize = 11;
const NAMES: [&str; 23] = [
    "transpose_x_to_y", "transpose_y_to_x", "gather_x", "gather_y", "scatter_x", "scatter_y", "all_gather_x", "all_gather_y", "broadcast_scalar", "gather_sum", "all_gather_sum", "forward", "backward", "to_ortho", "from_ortho",
    "gradient", "space transpose_x_to_y (physical)", "space transpose_y_to_x (spectral)", "space gather_x (spectral)", "space gather_y (physical)", "space scatter_x (physical)", "space scatter_y (spectral)", "space all_gather_y (spectral)",
];
/// with those of a space
const ALL: usize = NAMES.len();

/// scalars of the ranks: different, equal, zero on all but one rank, zero on one rank, not finite
const SCALARS: usize = 6;
fn scalar(r: usize, p: usize, which: usize) -> f64 {
    match which {
        0 => 1.5 + r as f64,
        1 => 2.25,
        2 => (r == p - 1) as u8 as f64 * 3.,
        3 => (r != p - 1) as u8 as f64 * 3.,
        4 => [f64::INFINITY, 1., f64::MIN_POSITIVE / 4.][r % 3],
        _ => 0.,
    }
}
fn scalar_op(u: &Universe, r: usize, p: usize, op: usize, which: usize) -> Res {
    let v = scalar(r, p, which);
    let want: f64 = (0..p).map(|q| scalar(q, p, which)).sum();
    let near = |x: f64| x == want || (x - want).abs() <= 1e-14 * want.abs();
    match op {
        8 => {
            let mut b = v;
            broadcast_scalar(u, &mut b);
            if b.to_bits() != scalar(0, p, which).to_bits() {
                return Err(format!("broadcast gives {b} instead of {}", scalar(0, p, which)));
            }
        }
        9 => {
            let mut x = -7.;
            gather_sum(u, &v, &mut x);
            if (r == 0 && !near(x)) || (r != 0 && x != -7.) {
                return Err(format!("gather_sum gives {x}; the sum is {want}"));
            }
        }
        _ => {
            let mut x = -7.;
            all_gather_sum(u, &v, &mut x);
            if !near(x) {
                return Err(format!("all_gather_sum gives {x} instead of {want}"));
            }
        }
    }
    Ok(())
}
/// global contents number `which` of the array operations
fn contents<T: El>(nx: usize, ny: usize, which: usize) -> Array2<T> {
    match which {
        0 => global(nx, ny, 0),
        1 => global(nx, ny, 3),
        // nothing but zeros on all or all but some ranks
        2 => global(nx, ny, 2),
        3 => Array2::from_shape_fn((nx, ny), |(i, j)| if i * ny + j < nx * ny / 2 { T::of(i * ny + j) } else { T::zero() }),
        4 => global(nx, ny, 1),
        _ => Array2::zeros((nx, ny)),
    }
}
fn plain(u: &Universe, d: &Decomp2d, r: usize, p: usize, op: usize, which: usize) -> Res {
    if op < 8 {
        let [nx, ny] = d.n_global;
        one_move(d, r, &contents::<f64>(nx, ny, which), op)
    } else {
        scalar_op(u, r, p, op, which)
    }
    .map_err(|m| format!("{}: {m}", NAMES[op]))
}
fn on_space<M, S>(m: &M, s: &S, r: usize, op: usize, which: usize) -> Res
where
    M: BaseSpaceMpi<f64, 2>,
    S: BaseSpace<f64, 2, Physical = M::Physical, Spectral = M::Spectral>,
    M::Physical: crate::num::Num + El,
    M::Spectral: crate::num::Num + El,
{
    let (ph, sp) = (m.shape_physical(), m.shape_spectral());
    let phys = || contents::<M::Physical>(ph[0], ph[1], which);
    let spec = || contents::<M::Spectral>(sp[0], sp[1], which);
    let mp = SpaceMover::<M, f64, true>(m, PhantomData);
    let ms = SpaceMover::<M, f64, false>(m, PhantomData);
    match op {
        11..=15 => one_op::<f64, M, S>(m, s, op - 11, [0, 2, 5, 4, 6, 7][which]),
        16 => one_move(&mp, r, &phys(), 0),
        17 => one_move(&ms, r, &spec(), 1),
        18 => one_move(&ms, r, &spec(), 2),
        19 => one_move(&mp, r, &phys(), 3),
        20 => one_move(&mp, r, &phys(), 4),
        21 => one_move(&ms, r, &spec(), 5),
        _ => one_move(&ms, r, &spec(), 7),
    }
    .map_err(|m| format!("{}: {m}", NAMES[op]))
}

fn seq_name(s: &[(usize, usize)]) -> String {
    s.iter().map(|(o, w)| format!("{}[{w}]", NAMES.get(*o).unwrap_or(&"refused calls"))).collect::<Vec<_>>().join("; ")
}
#[derive(Clone, Copy)]
struct Setup {
    n: [usize; 2],
    k: (K, K),
    p: usize,
}
/// Run a program (operation, contents) on every rank.
fn run(c: &mut Case, x: Setup, cfg: &simrt::Cfg, compl: Completion, prog: &[(usize, usize)]) -> bool {
    let Setup { n, k, p } = x;
    c.step((prog.len() * p) as u64);
    let f = |u: &Universe, r: usize| -> Res {
        let d = Decomp2d::new(u, n);
        if prog.iter().all(|(o, _)| *o < PLAIN) {
            for (i, (op, w)) in prog.iter().enumerate() {
                plain(u, &d, r, p, *op, *w).map_err(|m| format!("step {i} of {}: {m}", seq_name(prog)))?;
            }
            return Ok(());
        }
        let (n0, n1) = (n[0].max(k.0.for_ranks(p)), n[1].max(k.1.for_ranks(p)));
        with_spaces!(f64, k.0, n0, k.1, n1, u, |m, s| {
            for (i, (op, w)) in prog.iter().enumerate() {
                if *op < PLAIN { plain(u, &d, r, p, *op, *w) } else { on_space(&m, &s, r, *op, *w) }.map_err(|m| format!("step {i} of {}: {m}", seq_name(prog)))?;
            }
            Ok(())
        })
    };
    world(c, cfg, p, compl, &format!("{} ({} x {})", seq_name(prog), n[0], n[1]), &f)
}

pub fn c15(ctx: &mut Ctx) {
    let th = ctx.thorough();
    let ks = [(K::Cheb, K::Dir), (K::R2c, K::Neu), (K::C2c, K::C2c), (K::BihA, K::DirNeu), (K::C2c, K::R2c)];
    let both = [Completion::Eager, Completion::Sync];
    ctx.group("every single operation");
    for (gi, (nx, ny)) in [(1, 1), (2, 2), (2, 5), (5, 2), (3, 3), (4, 3), (5, 7), (8, 6), (9, 9), (16, 5), (33, 40)].into_iter().enumerate() {
        for p in 1..=nx.min(ny).min(9) {
            ctx.case(
                || format!("single operations, {nx} x {ny} over {p} ranks"),
                |c| {
                    for op in 0..ALL {
                        for w in 0..SCALARS {
                            for compl in both {
                                if !run(c, Setup { n: [nx, ny], k: ks[(gi + p) % 5], p }, &one(), compl, &[(op, w)]) {
                                    return;
                                }
                            }
                        }
                    }
                },
            );
        }
    }
    ctx.group("every space");
    for (k0, k1) in pairs() {
        for p in 2..=if th { 5 } else { 4 } {
            ctx.case(
                || format!("operations of {k0:?} x {k1:?} over {p} ranks"),
                |c| {
                    for op in PLAIN..ALL {
                        for w in [0, 2, 3, 4] {
                            if !run(c, Setup { n: [p + 1, p], k: (k0, k1), p }, &one(), both[(op + w) % 2], &[(op, if op < 16 && w == 4 { 5 } else { w })]) {
                                return;
                            }
                        }
                    }
                },
            );
        }
    }
    ctx.group("every pair of operations");
    for (p, nx, ny, k) in [(1, 3, 4, 0), (2, 2, 2, 0), (2, 3, 5, 1), (2, 5, 3, 2), (2, 4, 4, 3), (3, 3, 3, 1), (3, 4, 5, 3), (3, 5, 4, 4), (4, 4, 5, 2), (5, 7, 5, 1), (6, 6, 8, 4)] {
        for a in 0..ALL {
            ctx.case(
                || format!("{} then any operation, {nx} x {ny} over {p} ranks", NAMES[a]),
                |c| {
                    for b in 0..ALL {
                        for compl in both {
                            if !run(c, Setup { n: [nx, ny], k: ks[k], p }, &one(), compl, &[(a, (a + b) % 4), (b, b % 6 % 4)]) {
                                return;
                            }
                        }
                    }
                },
            );
        }
    }
    ctx.group("every triple of operations");
    for (p, nx, ny) in if th { vec![(2, 2, 3), (2, 4, 4), (3, 4, 3), (4, 4, 6)] } else { vec![(2, 2, 3), (3, 4, 3)] } {
        for a in 0..PLAIN {
            ctx.case(
                || format!("{} then any two operations, {nx} x {ny} over {p} ranks", NAMES[a]),
                |c| {
                    for b in 0..PLAIN {
                        for d in 0..PLAIN {
                            if !run(c, Setup { n: [nx, ny], k: ks[0], p }, &one(), both[(a + b + d) % 2], &[(a, d % 6), (b, a % 6), (d, b % 6)]) {
                                return;
                            }
                        }
                    }
                },
            );
        }
    }
    if th {
        ctx.group("every triple of operations of spaces");
        for (p, nx, ny, k) in [(2, 3, 4, 1), (3, 4, 3, 3)] {
            for a in 0..ALL {
                for b in 0..ALL {
                    ctx.case(
                        || format!("{}, {}, then any operation, {nx} x {ny} over {p} ranks", NAMES[a], NAMES[b]),
                        |c| {
                            for d in 0..ALL {
                                if !run(c, Setup { n: [nx, ny], k: ks[k], p }, &one(), both[(a + b + d) % 2], &[(a, d % 4), (b, a % 4), (d, b % 4)]) {
                                    return;
                                }
                            }
                        },
                    );
                }
            }
        }
        ctx.group("every sequence of four operations");
        for a in 0..PLAIN {
            for b in 0..PLAIN {
                ctx.case(
                    || format!("{}, {}, then any two operations over 2 ranks", NAMES[a], NAMES[b]),
                    |c| {
                        for d in 0..PLAIN {
                            for e in 0..PLAIN {
                                if !run(c, Setup { n: [3, 2], k: ks[0], p: 2 }, &one(), both[(a + b + d + e) % 2], &[(a, d % 6), (b, e % 6), (d, b % 6), (e, a % 6)]) {
                                    return;
                                }
                            }
                        }
                    },
                );
            }
        }
    }
    ctx.group("arrival orders of pairs of operations");
    for a in 0..PLAIN {
        for b in 0..PLAIN {
            ctx.case(
                || format!("every arrival order of {}; {} over 2 ranks", NAMES[a], NAMES[b]),
                |c| {
                    for w in [0, 2] {
                        if !run(c, Setup { n: [2, 3], k: ks[0], p: 2 }, &cfg(usize::MAX, 1_000_000), Completion::Choose, &[(a, w), (b, w)]) {
                            return;
                        }
                    }
                },
            );
            // three ranks
            if th || (a + 2 * b) % 5 == 0 {
                let b3 = usize::from(th);
                ctx.case(
                    || format!("arrival orders of {}; {} over 3 ranks, {b3} preemptions", NAMES[a], NAMES[b]),
                    |c| {
                        run(c, Setup { n: [3, 4], k: ks[0], p: 3 }, &cfg(b3, 3_000_000), Completion::Choose, &[(a, 0), (b, 3)]);
                    },
                );
            }
        }
    }
    for a in PLAIN..ALL {
        for b in 0..ALL {
            if !th && (a * 3 + b) % 4 != 0 {
                continue;
            }
            ctx.case(
                || format!("every arrival order of {}; {} over 2 ranks", NAMES[a], NAMES[b]),
                |c| {
                    run(c, Setup { n: [2, 3], k: ks[(a + b) % 5], p: 2 }, &cfg(if th { usize::MAX } else { 2 }, 1_000_000), Completion::Choose, &[(a, 0), (b, 2)]);
                },
            );
        }
    }
    ctx.group("arrival orders of triples of operations");
    for a in 0..PLAIN {
        for b in 0..PLAIN {
            ctx.case(
                || format!("arrival orders of {}; {}; any operation over 2 ranks", NAMES[a], NAMES[b]),
                |c| {
                    for d in 0..PLAIN {
                        if !th && (a + b + d) % 3 != 0 {
                            continue;
                        }
                        if !run(c, Setup { n: [3, 2], k: ks[0], p: 2 }, &cfg(1, 1_000_000), Completion::Choose, &[(a, 0), (b, 1), (d, 3)]) {
                            return;
                        }
                    }
                },
            );
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C21 (the distributed part): repeating a program retains nothing
// ---------------------------------------------------------------------------------------------
const AT: [usize; 4] = [32, 64, 128, 256];
/// Calls that are refused before anything is sent: wrong shapes, wrong ranks.
fn refused_calls<M, S>(d: &Decomp2d, m: &M, s: &S, r: usize) -> Res
where
    M: BaseSpaceMpi<f64, 2>,
    S: BaseSpace<f64, 2, Physical = M::Physical, Spectral = M::Spectral>,
    M::Physical: crate::num::Num + El,
    M::Spectral: crate::num::Num + El,
{
    let (x, y) = (d.x_pencil.sz, d.y_pencil.sz);
    let bad = |w: [usize; 2]| Array2::<f64>::zeros([w[0], w[1] + 1]);
    let good = |w: [usize; 2]| Array2::<f64>::zeros(w);
    let sp = m.shape_spectral_x_pen();
    let calls: [(&str, &dyn Fn()); 10] = [
        ("transpose_x_to_y", &|| d.transpose_x_to_y(&bad(x), &mut good(y))),
        ("transpose_x_to_y (output)", &|| d.transpose_x_to_y(&good(x), &mut bad(y))),
        ("transpose_y_to_x", &|| d.transpose_y_to_x(&bad(y), &mut good(x))),
        ("gather_x", &|| if r == 0 { d.gather_x(&good(x)) } else { drop(d.gather_x_root(&good(x))) }),
        ("gather_y", &|| if r == 0 { d.gather_y(&good(y)) } else { drop(d.gather_y_root(&good(y))) }),
        ("gather_x of a wrong shape", &|| if r == 0 { drop(d.gather_x_root(&bad(x))) } else { d.gather_x(&bad(x)) }),
        ("scatter_x", &|| if r == 0 { drop(d.scatter_x::<f64>()) } else { drop(d.scatter_x_root(&good(d.n_global))) }),
        ("all_gather_x", &|| d.all_gather_x(&bad(x), &mut good(d.n_global))),
        ("backward", &|| drop(m.backward_mpi(&Array2::zeros([sp[0] + 1, sp[1]])))),
        ("serial forward", &|| drop(s.forward(&Array2::zeros([s.shape_physical()[0], s.shape_physical()[1] + 1])))),
    ];
    for (name, f) in calls {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(()) => return Err(format!("{name} with a wrong shape or on the wrong rank is not refused")),
            Err(e) => {
                let m = simrt::panic_msg(&*e);
                if m.starts_with("MPI:") {
                    return Err(format!("{name} communicates before it refuses: {m}"));
                }
            }
        }
    }
    Ok(())
}
/// Repeat a program; `anew`: with new decompositions and spaces every time.
fn run_repeated(c: &mut Case, x: Setup, prog: &[(usize, usize)], anew: bool) -> bool {
    use mpi_crate::traits::CommunicatorCollectives;
    let Setup { n, k, p } = x;
    let held: std::sync::Mutex<Vec<(isize, isize)>> = std::sync::Mutex::new(Vec::with_capacity(16));
    let look = |u: &Universe, r: usize, done: usize| {
        if AT.contains(&done) {
            // everything sent so far has been received
            u.world().barrier();
            u.world().barrier();
            if r == 0 {
                simrt::uncontrolled(|| held.lock().unwrap().push(crate::alloc::live()));
            }
            u.world().barrier();
        }
    };
    let (n0, n1) = (n[0].max(k.0.for_ranks(p)), n[1].max(k.1.for_ranks(p)));
    let f = |u: &Universe, r: usize| -> Res {
        let mut done = 0;
        while done < AT[3] {
            let d = Decomp2d::new(u, n);
            with_spaces!(f64, k.0, n0, k.1, n1, u, |m, s| {
                while done < AT[3] {
                    for (op, w) in prog {
                        // other contents every time
                        let w = (*w + done) % SCALARS;
                        if *op < PLAIN {
                            plain(u, &d, r, p, *op, w)
                        } else if *op < ALL {
                            on_space(&m, &s, r, *op, w)
                        } else {
                            refused_calls(&d, &m, &s, r)
                        }?;
                    }
                    done += 1;
                    look(u, r, done);
                    if anew {
                        break;
                    }
                }
            });
        }
        Ok(())
    };
    let name = format!("{} repeated ({} x {})", seq_name(prog), n[0], n[1]);
    // nothing but the code under test may grow
    simrt::TRACE_CAPACITY.store(1 << 18, std::sync::atomic::Ordering::Relaxed);
    let ok = world(c, &one(), p, Completion::Sync, &name, &f);
    simrt::TRACE_CAPACITY.store(0, std::sync::atomic::Ordering::Relaxed);
    if !ok {
        return false;
    }
    let v = held.into_inner().unwrap();
    c.state(1);
    c.trace(1);
    for (what, v) in [("bytes", v.iter().map(|x| x.0).collect::<Vec<_>>()), ("blocks", v.iter().map(|x| x.1).collect())] {
        if v.windows(2).all(|w| w[1] > w[0]) {
            c.fail(format!("{name}{}: {what} of memory held after {AT:?} repetitions: {v:?} [ranks {p}]", if anew { ", with new objects" } else { "" }));
            return false;
        }
    }
    true
}
pub fn c21(ctx: &mut Ctx) {
    ctx.group("distributed: single operations");
    for (k0, k1) in pairs() {
        for p in 1..=3 {
            ctx.case(
                || format!("every operation of {k0:?} x {k1:?} over {p} ranks, repeated"),
                |c| {
                    for op in 0..ALL {
                        if !run_repeated(c, Setup { n: [4, 5], k: (k0, k1), p }, &[(op, 0)], op % 2 == 0) {
                            return;
                        }
                    }
                    for n in [[4, 5], [9, 8]] {
                        if !run_repeated(c, Setup { n, k: (k0, k1), p }, &[(ALL, 0)], n[0] == 4) {
                            return;
                        }
                    }
                    let prog: Vec<(usize, usize)> = (0..ALL).map(|o| (o, o % 4)).collect();
                    run_repeated(c, Setup { n: [4, 5], k: (k0, k1), p }, &prog, true);
                },
            );
        }
    }
    ctx.group("distributed: larger arrays");
    for op in 0..ALL {
        ctx.case(
            || format!("{} of larger arrays, repeated", NAMES[op]),
            |c| {
                for (n, k, p) in [([33, 20], (K::C2c, K::R2c), 3), ([18, 40], (K::Neu, K::Dir), 5), ([9, 9], (K::R2c, K::BihA), 4)] {
                    if !run_repeated(c, Setup { n, k, p }, &[(op, 0), (op, 1)], op % 3 == 0) {
                        return;
                    }
                }
            },
        );
    }
    ctx.group("distributed: pairs of operations");
    for a in 0..ALL {
        ctx.case(
            || format!("{} then any operation over 2 ranks, repeated", NAMES[a]),
            |c| {
                for b in 0..ALL {
                    if !run_repeated(c, Setup { n: [3, 4], k: (K::R2c, K::Dir), p: 2 }, &[(a, 0), (b, 1)], (a + b) % 2 == 0) {
                        return;
                    }
                }
            },
        );
    }
}
