//! C20: the registry of decompositions.
use crate::fw::*;
use crate::world::*;
use funspace::space_mpi::{Decomp2d, DecompHandler, Universe};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// The decomposition of `shape` as any rank computes it, compared with the one found.
fn is_of(u: &Universe, d: &Decomp2d, shape: [usize; 2], p: usize, r: usize) -> Res {
    let w = Decomp2d::new(u, shape);
    if d.get_global_shape() != shape || d.n_global != shape {
        return Err(format!("looking up {shape:?} returns the decomposition of {:?}", d.get_global_shape()));
    }
    if d.nprocs as usize != p || d.nrank as usize != r {
        return Err(format!("looking up {shape:?} returns rank {} of {}", d.nrank, d.nprocs));
    }
    for (a, b, n) in [(&d.x_pencil, &w.x_pencil, "x"), (&d.y_pencil, &w.y_pencil, "y")] {
        if (a.st, a.en, a.sz, a.nprocs, a.nrank, a.axis_contig) != (b.st, b.en, b.sz, b.nprocs, b.nrank, b.axis_contig) || a.sz_procs != b.sz_procs || a.st_procs != b.st_procs || a.en_procs != b.en_procs {
            return Err(format!("looking up {shape:?} returns another {n}-pencil: {:?} at {:?}", a.sz, a.st));
        }
    }
    if !std::ptr::eq(d.universe, u) {
        return Err(format!("looking up {shape:?} returns a decomposition of another universe"));
    }
    Ok(())
}
fn lookups(u: &Universe, h: &DecompHandler, known: &BTreeSet<[usize; 2]>, all: &[[usize; 2]], p: usize, r: usize) -> Res {
    for s in all {
        let got = catch_unwind(AssertUnwindSafe(|| h.get_decomp_from_global_shape(s).clone()));
        match (got, known.contains(s)) {
            (Ok(d), true) => is_of(u, &d, *s, p, r)?,
            (Ok(d), false) => return Err(format!("looking up {s:?}, which was never inserted, returns the decomposition of {:?}", d.get_global_shape())),
            (Err(e), true) => return Err(format!("looking up {s:?} panics: {}", simrt::panic_msg(&*e))),
            (Err(_), false) => {}
        }
        // shapes of another dimensionality are unknown
        for q in [&s[..1], &[s[0], s[1], 1][..], &[][..]] {
            if catch_unwind(AssertUnwindSafe(|| h.get_decomp_from_global_shape(q).get_global_shape())).is_ok() {
                return Err(format!("looking up {q:?} returns a decomposition"));
            }
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Insert(usize),
    /// insert into the clone (or the original after `Fork`)
    Fork,
}

fn run_history(u: &Universe, shapes: &[[usize; 2]], hist: &[Op], p: usize, r: usize) -> Res {
    let mut h = DecompHandler::new(u);
    let mut known = BTreeSet::new();
    // earlier clones with what they knew
    let mut old: Vec<(DecompHandler, BTreeSet<[usize; 2]>)> = vec![];
    lookups(u, &h, &known, shapes, p, r)?;
    for o in hist {
        match *o {
            Op::Insert(i) => {
                h.insert(Decomp2d::new(u, shapes[i]));
                known.insert(shapes[i]);
            }
            Op::Fork => {
                // go on with the clone, keep the original
                let k = h.clone();
                old.push((std::mem::replace(&mut h, k), known.clone()));
            }
        }
        lookups(u, &h, &known, shapes, p, r)?;
        for (o, k) in &old {
            lookups(u, o, k, shapes, p, r).map_err(|m| format!("in a copy made earlier: {m}"))?;
        }
    }
    Ok(())
}

pub fn c20(ctx: &mut Ctx) {
    let th = ctx.thorough();
    // sets of shapes that are easily confused: transposed, same product, same sum, same first or second
    let sets: [&[[usize; 2]]; 5] = [
        &[[4, 6], [6, 4], [4, 4], [12, 2]],
        &[[8, 9], [8, 6], [5, 9], [5, 6]],
        &[[5, 5], [5, 6], [6, 5], [3, 8]],
        &[[16, 17], [17, 16], [16, 9], [14, 17]],
        &[[4, 12], [12, 4], [6, 8], [8, 6]],
    ];
    let depth = if th { 6 } else { 5 };
    for (si, shapes) in sets.iter().enumerate() {
        for p in 1..=4usize {
            if shapes.iter().any(|s| s[0] < p || s[1] < p) {
                continue;
            }
            // the last shape is never inserted in half of the sets
            let letters: Vec<Op> = (0..if si % 2 == 0 { 3 } else { 4 }).map(Op::Insert).chain([Op::Fork]).collect();
            ctx.group(&format!("{p} ranks"));
            for first in 0..letters.len() {
                ctx.case(
                    || format!("histories of length {depth} over {shapes:?} starting with {:?}, {p} ranks", letters[first]),
                    |c| {
                        let l = letters.len();
                        let per = l.pow(depth as u32 - 1);
                        for code in 0..per {
                            let mut k = code;
                            let mut hist = vec![letters[first]];
                            for _ in 1..depth {
                                hist.push(letters[k % l]);
                                k /= l;
                            }
                            let only = if p > 2 { Some(code % p) } else { None };
                            let res = each_alone(p, &|u, r| {
                                if only.map_or(false, |o| o != r) {
                                    return Ok(());
                                }
                                run_history(u, shapes, &hist, p, r)
                            });
                            c.state(depth as u64);
                            c.step((depth * shapes.len()) as u64);
                            c.trace(1);
                            if let Err(m) = res {
                                return c.fail(format!("history {hist:?}: {m}"));
                            }
                        }
                    },
                );
            }
        }
    }
    // pairs of shapes that agree in a scalar key: extents packed with some multiplier, or truncated
    ctx.group("packed keys");
    let mut ms: Vec<usize> = (1..=if th { 4200 } else { 1100 }).collect();
    ms.extend((10..=40).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]));
    ms.extend((3..=12).flat_map(|k| [10usize.pow(k) - 1, 10usize.pow(k), 10usize.pow(k) + 1]));
    ms.extend([2039, 4093, 8191, 16381, 31337, 65521, 131071, 1_000_003]);
    ms.sort();
    ms.dedup();
    for p in [1usize, 2] {
        for part in ms.chunks(200) {
            ctx.case(
                || format!("shapes agreeing in a key with multiplier {}..={}, {p} ranks", part[0], part[part.len() - 1]),
                |c| {
                    for &m in part {
                        let mut sets = vec![vec![[5, 4], [4, 4 + m]], vec![[4, 5], [4 + m, 4]], vec![[4, 4], [4, 4 + m]], vec![[4, 4], [4 + m, 4]]];
                        if m > 3 && m < 1 << 30 {
                            sets.push(vec![[2, 3 * m], [6, m], [m, 6], [3 * m, 2]]);
                        }
                        for mut shapes in sets {
                            for turn in 0..2 {
                                let res = each_alone(p, &|u, r| run_history(u, &shapes, &[Op::Insert(0), Op::Insert(1), Op::Fork, Op::Insert(0), Op::Insert(shapes.len() - 1)], p, r));
                                c.state(5);
                                c.step(5 * shapes.len() as u64);
                                c.trace(1);
                                if let Err(e) = res {
                                    return c.fail(format!("shapes {shapes:?}: {e}"));
                                }
                                if turn == 0 {
                                    shapes.reverse();
                                }
                            }
                        }
                        
                    }
                },
            );
        }
    }
    ctx.group("many shapes");
    for p in [1usize, 2, 3, 5] {
        for order in 0..3 {
            ctx.case(
                || format!("inserting every shape {p}..=12 x {p}..=12, order {order}, {p} ranks"),
                |c| {
                    let mut shapes = vec![];
                    for a in p..=12 {
                        for b in p..=12 {
                            shapes.push([a, b]);
                        }
                    }
                    match order {
                        1 => shapes.reverse(),
                        2 => shapes.sort_by_key(|s| (s[0] * 7 + s[1] * 5) % 13),
                        _ => {}
                    }
                    let res = each_alone(p, &|u, r| {
                        let mut h = DecompHandler::new(u);
                        let mut known = BTreeSet::new();
                        for (i, s) in shapes.iter().enumerate() {
                            h.insert(Decomp2d::new(u, *s));
                            if i % 3 == 0 {
                                h.insert(Decomp2d::new(u, *s)); // again
                                h.insert(Decomp2d::new(u, shapes[i / 2]));
                            }
                            known.insert(*s);
                            if i % 17 == 0 {
                                lookups(u, &h, &known, &shapes, p, r)?;
                            }
                        }
                        let all: Vec<[usize; 2]> = shapes.iter().copied().chain([[13, p], [p, 13], [13, 13], [0, 0], [p, 0]]).collect();
                        lookups(u, &h, &known, &all, p, r)?;
                        let k = h.clone();
                        drop(h);
                        lookups(u, &k, &known, &all, p, r)
                    });
                    c.state((p * shapes.len()) as u64);
                    c.step((p * shapes.len() * 8) as u64);
                    c.trace(p as u64);
                    if let Err(m) = res {
                        c.fail(m);
                    }
                },
            );
        }
    }
}
