//! C12: the pencil decomposition.
use crate::arr::*;
use crate::fw::*;
use crate::world::*;
use funspace::space_mpi::decomp2d::Distribution;
use funspace::space_mpi::Decomp2d;
use ndarray::Array2;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Everything the decomposition tables promise for one configuration and rank.
fn tables(d: &Distribution<2>, n: [usize; 2], p: usize, r: usize, axis: usize) -> Res {
    let err = |m: String| Err(format!("{n:?} over {p} ranks, axis {axis} contiguous, rank {r}: {m}"));
    if d.nprocs != p || d.nrank != r || d.axis_contig != axis {
        return err(format!("reports nprocs {}, rank {}, contiguous axis {}", d.nprocs, d.nrank, d.axis_contig));
    }
    if d.sz_procs.len() != p || d.st_procs.len() != p || d.en_procs.len() != p {
        return err(format!("tables for {}, {}, {} ranks", d.sz_procs.len(), d.st_procs.len(), d.en_procs.len()));
    }
    let sp = 1 - axis;
    let (lo, hi) = (n[sp] / p, n[sp].div_ceil(p));
    let mut next = 0;
    for q in 0..p {
        let (s, e, z) = (d.st_procs[q], d.en_procs[q], d.sz_procs[q]);
        if s[axis] != 0 || z[axis] != n[axis] || e[axis] + 1 != n[axis] {
            return err(format!("rank {q}'s pencil covers {}..={} (size {}) of the complete axis", s[axis], e[axis], z[axis]));
        }
        if s[sp] != next {
            return err(format!("rank {q}'s pencil starts at {} but {next} elements are covered before it", s[sp]));
        }
        if z[sp] < lo.max(1) || z[sp] > hi {
            return err(format!("rank {q}'s pencil has {} elements of the split axis, an even split has {lo} or {hi}", z[sp]));
        }
        if e[sp] + 1 != s[sp] + z[sp] {
            return err(format!("rank {q}'s pencil is {}..={} but its size is {}", s[sp], e[sp], z[sp]));
        }
        next += z[sp];
    }
    if next != n[sp] {
        return err(format!("{next} of {} elements of the split axis are covered", n[sp]));
    }
    if d.st != d.st_procs[r] || d.en != d.en_procs[r] || d.sz != d.sz_procs[r] {
        return err(format!("own range {:?}..={:?} (size {:?}) is not the table's", d.st, d.en, d.sz));
    }
    if d.length() != d.sz[0] * d.sz[1] {
        return err(format!("length {} of a pencil of size {:?}", d.length(), d.sz));
    }
    let (c, s) = d.get_counts_all_gather();
    if c.len() != p || s.len() != p {
        return err(format!("{} counts and {} displacements", c.len(), s.len()));
    }
    let mut at = 0i64;
    for q in 0..p {
        let w = (d.sz_procs[q][0] * d.sz_procs[q][1]) as i64;
        if c[q] as i64 != w || s[q] as i64 != at {
            return err(format!("gather count {} at displacement {} for rank {q}, whose block has {w} elements and starts at {at}", c[q], s[q]));
        }
        at += w;
    }
    Ok(())
}
fn alltoall(a: &Distribution<2>, b: &Distribution<2>, p: usize, what: &str) -> Res {
    let (c, s) = a.get_counts_all_to_all(b);
    if c.len() != p || s.len() != p {
        return Err(format!("{what}: {} counts and {} displacements for {p} ranks", c.len(), s.len()));
    }
    let mut at = 0i64;
    for q in 0..p {
        let mut w = 1i64;
        for ax in 0..2 {
            let lo = a.st[ax].max(b.st_procs[q][ax]);
            let hi = (a.st[ax] + a.sz[ax]).min(b.st_procs[q][ax] + b.sz_procs[q][ax]);
            w *= hi as i64 - lo as i64;
        }
        if c[q] as i64 != w || s[q] as i64 != at {
            return Err(format!("{what}: rank {} exchanges {} elements at displacement {} with rank {q}; their blocks share {w} elements, the buffer is at {at}", a.nrank, c[q], s[q]));
        }
        at += w;
    }
    if at != a.length() as i64 {
        return Err(format!("{what}: {at} of {} elements exchanged", a.length()));
    }
    Ok(())
}
fn same_tables(a: &Distribution<2>, b: &Distribution<2>) -> bool {
    a.st_procs == b.st_procs && a.en_procs == b.en_procs && a.sz_procs == b.sz_procs
}
fn config(c: &mut Case, n: [usize; 2], p: usize, ranks: &[usize]) {
    let mut first: Option<[Distribution<2>; 2]> = None;
    for &r in ranks {
        let d = [Distribution::new(n, p, r, 0), Distribution::new(n, p, r, 1)];
        c.step(2);
        c.state(1);
        for (ax, d) in d.iter().enumerate() {
            if let Err(m) = tables(d, n, p, r, ax) {
                return c.fail(m);
            }
        }
        for (a, b, w) in [(&d[0], &d[1], "x to y"), (&d[1], &d[0], "y to x")] {
            if let Err(m) = alltoall(a, b, p, w) {
                return c.fail(format!("{n:?} over {p} ranks: {m}"));
            }
        }
        match &first {
            None => first = Some(d),
            Some(f) => {
                if !(same_tables(&f[0], &d[0]) && same_tables(&f[1], &d[1])) {
                    return c.fail(format!("{n:?} over {p} ranks: rank {r} and rank {} compute different tables", ranks[0]));
                }
            }
        }
    }
    c.trace(1);
}
fn some_ranks(p: usize, all: usize) -> Vec<usize> {
    if p <= all {
        (0..p).collect()
    } else {
        let mut v = vec![0, 1, p / 3, p / 2, p - 2, p - 1];
        v.dedup();
        v
    }
}

pub fn c12(ctx: &mut Ctx) {
    let th = ctx.thorough();
    let m = if th { 64 } else { 40 };
    ctx.group("all grids");
    for nx in 1..=m {
        ctx.case(
            || format!("grids {nx} x 1..={m}, every number of ranks"),
            |c| {
                for ny in 1..=m {
                    for p in 1..=nx.min(ny) {
                        config(c, [nx, ny], p, &(0..p).collect::<Vec<_>>());
                        if c.failed() {
                            return;
                        }
                    }
                }
            },
        );
    }
    ctx.group("long axes");
    let big = if th { 2600 } else { 700 };
    for chunk in 0..(big / 20) {
        ctx.case(
            || format!("split axis of {}..={} elements, up to 64 ranks", chunk * 20 + 1, chunk * 20 + 20),
            |c| {
                for n in chunk * 20 + 1..=chunk * 20 + 20 {
                    for p in 1..=n.min(64) {
                        config(c, [n, n + 1 + n % 3], p, &some_ranks(p, 4));
                        if c.failed() {
                            return;
                        }
                    }
                }
            },
        );
    }
    ctx.group("large grids");
    // up to 2^31 - 1 elements, the most that MPI counts can express
    for n in [[46340, 46341], [65536, 32767], [32767, 65536], [65535, 32768], [1 << 20, 2047], [2047, 1 << 20], [257, 255], [256, 256], [300, 70000], [40000, 40001], [70001, 300], [4097, 4095], [1 << 16, 1 << 14], [2147483, 999]] {
        ctx.case(
            || format!("grid {n:?}"),
            |c| {
                let top: usize = n.iter().copied().min().unwrap();
                for p in (1..=if th { 256 } else { 96 }).chain([128, 255, 256, 257, 511, 512]).filter(|p| *p <= top) {
                    config(c, n, p, &some_ranks(p, 3));
                    if c.failed() {
                        return;
                    }
                }
            },
        );
    }
    ctx.group("arguments");
    ctx.case(
        || "contiguous axis out of range".into(),
        |c| {
            for n in 1..=6usize {
                for p in 1..=n {
                    for r in 0..p {
                        for axis in [2, 3, usize::MAX] {
                            let x = catch_unwind(AssertUnwindSafe(|| Distribution::new([n, n], p, r, axis)));
                            c.step(1);
                            c.check(x.is_err(), || format!("contiguous axis {axis} was accepted"));
                        }
                        for axis in [0usize, 1] {
                            c.check(catch_unwind(AssertUnwindSafe(|| Distribution::new([n, n], p, r, axis))).is_ok(), || format!("contiguous axis {axis} was refused"));
                        }
                    }
                }
            }
            c.trace(1);
        },
    );
    ctx.group("splitting arrays");
    let m = if th { 10 } else { 8 };
    for nx in 1..=m {
        for ny in 1..=m {
            ctx.case(|| format!("split {nx} x {ny}"), |c| split_case::<f64>(c, nx, ny, &LAYS));
        }
    }
    for (nx, ny) in [(4, 6), (7, 5), (1, 3), (6, 6)] {
        ctx.case(|| format!("split {nx} x {ny} i32"), |c| split_case::<i32>(c, nx, ny, &LAYS[..2]));
        ctx.case(|| format!("split {nx} x {ny} complex"), |c| split_case::<num_complex::Complex<f64>>(c, nx, ny, &LAYS[..2]));
    }
    for (nx, ny) in [(65, 33), (33, 130), (257, 16), (64, 64)] {
        ctx.case(|| format!("split {nx} x {ny}"), |c| split_case::<f64>(c, nx, ny, &LAYS[..1]));
    }
}

fn split_case<T: El>(c: &mut Case, nx: usize, ny: usize, lays: &[Lay]) {
    let top = nx.min(ny).min(8);
    for p in 1..=top {
        let g = global::<T>(nx, ny, 0);
        let r = each_alone(p, &|u, r| {
            let d = Decomp2d::new(u, [nx, ny]);
            if d.nprocs as usize != p || d.nrank as usize != r || d.n_global != [nx, ny] || d.get_global_shape() != [nx, ny] {
                return Err(format!("decomposition reports {} ranks, rank {}, grid {:?}", d.nprocs, d.nrank, d.n_global));
            }
            tables(&d.x_pencil, [nx, ny], p, r, 0)?;
            tables(&d.y_pencil, [nx, ny], p, r, 1)?;
            alltoall(&d.x_pencil, &d.y_pencil, p, "x to y")?;
            alltoall(&d.y_pencil, &d.x_pencil, p, "y to x")?;
            if d.get_x_pencil_shape() != d.x_pencil.sz || d.get_y_pencil_shape() != d.y_pencil.sz {
                return Err("pencil shapes differ from the tables".into());
            }
            let (wx, wy) = (block(&g, d.x_pencil.st, d.x_pencil.sz), block(&g, d.y_pencil.st, d.y_pencil.sz));
            for &lay in lays {
                let h = Held::new(&g, lay);
                same("split_array_x_pencil", &d.split_array_x_pencil(&h.view()), &wx)?;
                same("split_array_y_pencil", &d.split_array_y_pencil(&h.view()), &wy)?;
                same("split_array (x)", &d.x_pencil.split_array(&h.view()), &wx)?;
                same("split_array (y)", &d.y_pencil.split_array(&h.view()), &wy)?;
                for (dist, w) in [(&d.x_pencil, &wx), (&d.y_pencil, &wy)] {
                    let mut o = Held::new(&stale::<T>(dist.sz), lay);
                    dist.split_array_inplace(&h.view(), &mut o.view_mut());
                    o.expect("split_array_inplace", w)?;
                }
                h.expect("the global array after splitting", &g)?;
            }
            // shapes
            for (dist, other) in [(&d.x_pencil, &d.y_pencil), (&d.y_pencil, &d.x_pencil)] {
                let mut cand = vec![dist.sz, [dist.sz[1], dist.sz[0]], other.sz, [nx, ny], [0, 0], [1, dist.length()], [dist.length(), 1]];
                for a in 0..=2usize {
                    for b in 0..=2usize {
                        cand.push([(dist.sz[0] + a).saturating_sub(1), (dist.sz[1] + b).saturating_sub(1)]);
                    }
                }
                for q in cand {
                    let ok = catch_unwind(AssertUnwindSafe(|| dist.check_shape(&Array2::<T>::zeros(q)))).is_ok();
                    if ok != (q == dist.sz) {
                        return Err(format!("check_shape of {q:?} against {:?} {}", dist.sz, if ok { "passes" } else { "fails" }));
                    }
                }
            }
            Ok(())
        });
        c.state(p as u64);
        c.step((p * lays.len() * 6) as u64);
        c.trace(p as u64);
        if let Err(m) = r {
            return c.fail(format!("{nx} x {ny}, {}: {m}", T::NAME));
        }
    }
}
