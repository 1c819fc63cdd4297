//! Shared enumeration of square matrices for the factorisation checks.
use crate::engine::*;
use crate::fam;
use crate::refm::*;

/// Drive `f` over the standard finite families of N x N matrices. `shift_order`: order of the principal
/// lattice laid around an invertible matrix; `devs`: bounded changes (quick, thorough).
pub fn matrices<const N: usize>(c: &Ctx, shift_order: usize, devs: (u64, u64), f: impl Fn(&A<N>, &mut Rec) + Sync) {
    let cells = N * N;
    let id = |s: &str| format!("{}x{} {}", N, N, s);
    let bs = fam::bases::<N>();
    // lattice around two invertible integer matrices
    for (name, b0) in [("dense small", 11.0), ("no diagonal", 0.0)] {
        let base: A<N> = {
            let mut m = bs.iter().find(|x| x.0 == name).unwrap().1;
            for k in 0..N { m[k][k] += b0; if b0 == 0.0 { m[k][(k + 1) % N] += 17.0 } }
            m
        };
        c.space(&id(&format!("lattice of order {} around {}", shift_order, name)), lattice_size(cells, shift_order), |i, r| {
            let mut p = vec![0u8; cells];
            lattice_point(cells, shift_order, i, &mut p);
            let mut a = base;
            for k in 0..cells { a[k / N][k % N] += p[k] as f64 }
            r.key(hash_u(N as u64 + b0 as u64 * 100, &[i, 1]));
            r.sample(|| format!("{:?}", a));
            f(&a, r);
        });
    }
    let ps = fam::perms(N);
    c.space(&id("signed permutations"), (ps.len() << N) as u64, |i, r| {
        let mut d = Dec(i);
        let p = d.pick(&ps);
        let m = d.0;
        let mut a = zero::<N>();
        for k in 0..N { a[k][p[k]] = if m >> k & 1 == 1 { -(k as f64 * 0.5 + 1.0) } else { k as f64 * 0.5 + 1.0 } }
        r.key(hash_u(N as u64, &[i, 2]));
        f(&a, r);
    });
    let dense: A<N> = bs.iter().find(|x| x.0 == "dense small").unwrap().1;
    c.space(&id("row- and column-permuted dense matrices"), (ps.len() * 2) as u64, |i, r| {
        let p = &ps[(i / 2) as usize];
        let mut a = dense;
        for x in 0..N { for y in 0..N { if i % 2 == 0 { a[x][y] = dense[p[x]][y] } else { a[x][y] = dense[x][p[y]] } } }
        r.key(hash_u(N as u64, &[i, 3]));
        f(&a, r);
    });
    let vals = [0.0, 1.0, -1.0, 7.0, -0.5];
    let k = if c.thorough() { devs.1 } else { devs.0 };
    let per = fam::dev_count(cells as u64, vals.len() as u64, k);
    c.space(&id("bases, bounded changes"), per * bs.len() as u64, |i, r| {
        let (n, a0) = &bs[(i % bs.len() as u64) as usize];
        let mut dv = Vec::new();
        fam::dev_at(cells as u64, vals.len() as u64, i / bs.len() as u64, &mut dv);
        let mut a = *a0;
        for (cell, v) in dv { a[cell / N][cell % N] = vals[v] }
        r.key(hash_f(N as u64, a.as_flattened()));
        r.sample(|| format!("{} {:?}", n, a));
        f(&a, r);
    });
    let sc = [1.0, -1.0, 0.5, 3.0, 16.0, 1.0 / 16.0, 1000.0, 1e-3, 1e6, 1e-6, 1e12, 1e-9];
    c.space(&id("scaled bases"), (bs.len() * sc.len() * 2 * N) as u64, |i, r| {
        let mut d = Dec(i);
        let s = *d.pick(&sc);
        let t = d.take(2);
        let k = d.take(N);
        let (_, b) = d.pick(&bs);
        let mut a = if t == 1 { tr(b) } else { *b };
        // scale the whole matrix (k = 0) or a single row
        if k == 0 { a = scale(&a, s) } else { for j in 0..N { a[k][j] *= s } }
        r.key(hash_u(N as u64, &[i, 4]));
        f(&a, r);
    });
    // every order of magnitude: of the whole matrix, and of rows or columns that make up for each other
    let ms = [1e-60, 1e-40, 1e-30, 1e-21, 1e-17, 1e-14, 1e-13, 1e-11, 1e-10, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.02, 0.25, 4.0, 50.0, 1e3, 2e4, 3e5, 1e7, 1e8, 1e10, 1e12, 1e14, 1e16, 1e17, 1e21, 1e30, 1e40];
    c.space(&id("magnitudes"), (bs.len() * ms.len() * 5) as u64, |i, r| {
        let mut d = Dec(i);
        let s = *d.pick(&ms);
        let k = d.take(5);
        let (_, b) = d.pick(&bs);
        let mut a = *b;
        for x in 0..N { for y in 0..N {
            let p = match k {
                0 => s,
                1 | 2 => { let z = if k == 1 { x } else { y }; if z + 1 == N && N % 2 == 1 { 1.0 } else if z % 2 == 0 { s } else { 1.0 / s } }
                _ => { let z = if k == 3 { x } else { y }; if z == 0 { s } else if z + 1 == N { 1.0 / s } else { 1.0 } }
            };
            a[x][y] *= p;
        } }
        r.key(hash_u(N as u64, &[i, 7]));
        f(&a, r);
    });
    near::<N>(c, &f);
    grids::<N>(c, f);
}

/// matrices of every structure, as they are, transposed and upside down
pub fn grids<const N: usize>(c: &Ctx, f: impl Fn(&A<N>, &mut Rec) + Sync) {
    let g = fam::grids::<N>();
    let m = 6;
    c.space(&format!("{}x{} matrices of every structure", N, N), (g.len() * m) as u64, |i, r| {
        let mut d = Dec(i);
        let (k, x) = (d.take(m), d.pick(&g));
        let a: A<N> = std::array::from_fn(|i| std::array::from_fn(|j| match k {
            0 => x[i][j],
            1 => x[N - 1 - i][(j + 1) % N],
            2 => x[j][i],
            3 => x[i][j] * 0.001,
            4 => x[N - 1 - j][i] * 64.0,
            _ => x[i][(j + 1) % N] + if i == j { 100.0 } else { 0.0 },
        }));
        r.key(hash_f(1000 + N as u64, a.as_flattened()));
        r.sample(|| format!("{:?}", a));
        f(&a, r);
    });
}

/// next to special matrices
pub fn near<const N: usize>(c: &Ctx, f: impl Fn(&A<N>, &mut Rec) + Sync) {
    let near = fam::Near::<N>::new(true);
    c.space(&format!("{}x{} next to special matrices", N, N), near.count(), |i, r| {
        let a = near.at(i);
        r.key(hash_f(900 + N as u64, a.as_flattened()));
        r.sample(|| format!("{:?}", a));
        f(&a, r);
    });
}

/// every matrix with entries in `vals`
pub fn alphabet<const N: usize>(c: &Ctx, vals: &[f64], f: impl Fn(&A<N>, &mut Rec) + Sync) {
    let cells = N * N;
    let n = (vals.len() as u64).pow(cells as u32);
    c.space(&format!("{}x{} every matrix with entries in {:?}", N, N, vals), n, |i, r| {
        let mut d = Dec(i);
        let mut a = zero::<N>();
        for k in 0..cells { a[k / N][k % N] = *d.pick(vals) }
        r.key(hash_u(100 + N as u64 + vals.len() as u64 * 10, &[i]));
        r.sample(|| format!("{:?}", a));
        f(&a, r);
    });
}

/// Can every sub-determinant of `a` be evaluated without any rounding in a format of `bits` bits?
pub fn exact<const N: usize>(a: &A<N>, s: f64, bits: i32) -> bool {
    let mut q = 1.0f64;
    for x in a.as_flattened() {
        while (x / q).fract() != 0.0 { q *= 0.5; if q < 1e-6 { return false } }
    }
    let m = maxabs(a) / q;
    let mut f = 1.0;
    let mut t = 1.0;
    for i in 0..N { t *= m.max(1.0); f *= (i + 1) as f64 }
    let _ = s;
    f * t < 2f64.powi(bits)
}
/// products of N entries stay comfortably inside the format
pub fn in_range<const N: usize>(a: &A<N>, single: bool) -> bool {
    let hi = maxabs(a).max(1.0).powi(N as i32 + 1);
    let lo = a.as_flattened().iter().filter(|x| **x != 0.0).fold(1.0f64, |m, x| m.min(x.abs())).powi(N as i32 + 1);
    if single { hi < 1e34 && lo > 1e-30 } else { hi < 1e280 && lo > 1e-250 }
}
/// the same for products that take one entry from each row or column
pub fn in_range_products<const N: usize>(a: &A<N>, hi0: f64, lo0: f64) -> bool {
    [*a, tr(a)].iter().all(|m| {
        let (mut h, mut l) = (1.0f64, 1.0f64);
        for row in m {
            h *= row.iter().fold(1.0f64, |m, x| m.max(x.abs()));
            l *= row.iter().filter(|x| **x != 0.0).fold(1.0f64, |m, x| m.min(x.abs()));
        }
        h < hi0 && l > lo0
    })
}
/// the same, and products of any two entries
pub fn in_range_balanced<const N: usize>(a: &A<N>, single: bool) -> bool {
    let (hi, lo) = if single { (1e26, 1e-26) } else { (1e250, 1e-250) };
    let small = a.as_flattened().iter().filter(|x| **x != 0.0).fold(1.0f64, |m, x| m.min(x.abs()));
    maxabs(a).powi(2) < hi && small * small > lo && in_range_products(a, hi, lo)
}
