//! C02: determinant = Leibniz expansion.
use mc::adapt::*;
use mc::refm::*;
use mc::scal::*;
use mc::*;

/// decide det on one matrix in one precision
fn one<T: Fl, M: Fx<T, N>, const N: usize>(a: &A<N>, r: &mut Rec) {
    let t: [[T; N]; N] = of_m(a);
    let back = to_m(&t);
    let (d, s) = det(&back);
    if T::EPS > 1e-10 {
        // intermediate products must stay in range in single precision
        let hi = maxabs(&back).max(1.0).powi(N as i32);
        let lo = back.as_flattened().iter().filter(|x| **x != 0.0).fold(1.0f64, |m, x| m.min(x.abs())).powi(N as i32);
        if (hi > 1e34 || lo < 1e-30) && !mats::in_range_products(&back, 1e34, 1e-30) {
            return;
        }
    }
    let g = M::fmk(t).det_().to();
    r.check("determinant equals the Leibniz sum", le((g - d).abs(), 64.0 * (N * N) as f64 * T::EPS * s), || {
        format!("{} {}x{} det({:?}) = {:e}, expected {:e}", T::NAME, N, N, back, g, d)
    });
    // integer entries whose products and partial sums all fit the format: nothing may be lost
    if back.as_flattened().iter().all(|x| x.fract() == 0.0) && mats::exact(&back, s, if T::EPS > 1e-10 { 24 } else { 53 }) {
        r.class("exact integers");
        r.check("the determinant of integer entries is exact", g == d, || format!("{} {}x{} det({:?}) = {:e}, expected {:e}", T::NAME, N, N, back, g, d));
    }
}
fn both<M64: Fx<f64, N>, M32: Fx<f32, N>, const N: usize>(a: &A<N>, r: &mut Rec) {
    one::<f64, M64, N>(a, r);
    one::<f32, M32, N>(a, r);
}

fn size<M64: Fx<f64, N> + Sync, M32: Fx<f32, N>, MT: Fx<Tr, N>, const N: usize>(c: &Ctx)
{
    let cells = N * N;
    let id = |s: &str| format!("{}x{} {}", N, N, s);
    // is the code a branch-free polynomial of total degree <= N? (evidence only: if so the lattice decides all inputs)
    trace_reset();
    let mut worst = 0;
    for (_, a) in fam::bases::<N>() {
        let t: [[Tr; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| Tr::var(a[i][j])));
        worst = worst.max(MT::fmk(t).det_().deg);
    }
    let l = trace_take();
    if worst <= N as u32 && l.comparisons == 0 {
        c.note(format!("{0}x{0}: executed with degree-tracking scalars the code is branch-free and polynomial of total degree {1}, so agreement on the principal lattice of order {0} decides the formula for every input", N, worst));
    } else {
        c.note(format!("{0}x{0}: not certified as a branch-free polynomial (degree {1}, {2} comparisons); the lattice and family spaces are bounded evidence", N, worst, l.comparisons));
    }
    // principal lattice of order N in N*N variables
    c.space(&id("principal lattice"), lattice_size(cells, N), |i, r| {
        let mut p = vec![0u8; cells];
        lattice_point(cells, N, i, &mut p);
        let a: A<N> = std::array::from_fn(|x| std::array::from_fn(|y| p[x * N + y] as f64));
        r.key(hash_u(N as u64, &[i, 1]));
        r.sample(|| format!("{:?}", a));
        one::<f64, M64, N>(&a, r);
    });
    // signed permutation matrices
    let ps = fam::perms(N);
    c.space(&id("signed permutations"), (ps.len() << N) as u64, |i, r| {
        let mut d = Dec(i);
        let p = d.pick(&ps);
        let m = d.0;
        let mut a = zero::<N>();
        for k in 0..N {
            a[k][p[k]] = if m >> k & 1 == 1 { -(k as f64 + 2.0) } else { k as f64 + 2.0 };
        }
        r.key(hash_u(N as u64, &[i, 2]));
        both::<M64, M32, N>(&a, r);
    });
    // structured bases with at most k changed entries
    let bs = fam::bases::<N>();
    let vals = [0.0, 1.0, -1.0, 7.0, -0.5];
    let k = if N <= 4 { 3 } else { c.qt(2, 3) };
    let per = fam::dev_count(cells as u64, vals.len() as u64, k);
    c.space(&id("bases, bounded changes"), per * bs.len() as u64, |i, r| {
        let (n, a0) = &bs[(i % bs.len() as u64) as usize];
        let mut dv = Vec::new();
        fam::dev_at(cells as u64, vals.len() as u64, i / bs.len() as u64, &mut dv);
        let mut a = *a0;
        for (cell, v) in dv {
            a[cell / N][cell % N] = vals[v];
        }
        r.key(hash_f(N as u64, a.as_flattened()));
        r.sample(|| format!("{} {:?}", n, a));
        both::<M64, M32, N>(&a, r);
    });
    // the same bases at every magnitude, rows or columns scaled alone or all together
    let mag = [300.0, 1e-4, 1e-2, 77.0, 1e3, 1e4, 1e6, 1e-6, 1e-7, 1e9, 1e-9, 1e11, 1e-11, 1e13, 1e15, 1e-14, 1e-15, 1e-18, 1e19, 1e-24, 1e24, 1e30, 1e-28, 1e-30, 1e45, 1e-40];
    c.space(&id("bases at every magnitude"), (bs.len() * mag.len() * (2 * N + 1)) as u64, |i, r| {
        let mut d = Dec(i);
        let s = *d.pick(&mag);
        let k = d.take(2 * N + 1);
        let (_, b) = d.pick(&bs);
        let mut a = *b;
        for x in 0..N { for y in 0..N { if k == 2 * N || k == x || k == N + y { a[x][y] *= s } } }
        r.key(hash_u(N as u64, &[i, 4]));
        both::<M64, M32, N>(&a, r);
    });
    mats::near::<N>(c, both::<M64, M32, N>);
    mats::grids::<N>(c, both::<M64, M32, N>);
    // scaled bases, transposition, row exchange and multiplicativity between pairs of bases
    let sc = fam::SCALES;
    c.space(&id("scaled pairs"), (bs.len() * bs.len() * sc.len()) as u64, |i, r| {
        let mut d = Dec(i);
        let s = *d.pick(&sc);
        let (na, a) = d.pick(&bs);
        let (nb, b) = d.pick(&bs);
        r.key(hash_u(N as u64, &[i, 3]));
        r.class(if s == 1.0 { "scale one" } else { "scaled" });
        let a = scale(a, s);
        both::<M64, M32, N>(&a, r);
        let da = M64::fmk(a).det_();
        let db = M64::fmk(*b).det_();
        let (_, sa) = det(&a);
        let (_, sb) = det(b);
        let ab = mul(&a, b);
        let dab = M64::fmk(ab).det_();
        let tol = 1e-10 * (sa * sb).max(det(&mul(&absm(&a), &absm(b))).1);
        r.check("det(AB) = det(A) det(B)", le((dab - da * db).abs(), tol), || format!("{} x {} at scale {}: {} vs {}", na, nb, s, dab, da * db));
        let dt = M64::fmk(tr(&a)).det_();
        r.check("det(A^T) = det(A)", le((dt - da).abs(), 1e-12 * sa), || format!("{}: {} vs {}", na, dt, da));
        let mut sw = a;
        sw.swap(0, N - 1);
        let ds = M64::fmk(sw).det_();
        r.check("row exchange flips the sign", le((ds + da).abs(), 1e-12 * sa), || format!("{}: {} vs {}", na, ds, da));
    });
}

fn full<M64: Fx<f64, N>, const N: usize>(c: &Ctx, name: &str, vals: &[f64]) {
    let cells = N * N;
    let n = (vals.len() as u64).pow(cells as u32);
    c.space(name, n, |i, r| {
        let mut d = Dec(i);
        let mut a = zero::<N>();
        for k in 0..cells {
            a[k / N][k % N] = *d.pick(vals);
        }
        r.key(hash_u(100 + N as u64, &[i]));
        one::<f64, M64, N>(&a, r);
    });
}

fn main() {
    run(
        "C02",
        "exploration",
        "every matrix of each enumerated space (principal lattice {x in N^(n*n): sum x <= n}, which determines a polynomial of degree n; all signed permutation matrices; structured base matrices with at most 2 (3 thorough) entries changed; full entry alphabets at small sizes; scaled pairs) is evaluated with the real determinant code and compared with the Leibniz sum; non-trivial: every case (distinct matrices)",
        &["tolerance 64 n^2 eps times the sum of |Leibniz terms|", "principal-lattice completeness needs the code to be a branch-free polynomial of degree <= n, which the run certifies with degree-tracking scalars and reports in notes; otherwise the result is bounded to the listed spaces"],
        |c| {
            size::<M22<f64>, M22<f32>, M22<Tr>, 2>(c);
            size::<M33<f64>, M33<f32>, M33<Tr>, 3>(c);
            size::<M44<f64>, M44<f32>, M44<Tr>, 4>(c);
            size::<M55<f64>, M55<f32>, M55<Tr>, 5>(c);
            size::<M66<f64>, M66<f32>, M66<Tr>, 6>(c);
            full::<M22<f64>, 2>(c, "2x2 all entries in -3..3", &[-3., -2., -1., 0., 1., 2., 3.]);
            full::<M33<f64>, 3>(c, "3x3 all entries in -1..1", &[0., 1., -1.]);
            full::<M44<f64>, 4>(c, "4x4 all 0/1 matrices", &[0., 1.]);
            full::<M33<f64>, 3>(c, "3x3 all entries in -2..2", &[-2., -1., 0., 1., 2.]);
            if c.thorough() {
                full::<M33<f64>, 3>(c, "3x3 all entries in -3..3", &[-3., -2., -1., 0., 1., 2., 3.]);
                full::<M44<f64>, 4>(c, "4x4 all entries in -1..1", &[0., 1., -1.]);
                full::<M55<f64>, 5>(c, "5x5 all 0/1 matrices", &[0., 1.]);
            }
        },
    );
}
