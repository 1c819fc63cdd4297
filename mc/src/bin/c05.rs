//! C05: LU decomposition with row exchanges.
use mc::adapt::*;
use mc::refm::*;
use mc::*;

fn one<T: Fl, M: Fx<T, N>, const N: usize>(a: &A<N>, r: &mut Rec) {
    let t: [[T; N]; N] = of_m(a);
    let b = to_m(&t);
    let single = T::EPS > 1e-10;
    if !mats::in_range(&b, single) && !mats::in_range_balanced(&b, single) { return }
    let (d, s) = det(&b);
    // rows scaled to one: condition of the equilibrated matrix decides what "non-singular" can mean
    let mut e = b;
    let mut lo = f64::INFINITY;
    let mut hi: f64 = 0.0;
    for i in 0..N {
        let m = b[i].iter().fold(0.0f64, |m, x| m.max(x.abs()));
        if m == 0.0 { r.class("zero row (documented panic)"); return }
        lo = lo.min(m);
        hi = hi.max(m);
        for j in 0..N { e[i][j] /= m }
    }
    let (de, se) = det(&e);
    if !(de.abs() > 64.0 * (N * N) as f64 * T::EPS * se.max(1e-3)) { r.class("numerically singular"); return }
    let (lu, dd, idx) = M::fmk(t).lu_();
    let lu = to_m(&lu.farr());
    let dd = dd.to();
    r.class("decomposed");
    if !r.check("the exchange record names rows", (0..N).all(|k| idx[k] < N), || format!("{} {:?}: {:?}", T::NAME, b, idx)) { return }
    let mut l = ident::<N>();
    let mut u = zero::<N>();
    for i in 0..N { for j in 0..N { if i > j { l[i][j] = lu[i][j] } else { u[i][j] = lu[i][j] } } }
    let mut p = mul(&l, &u);
    for k in (0..N).rev() { p.swap(k, idx[k]) }
    // pivoting keeps the factors small: the residual is judged relative to the matrix itself, with the
    // spread of row sizes as allowance for scaled pivoting
    let spread = hi / lo;
    let g = 400.0 * N as f64 * T::EPS;
    let tol = g * hi * spread.min(1e3);
    r.check("the triangles multiply back to the row-permuted matrix", le(dist(&p, &b), tol), || format!("{} {:?}: lu={:?} exchanges={:?} give {:?} (tolerance {:e})", T::NAME, b, lu, idx, p, tol));
    let (_, asum) = adj(&b);
    let mut ds = s;
    for i in 0..N { for j in 0..N { ds = ds.max(asum[j][i] * hi * spread.min(1e3)) } }
    r.check("the returned determinant is the determinant", le((dd - d).abs(), g * N as f64 * ds), || format!("{} {:?}: {:e}, expected {:e}", T::NAME, b, dd, d));
    // sign bookkeeping agrees with the record
    let ex = (0..N).filter(|k| idx[*k] != *k).count();
    let prod = (0..N).fold(if ex % 2 == 1 { -1.0 } else { 1.0 }, |m, k| m * u[k][k]);
    r.check("the determinant is the signed product of the pivots", le((dd - prod).abs(), 32.0 * N as f64 * T::EPS * prod.abs()), || format!("{} {:?}: {:e} vs {:e}", T::NAME, b, dd, prod));
}

fn size<M64: Fx<f64, N> + Sync, M32: Fx<f32, N>, const N: usize>(c: &Ctx) {
    let both = |a: &A<N>, r: &mut Rec| {
        one::<f64, M64, N>(a, r);
        one::<f32, M32, N>(a, r);
    };
    mats::matrices::<N>(c, N - 1, if N <= 4 { (3, 3) } else if N == 5 { (2, 3) } else { (2, 2) }, both);
}

fn main() {
    run(
        "C05",
        "exploration",
        "every non-singular matrix without zero rows of each enumerated family is decomposed by the real code in both precisions; the packed triangles are multiplied by plain loops, the recorded exchanges undone, and the result, the determinant and the exchange record decided; non-trivial: distinct matrices",
        &["residual tolerance 400 n eps times the largest entry times the spread of row sizes (at most 1000): growth allowance of scaled partial pivoting", "numerically singular matrices (equilibrated determinant below 1e4 eps) are not judged: the property restricts to non-singular input"],
        |c| {
            size::<M22<f64>, M22<f32>, 2>(c);
            size::<M33<f64>, M33<f32>, 3>(c);
            size::<M44<f64>, M44<f32>, 4>(c);
            size::<M55<f64>, M55<f32>, 5>(c);
            size::<M66<f64>, M66<f32>, 6>(c);
            let b2 = |a: &A<2>, r: &mut Rec| { one::<f64, M22<f64>, 2>(a, r); one::<f32, M22<f32>, 2>(a, r) };
            let b3 = |a: &A<3>, r: &mut Rec| { one::<f64, M33<f64>, 3>(a, r); one::<f32, M33<f32>, 3>(a, r) };
            let b4 = |a: &A<4>, r: &mut Rec| { one::<f64, M44<f64>, 4>(a, r); one::<f32, M44<f32>, 4>(a, r) };
            mats::alphabet::<2>(c, &[0., 1., -1., 2., -2., 3., 0.5, -0.25], b2);
            mats::alphabet::<3>(c, &[0., 1., -1.], b3);
            mats::alphabet::<4>(c, &[0., 1.], b4);
            mats::alphabet::<3>(c, &[0., 1., -1., 2., -2.], b3);
            if c.thorough() {
                mats::alphabet::<5>(c, &[0., 1.], |a, r| one::<f64, M55<f64>, 5>(a, r));
                mats::alphabet::<4>(c, &[0., 1., -1.], |a, r| one::<f64, M44<f64>, 4>(a, r));
            }
        },
    );
}
