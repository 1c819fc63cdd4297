//! C04: QR factorisation.
use mc::adapt::*;
use mc::refm::*;
use mc::*;

fn one<T: Fl, M: Fx<T, N>, const N: usize>(a: &A<N>, r: &mut Rec) {
    let t: [[T; N]; N] = of_m(a);
    let b = to_m(&t);
    let single = T::EPS > 1e-10;
    if !mats::in_range(&b, single) && !mats::in_range_balanced(&b, single) { return }
    let (d, s) = det(&b);
    let noise = 64.0 * (N * N) as f64 * T::EPS * s;
    let got = M::fmk(t).qr_();
    if d == 0.0 && mats::exact(&b, s, if single { 24 } else { 53 }) || d.abs() + noise < 0.5 * T::EPS {
        r.class("singular");
        r.check("no factorisation of a singular matrix", got.is_none(), || format!("{} {:?} has determinant {:e}", T::NAME, b, d));
        return;
    }
    if d.abs() <= 4.0 * T::EPS + 4.0 * noise { return }
    let (q, u) = match got {
        Some((q, u)) => (to_m(&q.farr()), to_m(&u.farr())),
        None => {
            r.check("a non-singular matrix is factored", false, || format!("{} {:?} has determinant {:e}", T::NAME, b, d));
            return;
        }
    };
    // columns may be rescaled without changing Q: condition of the column-normalised matrix
    let mut cn = b;
    let cols: Vec<f64> = (0..N).map(|j| nrm(&(0..N).map(|i| b[i][j]).collect::<Vec<_>>())).collect();
    for i in 0..N { for j in 0..N { cn[i][j] /= cols[j] } }
    let (ad, _) = adj(&cn);
    let kappa = maxabs(&ad) * N as f64 * N as f64 / det(&cn).0.abs();
    let tol = 100.0 * (N * N) as f64 * T::EPS * (1.0 + kappa * kappa);
    if !(tol < 0.02) {
        r.class("too ill-conditioned to judge");
        return;
    }
    r.class("factored");
    r.check("Q is orthogonal", le(dist(&mul(&tr(&q), &q), &ident()), tol) && le(dist(&mul(&q, &tr(&q)), &ident()), tol), || format!("{} {:?}: Q={:?} (tolerance {:e})", T::NAME, b, q, tol));
    let p = mul(&q, &u);
    let ok = (0..N).all(|j| (0..N).all(|i| le((p[i][j] - b[i][j]).abs(), tol * cols[j])));
    r.check("Q*R gives the matrix back", ok, || format!("{} {:?}: Q*R={:?}", T::NAME, b, p));
    let ok = (0..N).all(|j| (j + 1..N).all(|i| le(u[i][j].abs(), tol * cols[j])));
    r.check("R is upper triangular", ok, || format!("{} {:?}: R={:?}", T::NAME, b, u));
    r.check("R has no zero on the diagonal", (0..N).all(|i| u[i][i] != 0.0), || format!("{} {:?}: R={:?}", T::NAME, b, u));
}

fn size<M64: Fx<f64, N> + Sync, M32: Fx<f32, N>, const N: usize>(c: &Ctx) {
    let both = |a: &A<N>, r: &mut Rec| {
        one::<f64, M64, N>(a, r);
        one::<f32, M32, N>(a, r);
    };
    mats::matrices::<N>(c, N - 1, if N <= 4 { (3, 3) } else if N == 5 { (2, 3) } else { (2, 2) }, both);
}

fn main() {
    run(
        "C04",
        "exploration",
        "every matrix of each enumerated family is factored by the real code in both precisions; orthogonality of Q on both sides, shape of R and Q*R = A are decided by plain loops, and absence on singular matrices; non-trivial: distinct matrices",
        &["tolerance 100 n^2 eps (1 + k^2), k the condition of the column-normalised matrix (classical Gram-Schmidt bound); matrices where this exceeds 0.02 are only checked for presence", "absence is demanded only where the determinant is exactly zero without rounding or certainly below eps/2"],
        |c| {
            size::<M22<f64>, M22<f32>, 2>(c);
            size::<M33<f64>, M33<f32>, 3>(c);
            size::<M44<f64>, M44<f32>, 4>(c);
            size::<M55<f64>, M55<f32>, 5>(c);
            size::<M66<f64>, M66<f32>, 6>(c);
            let b2 = |a: &A<2>, r: &mut Rec| { one::<f64, M22<f64>, 2>(a, r); one::<f32, M22<f32>, 2>(a, r) };
            let b3 = |a: &A<3>, r: &mut Rec| { one::<f64, M33<f64>, 3>(a, r); one::<f32, M33<f32>, 3>(a, r) };
            let b4 = |a: &A<4>, r: &mut Rec| { one::<f64, M44<f64>, 4>(a, r); one::<f32, M44<f32>, 4>(a, r) };
            mats::alphabet::<2>(c, &[0., 1., -1., 2., -2., 3., 0.5, -0.25], b2);
            mats::alphabet::<3>(c, &[0., 1., -1.], b3);
            mats::alphabet::<4>(c, &[0., 1.], b4);
            mats::alphabet::<3>(c, &[0., 1., -1., 2., -2.], b3);
            if c.thorough() {
                mats::alphabet::<5>(c, &[0., 1.], |a, r| one::<f64, M55<f64>, 5>(a, r));
                mats::alphabet::<4>(c, &[0., 1., -1.], |a, r| one::<f64, M44<f64>, 4>(a, r));
            }
        },
    );
}
