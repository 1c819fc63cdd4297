//! C03: inverse.
use mc::adapt::*;
use mc::refm::*;
use mc::*;

fn one<T: Fl, M: Fx<T, N>, const N: usize>(a: &A<N>, r: &mut Rec) {
    let t: [[T; N]; N] = of_m(a);
    let b = to_m(&t);
    let single = T::EPS > 1e-10;
    if !mats::in_range(&b, single) && !mats::in_range_balanced(&b, single) { return }
    let (d, s) = det(&b);
    let noise = 64.0 * (N * N) as f64 * T::EPS * s;
    let got = M::fmk(t).inv_();
    let again = M::fmk(t).inv_();
    r.check("same result when called again", got.map(|m| m.farr()) == again.map(|m| m.farr()) , || format!("{} {:?}", T::NAME, b));
    if d == 0.0 && mats::exact(&b, s, if single { 24 } else { 53 }) || d.abs() + noise < 0.5 * T::EPS {
        r.class("singular");
        r.check("no inverse when the determinant is zero", got.is_none(), || format!("{} {:?} has determinant {:e} but inverse {:?}", T::NAME, b, d, got));
        return;
    }
    if d.abs() <= 4.0 * T::EPS + 4.0 * noise { return }
    r.class("invertible");
    let x = match got {
        Some(x) => to_m(&x.farr()),
        None => {
            r.check("an inverse exists when the determinant is not zero", false, || format!("{} {:?} has determinant {:e}", T::NAME, b, d));
            return;
        }
    };
    let (ad, asum) = adj(&b);
    let e = scale(&ad, 1.0 / d);
    let mut worst: f64 = 0.0;
    let mut tolm = zero::<N>();
    for i in 0..N { for j in 0..N {
        let tol = (64.0 * (N * N) as f64 * T::EPS * asum[i][j] + e[i][j].abs() * noise + 64.0 * T::EPS * ad[i][j].abs()) / d.abs() * 1.25;
        tolm[i][j] = tol;
        let q = (x[i][j] - e[i][j]).abs() / (tol + 1e-300);
        if !(q <= worst) { worst = q }
    } }
    r.check("inverse equals adjugate over determinant", worst <= 1.0, || format!("{} inverse of {:?} = {:?}, expected {:?}", T::NAME, b, x, e));
    // both products against the identity, within what the entrywise tolerance allows
    for (key, p, t) in [("A * inverse = 1", mul(&b, &x), mul(&absm(&b), &tolm)), ("inverse * A = 1", mul(&x, &b), mul(&tolm, &absm(&b)))] {
        let ok = (0..N).all(|i| (0..N).all(|j| le((p[i][j] - (i == j) as u8 as f64).abs(), 1.01 * t[i][j] + 1e-12)));
        r.check(key, ok, || format!("{} A={:?} product {:?}", T::NAME, b, p));
    }
}

fn size<M64: Fx<f64, N> + Sync, M32: Fx<f32, N>, const N: usize>(c: &Ctx) {
    let both = |a: &A<N>, r: &mut Rec| {
        one::<f64, M64, N>(a, r);
        one::<f32, M32, N>(a, r);
    };
    let order = N - 1;
    mats::matrices::<N>(c, order, if N <= 4 { (3, 3) } else if N == 5 { (2, 3) } else { (2, 2) }, both);
    // small but clear determinants, large ones, and extreme finite entries
    let bs = fam::bases::<N>();
    let sc: Vec<f64> = vec![1e-2, 1e-3, 1e-4, 1e-5, 3e-6, 1e-7, 1e-8, 1e-10, 1e-12, 1e-14, 3e-15];
    c.space(&format!("{0}x{0} small determinants", N), (bs.len() * sc.len() * N) as u64, |i, r| {
        let mut d = Dec(i);
        let s = *d.pick(&sc);
        let k = d.take(N);
        let (_, b) = d.pick(&bs);
        let dt = det(b).0;
        let mut a = *b;
        if dt != 0.0 {
            // one row rescaled so that the determinant is s
            for j in 0..N { a[k][j] *= s / dt }
        }
        r.key(hash_u(N as u64, &[i, 5]));
        both(&a, r);
    });
    let ext = [1e300, -1e300, f64::MAX, f64::MIN_POSITIVE, 1e-310, 5e-324, 1e154, 1e-154];
    c.space(&format!("{0}x{0} extreme finite entries", N), (bs.len() * ext.len() * (N * N + 1)) as u64, |i, r| {
        let mut d = Dec(i);
        let v = *d.pick(&ext);
        let k = d.take(N * N + 1);
        let (_, b) = d.pick(&bs);
        let mut a = *b;
        if k == N * N { a = scale(&a, v / 64.0) } else { a[k / N][k % N] = v }
        r.key(hash_u(N as u64, &[i, 6]));
        let t: [[f32; N]; N] = of_m(&a);
        // reaching here without a panic is the property
        let x = M64::fmk(a).inv_();
        let y = M32::fmk(t).inv_();
        std::hint::black_box((x, y));
    });
}

fn main() {
    run(
        "C03",
        "exploration",
        "every matrix of each enumerated family is inverted by the real code in both precisions; the result is compared entry by entry with adjugate/determinant computed by Leibniz sums, both products with the identity, and zero determinants with absence; non-trivial: distinct matrices",
        &["tolerance 80 n^2 eps times the sums of |cofactor terms| over |det| (forward error of cofactor inversion)", "absence is demanded only where the determinant is exactly zero without any rounding, or certainly below eps/2; presence where |det| exceeds 4 eps and the rounding noise"],
        |c| {
            size::<M22<f64>, M22<f32>, 2>(c);
            size::<M33<f64>, M33<f32>, 3>(c);
            size::<M44<f64>, M44<f32>, 4>(c);
            size::<M55<f64>, M55<f32>, 5>(c);
            size::<M66<f64>, M66<f32>, 6>(c);
            let b2 = |a: &A<2>, r: &mut Rec| { one::<f64, M22<f64>, 2>(a, r); one::<f32, M22<f32>, 2>(a, r) };
            let b3 = |a: &A<3>, r: &mut Rec| { one::<f64, M33<f64>, 3>(a, r); one::<f32, M33<f32>, 3>(a, r) };
            let b4 = |a: &A<4>, r: &mut Rec| { one::<f64, M44<f64>, 4>(a, r); one::<f32, M44<f32>, 4>(a, r) };
            mats::alphabet::<2>(c, &[0., 1., -1., 2., -2., 3., 0.5, -0.25], b2);
            mats::alphabet::<3>(c, &[0., 1., -1.], b3);
            mats::alphabet::<4>(c, &[0., 1.], b4);
            mats::alphabet::<3>(c, &[0., 1., -1., 2., -2.], b3);
            if c.thorough() {
                mats::alphabet::<5>(c, &[0., 1.], |a, r| one::<f64, M55<f64>, 5>(a, r));
                mats::alphabet::<4>(c, &[0., 1., -1.], |a, r| one::<f64, M44<f64>, 4>(a, r));
            }
        },
    );
}
