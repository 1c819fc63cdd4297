//! C09: real eigenvalues of 2x2 matrices.
use mc::adapt::*;
use mc::refm::*;
use mc::*;

fn one<T: Fl>(a: &A<2>, r: &mut Rec) {
    let t: [[T; 2]; 2] = of_m(a);
    let b = to_m(&t);
    let m = maxabs(&b);
    if T::EPS > 1e-10 && (m > 1e17 || (m != 0.0 && m < 1e-15)) || m > 1e120 || (m != 0.0 && m < 1e-120) { return }
    // products of two entries neither vanish nor overflow
    let bc = (b[0][1] * b[1][0]).abs();
    if bc != 0.0 && !(if T::EPS > 1e-10 { 1e-30..1e34 } else { 1e-240..1e240 }).contains(&bc) { return }
    let (tau, det) = (b[0][0] + b[1][1], b[0][0] * b[1][1] - b[0][1] * b[1][0]);
    // discriminant as (a-d)^2 + 4bc, and its rounding noise in the implementation's precision
    let disc = (b[0][0] - b[1][1]).powi(2) + 4.0 * b[0][1] * b[1][0];
    let noise = 64.0 * T::EPS * (b[0][0].abs() + b[1][1].abs()).powi(2) + 64.0 * T::EPS * 4.0 * (b[0][1] * b[1][0]).abs() * 2.0;
    let g = M22::new(t).real_eigenvals();
    let w = || format!("{} {:?} (discriminant {:e}) gave {:?}", T::NAME, b, disc, g);
    // integers small enough to be exact leave no noise
    let exact = b.as_flattened().iter().all(|x| x.fract() == 0.0 && x.abs() <= if T::EPS > 1e-10 { 500.0 } else { 1e6 });
    if disc < -noise || exact && disc < 0.0 {
        r.class("complex");
        r.check("complex eigenvalues are reported as none", g.is_none(), w);
    } else if disc > noise || exact {
        r.class(if disc == 0.0 { "double" } else { "real" });
        if r.check("real eigenvalues are returned", g.is_some(), w) {
            let v = g.unwrap();
            let (x, y) = (v[0].to(), v[1].to());
            let s = (tau.abs() + disc.abs().sqrt()) / 2.0 + m;
            // the square root amplifies the discriminant's noise
            let amp = if exact { 32.0 * T::EPS * s } else { 32.0 * T::EPS * s + (disc + noise).sqrt() - disc.max(0.0).sqrt() };
            r.check("sum of the eigenvalues is the trace", le((x + y - tau).abs(), 32.0 * T::EPS * s), w);
            r.check("product of the eigenvalues is the determinant", le((x * y - det).abs(), 4.0 * amp * s + 64.0 * T::EPS * s * s), w);
            let e = [(tau + disc.max(0.0).sqrt()) / 2.0, (tau - disc.max(0.0).sqrt()) / 2.0];
            r.check("both eigenvalues are returned", le((x.max(y) - e[0]).abs(), amp) && le((x.min(y) - e[1]).abs(), amp), w);
        }
    } else {
        r.class("discriminant within rounding of zero");
    }
}
fn both(a: &A<2>, r: &mut Rec) { one::<f64>(a, r); one::<f32>(a, r) }

fn main() {
    run(
        "C09",
        "exploration",
        "every 2x2 matrix of each enumerated space is solved by the real routine in both precisions and judged against trace, determinant and the quadratic formula on (a-d)^2+4bc; non-trivial: distinct matrices",
        &["matrices whose discriminant is within its own rounding noise of zero are judged only when all arithmetic is exact (integers)"],
        |c| {
            let n = c.qt(14i64, 26);
            let v: Vec<f64> = (-n..=n).map(|x| x as f64).collect();
            mats::alphabet::<2>(c, &v, both);
            mats::alphabet::<2>(c, &[0.0, 0.5, -0.1, 1e-3, -1e-6, 1e3, 1e6, -1e5, 0.3, 2.0, -7.5, 1e-9, 1.0], both);
            mats::matrices::<2>(c, 2, (2, 3), both);
            let sh = fam::shapes::<4>();
            let sc = [1.0, 0.1, 1e-5, 3e6, -0.7];
            c.space("components of every structure", (sh.len() * sc.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let (s, a) = (*d.pick(&sc), *d.pick(&sh));
                r.key(hash_u(9, &[i]));
                both(&[[a[0] * s, a[1] * s], [a[2] * s, a[3] * s]], r);
            });
            // every order of magnitude, of the matrix and of its off-diagonal entries against each other
            let ms = [1e-110, 1e-60, 1e-40, 1e-25, 1e-17, 1e-14, 1e-13, 1e-11, 1e-10, 1e-8, 1e-6, 1e-5, 1e-4, 1e-3, 0.03, 0.3, 5.0, 40.0, 1e3, 1e4, 1e5, 1e7, 1e8, 1e10, 1e12, 1e14, 1e17, 1e25, 1e40, 1e60, 1e110];
            let es = [0.0, 1.0, -1.0, 2.0, -0.5, 3.0, -7.0];
            let bl = [1.0, 1e-3, 1e3, 1e-6, 1e7, 1e-12];
            c.space("magnitudes", (7u64.pow(4)) * (ms.len() * bl.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let s = *d.pick(&ms);
                let t = *d.pick(&bl);
                let e: [f64; 4] = std::array::from_fn(|_| *d.pick(&es));
                let a = [[e[0] * s, e[1] * s * t], [e[2] * s / t, e[3] * s]];
                r.key(hash_u(4, &[i]));
                both(&a, r);
                // shear that couples with a tiny diagonal
                let a = [[e[0] * s, e[1]], [e[2] * s * s, e[3] * s]];
                both(&a, r);
            });
            // near-double eigenvalues approached from both sides
            let ds = [0.0, 1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8];
            let us = [-3.0, -1.0, 0.5, 1.0, 2.0, 100.0];
            c.space("near-double eigenvalues", (ds.len() * us.len() * us.len() * 4) as u64, |i, r| {
                let mut d = Dec(i);
                let e = *d.pick(&ds);
                let (u, k) = (*d.pick(&us), *d.pick(&us));
                let s = d.take(4);
                let e = if s & 1 == 1 { -e } else { e };
                // trace 2u, determinant u^2 - e, shear k
                let a = if s & 2 == 2 { [[u, k], [e / k, u]] } else { [[u + k, -k * k + e], [1.0, u - k]] };
                r.key(hash_f(3, a.as_flattened()));
                both(&a, r);
            });
        },
    );
}
