//! C25: rotation predicates and the distance to the rotation group.
use mc::adapt::*;
use mc::fam::*;
use mc::refm::*;
use mc::*;
use static_math::transformations as tf;
use static_math::utils::{is_rotation, is_rotation_h};

fn accept<T: Fl>(m: &M33<T>, p: [f64; 3], ctx: &dyn Fn() -> String, r: &mut Rec) {
    r.check("a rotation is accepted", is_rotation(*m), || format!("{} {}: {:?}", T::NAME, ctx(), m));
    let d = tf::distance_to_manifold(m).to();
    r.check("a rotation is at distance zero", le(d, 64.0 * T::EPS), || format!("{} {}: {:?} at {}", T::NAME, ctx(), m, d));
    let h = tf::homogeneous_from_rotation(m, &v3(p));
    r.check("a homogeneous motion is accepted", is_rotation_h(h), || format!("{} {}: {:?}", T::NAME, ctx(), h));
}
/// residual of the orthogonality from which a matrix is clearly off
fn clear<T: Fl>() -> f64 { if T::EPS < 1e-10 { 1e-5 } else { 0.01 } }
/// distance against its definition, and rejection when the matrix is clearly off
fn other<T: Fl>(a: &A<3>, p: [f64; 3], ctx: &dyn Fn() -> String, r: &mut Rec) {
    let m = m33::<T>(a);
    let a = am33(&m);
    let (d, mag) = det(&a);
    let e = sub(&mul(&a, &tr(&a)), &ident::<3>());
    let f = nrm(e.as_flattened());
    let g = tf::distance_to_manifold(&m).to();
    let amb = d.abs() <= 16.0 * T::EPS * mag && mag > 0.0;
    let ma = maxabs(&mul(&absm(&a), &absm(&tr(&a)))) + 1.0;
    let w = || format!("{} {}: {:?} determinant {} at {}, expected {}", T::NAME, ctx(), a, d, g, f);
    let near = le((g - f).abs(), 64.0 * T::EPS * ma);
    if amb { r.class("determinant within rounding of zero"); r.check("distance is the residual or infinite", near || g == f64::INFINITY, w); }
    else if d > 0.0 { r.class("positive determinant"); r.check("distance is the Frobenius norm of the residual", near, w); }
    else { r.class("determinant not positive"); r.check("distance is infinite without a positive determinant", g == f64::INFINITY, w); }
    let off = f > clear::<T>() || d < 0.5;
    if off {
        r.class("clear non-rotation");
        r.check("a clear non-rotation is rejected", !is_rotation(m), w);
        let h = m44::<T>(&homog(&a, p));
        r.check("a clear non-motion is rejected", !is_rotation_h(h), || format!("{} {}: {:?}", T::NAME, ctx(), h));
    } else if f < 4.0 * T::EPS && d > 0.0 {
        accept(&m, p, ctx, r);
    }
}
fn spoil(k: usize, s: f64) -> A<3> {
    let mut x = ident::<3>();
    match k {
        // shears
        0..=5 => { let (i, j) = [(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)][k]; x[i][j] = s }
        // scalings, one, two and three directions
        6..=8 => x[k - 6][k - 6] = 1.0 + s,
        9..=11 => { for i in 0..3 { if i != k - 9 { x[i][i] = 1.0 + s } } }
        12 => for i in 0..3 { x[i][i] = 1.0 + s },
        // volume-preserving stretches
        13..=15 => { x[k - 13][k - 13] = 1.0 + s; x[(k - 12) % 3][(k - 12) % 3] = 1.0 / (1.0 + s) }
        16..=18 => { let c = (1.0 + s).abs().sqrt(); for i in 0..3 { x[i][i] = if i == k - 16 { 1.0 + s } else { 1.0 / c } } }
        // reflections
        19..=21 => x[k - 19][k - 19] = -1.0 - s * 0.0,
        22 => for i in 0..3 { x[i][i] = -1.0 },
        // a row lost, a row repeated
        23..=25 => x[k - 23] = [0.0; 3],
        26..=28 => x[k - 26] = x[(k - 25) % 3],
        // a rotation in a plane turned into a hyperbolic rotation (determinant one)
        _ => { let (i, j) = [(0, 1), (0, 2), (1, 2)][k - 29]; x[i][i] = s.cosh(); x[j][j] = s.cosh(); x[i][j] = s.sinh(); x[j][i] = s.sinh() }
    }
    x
}

fn main() {
    run(
        "C25",
        "exploration",
        "every rotation of a family (quaternion rotations, signed axis permutations, axis/angle grid) and every product of two, rounded to both precisions, must be accepted; every one of those spoilt by a list of shears, scalings, volume-preserving stretches, reflections and lost rows on either side, all of these at 25 orders of magnitude, every small-integer matrix, and every spoilt last row must be rejected; the distance is compared with its definition on all of them; non-trivial: distinct inputs",
        &["non-rotations are judged when the residual of the orthogonality exceeds 1e-5 (f64) or 0.01 (f32) or the determinant is below one half"],
        |c| {
            let us = unit_quats(2);
            let bo = bin_oct();
            let ts = translations();
            c.space("rotations and products", (us.len() * (1 + bo.len())) as u64, |i, r| {
                let mut d = Dec(i);
                let q = *d.pick(&us);
                let k = d.take(1 + bo.len());
                let p = ts[(i % 10) as usize];
                r.key(hash_u(1, &[i]));
                r.sample(|| format!("{:?} {}", q, k));
                let ctx = || format!("{:?} times {}", q, k);
                let (a, b) = if k == 0 { (m33::<f64>(&qmat(q)), m33::<f32>(&qmat(q))) } else { (m33::<f64>(&qmat(q)) * m33(&qmat(bo[k - 1])), m33::<f32>(&qmat(q)) * m33(&qmat(bo[k - 1]))) };
                accept(&a, p, &ctx, r);
                accept(&b, p, &ctx, r);
                if k == 0 {
                    accept(&qn::<f64>(q).to_rotation(), p, &ctx, r);
                    accept(&qn::<f32>(q).to_rotation(), p, &ctx, r);
                }
            });
            let mut an: Vec<f64> = angles(true);
            an.extend(FAR);
            c.space("elementary and Euler rotations", (an.len() * an.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let (x, y) = (*d.pick(&an), *d.pick(&an));
                let z = an[(i as usize * 7 + 3) % an.len()];
                r.key(hash_u(2, &[i]));
                let ctx = || format!("angles {} {} {}", x, y, z);
                accept(&tf::euler_to_rotation(x, y, z, None), [1.0, 2.0, 3.0], &ctx, r);
                accept(&tf::euler_to_rotation(x as f32, y as f32, z as f32, None), [1.0, 2.0, 3.0], &ctx, r);
                for k in 0..3 {
                    let f = |k: usize| match k { 0 => tf::rotx(x), 1 => tf::roty(x), _ => tf::rotz(x) };
                    let g = |k: usize| match k { 0 => tf::rotx(x as f32), 1 => tf::roty(x as f32), _ => tf::rotz(x as f32) };
                    accept(&f(k), [0.0, y, z], &ctx, r);
                    accept(&g(k), [0.0, y, z], &ctx, r);
                }
            });
            let ss = [0.02, 0.05, 0.5, 1.0, -0.02, -0.3, 3.0, -2.0, 100.0, 0.0, 1e-5, 2e-5, -3e-5, 1e-4, -5e-4, 2e-3];
            let few = unit_quats(0);
            c.space("spoilt rotations", (few.len() * 32 * ss.len() * 2) as u64, |i, r| {
                let mut d = Dec(i);
                let left = d.take(2) == 0;
                let (s, k, q) = (*d.pick(&ss), d.take(32), *d.pick(&few));
                let x = spoil(k, s);
                if x.as_flattened().iter().any(|y| !y.is_finite()) { return }
                let m = if left { mul(&x, &qmat(q)) } else { mul(&qmat(q), &x) };
                r.key(hash_u(3, &[i]));
                let ctx = || format!("{:?} spoilt by {} {}", q, k, s);
                other::<f64>(&m, ts[(i % 10) as usize], &ctx, r);
                other::<f32>(&m, ts[(i % 10) as usize], &ctx, r);
            });
            let ms = [1e-90, 1e-40, 1e-25, 1e-17, 1e-13, 1e-11, 1e-9, 1e-8, 1e-6, 1e-5, 1e-4, 1e-2, 0.3, 3.0, 40.0, 3e3, 1e5, 1e7, 1e8, 1e10, 1e12, 1e14, 1e17, 1e40, 1e70];
            let ax = axes();
            c.space("matrices and translations at every magnitude", (few.len() * 32 * 2 * ms.len() * 3) as u64, |i, r| {
                let mut d = Dec(i);
                let s = *d.pick(&ms);
                let part = d.take(3);
                let (k, u, q) = (d.take(32), [0.5, -0.3][d.take(2)], *d.pick(&few));
                r.key(hash_u(7, &[i]));
                let ctx = || format!("{:?} spoilt by {} {}, part {} at {:e}", q, k, u, part, s);
                let p = sc3(ax[k % ax.len()], s);
                let single = (1e-9..1e9).contains(&s);
                let qm = qmat(q);
                if part == 0 {
                    // the translation never decides
                    let w = if u > 0.0 { qm } else { mul(&spoil(k, u), &qm) };
                    let ok = u > 0.0;
                    if ok {
                        accept(&m33::<f64>(&w), p, &ctx, r);
                        if (1e-30..1e30).contains(&s) { accept(&m33::<f32>(&w), p, &ctx, r) }
                    } else {
                        other::<f64>(&w, p, &ctx, r);
                        if (1e-30..1e30).contains(&s) { other::<f32>(&w, p, &ctx, r) }
                    }
                    return;
                }
                // the whole matrix, or one row of it
                let mut m = mul(&spoil(k, u), &qm);
                for i in 0..3 { for j in 0..3 { if part == 1 || i == k % 3 { m[i][j] *= s } } }
                other::<f64>(&m, p, &ctx, r);
                if single { other::<f32>(&m, p, &ctx, r) }
            });
            let v = c.qt(vec![-1.0, 0.0, 1.0, 2.0], vec![-1.0, 0.0, 1.0, 2.0, -2.0, 0.5]);
            let n = v.len() as u64;
            c.space("small integer matrices", n.pow(9), |i, r| {
                let mut d = Dec(i);
                let m: A<3> = std::array::from_fn(|_| std::array::from_fn(|_| *d.pick(&v)));
                r.key(hash_f(4, m.as_flattened()));
                other::<f64>(&m, [1.0, -2.0, 3.0], &String::new, r);
                other::<f32>(&m, [0.0, 0.0, 0.0], &String::new, r);
            });
            let rows = [[0.0, 0.0, 0.0, 2.0], [0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, -1.0], [0.1, 0.0, 0.0, 1.0], [0.0, -0.1, 0.0, 1.0], [0.0, 0.0, 5.0, 1.0], [1.0, 1.0, 1.0, 1.0], [0.0, 0.0, 0.0, 1.05], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 0.9], [-0.1, 0.0, 0.0, 1.0], [0.0, 0.1, 0.0, 1.0], [0.0, 0.0, 0.1, 1.0], [0.0, 0.0, -0.1, 1.0], [0.0, 0.0, 0.0, 1.1]];
            c.space("spoilt last rows", (few.len() * rows.len() * ts.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let (q, row, p) = (*d.pick(&few), *d.pick(&rows), *d.pick(&ts));
                let mut m = homog(&qmat(q), p);
                m[3] = row;
                r.key(hash_u(5, &[i]));
                r.check("a clear non-motion is rejected", !is_rotation_h(m44::<f64>(&m)) && !is_rotation_h(m44::<f32>(&m)), || format!("{:?}", m));
                // the same row closer to the right one, judged in double precision
                let mut near = homog(&qmat(q), p);
                for j in 0..4 { near[3][j] += (row[j] - near[3][j]) * 1e-4 }
                r.check("a clear non-motion is rejected", !is_rotation_h(m44::<f64>(&near)), || format!("{:?}", near));
                // the determinant made one again by scaling the rotation
                if row[3] > 0.0 {
                    let s = (1.0 / row[3]).cbrt();
                    for i in 0..3 { for j in 0..3 { m[i][j] *= s } }
                    r.check("a clear non-motion is rejected", !is_rotation_h(m44::<f64>(&m)) && !is_rotation_h(m44::<f32>(&m)), || format!("{:?}", m));
                }
            });
            let bad = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
            c.space("not a number and infinite entries", 9 * 3 * 48, |i, r| {
                let mut d = Dec(i);
                let (k, b, q) = (d.take(9), *d.pick(&bad), *d.pick(&bo));
                let mut m = qmat(q);
                m[k / 3][k % 3] = b;
                r.key(hash_u(6, &[i]));
                r.check("a matrix with a non-finite entry is rejected", !is_rotation(m33::<f64>(&m)) && !is_rotation(m33::<f32>(&m)) && !is_rotation_h(m44::<f64>(&homog(&m, [0.0; 3]))) && !is_rotation_h(m44::<f32>(&homog(&m, [0.0; 3]))), || format!("{:?}", m));
            });
        },
    );
}
