//! C17: dual quaternions, rotation + translation and homogeneous matrices agree.
use mc::adapt::*;
use mc::fam::*;
use mc::refm::*;
use mc::*;
use static_math::transformations as tf;

fn tol<T: Fl>() -> f64 { 512.0 * T::EPS }

/// `d` is the motion with matrix `m`
fn is_motion<T: Fl>(d: &DualQuaternion<T>, m: &A<4>, what: &str, ctx: &dyn Fn() -> String, r: &mut Rec) {
    is_motion_of(d, m, nrm(&[m[0][3], m[1][3], m[2][3]]), what, ctx, r)
}
/// every part to its own rounding; `s` is the size of the translations that went into it
fn is_motion_of<T: Fl>(d: &DualQuaternion<T>, m: &A<4>, s: f64, what: &str, ctx: &dyn Fn() -> String, r: &mut Rec) {
    let t = tol::<T>();
    let w = || format!("{} {} of {}: {:?}", T::NAME, what, ctx(), d);
    let a = adq(d);
    let rr = [a[0], a[1], a[2], a[3]];
    let rot: A<3> = std::array::from_fn(|i| std::array::from_fn(|j| m[i][j]));
    let p = [m[0][3], m[1][3], m[2][3]];
    r.check("real part is unit and orthogonal to the dual part", le((nrm(&rr) - 1.0).abs(), t) && le(qdot(rr, [a[4], a[5], a[6], a[7]]).abs(), t * s), w);
    r.check("rotation of the dual quaternion", le(dist(&qmat(rr), &rot), t), || format!("{}, expected {:?}", w(), m));
    let h = am44(&d.to_homogeneous());
    r.check("homogeneous matrix read back", leh(&h, m, t, t * s), || format!("{} reads {:?}, expected {:?}", w(), h, m));
    let (x, y) = d.to_rotation_translation();
    r.check("rotation and translation read back", le(dist(&am33(&x), &rot), t) && le(distv(&a3(&y), &p), t * s), || format!("{} reads {:?} {:?}", w(), x, y));
    let (x, y) = d.to_quaternion_translation();
    r.check("quaternion and translation read back", le(dist(&qmat(aq(&x)), &rot), t) && le(distv(&a3(&y), &p), t * s), || format!("{} reads {:?} {:?}", w(), x, y));
    r.check("translation read back", le(distv(&a3(&d.get_translation()), &p), t * s), || format!("{} reads {:?}", w(), d.get_translation()));
    // the reference reading, without the library: 2 dual * conj(real)
    let e = qmul(qsc([a[4], a[5], a[6], a[7]], 2.0), qconj(rr));
    r.check("components encode the motion", le(distv(&[e[1], e[2], e[3]], &p), t * s) && le(e[0].abs(), t * s), || format!("{} encodes {:?}", w(), e));
}
fn builders<T: Fl>(q: &Q, p: [f64; 3], r: &mut Rec) {
    let (x, v) = (qn::<T>(*q), v3::<T>(p));
    let (q, p) = (qunit(aq(&x)), a3(&v));
    let rot = qmat(q);
    let m = homog(&rot, p);
    let ctx = || format!("rotation {:?} translation {:?}", q, p);
    let d = DualQuaternion::new_from_rot_trans(&x, &v);
    is_motion(&d, &m, "rotation and translation", &ctx, r);
    for s in [2.5, 0.125] { is_motion(&DualQuaternion::new_from_rot_trans(&(x * T::of(s)), &v), &m, "scaled rotation and translation", &ctx, r); }
    is_motion(&DualQuaternion::new_from_homogeneous(&m44::<T>(&m)), &m, "homogeneous matrix", &ctx, r);
    is_motion(&DualQuaternion::new_from_homogeneous(&d.to_homogeneous()), &m, "own homogeneous matrix", &ctx, r);
    is_motion(&DualQuaternion::new_from_homogeneous(&tf::homogeneous_from_quaternion(&x, &v)), &m, "library homogeneous matrix", &ctx, r);
    let arr = [x.real(), x.imag()[0], x.imag()[1], x.imag()[2], v[0], v[1], v[2]];
    is_motion(&DualQuaternion::new_from_array(arr), &m, "seven numbers", &ctx, r);
    let (m0, mt) = (homog(&rot, [0.0; 3]), homog(&ident::<3>(), p));
    is_motion(&DualQuaternion::new_from_rotation(&x), &m0, "pure rotation", &ctx, r);
    is_motion(&DualQuaternion::new_from_rotation_matrix(&m33::<T>(&rot)), &m0, "rotation matrix", &ctx, r);
    is_motion(&DualQuaternion::new_from_translation(&v), &mt, "pure translation", &ctx, r);
    is_motion(&(DualQuaternion::new_from_translation(&v) * DualQuaternion::new_from_rotation(&x)), &m, "translation after rotation", &ctx, r);
    let mi = homog(&tr(&rot), sc3(mulv(&tr(&rot), &p), -1.0));
    is_motion(&d.conj(), &mi, "conjugate", &ctx, r);
    is_motion(&d.inverse(), &mi, "inverse", &ctx, r);
    is_motion(&DualQuaternion::new_from_array(arr).inverse(), &mi, "inverse", &ctx, r);
    is_motion(&-d, &m, "negative", &ctx, r);
    for y in [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, -2.0, 3.0], [0.0, 0.0, 0.0], [0.001, 100.0, -20.0], [1e-9, 0.0, -1e-9], [1e-20, 0.0, 0.0], [1e10, 1.0, 0.0]] {
        let y = v3::<T>(y);
        let e = mulv(&rot, &a3(&y));
        let g = d.transform_point(&y);
        let s = nrm(&e) + nrm(&p);
        r.check("transforming a point applies the rotation", le(distv(&a3(&g), &e), tol::<T>() * s), || format!("{} {} point {:?}: {:?}, expected {:?}", T::NAME, ctx(), y, g, e));
        let dp = DualQuaternion::new_from_point(&y);
        r.check("point quaternion", adq(&dp) == [1.0, 0.0, 0.0, 0.0, 0.0, y[0].to(), y[1].to(), y[2].to()], || format!("{:?}", dp));
    }
}
fn points<T: Fl>(q: &Q, p: [f64; 3], y: [f64; 3], r: &mut Rec) {
    let d = DualQuaternion::new_from_rot_trans(&qn::<T>(*q), &v3::<T>(p));
    let y = v3::<T>(y);
    let e = mulv(&qmat(qunit(aq(&qn::<T>(*q)))), &a3(&y));
    let g = d.transform_point(&y);
    r.check("transforming a point applies the rotation", le(distv(&a3(&g), &e), tol::<T>() * (nrm(&e) + nrm(&p))), || format!("{} {:?} {:?} point {:?}: {:?}, expected {:?}", T::NAME, q, p, y, g, e));
    let dp = DualQuaternion::new_from_point(&y);
    r.check("point quaternion", adq(&dp) == [1.0, 0.0, 0.0, 0.0, 0.0, y[0].to(), y[1].to(), y[2].to()], || format!("{:?}", dp));
}
fn product<T: Fl>(a: &(Q, [f64; 3]), b: &(Q, [f64; 3]), r: &mut Rec) {
    let f = |x: &(Q, [f64; 3])| DualQuaternion::new_from_rot_trans(&qn::<T>(x.0), &v3::<T>(x.1));
    let g = |x: &(Q, [f64; 3])| homog(&qmat(x.0), x.1);
    let (x, y) = (f(a), f(b));
    let m = mul(&g(a), &g(b));
    let ctx = || format!("{:?} and {:?}", a, b);
    let s = nrm(&a.1) + nrm(&b.1);
    is_motion_of(&(x * y), &m, s, "product", &ctx, r);
    let h = am44(&(x.to_homogeneous() * y.to_homogeneous()));
    r.check("products become products of homogeneous matrices", leh(&am44(&(x * y).to_homogeneous()), &h, tol::<T>(), tol::<T>() * s), || format!("{} {}: {:?}", T::NAME, ctx(), h));
    is_motion_of(&(x * y).conj(), &{ let rt = tr(&std::array::from_fn::<_, 3, _>(|i| std::array::from_fn::<_, 3, _>(|j| m[i][j]))); homog(&rt, sc3(mulv(&rt, &[m[0][3], m[1][3], m[2][3]]), -1.0)) }, s, "conjugate of a product", &ctx, r);
}

fn main() {
    run(
        "C17",
        "exploration",
        "every rotation of the family (48-element group, axis/angle grid with half turns and their neighbourhoods, rational points, normalised integer quaternions) with every translation of a list, through every constructor and every reader of the real code, against the homogeneous matrix computed independently; every ordered pair of a sub-family for products; non-trivial: distinct motions",
        &["quaternions given as rotations are unit up to rounding, except for the constructor that normalises"],
        |c| {
            let us = unit_quats(2);
            let mut ts = translations();
            ts.extend([[1e-6, 2e-6, -1e-6], [1e4, 0.0, -3e4], [1e-9, -3e-9, 2e-9], [0.0, 0.0, 1e-12], [-1e-20, 1e-20, 0.0], [1e10, 2e10, -1e10], [1e3, 1e-3, 1e-9]]);
            c.space("rotations and translations", (us.len() * ts.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let (q, p) = (d.pick(&us), *d.pick(&ts));
                r.key(hash_u(1, &[i]));
                r.sample(|| format!("{:?} {:?}", q, p));
                builders::<f64>(q, p, r);
                builders::<f32>(q, p, r);
            });
            // translations at every order of magnitude, alone and in products
            let lad = [1e-110, 1e-60, 1e-30, 1e-18, 1e-17, 1e-14, 1e-13, 1e-11, 1e-10, 1e-8, 1e-7, 1e-5, 1e-4, 1e-2, 0.3, 1.0, 4.0, 50.0, 3e2, 2e3, 1e5, 1e7, 1e8, 1e10, 1e12, 1e14, 1e16, 1e18, 1e30, 1e60, 1e110];
            let few = unit_quats(0);
            let dirs = [[1.0, 0.0, 0.0], [0.0, -1.0, 2.0], [0.5, 0.25, -1.0], [-3.0, 0.0, 1.0], [0.0, 0.0, -1.0]];
            c.space("translations at every magnitude", (few.len() * lad.len() * dirs.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let (q, s) = (d.pick(&few), *d.pick(&lad));
                let p = sc3(*d.pick(&dirs), s);
                r.key(hash_u(6, &[i]));
                builders::<f64>(q, p, r);
                if (1e-30..1e30).contains(&s) { builders::<f32>(q, p, r) }
            });
            c.space("products at every pair of magnitudes", (few.len() * lad.len() * lad.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let (k, s, t) = (d.take(few.len()), *d.pick(&lad), *d.pick(&lad));
                let (a, b) = ((few[k], sc3(dirs[k % 5], s)), (few[(k * 7 + 11) % few.len()], sc3(dirs[(k + 2) % 5], t)));
                r.key(hash_u(7, &[i]));
                product::<f64>(&a, &b, r);
                if (1e-30..1e30).contains(&s) && (1e-30..1e30).contains(&t) { product::<f32>(&a, &b, r) }
            });
            // every structure of the translation and of the point
            let sh = shapes::<3>();
            let fr = [few[0], few[30], few[50], few[100], few[150], few[200], few[250], few[300]];
            c.space("translations of every structure", (sh.len() * fr.len() * 3) as u64, |i, r| {
                let mut d = Dec(i);
                let (q, s, p) = (d.pick(&fr), *d.pick(&[1.0, 1e-4, 300.0]), *d.pick(&sh));
                r.key(hash_u(8, &[i]));
                builders::<f64>(q, sc3(p, s), r);
                builders::<f32>(q, sc3(p, s), r);
            });
            c.space("points of every structure", (sh.len() * few.len() * 4) as u64, |i, r| {
                let mut d = Dec(i);
                let (y, q, p) = (*d.pick(&sh), d.pick(&few), *d.pick(&[[0.0; 3], [1.0, -2.0, 0.5], [1e-3, 1e-3, 0.0], [50.0, 0.0, -50.0]]));
                r.key(hash_u(9, &[i]));
                points::<f64>(q, p, y, r);
                points::<f32>(q, p, y, r);
            });
            c.space("products of translations of every structure", (sh.len() * sh.len()) as u64, |i, r| {
                let (a, b) = (sh[i as usize / sh.len()], sh[i as usize % sh.len()]);
                let k = i as usize * 7919;
                r.key(hash_u(10, &[i]));
                let (x, y) = ((few[k % few.len()], a), (few[(k / few.len()) % few.len()], b));
                product::<f64>(&x, &y, r);
                product::<f32>(&x, &y, r);
            });
            let k = c.qt(4i64, 8);
            let n = (2 * k + 1) as usize;
            c.space("normalised integer quaternions", (n as u64).pow(4), |i, r| {
                let mut d = Dec(i);
                let q: Q = std::array::from_fn(|_| (d.take(n) as i64 - k) as f64);
                if nrm(&q) == 0.0 { return }
                r.key(hash_f(2, &q));
                builders::<f64>(&qunit(q), [1.0, -2.0, 3.0], r);
                builders::<f32>(&qunit(q), [1.0, -2.0, 3.0], r);
            });
            let v = [-3.0, -1.0, 0.0, 0.5, 2.0];
            let bo = bin_oct();
            c.space("translation grid", 125 * bo.len() as u64, |i, r| {
                let mut d = Dec(i);
                let p = [*d.pick(&v), *d.pick(&v), *d.pick(&v)];
                r.key(hash_u(3, &[i]));
                builders::<f64>(d.pick(&bo), p, r);
                builders::<f32>(&bo[(i / 125) as usize], p, r);
            });
            let mut ms: Vec<(Q, [f64; 3])> = Vec::new();
            for (i, q) in unit_quats(0).iter().enumerate() { ms.push((*q, ts[i % 17])); for k in 1..c.qt(2, 5) { ms.push((*q, ts[(i + 5 * k) % 17])) } }
            let n = ms.len() as u64;
            c.space("all pairs of motions", n * n, |i, r| {
                let (a, b) = (&ms[(i / n) as usize], &ms[(i % n) as usize]);
                r.key(hash_u(4, &[i]));
                product::<f64>(a, b, r);
                product::<f32>(a, b, r);
            });
            // exact integer motions: unit basis quaternions and integer translations
            c.space("integer motions", 8 * 343, |i, r| {
                let mut d = Dec(i);
                let k = d.take(8);
                let p: [i64; 3] = std::array::from_fn(|_| d.take(7) as i64 - 3);
                let mut q = [0i64; 4];
                q[k / 2] = if k % 2 == 0 { 1 } else { -1 };
                let qf = q.map(|x| x as f64);
                let half = qmul([0.0, p[0] as f64, p[1] as f64, p[2] as f64], qf);
                let d = DualQuaternion::new(Quaternion::new_from(q[0], q[1], q[2], q[3]), Quaternion::new_from(half[0] as i64, half[1] as i64, half[2] as i64, half[3] as i64));
                r.key(hash_u(5, &[i]));
                let (m, t) = d.to_rotation_translation();
                let e = qmat(qf);
                r.check("integer motion read back exactly", (0..3).all(|i| t[i] == 2 * p[i] && (0..3).all(|j| m[(i, j)] as f64 == e[i][j])), || format!("{:?}: {:?} {:?}", d, m, t));
                let (x, t) = d.to_quaternion_translation();
                r.check("integer motion read back exactly", x == d.real() && (0..3).all(|i| t[i] == 2 * p[i]) && *d.get_translation() == *t, || format!("{:?}: {:?} {:?}", d, x, t));
                let y = d.transform_point(&V3::new_from(1i64, -2, 3));
                let ey = mulv(&e, &[1.0, -2.0, 3.0]);
                r.check("transforming a point applies the rotation", (0..3).all(|i| y[i] as f64 == ey[i]), || format!("{:?}: {:?}, expected {:?}", d, y, ey));
            });
        },
    );
}
