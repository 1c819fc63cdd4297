//! C23: exponential and logarithm of rotations.
use mc::adapt::*;
use mc::fam::*;
use mc::refm::*;
use mc::*;
use static_math::transformations as tf;

fn vee(m: &A<3>) -> [f64; 3] { [(m[2][1] - m[1][2]) / 2.0, (m[0][2] - m[2][0]) / 2.0, (m[1][0] - m[0][1]) / 2.0] }
fn expo<T: Fl>(v: [f64; 3], r: &mut Rec) {
    let x = v3::<T>(v);
    let a = a3(&x);
    let n = nrm(&a);
    let g = am33(&tf::matrix_exponential(&m33::<T>(&hat(a))));
    // rounding of the angle itself moves the result by eps * angle
    let t = 64.0 * T::EPS * (1.0 + n / 4.0);
    let w = || format!("{} {:?}: {:?}", T::NAME, a, g);
    let e = if n > 0.0 { rodrigues(unit3(a), n) } else { ident::<3>() };
    r.check("exponential is the rotation by the length about the direction", le(dist(&g, &e), t), || format!("{}, expected {:?}", w(), e));
    if n < 30.0 { let s = expm(&hat(a)); r.check("exponential equals its power series", le(dist(&g, &s), t + 1e-13), || format!("{}, expected {:?}", w(), s)); }
    r.check("exponential is a proper rotation", is_rot(&g, 64.0 * T::EPS), w);
    let s = am33(&tf::matrix_exponential(&tf::skew_from_vec(&x)));
    r.check("exponential of the library's skew matrix", le(dist(&s, &e), t), || format!("{} {:?}: {:?}", T::NAME, a, s));
}
fn builder<T: Fl>(ax: [f64; 3], an: f64, r: &mut Rec) {
    let (x, t) = (v3::<T>(unit3(ax)), T::of(an));
    let g = am33(&tf::rotation_from_axis_angle(&x, t));
    let e = rodrigues(unit3(a3(&x)), t.to());
    let w = || format!("{} axis {:?} angle {}: {:?}, expected {:?}", T::NAME, a3(&x), t, g, e);
    r.check("axis-angle builder is the rotation", le(dist(&g, &e), 64.0 * T::EPS), w);
    r.check("axis-angle builder gives a proper rotation", is_rot(&g, 64.0 * T::EPS), w);
}
/// `m` is a rotation up to rounding
fn logm<T: Fl>(m: &M33<T>, ctx: &dyn Fn() -> String, r: &mut Rec) {
    let a = am33(m);
    let l = am33(&tf::matrix_log(m));
    let (s, c) = (nrm(&vee(&a)), (a[0][0] + a[1][1] + a[2][2] - 1.0) / 2.0);
    let t = 64.0 * T::EPS;
    if c < 0.0 && s < 16.0 * T::EPS.sqrt() { r.class("half turn") } else if s < 16.0 * T::EPS.sqrt() { r.class("near identity") }
    let w = || format!("{} {}: {:?} has logarithm {:?}", T::NAME, ctx(), a, l);
    let skew = dist(&l, &scale(&tr(&l), -1.0));
    if !r.check("logarithm is a skew matrix", le(skew, 16.0 * T::EPS), w) { return }
    let v = vee(&l);
    let n = nrm(&v);
    r.check("logarithm has an angle of at most half a turn", le(n, PI * (1.0 + 64.0 * T::EPS)), w);
    let e = if n > 0.0 { rodrigues(unit3(v), n) } else { ident::<3>() };
    r.check("exponential of the logarithm is the rotation", le(dist(&e, &a), t), || format!("{} whose exponential is {:?}", w(), e));
    let g = am33(&tf::matrix_exponential(&tf::matrix_log(m)));
    r.check("library exponential of the logarithm is the rotation", le(dist(&g, &a), t + 64.0 * T::EPS), || format!("{} whose exponential is {:?}", w(), g));
}
fn logexp<T: Fl>(v: [f64; 3], r: &mut Rec) {
    let x = v3::<T>(v);
    let a = a3(&x);
    let n = nrm(&a);
    if n > PI - 64.0 * T::EPS { return }
    let l = tf::matrix_log(&tf::matrix_exponential(&tf::skew_from_vec(&x)));
    let t = 128.0 * T::EPS;
    r.check("logarithm undoes the exponential below half a turn", le(distv(&vee(&am33(&l)), &a), t), || format!("{} {:?}: {:?}", T::NAME, a, l));
}

fn main() {
    run(
        "C23",
        "exploration",
        "every axis of a lattice with every angle of a grid (zero, down to 1e-20, neighbourhoods of half and full turns on both sides down to one rounding unit, several turns) through exponential, axis-angle builder and logarithm of the real code; every half turn about a lattice of axes, every signed axis permutation, quaternion rotation and product of two rotations through the logarithm; against Rodrigues' formula and the power series; non-trivial: distinct inputs",
        &["rotations are rotations up to rounding; tolerance 64 to 128 rounding units"],
        |c| {
            let mut ax = axes();
            let k = c.qt(3i64, 5);
            let m = (2 * k + 1) as usize;
            for i in 0..m * m * m { let a = [(i / m / m) as f64 - k as f64, (i / m % m) as f64 - k as f64, (i % m) as f64 - k as f64]; if nrm(&a) > 0.0 { ax.push(a) } }
            ax.extend([[1.0, 1e-8, 0.0], [1e-8, 1.0, 1e-8], [1e-9, 1e-9, -1.0], [1.0, 1e-5, 1e-10], [1e-4, 1e-4, 1.0], [-1e-7, 1.0, 1e-4], [1.0, -1.0, 1e-8], [1e-8, 1.0, 1.0], [1.0, 1e-8, -1.0]]);
            let mut an = angles(true);
            for d in [1e-7, 1e-8, 2e-8, 5e-9, 1e-9, 1e-10, 1e-12, 1e-14, 1e-15, 1e-16, 1e-17, 1e-20, 3e-4, 5e-4, 3e-5] { for b in [0.0, PI, PI / 2.0, 2.0 * PI] { an.push(b + d); an.push(b - d); an.push(-b + d) } }
            for i in 1..c.qt(512, 4096) { an.push(i as f64 * 0.1) }
            an.extend(FAR);
            c.space("axis and angle", (ax.len() * an.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let (a, t) = (*d.pick(&ax), *d.pick(&an));
                r.key(hash_u(1, &[i]));
                r.sample(|| format!("{:?} {}", a, t));
                let v = sc3(unit3(a), t);
                expo::<f64>(v, r);
                expo::<f32>(v, r);
                builder::<f64>(a, t, r);
                builder::<f32>(a, t, r);
                let m = rodrigues(unit3(a), t);
                logm(&m33::<f64>(&m), &|| format!("axis {:?} angle {}", a, t), r);
                logm(&m33::<f32>(&m), &|| format!("axis {:?} angle {}", a, t), r);
                logm(&tf::rotation_from_axis_angle(&v3::<f64>(unit3(a)), t), &|| format!("built from axis {:?} angle {}", a, t), r);
                logm(&tf::rotation_from_axis_angle(&v3::<f32>(unit3(a)), t as f32), &|| format!("built from axis {:?} angle {}", a, t), r);
                logexp::<f64>(v, r);
                logexp::<f32>(v, r);
            });
            let g = [-3.0, -1.0, -0.5, -1e-3, 0.0, 1e-9, 0.1, 0.7, 1.0, 2.0, 2.5];
            c.space("vectors", 11 * 11 * 11, |i, r| {
                let mut d = Dec(i);
                let v = [*d.pick(&g), *d.pick(&g), *d.pick(&g)];
                r.key(hash_u(2, &[i]));
                for s in [1.0, -1.0] {
                    let v = sc3(v, s);
                    expo::<f64>(v, r);
                    expo::<f32>(v, r);
                    logexp::<f64>(v, r);
                    logexp::<f32>(v, r);
                }
            });
            let sh = shapes::<3>();
            let sl = [1.0, 0.3, 0.1, 1e-2, 1e-4, 1e-7, 1e-9, 1e-12, 1e-16];
            c.space("vectors of every structure", (sh.len() * sl.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let v = sc3(*d.pick(&sh), *d.pick(&sl));
                r.key(hash_u(12, &[i]));
                expo::<f64>(v, r);
                expo::<f32>(v, r);
                logexp::<f64>(v, r);
                logexp::<f32>(v, r);
            });
            c.space("axes of every structure", (sh.len() * an.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let (a, t) = (*d.pick(&sh), *d.pick(&an));
                if nrm(&a) == 0.0 { return }
                r.key(hash_u(11, &[i]));
                builder::<f64>(a, t, r);
                builder::<f32>(a, t, r);
                let v = sc3(unit3(a), t);
                expo::<f64>(v, r);
                expo::<f32>(v, r);
                logexp::<f64>(v, r);
                logexp::<f32>(v, r);
                let m = rodrigues(unit3(a), t);
                logm(&m33::<f64>(&m), &|| format!("axis {:?} angle {}", a, t), r);
                logm(&m33::<f32>(&m), &|| format!("axis {:?} angle {}", a, t), r);
            });
            let ps = perms(3);
            c.space("signed axis permutations", 48, |i, r| {
                let mut m = zero::<3>();
                for k in 0..3 { m[k][ps[(i / 8) as usize][k]] = if i >> k & 1 == 1 { -1.0 } else { 1.0 } }
                if det(&m).0 < 0.0 { return }
                r.key(hash_u(3, &[i]));
                logm(&m33::<f64>(&m), &|| "permutation".into(), r);
                logm(&m33::<f32>(&m), &|| "permutation".into(), r);
                // each entry off by a few rounding units
                for k in 0..18 {
                    for u in [1.0, 4.0] {
                        let mut d = m;
                        d[k / 6][k / 2 % 3] += if k % 2 == 0 { u } else { -u } * f64::EPSILON;
                        logm(&m33::<f64>(&d), &|| "permutation with noise".into(), r);
                        let mut d = m;
                        d[k / 6][k / 2 % 3] += if k % 2 == 0 { u } else { -u } * f32::EPSILON as f64;
                        logm(&m33::<f32>(&d), &|| "permutation with noise".into(), r);
                    }
                }
            });
            let k = c.qt(7i64, 13);
            let m = (2 * k + 1) as u64;
            c.space("half turns about a lattice of axes", m * m * m, |i, r| {
                let mut d = Dec(i);
                let a: [f64; 3] = std::array::from_fn(|_| (d.take(m as usize) as i64 - k) as f64);
                if nrm(&a) == 0.0 { return }
                r.key(hash_f(4, &a));
                let q = qunit([0.0, a[0], a[1], a[2]]);
                logm(&m33::<f64>(&qmat(q)), &|| format!("half turn about {:?}", a), r);
                logm(&m33::<f32>(&qmat(q)), &|| format!("half turn about {:?}", a), r);
                logm(&qn::<f64>(q).to_rotation(), &|| format!("half turn about {:?}", a), r);
                logm(&qn::<f32>(qunit(aq(&qn::<f32>(q)))).to_rotation(), &|| format!("half turn about {:?}", a), r);
                // 2 u u^T - 1
                let e: A<3> = std::array::from_fn(|i| std::array::from_fn(|j| 2.0 * q[1 + i] * q[1 + j] - (i == j) as u8 as f64));
                logm(&m33::<f64>(&e), &|| format!("half turn about {:?}", a), r);
                logm(&m33::<f32>(&e), &|| format!("half turn about {:?}", a), r);
            });
            let us = unit_quats(2);
            let bo = bin_oct();
            c.space("quaternion rotations and products", (us.len() * (1 + 2 * bo.len())) as u64, |i, r| {
                let mut d = Dec(i);
                let q = *d.pick(&us);
                let k = d.take(1 + 2 * bo.len());
                r.key(hash_u(5, &[i]));
                let (a, b) = if k == 0 { (m33::<f64>(&qmat(q)), m33::<f32>(&qmat(q))) } else {
                    let (x, y) = (qmat(q), qmat(bo[(k - 1) / 2]));
                    if k % 2 == 1 { (m33::<f64>(&x) * m33(&y), m33::<f32>(&x) * m33(&y)) } else { (m33::<f64>(&y) * m33(&x), m33::<f32>(&y) * m33(&x)) }
                };
                logm(&a, &|| format!("{:?} {}", q, k), r);
                logm(&b, &|| format!("{:?} {}", q, k), r);
            });
        },
    );
}
