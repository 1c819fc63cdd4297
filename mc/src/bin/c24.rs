//! C24: exponential and logarithm of rigid motions.
use mc::adapt::*;
use mc::fam::*;
use mc::refm::*;
use mc::*;
use static_math::transformations as tf;

fn v6<T: Fl>(w: [f64; 3], v: [f64; 3]) -> V6<T> { V6::new_from(T::of(w[0]), T::of(w[1]), T::of(w[2]), T::of(v[0]), T::of(v[1]), T::of(v[2])) }
fn rot4(a: &A<4>) -> A<3> { std::array::from_fn(|i| std::array::from_fn(|j| a[i][j])) }
fn col(a: &A<4>) -> [f64; 3] { [a[0][3], a[1][3], a[2][3]] }
fn vee(m: &A<3>) -> [f64; 3] { [(m[2][1] - m[1][2]) / 2.0, (m[0][2] - m[2][0]) / 2.0, (m[1][0] - m[0][1]) / 2.0] }
fn twm(w: [f64; 3], v: [f64; 3]) -> A<4> { let h = hat(w); let mut m = zero::<4>(); for i in 0..3 { for j in 0..3 { m[i][j] = h[i][j] } m[i][3] = v[i] } m }

fn expo<T: Fl>(w: [f64; 3], v: [f64; 3], r: &mut Rec) {
    let u = v6::<T>(w, v);
    let m = tf::twist_to_se3(&u);
    let (w, v): ([f64; 3], [f64; 3]) = (std::array::from_fn(|i| u[i].to()), std::array::from_fn(|i| u[3 + i].to()));
    let n = nrm(&w);
    let g = am44(&tf::matrix_exponential6(&m));
    let e = exp6(w, v);
    if n == 0.0 { r.class("pure translation") } else if n < 1e-3 { r.class("small rotation") } else { r.class("screw") }
    let t = 64.0 * T::EPS * (1.0 + n / 4.0);
    let tp = nrm(&v) * t + 1e-300;
    let x = || format!("{} twist {:?} {:?}: {:?}, expected {:?}", T::NAME, w, v, g, e);
    r.check("rotation of the exponential", le(dist(&rot4(&g), &rot4(&e)), t), x);
    r.check("translation of the exponential", le(distv(&col(&g), &col(&e)), tp), x);
    r.check("exponential is homogeneous and rigid", g[3] == [0.0, 0.0, 0.0, 1.0] && is_rot(&rot4(&g), 64.0 * T::EPS), x);
    if n < 20.0 && nrm(&v) < 1e3 {
        let s = expm(&twm(w, v));
        r.check("exponential equals its power series", le(dist(&rot4(&g), &rot4(&s)), t + 1e-12) && le(distv(&col(&g), &col(&s)), tp + 1e-11 * (1.0 + nrm(&v))), || format!("{}, series {:?}", x(), s));
    }
    if n < PI - 64.0 * T::EPS {
        let l = tf::se3_to_twist(&tf::matrix_log6(&tf::matrix_exponential6(&m)));
        let (lw, lv): ([f64; 3], [f64; 3]) = (std::array::from_fn(|i| l[i].to()), std::array::from_fn(|i| l[3 + i].to()));
        let q = 128.0 * T::EPS;
        r.check("logarithm undoes the exponential below half a turn", le(distv(&lw, &w), q) && le(distv(&lv, &v), q * nrm(&v) + 1e-300), || format!("{} twist {:?} {:?}: {:?}", T::NAME, w, v, l));
    }
}
fn logm<T: Fl>(m: &M44<T>, ctx: &dyn Fn() -> String, r: &mut Rec) {
    let a = am44(m);
    let (ra, p) = (rot4(&a), col(&a));
    let l = am44(&tf::matrix_log6(m));
    let (s, c) = (nrm(&vee(&ra)), (ra[0][0] + ra[1][1] + ra[2][2] - 1.0) / 2.0);
    let (se, t) = (T::EPS.sqrt(), 64.0 * T::EPS);
    if c < 0.0 && s < 16.0 * se { r.class("half turn") } else if s < 16.0 * se { r.class("near identity") }
    let w = || format!("{} {}: {:?} has logarithm {:?}", T::NAME, ctx(), a, l);
    let h = rot4(&l);
    let ok = r.check("logarithm is a twist matrix", l[3] == [0.0; 4] && le(dist(&h, &scale(&tr(&h), -1.0)), 16.0 * T::EPS) && col(&l).iter().all(|x| x.is_finite()), w);
    if !ok { return }
    let v = vee(&h);
    r.check("logarithm has an angle of at most half a turn", le(nrm(&v), PI * (1.0 + 64.0 * T::EPS)), w);
    let e = exp6(v, col(&l));
    r.check("rotation of the exponential of the logarithm", le(dist(&rot4(&e), &ra), t), || format!("{} whose exponential is {:?}", w(), e));
    let tp = nrm(&p) * 64.0 * T::EPS + 1e-300;
    r.check("translation of the exponential of the logarithm", le(distv(&col(&e), &p), tp), || format!("{} whose exponential is {:?}", w(), e));
    let g = am44(&tf::matrix_exponential6(&tf::matrix_log6(m)));
    r.check("library exponential of the logarithm is the motion", le(dist(&rot4(&g), &ra), t + 64.0 * T::EPS) && le(distv(&col(&g), &p), 2.0 * tp), || format!("{} whose exponential is {:?}", w(), g));
}

fn main() {
    run(
        "C24",
        "exploration",
        "every axis of a lattice with every angle of a grid (zero, down to 1e-20, neighbourhoods of half and full turns) and every linear part of a list through exponential, logarithm and both compositions of the real code; every rotation of several families (half turns about a lattice of axes, signed permutations, quaternion rotations, products) with translations through the logarithm; against the closed form evaluated without cancellation and the power series; non-trivial: distinct inputs",
        &["motions are rigid up to rounding"],
        |c| {
            let mut ax = axes();
            { let m = c.qt(5, 9); for i in 0..m * m * m { let a = [(i / (m * m)) as f64 - (m / 2) as f64, (i / m % m) as f64 - (m / 2) as f64, (i % m) as f64 - (m / 2) as f64]; if nrm(&a) > 0.0 { ax.push(a) } } }
            ax.extend([[1.0, 1e-8, 0.0], [1e-8, 1.0, 1e-8], [1e-9, 1e-9, -1.0], [1.0, 1e-5, 1e-10], [1e-4, 1e-4, 1.0], [2.0, -1.0, 0.0]]);
            let mut an = angles(true);
            for d in [1e-7, 1e-8, 2e-8, 5e-9, 1e-9, 1e-10, 1e-12, 1e-14, 1e-15, 1e-16, 1e-17, 1e-20, 3e-4, 5e-4, 3e-5] { for b in [0.0, PI, PI / 2.0, 2.0 * PI] { an.push(b + d); an.push(b - d); an.push(-b + d) } }
            for i in 1..64 { an.push(i as f64 * 0.1) }
            an.extend(FAR);
            let mut ts = translations();
            ts.extend([[1e-6, 2e-6, -1e-6], [2.0, -1.0, 7.0], [0.0, 1e4, 0.0], [1e-9, -3e-9, 2e-9], [0.0, 0.0, 1e-12], [-1e-20, 1e-20, 0.0], [1e3, 1e-3, 1e-9]]);
            c.space("axis, angle and linear part", (ax.len() * an.len() * ts.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let (a, t, v) = (*d.pick(&ax), *d.pick(&an), *d.pick(&ts));
                r.key(hash_u(1, &[i]));
                r.sample(|| format!("{:?} {} {:?}", a, t, v));
                let w = sc3(unit3(a), t);
                expo::<f64>(w, v, r);
                expo::<f32>(w, v, r);
                let m = homog(&rodrigues(unit3(a), t), v);
                logm(&m44::<f64>(&m), &|| format!("axis {:?} angle {} translation {:?}", a, t, v), r);
                logm(&m44::<f32>(&m), &|| format!("axis {:?} angle {} translation {:?}", a, t, v), r);
            });
            let g = [0.0, 1.0, -0.5, 2.0, 1e-9];
            c.space("twist grid", 5u64.pow(6), |i, r| {
                let mut d = Dec(i);
                let w: [f64; 3] = std::array::from_fn(|_| *d.pick(&g));
                let v: [f64; 3] = std::array::from_fn(|_| *d.pick(&g));
                r.key(hash_u(2, &[i]));
                expo::<f64>(w, v, r);
                expo::<f32>(w, v, r);
            });
            let sh = shapes::<3>();
            c.space("twists of every structure", (sh.len() * sh.len() * 3) as u64, |i, r| {
                let s = [1.0, 0.2, 1e-4][(i % 3) as usize];
                let i = i / 3;
                let (w, v) = (sc3(sh[i as usize / sh.len()], s), sh[i as usize % sh.len()]);
                r.key(hash_u(12, &[i, s.to_bits()]));
                expo::<f64>(w, v, r);
                expo::<f32>(w, v, r);
                let th = nrm(&w);
                if th > 0.0 {
                    let m = homog(&rodrigues(unit3(w), th), v);
                    logm(&m44::<f64>(&m), &|| format!("rotation vector {:?} translation {:?}", w, v), r);
                    logm(&m44::<f32>(&m), &|| format!("rotation vector {:?} translation {:?}", w, v), r);
                }
            });
            // the linear part along, across and nearly along or across the axis
            let ls = [0.0, 1.0, -1.0, 2.5, -1e-3, 1e-4, 1e-9, -1e-13, 1e3, -1e6];
            c.every("linear parts along and across the axis", (ax.len() * an.len() * 100) as u64, 1, |i, r| {
                let mut d = Dec(i);
                let (l, e, t, a) = (*d.pick(&ls), *d.pick(&ls), *d.pick(&an), unit3(*d.pick(&ax)));
                let o = unit3(cross(a, if a[0].abs() < 0.8 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] }));
                let v = add3(sc3(a, l), sc3(o, e));
                let w = sc3(a, t);
                r.key(hash_u(13, &[i]));
                expo::<f64>(w, v, r);
                expo::<f32>(w, v, r);
                let m = homog(&rodrigues(a, t), v);
                logm(&m44::<f64>(&m), &|| format!("axis {:?} angle {} translation {:?}", a, t, v), r);
                logm(&m44::<f32>(&m), &|| format!("axis {:?} angle {} translation {:?}", a, t, v), r);
            });
            let ps = perms(3);
            c.space("signed axis permutations", 48 * ts.len() as u64, |i, r| {
                let mut d = Dec(i);
                let k = d.take(48);
                let mut m = zero::<3>();
                for j in 0..3 { m[j][ps[k / 8][j]] = if k >> j & 1 == 1 { -1.0 } else { 1.0 } }
                if det(&m).0 < 0.0 { return }
                r.key(hash_u(3, &[i]));
                let m = homog(&m, *d.pick(&ts));
                logm(&m44::<f64>(&m), &|| "permutation".into(), r);
                logm(&m44::<f32>(&m), &|| "permutation".into(), r);
            });
            let k = c.qt(5i64, 8);
            let m = (2 * k + 1) as usize;
            c.space("half turns about a lattice of axes", (m * m * m * ts.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let a: [f64; 3] = std::array::from_fn(|_| (d.take(m) as i64 - k) as f64);
                if nrm(&a) == 0.0 { return }
                let p = *d.pick(&ts);
                r.key(hash_u(4, &[i]));
                let e = homog(&qmat(qunit([0.0, a[0], a[1], a[2]])), p);
                logm(&m44::<f64>(&e), &|| format!("half turn about {:?} then {:?}", a, p), r);
                logm(&m44::<f32>(&e), &|| format!("half turn about {:?} then {:?}", a, p), r);
            });
            let us = unit_quats(2);
            c.space("quaternion rotations", (us.len() * ts.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let (q, p) = (d.pick(&us), *d.pick(&ts));
                r.key(hash_u(5, &[i]));
                let m = homog(&qmat(*q), p);
                logm(&m44::<f64>(&m), &|| format!("{:?} {:?}", q, p), r);
                logm(&m44::<f32>(&m), &|| format!("{:?} {:?}", q, p), r);
            });
            let mut ms: Vec<A<4>> = Vec::new();
            for (i, q) in unit_quats(0).iter().enumerate() { ms.push(homog(&qmat(*q), ts[i % 17])) }
            let n = ms.len() as u64;
            c.space("products of motions", n * n, |i, r| {
                let (a, b) = (&ms[(i / n) as usize], &ms[(i % n) as usize]);
                r.key(hash_u(6, &[i]));
                logm(&(m44::<f64>(a) * m44(b)), &|| "product".into(), r);
                logm(&(m44::<f32>(a) * m44(b)), &|| "product".into(), r);
            });
        },
    );
}
