//! C21: homogeneous transforms compose, split and invert as rigid motions.
use mc::adapt::*;
use mc::fam::*;
use mc::refm::*;
use mc::*;
use static_math::transformations as tf;

fn tol<T: Fl>() -> f64 { 128.0 * T::EPS }
type M = (A<3>, [f64; 3]);
fn inv(m: &M) -> M { let t = tr(&m.0); (t, sc3(mulv(&t, &m.1), -1.0)) }
fn h(m: &M) -> A<4> { homog(&m.0, m.1) }
const PTS: [[f64; 3]; 9] = [[1e-9, 0.0, -1e-9], [1e-20, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, -2.0, 3.0], [0.0, 0.0, 0.0], [-0.001, 100.0, -20.0], [5.0, 7.0, 11.0]];

fn parts<T: Fl>(q: &Q, p: [f64; 3], r: &mut Rec) {
    let (x, v) = (qn::<T>(*q), v3::<T>(p));
    let qe = qunit(aq(&x));
    let rot = m33::<T>(&qmat(qe));
    let m: M = (am33(&rot), a3(&v));
    // the translation to its own rounding, however short
    let s = nrm(&m.1);
    let t = tol::<T>();
    let ctx = || format!("{} rotation {:?} translation {:?}", T::NAME, qe, m.1);
    let hm = tf::homogeneous_from_rotation(&rot, &v);
    r.check("blocks of the homogeneous matrix", am44(&hm) == h(&m), || format!("{}: {:?}", ctx(), hm));
    let hq = tf::homogeneous_from_quaternion(&x, &v);
    r.check("homogeneous matrix of a quaternion", leh(&am44(&hq), &homog(&qmat(qe), m.1), t, 0.0), || format!("{}: {:?}", ctx(), hq));
    let (a, b) = tf::get_parts_raw(&hm);
    r.check("split returns the parts", am33(&a) == m.0 && a3(&b) == m.1, || format!("{}: {:?} {:?}", ctx(), a, b));
    let (a, b) = tf::get_parts(&hm);
    let qa = aq(&a);
    let cp = (m.0[0][0].powi(2) + m.0[1][0].powi(2)).sqrt();
    let se = T::EPS.sqrt();
    let tq = 64.0 * T::EPS / cp.max(se) + if cp < 16.0 * se { 32.0 * se } else { 0.0 };
    if cp < 16.0 * se { r.class("gimbal lock") }
    r.check("split returns the quaternion of the rotation", le((nrm(&qa) - 1.0).abs(), t) && le(dist(&qmat(qa), &m.0), tq), || format!("{}: {:?} is {:?}", ctx(), a, qmat(qa)));
    r.check("split returns the translation", a3(&b) == m.1, || format!("{}: {:?}", ctx(), b));
    // inverse
    let i = tf::homogeneous_inverse(&hm);
    let id = ident::<4>();
    r.check("the inverse is the inverse motion", leh(&am44(&i), &h(&inv(&m)), t, t * s), || format!("{}: {:?}", ctx(), i));
    r.check("the inverse is two-sided", leh(&am44(&(hm * i)), &id, t, t * s) && leh(&am44(&(i * hm)), &id, t, t * s), || format!("{}: {:?}", ctx(), i));
    r.check("the inverse is a homogeneous matrix", (0..4).all(|k| i[(3, k)].to() == id[3][k]), || format!("{}: {:?}", ctx(), i));
    let ii = tf::homogeneous_inverse(&i);
    r.check("inverting twice gives the motion back", leh(&am44(&ii), &h(&m), t, t * s), || format!("{}: {:?}", ctx(), ii));
    let ri = tf::rotation_inverse(&rot);
    r.check("the inverse of a rotation is two-sided", le(dist(&am33(&(rot * ri)), &ident::<3>()), t) && le(dist(&am33(&(ri * rot)), &ident::<3>()), t), || format!("{}: {:?}", ctx(), ri));
    for y in PTS {
        let z = v3::<T>(y);
        let y = a3(&z);
        let e = add3(mulv(&m.0, &y), m.1);
        let ps = s + nrm(&y);
        for (n, w) in [("rotates then translates", 1.0), ("only rotates a direction", 0.0)] {
            let g = hm * V4::new_from(z[0], z[1], z[2], T::of(w));
            let e = if w == 1.0 { e } else { mulv(&m.0, &y) };
            r.check(&format!("the homogeneous matrix {}", n), le(distv(&[g[0].to(), g[1].to(), g[2].to()], &e), t * if w == 1.0 { ps } else { nrm(&y) }) && g[3].to() == w, || format!("{} point {:?}: {:?}, expected {:?}", ctx(), y, g, e));
        }
        let g = a3(&tf::homogeneous_inverse_transform(&hm, &z));
        let e = mulv(&tr(&m.0), &sub3(y, m.1));
        r.check("inverse transform of a point", le(distv(&g, &e), t * ps), || format!("{} point {:?}: {:?}, expected {:?}", ctx(), y, g, e));
    }
    let tm = tf::translation_3d(v[0], v[1], v[2]);
    r.check("pure translation in space", am44(&tm) == homog(&ident::<3>(), m.1), || format!("{:?}: {:?}", m.1, tm));
    let tr_ = tm * tf::homogeneous_from_rotation(&rot, &V3::zeros());
    r.check("a motion is its translation after its rotation", leh(&am44(&tr_), &h(&m), t, t * s), || format!("{}: {:?}", ctx(), tr_));
}
fn compose<T: Fl>(a: &(Q, [f64; 3]), b: &(Q, [f64; 3]), r: &mut Rec) {
    let f = |x: &(Q, [f64; 3])| { let rot = m33::<T>(&qmat(x.0)); let v = v3::<T>(x.1); (tf::homogeneous_from_rotation(&rot, &v), (am33(&rot), a3(&v))) };
    let ((x, m), (y, n)) = (f(a), f(b));
    let e: M = (mul(&m.0, &n.0), add3(mulv(&m.0, &n.1), m.1));
    let t = tol::<T>();
    let tt = t * (nrm(&m.1) + nrm(&n.1));
    let w = || format!("{} {:?} after {:?}", T::NAME, a, b);
    let p = x * y;
    r.check("composition is the product", leh(&am44(&p), &h(&e), t, tt), || format!("{}: {:?}", w(), p));
    let g = tf::homogeneous_inverse(&p);
    r.check("inverse of a composition", leh(&am44(&g), &h(&inv(&e)), 2.0 * t, 2.0 * tt) && leh(&am44(&(tf::homogeneous_inverse(&y) * tf::homogeneous_inverse(&x))), &h(&inv(&e)), 2.0 * t, 2.0 * tt), || format!("{}: {:?}", w(), g));
    let z = v3::<T>(b.1);
    let d = tf::homogeneous_inverse_transform(&x, &z);
    let e = mulv(&tr(&m.0), &sub3(n.1, m.1));
    r.check("inverse transform of a point", le(distv(&a3(&d), &e), tt), || format!("{}: {:?}, expected {:?}", w(), d, e));
}
fn planar<T: Fl>(a: f64, p: [f64; 2], b: f64, q: [f64; 2], r: &mut Rec) {
    let f = |a: f64, p: [f64; 2]| { let (a, x, y) = (T::of(a), T::of(p[0]), T::of(p[1])); let (s, c) = a.to().sin_cos(); (tf::ksi(a, x, y), [[c, -s, x.to()], [s, c, y.to()], [0.0, 0.0, 1.0]], tf::translation_2d(x, y), tf::ksi(a, T::of(0.0), T::of(0.0))) };
    let ((k, e, tr2, rr), (l, g, _, _)) = (f(a, p), f(b, q));
    let t = tol::<T>();
    let tt = t * (nrm(&p) + nrm(&q));
    // rotation to rounding, translation to its own rounding
    let leh = |x: &A<3>, y: &A<3>| (0..3).all(|i| (0..3).all(|j| le((x[i][j] - y[i][j]).abs(), if j == 2 && i < 2 { tt } else { t })));
    let w = || format!("{} {} {:?}, {} {:?}", T::NAME, a, p, b, q);
    r.check("planar pose rotates then translates", leh(&am33(&k), &e), || format!("{}: {:?}, expected {:?}", w(), k, e));
    let mut te = ident::<3>();
    te[0][2] = e[0][2];
    te[1][2] = e[1][2];
    r.check("pure translation in the plane", am33(&tr2) == te, || format!("{}: {:?}", w(), tr2));
    r.check("planar pose is its translation after its rotation", leh(&am33(&(tr2 * rr)), &e), || format!("{}: {:?}", w(), tr2 * rr));
    r.check("planar poses compose", leh(&am33(&(k * l)), &mul(&e, &g)), || format!("{}: {:?}", w(), k * l));
}

fn main() {
    run(
        "C21",
        "exploration",
        "every rotation of a family with every translation of a list through every builder, splitter and inverse of the real code, with a list of points; every ordered pair of a sub-family for composition; every pair of planar poses of a grid; compared with the block formulas; non-trivial: distinct motions",
        &["rotations are rotations up to rounding; the quaternion of a split matrix is judged to the square root of the rounding unit within sixteen such units of gimbal lock"],
        |c| {
            let us = unit_quats(2);
            let mut ts = translations();
            ts.extend([[1e-6, 2e-6, -1e-6], [1e4, 0.0, -3e4], [2.0, -1.0, 7.0], [1e-9, -3e-9, 2e-9], [0.0, 0.0, 1e-12], [-1e-20, 1e-20, 0.0], [1e10, 2e10, -1e10], [1e3, 1e-3, 1e-9]]);
            { for i in 0..125 { ts.push([(i / 25) as f64 - 2.0, (i / 5 % 5) as f64 * 1.5 - 3.0, (i % 5) as f64 - 1.0]) } }
            c.space("rotations and translations", (us.len() * ts.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let (q, p) = (d.pick(&us), *d.pick(&ts));
                r.key(hash_u(1, &[i]));
                r.sample(|| format!("{:?} {:?}", q, p));
                parts::<f64>(q, p, r);
                parts::<f32>(q, p, r);
            });
            // translations at every order of magnitude, alone and in compositions
            let lad = [1e-110, 1e-60, 1e-30, 1e-18, 1e-17, 1e-14, 1e-13, 1e-11, 1e-10, 1e-8, 1e-7, 1e-5, 1e-4, 1e-2, 0.3, 1.0, 4.0, 50.0, 3e2, 2e3, 1e5, 1e7, 1e8, 1e10, 1e12, 1e14, 1e16, 1e18, 1e30, 1e60, 1e110];
            let few = unit_quats(0);
            let dirs = [[1.0, 0.0, 0.0], [0.0, -1.0, 2.0], [0.5, 0.25, -1.0], [-3.0, 0.0, 1.0], [0.0, 0.0, -1.0]];
            let small = |s: f64| s > 0.9e-30 && s < 1.1e30;
            c.space("translations at every magnitude", (few.len() * lad.len() * dirs.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let (q, s) = (d.pick(&few), *d.pick(&lad));
                let p = sc3(*d.pick(&dirs), s);
                r.key(hash_u(6, &[i]));
                parts::<f64>(q, p, r);
                if small(s) { parts::<f32>(q, p, r) }
            });
            c.space("compositions at every pair of magnitudes", (few.len() * lad.len() * lad.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let (k, s, t) = (d.take(few.len()), *d.pick(&lad), *d.pick(&lad));
                let (a, b) = ((few[k], sc3(dirs[k % 5], s)), (few[(k * 7 + 11) % few.len()], sc3(dirs[(k + 2) % 5], t)));
                r.key(hash_u(7, &[i]));
                compose::<f64>(&a, &b, r);
                if small(s) && small(t) { compose::<f32>(&a, &b, r) }
            });
            let mut pa = angles(false);
            pa.extend(FAR);
            c.space("planar poses at every pair of magnitudes", (pa.len() * lad.len() * lad.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let (k, s, t) = (d.take(pa.len()), *d.pick(&lad), *d.pick(&lad));
                let (p, q) = (dirs[k % 5], dirs[(k + 2) % 5]);
                r.key(hash_u(8, &[i]));
                let (b, p, q) = (pa[(k * 5 + 3) % pa.len()], [s * p[0], s * p[2]], [t * q[1], t * q[2]]);
                planar::<f64>(pa[k], p, b, q, r);
                if small(s) && small(t) { planar::<f32>(pa[k], p, b, q, r) }
            });
            // every structure of the translation, of the moved point and of planar translations
            let sh = shapes::<3>();
            c.every("translations of every structure", (sh.len() * few.len() * 2) as u64, 1, |i, r| {
                let mut d = Dec(i);
                let (q, p, s) = (d.pick(&few), *d.pick(&sh), *d.pick(&[1.0, 1e-3]));
                r.key(hash_u(9, &[i]));
                parts::<f64>(q, sc3(p, s), r);
                parts::<f32>(q, sc3(p, s), r);
            });
            c.space("compositions and points of every structure", (sh.len() * sh.len()) as u64, |i, r| {
                let (a, b) = (sh[i as usize / sh.len()], sh[i as usize % sh.len()]);
                let k = i as usize * 7919;
                r.key(hash_u(10, &[i]));
                let (x, y) = ((few[k % few.len()], a), (few[(k / few.len()) % few.len()], b));
                compose::<f64>(&x, &y, r);
                compose::<f32>(&x, &y, r);
            });
            let s2 = shapes::<2>();
            c.space("planar poses of every structure", (s2.len() * s2.len() * 12) as u64, |i, r| {
                let mut d = Dec(i);
                let (p, q, k) = (*d.pick(&s2), *d.pick(&s2), i as usize);
                r.key(hash_u(11, &[i]));
                planar::<f64>(pa[k % pa.len()], p, pa[(k * 5 + 3) % pa.len()], q, r);
                planar::<f32>(pa[k % pa.len()], p, pa[(k * 5 + 3) % pa.len()], q, r);
            });
            let bo = bin_oct();
            let v = [-3.0, -1.0, 0.0, 0.5, 2.0];
            c.space("translation grid", 125 * bo.len() as u64, |i, r| {
                let mut d = Dec(i);
                let p = [*d.pick(&v), *d.pick(&v), *d.pick(&v)];
                let q = d.pick(&bo);
                r.key(hash_u(2, &[i]));
                parts::<f64>(q, p, r);
                parts::<f32>(q, p, r);
            });
            let mut ms: Vec<(Q, [f64; 3])> = Vec::new();
            for (i, q) in unit_quats(0).iter().enumerate() { ms.push((*q, ts[i % 18])); { for k in 1..c.qt(4, 9) { ms.push((*q, ts[(i + 5 * k) % 18])) } } }
            let n = ms.len() as u64;
            c.space("all pairs of motions", n * n, |i, r| {
                let (a, b) = (&ms[(i / n) as usize], &ms[(i % n) as usize]);
                r.key(hash_u(3, &[i]));
                compose::<f64>(a, b, r);
                compose::<f32>(a, b, r);
            });
            let mut an = angles(true);
            an.extend(FAR);
            let ps = [[0.0, 0.0], [1.0, 0.0], [0.0, 2.0], [-3.0, 0.5], [100.0, -7.0], [1e-9, -1e-9], [0.0, 1e-20], [1e8, 1.0]];
            let m = (an.len() * ps.len()) as u64;
            c.space("pairs of planar poses", m * m, |i, r| {
                let mut d = Dec(i);
                let (a, b, p, q) = (*d.pick(&an), *d.pick(&an), *d.pick(&ps), *d.pick(&ps));
                r.key(hash_u(4, &[i]));
                planar::<f64>(a, p, b, q, r);
                planar::<f32>(a, p, b, q, r);
            });
        },
    );
}
