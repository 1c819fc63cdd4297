//! C20: elementary rotations, named Euler sequences and their inverse.
use mc::adapt::*;
use mc::fam::*;
use mc::refm::*;
use mc::*;
use static_math::transformations as tf;
use tf::EulerSeq;

const AX: [[f64; 3]; 3] = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
fn tol<T: Fl>() -> f64 { 64.0 * T::EPS }
/// every entry to a few rounding units of itself (or of the given magnitude)
fn entrywise<T: Fl, const N: usize>(g: &A<N>, e: &A<N>, mag: &A<N>, k: f64) -> bool {
    (0..N).all(|i| (0..N).all(|j| le((g[i][j] - e[i][j]).abs(), k * T::EPS * mag[i][j] + T::MINP)))
}
fn builder<T: Fl>(k: usize, a: T) -> M33<T> { match k { 0 => tf::rotx(a), 1 => tf::roty(a), _ => tf::rotz(a) } }
fn seq(k: usize) -> (Option<EulerSeq>, [usize; 3], &'static str) {
    match k {
        0 => (Some(EulerSeq::XYX), [0, 1, 0], "XYX"),
        1 => (Some(EulerSeq::XYZ), [0, 1, 2], "XYZ"),
        2 => (Some(EulerSeq::XZX), [0, 2, 0], "XZX"),
        3 => (Some(EulerSeq::XZY), [0, 2, 1], "XZY"),
        4 => (Some(EulerSeq::YXY), [1, 0, 1], "YXY"),
        5 => (Some(EulerSeq::YXZ), [1, 0, 2], "YXZ"),
        6 => (Some(EulerSeq::YZX), [1, 2, 0], "YZX"),
        7 => (Some(EulerSeq::YZY), [1, 2, 1], "YZY"),
        8 => (Some(EulerSeq::ZXY), [2, 0, 1], "ZXY"),
        9 => (Some(EulerSeq::ZXZ), [2, 0, 2], "ZXZ"),
        _ => (None, [2, 1, 0], "default"),
    }
}
fn elementary<T: Fl>(a: f64, r: &mut Rec) {
    let x = T::of(a);
    let a = x.to();
    if !a.is_finite() { return }
    for k in 0..3 {
        let (g, e) = (am33(&builder(k, x)), rodrigues(AX[k], a));
        r.check("elementary rotation is right-handed about its axis", entrywise::<T, 3>(&g, &e, &absm(&e), 16.0), || format!("{} axis {} angle {}: {:?}, expected {:?}", T::NAME, k, a, g, e));
    }
    let m = tf::rot2(x);
    let (s, c) = a.sin_cos();
    let e = [[c, -s], [s, c]];
    let g = [[m[(0, 0)].to(), m[(0, 1)].to()], [m[(1, 0)].to(), m[(1, 1)].to()]];
    r.check("planar rotation is right-handed", entrywise::<T, 2>(&g, &e, &absm(&e), 16.0), || format!("{} angle {}: {:?}, expected {:?}", T::NAME, a, g, e));
}
fn additive<T: Fl>(a: f64, b: f64, r: &mut Rec) {
    let (x, y) = (T::of(a), T::of(b));
    if !(x + y).is_finite() { return }
    let t = tol::<T>() + 4.0 * T::EPS * (a.abs() + b.abs());
    for k in 0..3 {
        let (g, e) = (builder(k, x) * builder(k, y), builder(k, x + y));
        r.check("rotations about one axis add their angles", le(dist(&am33(&g), &am33(&e)), t), || format!("{} axis {} angles {} {}: {:?}, expected {:?}", T::NAME, k, a, b, g, e));
    }
    let (g, e) = (tf::rot2(x) * tf::rot2(y), tf::rot2(x + y));
    r.check("planar rotations add their angles", (0..2).all(|i| (0..2).all(|j| le((g[(i, j)].to() - e[(i, j)].to()).abs(), t))), || format!("{} angles {} {}: {:?}, expected {:?}", T::NAME, a, b, g, e));
}
fn sequence<T: Fl>(k: usize, a: [f64; 3], r: &mut Rec) {
    let x = a.map(T::of);
    let a = x.map(|v| v.to());
    let (s, ax, name) = seq(k);
    let g = am33(&tf::euler_to_rotation(x[0], x[1], x[2], s));
    let f = [0, 1, 2].map(|i| rodrigues(AX[ax[i]], a[i]));
    let e = mul(&mul(&f[0], &f[1]), &f[2]);
    let mag = mul(&mul(&absm(&f[0]), &absm(&f[1])), &absm(&f[2]));
    r.check("an Euler sequence is the product in the order named", entrywise::<T, 3>(&g, &e, &mag, 32.0), || format!("{} {} angles {:?}: {:?}, expected {:?}", T::NAME, name, a, g, e));
}
fn zyx(y: f64, p: f64, o: f64) -> A<3> { mul(&mul(&rodrigues(AX[2], y), &rodrigues(AX[1], p)), &rodrigues(AX[0], o)) }
fn recover<T: Fl>(m: &M33<T>, exact: bool, ctx: &dyn Fn() -> String, r: &mut Rec) {
    let a = am33(m);
    let (y, p, o) = tf::rotation_to_euler(m);
    let g = zyx(y.to(), p.to(), o.to());
    let cp = (a[0][0] * a[0][0] + a[1][0] * a[1][0]).sqrt();
    let se = T::EPS.sqrt();
    if cp < 16.0 * se { r.class("gimbal lock") }
    let t = 64.0 * T::EPS;
    let w = || format!("{} {}: {:?} gives {:?} {:?} {:?} rebuilding {:?}", T::NAME, ctx(), a, y, p, o, g);
    r.check("recovered angles rebuild the rotation", le(dist(&g, &a), t), w);
    // close to the identity: to the rounding of the deviation from it
    let mut off = a;
    for i in 0..3 { off[i][i] = 0.0 }
    let off = maxabs(&off);
    if exact && off < 0.01 && (0..3).all(|i| a[i][i] > 0.0) {
        r.class("close to the identity");
        let ok = (0..3).all(|i| (0..3).all(|j| i == j || le((g[i][j] - a[i][j]).abs(), t * off + T::MINP)));
        r.check("recovered angles of a small rotation rebuild it to its own size", ok, w);
    }
    r.check("pitch lies within a quarter turn", le(p.to().abs(), PI / 2.0 * (1.0 + 4.0 * T::EPS)), w);
    // and through the library's own builder
    let h = am33(&tf::euler_to_rotation(y, p, o, None));
    r.check("recovered angles rebuild the rotation through the default sequence", le(dist(&h, &a), t + tol::<T>()), w);
}

fn main() {
    run(
        "C20",
        "exploration",
        "every angle of a grid for the elementary rotations, every pair for additivity, every triple of an angle grid for each of the eleven sequences, and every rotation of several families (Euler triples with the gimbal-lock poses and their neighbourhoods, the 24 signed axis permutations, quaternion rotations, products with rounding noise) for the recovery; executed on the real code and compared with Rodrigues' formula; non-trivial: distinct inputs",
        &[],
        |c| {
            let mut an = angles(true);
            an.extend((-200..=200).map(|k| k as f64 * 0.05));
            an.extend(FAR);
            an.extend([1e-8, 1e-12, 1e-30, 1e-100, 1e-300, -1e-5, 1000.0, -12345.0, 1e6, 1e8, -1e9, 1e15, 1e22, -1e100, 1e300]);
            an.extend((3..40).flat_map(|k| [1.3 * 10f64.powf(-k as f64 / 2.0), -1.3 * 10f64.powf(-k as f64 / 2.0)]));
            c.list("elementary rotations", &an, |a, r| {
                r.key(hash_f(1, &[*a]));
                r.sample(|| format!("{}", a));
                elementary::<f64>(*a, r);
                elementary::<f32>(*a, r);
            });
            let n = an.len() as u64;
            c.space("additivity", n * n, |i, r| {
                let (a, b) = (an[(i / n) as usize], an[(i % n) as usize]);
                r.key(hash_f(2, &[a, b]));
                additive::<f64>(a, b, r);
                additive::<f32>(a, b, r);
            });
            let tiny: Vec<f64> = [0.0, 1.0, -1.0, 0.7].iter().flat_map(|s| [1e-1, 1e-3, 1e-5, 1e-8, 1e-12, 1e-16, 1e-20, 1e-30].map(|m| s * m)).collect();
            let nt = tiny.len() as u64;
            c.space("sequences of small angles", 11 * nt * nt * nt, |i, r| {
                let mut d = Dec(i);
                let k = d.take(11);
                let a = [*d.pick(&tiny), *d.pick(&tiny), *d.pick(&tiny)];
                r.key(hash_u(7, &[i]));
                sequence::<f64>(k, a, r);
                sequence::<f32>(k, a, r);
                if k == 10 {
                    let e = zyx(a[0], a[1], a[2]);
                    recover(&m33::<f64>(&e), true, &|| format!("{:?}", a), r);
                    recover(&m33::<f32>(&e), true, &|| format!("{:?}", a), r);
                }
            });
            let far: Vec<f64> = FAR.into_iter().chain([0.0, 1.0, -0.5, 3.0]).collect();
            let nf = far.len() as u64;
            c.space("sequences of angles of many turns", 11 * nf * nf * nf, |i, r| {
                let mut d = Dec(i);
                let k = d.take(11);
                let a = [*d.pick(&far), *d.pick(&far), *d.pick(&far)];
                r.key(hash_u(9, &[i]));
                sequence::<f64>(k, a, r);
                sequence::<f32>(k, a, r);
            });
            // every structure of the three angles: equal, opposite, nearly so, any order
            let sh = shapes::<3>();
            let sc = [1.0, 0.3, 0.01, 1e-5];
            c.space("sequences of angles of every structure", (11 * sh.len() * 4) as u64, |i, r| {
                let mut d = Dec(i);
                let k = d.take(11);
                let a = sc3(*d.pick(&sh), *d.pick(&sc));
                r.key(hash_u(8, &[i]));
                sequence::<f64>(k, a, r);
                sequence::<f32>(k, a, r);
                if k == 10 {
                    let e = zyx(a[0], a[1], a[2]);
                    recover(&m33::<f64>(&e), false, &|| format!("{:?}", a), r);
                    recover(&m33::<f32>(&e), false, &|| format!("{:?}", a), r);
                }
            });
            let g: Vec<f64> = (-12..=12).map(|k| k as f64 * PI / 12.0).chain([0.1, -1.0, 2.5, 7.0, -4.0]).chain({ let m = c.qt(20, 60); (-m..m).map(|k| k as f64 * 7.4 / m as f64 + 0.013).collect::<Vec<_>>() }).collect();
            let n = g.len() as u64;
            c.space("sequences", 11 * n * n * n, |i, r| {
                let mut d = Dec(i);
                let k = d.take(11);
                let a = [*d.pick(&g), *d.pick(&g), *d.pick(&g)];
                r.key(hash_u(3, &[i]));
                r.sample(|| format!("{} {:?}", seq(k).2, a));
                r.class(seq(k).2);
                sequence::<f64>(k, a, r);
                sequence::<f32>(k, a, r);
            });
            let mut pl = g.clone();
            for d in [0.0, 1e-16, 1e-15, 1e-12, 1e-10, 1e-9, 3e-9, 1e-8, 3e-8, 1e-7, 1e-6, 1e-5, 1e-4, 3e-4, 1e-3, 1e-2] { for s in [1.0, -1.0] { pl.push(s * (PI / 2.0 - d)); pl.push(s * (PI / 2.0 + d)) } }
            c.space("recovery from Euler triples", n * n * pl.len() as u64, |i, r| {
                let mut d = Dec(i);
                let (y, o, p) = (*d.pick(&g), *d.pick(&g), *d.pick(&pl));
                r.key(hash_u(4, &[i]));
                let e = zyx(y, p, o);
                recover(&m33::<f64>(&e), false, &|| format!("{} {} {}", y, p, o), r);
                recover(&m33::<f32>(&e), false, &|| format!("{} {} {}", y, p, o), r);
                recover(&tf::euler_to_rotation(y, p, o, None), false, &|| format!("{} {} {}", y, p, o), r);
                recover(&tf::euler_to_rotation(y as f32, p as f32, o as f32, None), false, &|| format!("{} {} {}", y, p, o), r);
            });
            let ps = perms(3);
            c.space("recovery from signed axis permutations", 48, |i, r| {
                let mut m = zero::<3>();
                for k in 0..3 { m[k][ps[(i / 8) as usize][k]] = if i >> k & 1 == 1 { -1.0 } else { 1.0 } }
                if det(&m).0 < 0.0 { return }
                r.key(hash_u(5, &[i]));
                recover(&m33::<f64>(&m), false, &|| "permutation".into(), r);
                recover(&m33::<f32>(&m), false, &|| "permutation".into(), r);
                // signed zeros
                for z in 0..64u32 {
                    let mut b = 0;
                    let mut m = m;
                    for x in m.iter_mut().flatten() { if *x == 0.0 { if z >> b & 1 == 1 { *x = -0.0 } b += 1 } }
                    recover(&m33::<f64>(&m), false, &|| "permutation with signed zeros".into(), r);
                    recover(&m33::<f32>(&m), false, &|| "permutation with signed zeros".into(), r);
                }
            });
            let us = unit_quats(2);
            let bo = bin_oct();
            c.space("recovery from quaternion rotations and products", (us.len() * (1 + 2 * bo.len())) as u64, |i, r| {
                let mut d = Dec(i);
                let q = *d.pick(&us);
                let k = d.take(1 + 2 * bo.len());
                r.key(hash_u(6, &[i]));
                let (a, b) = if k == 0 { (m33::<f64>(&qmat(q)), m33::<f32>(&qmat(q))) } else {
                    let s = &bo[(k - 1) / 2];
                    let (x, y) = (qmat(q), qmat(*s));
                    if k % 2 == 1 { (m33::<f64>(&x) * m33(&y), m33::<f32>(&x) * m33(&y)) } else { (m33::<f64>(&y) * m33(&x), m33::<f32>(&y) * m33(&x)) }
                };
                recover(&a, false, &|| format!("{:?} {}", q, k), r);
                recover(&b, false, &|| format!("{:?} {}", q, k), r);
            });
        },
    );
}
