//! C13: axis-angle and Euler views of quaternions.
use mc::adapt::*;
use mc::fam::*;
use mc::refm::*;
use mc::*;

fn tol<T: Fl>() -> f64 { 256.0 * T::EPS }

/// clauses about a quaternion `x` meant to be the rotation matrix `e`
fn views<T: Fl>(x: &Quaternion<T>, e: &A<3>, ctx: &dyn Fn() -> String, r: &mut Rec) {
    let a = aq(x);
    let n = nrm(&a);
    let u = qsc(a, 1.0 / n);
    let (ax, an) = x.axis_angle();
    let t = tol::<T>();
    let w = || format!("{} {}: {:?} axis {:?} angle {:?}", T::NAME, ctx(), x, ax, an);
    r.check("the combined view is the two views", match (ax, x.get_axis()) { (Some(p), Some(q)) => le(distv(&a3(&p), &a3(&q)), 16.0 * T::EPS), (None, None) => true, _ => false } && le((an - x.get_angle()).to().abs(), 16.0 * T::EPS), w);
    let im = nrm(&u[1..]);
    match ax {
        Some(v) => {
            let v = a3(&v);
            r.class("axis reported");
            r.check("reported axis is unit", le((nrm(&v) - 1.0).abs(), t / im.max(t)), w);
            r.check("reported axis and angle reproduce the rotation", le(dist(&rodrigues(v, an.to()), e), 2.0 * t), || format!("{}: {:?}, expected {:?}", w(), rodrigues(v, an.to()), e));
            if im > 4.0 * T::EPS && im < 0.7 && u[0] > 0.0 {
                // a small rotation to its own size
                let th = 2.0 * im.atan2(u[0]);
                let e: Vec<f64> = u[1..].iter().map(|c| c * th / im).collect();
                let g: Vec<f64> = v.iter().map(|c| c * an.to()).collect();
                r.check("axis times angle of a small rotation is its rotation vector", le(distv(&g, &e), 64.0 * T::EPS * th) && le((an.to() - th).abs(), 64.0 * T::EPS * th), || format!("{}: {:?}, expected {:?}", w(), g, e));
            }
            if im < T::EPS / 16.0 { r.check("the identity has no axis", false, w); }
        }
        None => {
            r.class("no axis reported");
            r.check("a rotation has an axis", im <= 8.0 * T::EPS, w);
        }
    }
}
fn axis_angle<T: Fl>(ax: [f64; 3], an: f64, r: &mut Rec) {
    let (v, t) = (v3::<T>(ax), T::of(an));
    let (ax, an) = (a3(&v), t.to());
    let u = unit3(ax);
    let e = rodrigues(u, an);
    let q = Quaternion::rotation(t, &v);
    // sin/cos of large angles lose nothing, but the half angle is exact
    let to = tol::<T>();
    let w = || format!("{} axis {:?} angle {}: {:?}", T::NAME, ax, an, q);
    r.check("axis-angle quaternion is unit", le((nrm(&aq(&q)) - 1.0).abs(), to), w);
    r.check("axis-angle quaternion is the right-handed rotation", le(dist(&qmat(aq(&q)), &e), to), || format!("{}: {:?}, expected {:?}", w(), qmat(aq(&q)), e));
    let (sn, cs) = (an / 2.0).sin_cos();
    r.check("axis-angle quaternion to the rounding of every component", comps::<T>(&aq(&q), &[cs, u[0] * sn, u[1] * sn, u[2] * sn], &[cs.abs(), (u[0] * sn).abs(), (u[1] * sn).abs(), (u[2] * sn).abs()]), || format!("{} {} {:?}", w(), cs, sc3(u, sn)));
    views(&q, &e, &|| format!("axis {:?} angle {}", ax, an), r);
    // an axis along the rotation stays put
    let g = a3(&(q * v3::<T>(u)));
    r.check("the axis is fixed", le(distv(&g, &u), to), w);
    for s in [3.0, 0.25, 1e-3, 1e3, 1e-6, 1e6, 1e-13, 1e14] {
        if s < 4.0 * T::EPS { continue }
        views(&(Quaternion::new(q.real(), q.imag()) * T::of(s)), &e, &|| format!("axis {:?} angle {} scaled by {}", ax, an, s), r);
    }
    // length-encoded variant
    let v = v3::<T>(sc3(u, an));
    let (ve, n) = (a3(&v), nrm(&a3(&v)));
    let e = if n > 0.0 { rodrigues(unit3(ve), n) } else { ident::<3>() };
    let p = Quaternion::rotation_norm_encoded(&v);
    let w = || format!("{} vector {:?}: {:?}", T::NAME, ve, p);
    let to = to * (1.0 + an.abs() / 16.0);
    r.check("length-encoded quaternion is unit", le((nrm(&aq(&p)) - 1.0).abs(), to), w);
    r.check("length-encoded quaternion is the same rotation", le(dist(&qmat(aq(&p)), &e), to), || format!("{}: {:?}, expected {:?}", w(), qmat(aq(&p)), e));
    if n > 2.0 * T::EPS {
        let (sn, cs) = (n / 2.0).sin_cos();
        let k = sn.abs() + n / 2.0 * cs.abs();
        let u = unit3(ve);
        r.check("length-encoded quaternion to the rounding of every component", comps::<T>(&aq(&p), &[cs, u[0] * sn, u[1] * sn, u[2] * sn], &[cs.abs() + n / 2.0 * sn.abs(), u[0].abs() * k, u[1].abs() * k, u[2].abs() * k]), w);
    }
    if n == 0.0 { r.check("the zero vector gives the identity", aq(&p) == [1.0, 0.0, 0.0, 0.0], w); }
}
/// equal up to a common sign, every component to a few rounding units of its magnitude
fn comps<T: Fl>(g: &Q, e: &Q, mag: &Q) -> bool {
    [1.0, -1.0].iter().any(|s| (0..4).all(|k| le((g[k] - s * e[k]).abs(), 16.0 * T::EPS * mag[k] + T::MINP)))
}
fn zyx(y: f64, p: f64, o: f64) -> Q { qmul(qmul(qaxis([0.0, 0.0, 1.0], y), qaxis([0.0, 1.0, 0.0], p)), qaxis([1.0, 0.0, 0.0], o)) }
/// the angles read back from a quaternion rebuild its rotation
fn euler_back<T: Fl>(x: &Quaternion<T>, ctx: &dyn Fn() -> String, r: &mut Rec) {
    let m = qmat(qunit(aq(x)));
    let (y, p, o) = x.to_euler_angles();
    let g = qmat(zyx(y.to(), p.to(), o.to()));
    let cp = (m[0][0] * m[0][0] + m[1][0] * m[1][0]).sqrt();
    let se = T::EPS.sqrt();
    if cp < 16.0 * se { r.class("gimbal lock") }
    let t = 64.0 * T::EPS;
    let w = || format!("{} {}: {:?} angles {:?} {:?} {:?} rebuild {:?}, expected {:?}", T::NAME, ctx(), x, y, p, o, g, m);
    r.check("Euler angles read back rebuild the rotation", le(dist(&g, &m), t), w);
    r.check("pitch lies within a quarter turn", le(p.to().abs(), PI / 2.0 * (1.0 + 4.0 * T::EPS)), w);
}
fn euler<T: Fl>(y: f64, p: f64, o: f64, r: &mut Rec) {
    let (a, b, c) = (T::of(y), T::of(p), T::of(o));
    let q = Quaternion::from_euler_angles(a, b, c);
    let e = zyx(a.to(), b.to(), c.to());
    let w = || format!("{} angles {} {} {}: {:?}, expected {:?}", T::NAME, a, b, c, q, e);
    r.check("Euler quaternion is unit", le((nrm(&aq(&q)) - 1.0).abs(), tol::<T>()), w);
    r.check("Euler quaternion is the product about z, y and x", le(dist(&qmat(aq(&q)), &qmat(e)), tol::<T>()), w);
    let h = [a, b, c].map(|x| (x.to() / 2.0).sin_cos());
    let [(ys, yc), (ps, pc), (os, oc)] = h.map(|(s, c)| (s.abs(), c.abs()));
    let mag = [oc * pc * yc + os * ps * ys, os * pc * yc + oc * ps * ys, oc * ps * yc + os * pc * ys, oc * pc * ys + os * ps * yc];
    r.check("Euler quaternion to the rounding of every component", comps::<T>(&aq(&q), &e, &mag), w);
    euler_back(&q, &|| format!("from angles {} {} {}", a, b, c), r);
}

fn main() {
    run(
        "C13",
        "exploration",
        "every axis of a lattice of directions with every angle of a grid (multiples of 15 degrees, neighbourhoods of the singular angles, several turns), every yaw/pitch/roll triple of an angle grid with both gimbal-lock pitches and their neighbourhoods, and every unit quaternion of a family, is executed on the real code and compared with Rodrigues' formula and elementary products; non-trivial: distinct inputs",
        &[],
        |c| {
            let mut ax = axes();
            { let m = c.qt(5, 9); for i in 0..m * m * m { let a = [(i / (m * m)) as f64 - (m / 2) as f64, (i / m % m) as f64 - (m / 2) as f64, (i % m) as f64 - (m / 2) as f64]; if nrm(&a) > 0.0 { ax.push(a) } } }
            let sc = [1.0, 1e-3, 1e3, 7.0, 1e-6, 1e6, 1e-12, 1e12];
            let mut an = angles(true);
            an.extend((2..40).flat_map(|k| [1.7 * 10f64.powf(-k as f64 / 2.0), -1.7 * 10f64.powf(-k as f64 / 2.0)]));
            an.extend(FAR);
            an.extend([1e-30, 1e-100, 30.0, 1000.0, -12345.0, 1e6, -1e9, 1e15]);
            c.space("axis and angle", (ax.len() * an.len() * sc.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let s = *d.pick(&sc);
                let (a, t) = (*d.pick(&ax), *d.pick(&an));
                r.key(hash_u(1, &[i]));
                r.sample(|| format!("{:?} {}", a, t));
                axis_angle::<f64>(sc3(a, s), t, r);
                axis_angle::<f32>(sc3(a, s), t, r);
            });
            // every structure of the axis, of the angle triple and of the components
            let s3: Vec<[f64; 3]> = shapes::<3>().into_iter().filter(|a| nrm(a) > 0.0).collect();
            c.space("axes of every structure", (s3.len() * an.len() * 3) as u64, |i, r| {
                let mut d = Dec(i);
                let (a, t, s) = (*d.pick(&s3), *d.pick(&an), *d.pick(&[1.0, 1e-5, 300.0]));
                r.key(hash_u(8, &[i]));
                axis_angle::<f64>(sc3(a, s), t, r);
                axis_angle::<f32>(sc3(a, s), t, r);
            });
            c.space("angle triples of every structure", (s3.len() * 6) as u64, |i, r| {
                let mut d = Dec(i);
                let a = sc3(*d.pick(&s3), *d.pick(&[1.0, 0.3, 0.1, 0.01, 1e-5, 0.77]));
                r.key(hash_u(9, &[i]));
                euler::<f64>(a[0], a[2], a[1], r);
                euler::<f32>(a[0], a[2], a[1], r);
            });
            let s4: Vec<Q> = shapes::<4>().into_iter().filter(|q| nrm(q) > 0.0).map(qunit).collect();
            c.list("unit quaternions of every structure", &s4, |q, r| {
                r.key(hash_f(10, q));
                euler_back(&qn::<f64>(*q), &|| String::new(), r);
                euler_back(&qn::<f32>(*q), &|| String::new(), r);
                views(&qn::<f64>(*q), &qmat(*q), &|| String::new(), r);
                views(&qn::<f32>(*q), &qmat(qunit(aq(&qn::<f32>(*q)))), &|| String::new(), r);
            });
            c.list("the identity in every form", &[Quaternion::<f64>::one(), Quaternion::new_real(1.0), Quaternion::new_real(-1.0), Quaternion::new_real(5.0), Quaternion::rotation(0.0, &V3::x_axis()), Quaternion::rotation_norm_encoded(&V3::zeros()), Quaternion::from_euler_angles(0.0, 0.0, 0.0)], |q, r| {
                r.key(hash_f(2, &aq(q)));
                r.check("the identity has no axis", q.get_axis().is_none() && q.axis_angle().0.is_none(), || format!("{:?}", q));
                r.check("the identity turns by a multiple of a full turn", le((q.get_angle() / 2.0).sin().abs(), 1e-12), || format!("{:?} {}", q, q.get_angle()));
            });
            let mut el: Vec<f64> = (-12..=12).map(|k| k as f64 * PI / 12.0).collect();
            el.extend([0.1, -1.0, 2.5, 4.0]);
            let mut pl = el.clone();
            for d in [0.0, 1e-16, 1e-15, 1e-12, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 3e-4, 1e-3, 1e-2] { for s in [1.0, -1.0] { pl.push(s * (PI / 2.0 - d)); pl.push(s * (PI / 2.0 + d)) } }
            let m = c.qt(40, 100);
            el.extend((-m..m).map(|k| k as f64 * 6.28 / m as f64 + 0.011));
            c.space("yaw, pitch, roll", (el.len() * el.len() * pl.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let (y, o, p) = (*d.pick(&el), *d.pick(&el), *d.pick(&pl));
                r.key(hash_u(3, &[i]));
                r.sample(|| format!("{} {} {}", y, p, o));
                euler::<f64>(y, p, o, r);
                euler::<f32>(y, p, o, r);
            });
            let far: Vec<f64> = FAR.into_iter().chain([0.0, 1.0, -0.5, 3.0]).collect();
            let nf = far.len() as u64;
            c.space("yaw, pitch, roll of many turns", nf * nf * nf, |i, r| {
                let mut d = Dec(i);
                let (y, o, p) = (*d.pick(&far), *d.pick(&far), *d.pick(&far));
                r.key(hash_u(11, &[i]));
                euler::<f64>(y, p, o, r);
                euler::<f32>(y, p, o, r);
            });
            let tiny: Vec<f64> = [1.0, -1.0, 0.7].iter().flat_map(|s| [0.2, 1e-2, 1e-4, 1e-7, 1e-10, 1e-14, 1e-20, 1e-40].map(|m| s * m)).chain([0.0]).collect();
            let nt = tiny.len() as u64;
            c.space("small yaw, pitch, roll", nt * nt * nt, |i, r| {
                let mut d = Dec(i);
                let (y, o, p) = (*d.pick(&tiny), *d.pick(&tiny), *d.pick(&tiny));
                r.key(hash_u(7, &[i]));
                euler::<f64>(y, p, o, r);
                euler::<f32>(y, p, o, r);
            });
            let us = unit_quats(2);
            c.list("Euler angles of unit quaternions", &us, |q, r| {
                r.key(hash_f(4, q));
                euler_back(&qn::<f64>(*q), &|| String::new(), r);
                euler_back(&qn::<f32>(*q), &|| String::new(), r);
                views(&qn::<f64>(*q), &qmat(*q), &|| String::new(), r);
                views(&qn::<f32>(*q), &qmat(qunit(aq(&qn::<f32>(*q)))), &|| String::new(), r);
            });
            // products of two family members land on gimbal lock with rounding noise
            let bo = bin_oct();
            let ns = unit_quats(0);
            c.space("Euler angles of products", (bo.len() * ns.len() * 2) as u64, |i, r| {
                let mut d = Dec(i);
                let (a, b) = (*d.pick(&bo), *d.pick(&ns));
                let p = if d.take(2) == 0 { qmul(a, b) } else { qmul(b, a) };
                r.key(hash_u(5, &[i]));
                euler_back(&qn::<f64>(p), &|| String::new(), r);
                euler_back(&qn::<f32>(p), &|| String::new(), r);
            });
        },
    );
}
