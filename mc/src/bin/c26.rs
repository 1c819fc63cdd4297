//! C26: the pose machine. A state is one rigid motion held in four representations of the library
//! (quaternion and vector, rotation matrix and vector, dual quaternion, homogeneous matrix) next to a
//! reference motion; actions move all of them at once or convert one into another.
use mc::adapt::*;
use mc::fam::PI;
use mc::refm::*;
use mc::*;
use static_math::traits::LinearAlgebra;
use static_math::transformations as tf;

#[derive(Clone, Copy)]
struct Pose<T> {
    q: Quaternion<T>,
    t: V3<T>,
    r: M33<T>,
    s: V3<T>,
    d: DualQuaternion<T>,
    h: M44<T>,
    mr: A<3>,
    mt: [f64; 3],
    /// the unit of length of the world this pose lives in
    k: f64,
}
/// one motion of the alphabet, as numbers
#[derive(Clone, Copy, Debug)]
enum Mv {
    Turn([f64; 3], f64),
    Euler(f64, f64, f64),
    Shift([f64; 3]),
    Screw([f64; 3], f64, [f64; 3]),
}
#[derive(Clone, Copy, Debug)]
enum Act { Post(Mv), Pre(Mv), Inverse, Square, Conv(usize) }
const CONVS: [&str; 16] = [
    "quaternion from matrix", "matrix from quaternion", "dual quaternion from homogeneous", "homogeneous from dual quaternion",
    "dual quaternion from quaternion and vector", "homogeneous from quaternion and vector", "quaternion and vector from homogeneous",
    "matrix and vector from homogeneous", "quaternion and vector from dual quaternion", "matrix and vector from dual quaternion",
    "dual quaternion from matrix and vector", "homogeneous from matrix and vector", "normalise", "other sign", "dual quaternion from array", "euler angles and back",
];

fn tol<T: Fl>() -> f64 { if T::EPS > 1e-10 { 3e-5 } else { 2e-13 } }
fn start<T: Fl>(k: f64) -> Pose<T> {
    Pose { q: Quaternion::one(), t: V3::zeros(), r: M33::identity(), s: V3::zeros(), d: DualQuaternion::one(), h: M44::identity(), mr: ident::<3>(), mt: [0.0; 3], k }
}
fn ident<const N: usize>() -> A<N> { std::array::from_fn(|i| std::array::from_fn(|j| (i == j) as u8 as f64)) }
/// the motion in the four representations, and by definition
fn build<T: Fl>(m: Mv, k: f64) -> Pose<T> {
    let mut p = start::<T>(k);
    let o = |x: f64| T::of(x);
    match m {
        Mv::Turn(a, th) => {
            let (av, ang) = (v3::<T>(a), o(th));
            let n = av / av.norm2();
            p.q = Quaternion::rotation(ang, &av);
            p.r = if a == [1., 0., 0.] { tf::rotx(ang) } else if a == [0., 1., 0.] { tf::roty(ang) } else if a == [0., 0., 1.] { tf::rotz(ang) } else { tf::rotation_from_axis_angle(&n, ang) };
            p.d = DualQuaternion::new_from_rotation(&p.q);
            p.h = tf::homogeneous_from_rotation(&p.r, &V3::zeros());
            p.mr = rodrigues(unit3(a3(&av)), ang.to());
        }
        Mv::Euler(a, b, c) => {
            p.q = Quaternion::from_euler_angles(o(a), o(b), o(c));
            p.r = tf::euler_to_rotation(o(a), o(b), o(c), None);
            p.d = DualQuaternion::new_from_rotation_matrix(&p.r);
            p.h = tf::homogeneous_from_quaternion(&p.q, &V3::zeros());
            let e = |k: usize, x: f64| { let mut u = [0.0; 3]; u[k] = 1.0; rodrigues(u, o(x).to()) };
            p.mr = mul(&mul(&e(2, a), &e(1, b)), &e(0, c));
        }
        Mv::Shift(v) => {
            let w = v3::<T>(sc3(v, k));
            p.t = w;
            p.s = w;
            p.d = DualQuaternion::new_from_translation(&w);
            p.h = tf::translation_3d(w[0], w[1], w[2]);
            p.mt = a3(&w);
        }
        Mv::Screw(a, th, v) => {
            let (av, ang, w) = (v3::<T>(a), o(th), v3::<T>(sc3(v, k)));
            p.q = Quaternion::rotation(ang, &av);
            p.t = w;
            p.s = w;
            p.r = tf::matrix_exponential(&tf::skew_from_vec(&(av * (ang / av.norm2()))));
            p.d = DualQuaternion::new_from_rot_trans(&p.q, &w);
            p.h = tf::translation_3d(w[0], w[1], w[2]) * tf::homogeneous_from_rotation(&p.r, &V3::zeros());
            p.mr = rodrigues(unit3(a3(&av)), ang.to());
            p.mt = a3(&w);
        }
    }
    p
}
/// composition in each representation: first b, then a
fn compose<T: Fl>(a: &Pose<T>, b: &Pose<T>) -> Pose<T> {
    Pose {
        q: a.q * b.q,
        t: a.q * b.t + a.t,
        r: a.r * b.r,
        s: a.r * b.s + a.s,
        d: a.d * b.d,
        h: a.h * b.h,
        mr: mul(&a.mr, &b.mr),
        mt: add3(mulv(&a.mr, &b.mt), a.mt),
        k: a.k,
    }
}
fn invert<T: Fl>(a: &Pose<T>) -> Option<Pose<T>> {
    let q = a.q.inverse()?;
    let r = tf::rotation_inverse(&a.r);
    let mr = tr(&a.mr);
    Some(Pose { q, t: -(q * a.t), r, s: -(r * a.s), d: a.d.inverse(), h: tf::homogeneous_inverse(&a.h), mr, mt: sc3(mulv(&mr, &a.mt), -1.0), k: a.k })
}
fn convert<T: Fl>(c: usize, p: &Pose<T>) -> Option<Pose<T>> {
    let mut n = *p;
    match c {
        0 => n.q = Quaternion::from_rotation(&p.r),
        1 => n.r = p.q.to_rotation(),
        2 => n.d = DualQuaternion::new_from_homogeneous(&p.h),
        3 => n.h = p.d.to_homogeneous(),
        4 => n.d = DualQuaternion::new_from_rot_trans(&p.q, &p.t),
        5 => n.h = tf::homogeneous_from_quaternion(&p.q, &p.t),
        6 => { let (q, t) = tf::get_parts(&p.h); n.q = q; n.t = t }
        7 => { let (r, s) = tf::get_parts_raw(&p.h); n.r = r; n.s = s }
        8 => { let (q, t) = p.d.to_quaternion_translation(); n.q = q; n.t = t }
        9 => { let (r, s) = p.d.to_rotation_translation(); n.r = r; n.s = s }
        10 => n.d = DualQuaternion::new_from_translation(&p.s) * DualQuaternion::new_from_rotation_matrix(&p.r),
        11 => n.h = tf::homogeneous_from_rotation(&p.r, &p.s),
        12 => { n.q = p.q.normalize()?; n.d = p.d.normalize()? }
        13 => { n.q = -p.q; n.d = -p.d }
        14 => { let (a, v) = (p.q, p.q.imag()); n.d = DualQuaternion::new_from_array([a.real(), v[0], v[1], v[2], p.t[0], p.t[1], p.t[2]]) }
        _ => { let (a, b, c) = p.q.to_euler_angles(); n.q = Quaternion::from_euler_angles(a, b, c); let (a, b, c) = tf::rotation_to_euler(&p.r); n.r = tf::euler_to_rotation(a, b, c, None) }
    }
    Some(n)
}
fn near<T: Fl>(p: &Pose<T>, mr: &A<3>, mt: &[f64; 3]) -> [(bool, &'static str); 4] {
    let t = tol::<T>();
    agree(p, mr, mt, t, t * (p.k + nrm(mt)))
}
/// each representation against a motion, the rotation within `t`, the translation within `u`
fn agree<T: Fl>(p: &Pose<T>, mr: &A<3>, mt: &[f64; 3], t: f64, u: f64) -> [(bool, &'static str); 4] {
    let (q, dr, dd) = (aq(&p.q), aq(&p.d.real()), aq(&p.d.dual()));
    let dt = qsc(qmul(dd, qconj(dr)), 2.0);
    let h = am44(&p.h);
    let hr: A<3> = std::array::from_fn(|i| std::array::from_fn(|j| h[i][j]));
    [
        (le(dist(&qmat(q), mr), t) && le(distv(&a3(&p.t), mt), u), "quaternion and vector"),
        (le(dist(&am33(&p.r), mr), t) && le(distv(&a3(&p.s), mt), u), "matrix and vector"),
        (le(dist(&qmat(dr), mr), t) && le(distv(&[dt[1], dt[2], dt[3]], mt), u), "dual quaternion"),
        (le(dist(&hr, mr), t) && le(distv(&[h[0][3], h[1][3], h[2][3]], mt), u), "homogeneous matrix"),
    ]
}
fn judge<T: Fl>(a: &Act, p: &Pose<T>, r: &mut Rec) {
    let w = || format!("{} after {:?}: q {:?} t {:?} r {:?} s {:?} d {:?} h {:?}, expected {:?} {:?}", T::NAME, a, p.q, p.t, p.r, p.s, p.d, p.h, p.mr, p.mt);
    for (ok, name) in near(p, &p.mr, &p.mt) {
        r.check(match name { "quaternion and vector" => "the quaternion and vector describe the motion", "matrix and vector" => "the matrix and vector describe the motion", "dual quaternion" => "the dual quaternion describes the motion", _ => "the homogeneous matrix describes the motion" }, ok, w);
    }
    let t = tol::<T>();
    let (q, dr, dd) = (aq(&p.q), aq(&p.d.real()), aq(&p.d.dual()));
    let n = p.k + nrm(&p.mt);
    r.check("the quaternion is a unit", le((nrm(&q) - 1.0).abs(), t), w);
    r.check("the dual quaternion is a unit", le((nrm(&dr) - 1.0).abs(), t) && le(qdot(dr, dd).abs(), t * n), w);
    let m = am33(&p.r);
    r.check("the matrix is a rotation", le(dist(&mul(&m, &tr(&m)), &ident::<3>()), 4.0 * t) && det(&m).0 > 0.5, w);
    let h = am44(&p.h);
    r.check("the homogeneous matrix keeps its last row", h[3] == [0.0, 0.0, 0.0, 1.0], w);
    // the library's own readings of the four agree on points
    for x in [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.5, -2.0, 1.5]] {
        let v = v3::<T>(sc3(x, p.k));
        let e = add3(mulv(&p.mr, &a3(&v)), p.mt);
        let hv = p.h * V4::new_from(v[0], v[1], v[2], T::of(1.0));
        let g = [a3(&(p.q * v + p.t)), a3(&(p.r * v + p.s)), [hv[0].to(), hv[1].to(), hv[2].to()], a3(&(p.d * DualQuaternion::new_from_translation(&v)).get_translation())];
        let ok = g.iter().all(|y| le(distv(y, &e), 4.0 * t * n));
        r.check("all four move points alike", ok, || format!("{} point {:?}: {:?} expected {:?}", w(), x, g, e));
    }
    // undoing: the inverse on either side is the identity, in each representation
    if let Some(i) = invert(p) {
        for (c, side) in [(compose(p, &i), "right"), (compose(&i, p), "left")] {
            // rounding of the translation part grows with its size
            for (ok, name) in agree(&c, &ident::<3>(), &[0.0; 3], 8.0 * t, 8.0 * t * n) {
                r.check("a pose composed with its inverse is the start", ok, || format!("{} inverse on the {}: {} q {:?} t {:?} r {:?} s {:?} d {:?} h {:?}", w(), side, name, c.q, c.t, c.r, c.s, c.d, c.h));
            }
        }
    } else { r.check("a pose can be inverted", false, w); }
    let di = LinearAlgebra::inverse(&p.r);
    r.check("the rotation's matrix inverse is its transpose", di.map_or(false, |i| le(dist(&am33(&i), &tr(&m)), 16.0 * t)), w);
}
fn step<T: Fl>(acts: &[Act], s: &Pose<T>, k: usize, r: &mut Rec) -> Option<Pose<T>> {
    let a = acts[k];
    let n = match a {
        Act::Post(m) => compose(s, &build(m, s.k)),
        Act::Pre(m) => compose(&build(m, s.k), s),
        Act::Inverse => invert(s)?,
        Act::Square => compose(s, s),
        Act::Conv(c) => convert(c, s)?,
    };
    if nrm(&n.mt) > 60.0 * n.k { return None }
    judge(&a, &n, r);
    // undoing the last step returns to the pose before
    let back = match a {
        Act::Post(m) => invert(&build::<T>(m, s.k)).map(|i| compose(&n, &i)),
        Act::Pre(m) => invert(&build::<T>(m, s.k)).map(|i| compose(&i, &n)),
        Act::Inverse => invert(&n),
        _ => None,
    };
    if let Some(b) = back {
        let t = 8.0 * tol::<T>();
        for (ok, name) in agree(&b, &s.mr, &s.mt, t, t * (s.k + nrm(&n.mt) + nrm(&s.mt))) {
            r.check("undoing a step returns to the pose before", ok, || format!("{} {:?} undone: {} q {:?} t {:?} d {:?} h {:?}, expected {:?} {:?}", T::NAME, a, name, b.q, b.t, b.d, b.h, s.mr, s.mt));
        }
    }
    let c = canon(&n);
    r.key(hash_u(T::EPS.to_bits(), &c));
    r.sample(|| format!("{:?} -> q {:?} t {:?}", a, n.q, n.t));
    Some(n)
}
fn canon<T: Fl>(s: &Pose<T>) -> Vec<u64> {
    let sc = if T::EPS > 1e-10 { 256.0 } else { 16777216.0 };
    let z = |x: &f64| ((x * sc).round() as i64) as u64;
    let mut v: Vec<u64> = s.mr.iter().flatten().chain(sc3(s.mt, 1.0 / s.k).iter()).map(z).collect();
    v.extend(aq(&s.q).iter().map(z));
    v.extend(aq(&s.d.real()).iter().map(z));
    let t = format!("{:?} {:?}", s.q, s.d);
    v.push(t.match_indices("normalized: ").fold(1, |h, (i, _)| h * 2 + t[i..].starts_with("normalized: true") as u64));
    v
}
fn machine<T: Fl>(cx: &Ctx, name: &str, acts: &[Act], depth: usize, cap: usize) { world::<T>(cx, name, acts, depth, cap, 1.0) }
fn world<T: Fl>(cx: &Ctx, name: &str, acts: &[Act], depth: usize, cap: usize, k: f64) {
    cx.bfs(&format!("{} {}", T::NAME, name), &[start::<T>(k)], acts.len(), depth, cap, |s, a, r| step(acts, s, a, r), canon);
}
fn main() {
    run(
        "C26",
        "model_checking",
        "one transition is one motion or conversion executed in all representations of one reached pose; distinct by the pose reached, the quaternion signs and the hidden markers",
        &["poses closer than 6e-8 (f64) or 4e-3 (f32) with equal signs and markers are one state", "poses farther than 60 from the origin are not continued", "tolerance 2e-13 (f64), 3e-5 (f32) for rotations, and for translations times the unit of length plus the distance from the origin"],
        |cx| {
            let (x, y, z) = ([1., 0., 0.], [0., 1., 0.], [0., 0., 1.]);
            let mut mv = vec![
                Mv::Turn(x, PI / 2.0), Mv::Turn(y, -PI / 2.0), Mv::Turn(z, PI / 2.0), Mv::Turn(x, PI), Mv::Turn(y, PI), Mv::Turn([1., 1., 1.], 2.0 * PI / 3.0), Mv::Turn([1., 1., 0.], PI),
                Mv::Turn(x, 0.7), Mv::Turn(y, -2.4), Mv::Turn([-2., 1., 0.5], 1.3), Mv::Turn([0.3, 0.2, -0.9], -3.0), Mv::Turn(z, 5.0), Mv::Turn(y, 1e-3),
                Mv::Euler(0.3, -0.4, 0.5), Mv::Euler(-2.0, PI / 2.0, 0.6), Mv::Euler(PI, 0.0, -1.0),
                Mv::Shift([1., 0., 0.]), Mv::Shift([0., -2., 0.5]), Mv::Shift([-0.25, 3., 7.]),
                Mv::Screw([1., -1., 2.], 2.0, [1., 2., 3.]), Mv::Screw(z, PI / 2.0, [0., 0., 1.]),
            ];
            if cx.thorough() { mv.extend([Mv::Turn(z, -1e-6), Mv::Turn([0., 1., 1.], PI), Mv::Euler(1.0, -PI / 2.0, 2.0), Mv::Shift([0., 0., -4.])]) }
            let mut acts: Vec<Act> = mv.iter().map(|m| Act::Post(*m)).chain(mv.iter().map(|m| Act::Pre(*m))).collect();
            acts.extend([Act::Inverse, Act::Square]);
            acts.extend((0..CONVS.len()).map(Act::Conv));
            machine::<f64>(cx, "all actions", &acts, 4, 6_000_000);
            machine::<f32>(cx, "all actions", &acts, 4, 6_000_000);
            // the same motions with lengths of a nanometre and of a gigametre
            for k in [1e-9, 1e9, 1e-15] {
                world::<f64>(cx, &format!("all actions, unit of length {:e}", k), &acts, cx.qt(3, 4), 6_000_000, k);
                world::<f32>(cx, &format!("all actions, unit of length {:e}", k), &acts, cx.qt(3, 4), 6_000_000, k);
            }
            if cx.thorough() {
                let mut acts: Vec<Act> = [Mv::Turn([0.3, 0.2, -0.9], -3.0), Mv::Euler(-2.0, PI / 2.0, 0.6), Mv::Turn(y, 1e-3), Mv::Shift([-0.25, 3., 7.]), Mv::Screw([1., -1., 2.], 2.0, [1., 2., 3.])].map(Act::Post).to_vec();
                acts.extend([Act::Pre(Mv::Turn(x, PI)), Act::Inverse, Act::Square]);
                acts.extend((0..CONVS.len()).map(Act::Conv));
                machine::<f64>(cx, "few motions, all conversions", &acts, 6, 6_000_000);
                machine::<f32>(cx, "few motions, all conversions", &acts, 6, 6_000_000);
            }
            // the cube's rotations and unit steps: a small alphabet, explored deeper
            let mut acts = vec![Act::Post(Mv::Turn(x, PI / 2.0)), Act::Post(Mv::Turn(y, PI / 2.0)), Act::Post(Mv::Turn(z, -PI / 2.0)), Act::Post(Mv::Shift(x)), Act::Pre(Mv::Turn(z, PI / 2.0)), Act::Pre(Mv::Shift(y)), Act::Inverse];
            acts.extend([0, 2, 3, 6, 9, 12, 13].map(Act::Conv));
            machine::<f64>(cx, "cube", &acts, cx.qt(7, 9), 6_000_000);
            machine::<f32>(cx, "cube", &acts, cx.qt(7, 9), 6_000_000);
        },
    );
}
