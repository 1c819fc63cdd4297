//! C19: screw parameters, powers, logarithm and screw interpolation.
use mc::adapt::*;
use mc::fam::*;
use mc::refm::*;
use mc::*;

fn tol<T: Fl>() -> f64 { 256.0 * T::EPS }
fn rot4(a: &A<4>) -> A<3> { std::array::from_fn(|i| std::array::from_fn(|j| a[i][j])) }
fn col(a: &A<4>) -> [f64; 3] { [a[0][3], a[1][3], a[2][3]] }
/// the motion of a dual quaternion, from its components only
fn motion<T: Fl>(d: &DualQuaternion<T>) -> A<4> {
    let a = adq(d);
    let q = [a[0], a[1], a[2], a[3]];
    let n = qdot(q, q);
    let e = qsc(qmul(qsc([a[4], a[5], a[6], a[7]], 2.0), qconj(q)), 1.0 / n);
    homog(&qmat(qsc(q, 1.0 / n.sqrt())), [e[1], e[2], e[3]])
}
fn is_unit<T: Fl>(d: &DualQuaternion<T>, t: f64, s: f64) -> bool {
    let a = adq(d);
    let q = [a[0], a[1], a[2], a[3]];
    le((nrm(&q) - 1.0).abs(), t) && le(qdot(q, [a[4], a[5], a[6], a[7]]).abs(), t * s)
}
/// rotation vector and linear part of the screw of `d`, with the angle below a full turn; `flip` gives the complementary one
fn twist<T: Fl>(d: &DualQuaternion<T>, flip: bool) -> ([f64; 3], [f64; 3], f64) {
    let a = adq(d);
    let im = [a[1], a[2], a[3]];
    let n = nrm(&im);
    let m = motion(d);
    let half = n.atan2(a[0]);
    let th = if flip { 2.0 * half - 2.0 * PI } else { 2.0 * half };
    let w = if n > 0.0 { sc3(im, th / n) } else { [0.0; 3] };
    (w, twist_lin(w, col(&m)), n)
}
fn same(g: &A<4>, e: &A<4>, tr: f64, tp: f64) -> bool { le(dist(&rot4(g), &rot4(e)), tr) && le(distv(&col(g), &col(e)), tp) }

fn params<T: Fl>(d: &DualQuaternion<T>, ctx: &dyn Fn() -> String, r: &mut Rec) {
    let m = motion(d);
    let p = nrm(&col(&m));
    let a = adq(d);
    let n = nrm(&a[1..4]);
    let (l, mo, th, di) = d.get_screw_parameters();
    let w = || format!("{} {}: {:?} has axis {:?} moment {:?} angle {:?} displacement {:?}", T::NAME, ctx(), a, l, mo, th, di);
    let (la, ma) = (a3(&l), a3(&mo));
    // the sine of the half angle is ill conditioned close to a full turn
    let k = if a[0] < 0.0 { 1.0 / n } else { 1.0 };
    if n > 64.0 * T::EPS && tol::<T>() * k < 0.1 {
        r.class("screw");
        r.check("screw axis is unit", le((nrm(&la) - 1.0).abs(), tol::<T>() * k), w);
        r.check("moment is orthogonal to the axis", le(dot3(la, ma).abs(), tol::<T>() * k * (p / n + nrm(&ma))), w);
        let b = DualQuaternion::new_from_screw_parameters(&l, &mo, th, di);
        r.check("screw parameters rebuild the motion", same(&motion(&b), &m, tol::<T>() * k, tol::<T>() * k * p + 1e-300) && is_unit(&b, tol::<T>() * k, p), || format!("{} rebuilding {:?}", w(), b));
    } else if n == 0.0 {
        r.class("pure translation");
        if p > 0.0 {
            r.check("axis of a pure translation is its direction", le(distv(&la, &unit3(col(&m))), tol::<T>()), w);
        }
        r.check("displacement of a pure translation is its length", le((di.to() - p).abs(), tol::<T>() * p), w);
        r.check("angle of a pure translation is a multiple of a full turn", le((th.to() / 2.0).sin().abs(), tol::<T>()), w);
    }
    if let Some(g) = d.log() {
        let x = adq(&g);
        r.check("logarithm is pure", x[0] == 0.0 && x[4] == 0.0, || format!("{:?}: {:?}", a, g));
        if n == 0.0 || tol::<T>() * k * k < 0.01 {
            let k = if n == 0.0 { 1.0 } else { k * k };
            let e = exp6(sc3([x[1], x[2], x[3]], 2.0), sc3([x[5], x[6], x[7]], 2.0));
            r.check("exponential of the logarithm is the motion", same(&e, &m, tol::<T>() * k, tol::<T>() * k * p + 1e-300), || format!("{} {}: {:?} has logarithm {:?} exponentiating to {:?}", T::NAME, ctx(), a, g, e));
        }
    }
}
fn build<T: Fl>(l: [f64; 3], c: [f64; 3], th: f64, d: f64, r: &mut Rec) {
    let l = unit3(l);
    let (x, m, t, s) = (v3::<T>(l), v3::<T>(cross(c, l)), T::of(th), T::of(d));
    let b = DualQuaternion::new_from_screw_parameters(&x, &m, t, s);
    let rt = rodrigues(l, t.to());
    let p = add3(sub3(c, mulv(&rt, &c)), sc3(l, s.to()));
    let e = homog(&rt, p);
    let sc = nrm(&c) + d.abs();
    r.check("screw parameters give the turn about the line and the slide along it", same(&motion(&b), &e, tol::<T>(), tol::<T>() * sc) && is_unit(&b, tol::<T>(), sc), || format!("{} axis {:?} through {:?} angle {} displacement {}: {:?} is {:?}, expected {:?}", T::NAME, l, c, th, d, b, motion(&b), e));
    params(&b, &|| format!("axis {:?} through {:?} angle {} displacement {}", l, c, th, d), r);
}
const BIG: [f64; 9] = [5.0, 7.5, -16.0, 33.0, 100.0, -127.0, 256.0, 1000.5, -5000.0];
/// next to zero, one half, one, minus one and two
const FINE: [f64; 26] = [1e-3, -1e-4, 1e-5, 1e-6, -1e-7, 1e-8, 1e-9, -1e-12, 1e-16, 1e-20, 0.999, 1.0 - 1e-5, 1.0 - 1e-6, 1.0 - 1e-7, 1.0 - 1e-9, 1.0 + 1e-8, 1.0 + 1e-4, 0.5 + 1e-6, 0.5 - 1e-8, -1.0 + 1e-6, -1.0 - 1e-8, 2.0 - 1e-6, 2.0 + 1e-8, 0.1, 0.01, 0.75];
const EXPS: [f64; 10] = [0.0, 1.0, 0.5, 2.0, 3.0, -1.0, -0.5, 0.37, 1.75, -2.5];
fn powers<T: Fl>(d: &DualQuaternion<T>, ctx: &dyn Fn() -> String, r: &mut Rec) {
    let a = adq(d);
    let n = nrm(&a[1..4]);
    let m = motion(d);
    let p = nrm(&col(&m));
    let k = if a[0] < 0.0 { if n == 0.0 { 1.0 } else { 1.0 / n } } else { 1.0 };
    if tol::<T>() * k * k > 0.01 { return }
    if n == 0.0 { r.class("power of a pure translation") }
    let (w0, v0, _) = twist(d, false);
    let (w1, v1, _) = twist(d, true);
    let all: Vec<DualQuaternion<T>> = EXPS.iter().map(|e| d.pow(T::of(*e))).collect();
    // large exponents: the motion is repeated many times over
    let far: Vec<DualQuaternion<T>> = BIG.iter().map(|e| d.pow(T::of(*e))).collect();
    let fine: Vec<DualQuaternion<T>> = FINE.iter().map(|e| d.pow(T::of(*e))).collect();
    for (e, g) in EXPS.iter().zip(&all).chain(BIG.iter().zip(&far)).chain(FINE.iter().zip(&fine)) {
        let e = T::of(*e).to();
        let (x, y) = (exp6(sc3(w0, e), sc3(v0, e)), exp6(sc3(w1, e), sc3(v1, e)));
        let s = (1.0 + e.abs()).powi(2) * k * k;
        let h = motion(g);
        let ok = is_unit(g, tol::<T>() * s, p) && (same(&h, &x, tol::<T>() * s, tol::<T>() * s * p * k + 1e-300) || (a[0] < 0.0 && same(&h, &y, tol::<T>() * s, tol::<T>() * s * p * k + 1e-300)));
        let key = if e == 0.0 { "power zero is the unit" } else if e == 1.0 { "power one is the motion" } else { "powers follow the screw" };
        r.check(key, ok, || format!("{} {}: {:?} to the {} is {:?}, motion {:?}, expected {:?}", T::NAME, ctx(), a, e, g, h, x));
    }
    for (i, j, s) in [(2, 2, 1), (1, 1, 3), (1, 3, 4), (1, 5, 0), (2, 6, 0), (3, 5, 1)] {
        let g = all[i] * all[j];
        r.check("exponents add", same(&motion(&g), &motion(&all[s]), tol::<T>() * 16.0 * k, tol::<T>() * 16.0 * p * k * k + 1e-300), || format!("{} {}: {:?} exponents {} {}: {:?}", T::NAME, ctx(), a, EXPS[i], EXPS[j], g));
    }
}
const TAUS: [f64; 18] = [0.0, 1.0, 0.5, 0.25, 0.9, 1.0 / 3.0, 1e-3, 1e-5, 1e-7, 1e-9, 1e-13, 1e-20, 0.999, 1.0 - 1e-5, 1.0 - 5e-7, 1.0 - 1e-8, 0.5 + 1e-7, 0.5 - 1e-5];
fn lerp<T: Fl>(a: &DualQuaternion<T>, b: &DualQuaternion<T>, ctx: &dyn Fn() -> String, r: &mut Rec) {
    let (ma, mb) = (motion(a), motion(b));
    let (x, y) = (adq(a), adq(b));
    let dot = qdot([x[0], x[1], x[2], x[3]], [y[0], y[1], y[2], y[3]]);
    // relative motion with the quaternion of non-negative real part
    let rel = mul(&{ let t = tr(&rot4(&ma)); homog(&t, sc3(mulv(&t, &col(&ma)), -1.0)) }, &mb);
    let q = qmul(qconj([x[0], x[1], x[2], x[3]]), [y[0], y[1], y[2], y[3]]);
    let q = if q[0] < 0.0 { qsc(q, -1.0) } else { q };
    let n = nrm(&q[1..]);
    let th = 2.0 * n.atan2(q[0]);
    let w = if n > 0.0 { sc3([q[1], q[2], q[3]], th / n) } else { [0.0; 3] };
    let wf = if n > 0.0 { sc3([q[1], q[2], q[3]], (th - 2.0 * PI) / n) } else { [0.0; 3] };
    let (v, vf) = (twist_lin(w, col(&rel)), twist_lin(wf, col(&rel)));
    let tie = q[0] < 64.0 * T::EPS;
    if tie { r.class("half-turn tie") } else if n < 16.0 * T::EPS { r.class("no relative rotation") } else if dot < 0.0 { r.class("opposite hemispheres") } else { r.class("same hemisphere") }
    let s = nrm(&col(&ma)) + nrm(&col(&mb));
    for tau in TAUS {
        let g = DualQuaternion::screw_lerp(a, b, T::of(tau));
        let tau = T::of(tau).to();
        let e = mul(&ma, &exp6(sc3(w, tau), sc3(v, tau)));
        let h = motion(&g);
        let t = 2.0 * tol::<T>();
        let ok = is_unit(&g, t, s) && (same(&h, &e, t, t * s) || (tie && same(&h, &mul(&ma, &exp6(sc3(wf, tau), sc3(vf, tau))), t, t * s)));
        let key = if tau == 0.0 { "interpolation starts at the first pose" } else if tau == 1.0 { "interpolation ends at the second pose" } else { "interpolation moves along the shorter screw in proportion" };
        r.check(key, ok, || format!("{} {} parameter {}: {:?} is {:?}, expected {:?}", T::NAME, ctx(), tau, g, h, e));
    }
}
fn dq<T: Fl>(x: &(Q, [f64; 3])) -> DualQuaternion<T> { DualQuaternion::new_from_rot_trans(&qn::<T>(x.0), &v3::<T>(x.1)) }

fn main() {
    run(
        "C19",
        "exploration",
        "every rotation of a family (down to rotation angles of one rounding unit, and around half and full turns) with every translation of a list and of 31 orders of magnitude, in both signs and from several constructors, through screw parameters, logarithm and powers; every line/angle/displacement of a grid through the constructor; every ordered pair of a family of poses (equal ones, opposite signs, half turns apart, equal rotations) with six parameters through the interpolation; executed on the real code and compared with the twist exponential evaluated without cancellation; non-trivial: distinct inputs",
        &["dual quaternions are unit up to rounding; close to a full turn the tolerance grows with the inverse of the sine of the half angle; the non-integer power of a motion turning more than half a turn may follow either of its two screws; at a relative half turn either direction is accepted"],
        |c| {
            let mut us = unit_quats(2);
            let mut k = us.len();
            for a in axes() { for t in [1e-9, 1e-8, 3e-8, 1e-7, 1e-12, 1e-15, 1e-4, PI + 1e-9, PI - 1e-9, 2.0 * PI - 1e-3, 2.0 * PI - 1e-2, 3.0 * PI, 4.0 * PI - 0.5] { us.push(qaxis(a, t)) } }
            us.push([1.0, 0.0, 0.0, 0.0]);
            us.push([-1.0, 0.0, 0.0, 0.0]);
            let mut ts = translations();
            ts.extend([[1e-6, 2e-6, -1e-6], [2.0, -1.0, 7.0], [0.0, 1e4, 0.0], [1e-9, -3e-9, 2e-9], [0.0, 0.0, 1e-12], [-1e-15, 1e-15, 0.0], [1e3, 1e-3, 1e-9]]);
            k = us.len().max(k);
            c.space("motions", (k * ts.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let x = (*d.pick(&us), *d.pick(&ts));
                let ctx = || format!("{:?} {:?}", x.0, x.1);
                r.key(hash_u(1, &[i]));
                r.sample(|| ctx());
                let (a, b) = (dq::<f64>(&x), dq::<f32>(&x));
                for s in [false, true] {
                    let (a, b) = if s { (-a, -b) } else { (a, b) };
                    params(&a, &ctx, r);
                    params(&b, &ctx, r);
                    powers(&a, &ctx, r);
                    powers(&b, &ctx, r);
                }
                // the same motion through a product (rounding noise, no marker)
                let (a, b) = (DualQuaternion::new_from_translation(&v3::<f64>(x.1)) * DualQuaternion::new_from_rotation(&qn(x.0)), DualQuaternion::new_from_translation(&v3::<f32>(x.1)) * DualQuaternion::new_from_rotation(&qn(x.0)));
                params(&a, &ctx, r);
                params(&b, &ctx, r);
                powers(&a, &ctx, r);
                powers(&b, &ctx, r);
            });
            // translations at every order of magnitude
            let ms = [1e-110, 1e-60, 1e-30, 1e-18, 1e-17, 1e-14, 1e-13, 1e-11, 1e-10, 1e-8, 1e-7, 1e-5, 1e-4, 1e-2, 0.3, 1.0, 4.0, 50.0, 3e2, 2e3, 1e5, 1e7, 1e8, 1e10, 1e12, 1e14, 1e16, 1e18, 1e30, 1e60, 1e110];
            let mut few = unit_quats(0);
            for a in axes() { for t in [1e-9, 1e-7, 1e-4, PI + 1e-9, 2.0 * PI - 1e-2, 3.0 * PI] { few.push(qaxis(a, t)) } }
            let dirs = [[1.0, 0.0, 0.0], [0.0, -1.0, 2.0], [0.5, 0.25, -1.0]];
            c.space("motions at every magnitude", (few.len() * ms.len() * 3) as u64, |i, r| {
                let mut d = Dec(i);
                let s = *d.pick(&ms);
                let x = (*d.pick(&few), sc3(*d.pick(&dirs), s));
                let ctx = || format!("{:?} {:?}", x.0, x.1);
                r.key(hash_u(6, &[i]));
                let (a, b) = (dq::<f64>(&x), dq::<f32>(&x));
                params(&a, &ctx, r);
                params(&-a, &ctx, r);
                powers(&a, &ctx, r);
                let y = (few[(i as usize * 7 + 3) % few.len()], sc3(dirs[i as usize % 3], s));
                lerp(&a, &dq::<f64>(&y), &ctx, r);
                if (1e-17..1e17).contains(&s) {
                    params(&b, &ctx, r);
                    params(&-b, &ctx, r);
                    powers(&b, &ctx, r);
                    lerp(&b, &dq::<f32>(&y), &ctx, r);
                }
                // a line and a slide of that size
                let l = unit3(dirs[(i % 3) as usize]);
                let th = [0.0, 1e-7, 0.3, PI / 2.0, 2.5, PI, -1.0, 4.0][(i / 3 % 8) as usize];
                let (cc, dd) = match i % 5 { 0 => (sc3([1.0, 2.0, -1.0], s), 0.0), 1 => (sc3([0.0, 0.0, -1.0], s), s), 2 => ([0.0; 3], -s), 3 => ([1.0, -2.0, 3.0], s), _ => (sc3([0.0, 1.0, 0.0], s), 1.0) };
                build::<f64>(l, cc, th, dd, r);
                if (1e-17..1e17).contains(&s) { build::<f32>(l, cc, th, dd, r) }
            });
            // every structure of the translation; translations along, across and nearly along or across the axis
            let sh = shapes::<3>();
            c.every("translations of every structure", (sh.len() * few.len()) as u64, 1, |i, r| {
                let mut d = Dec(i);
                let x = (*d.pick(&few), *d.pick(&sh));
                let ctx = || format!("{:?} {:?}", x.0, x.1);
                r.key(hash_u(7, &[i]));
                let (a, b) = (dq::<f64>(&x), dq::<f32>(&x));
                params(&a, &ctx, r);
                params(&b, &ctx, r);
                powers(&a, &ctx, r);
                powers(&b, &ctx, r);
            });
            let ta = [0.0, 1e-8, 1e-4, 0.3, 1.0, PI / 2.0, 2.5, PI - 1e-6, PI, PI + 1e-3, 4.0, -1.0, -PI / 2.0];
            let le_ = [0.0, 1.0, -1.0, 2.5, -1e-3, 1e-4, 1e-9, -1e-13, 1e3, -1e6];
            let ax = axes();
            c.space("translations along and across the axis", (ax.len() * ta.len() * 100) as u64, |i, r| {
                let mut d = Dec(i);
                let (l, e, t, a) = (*d.pick(&le_), *d.pick(&le_), *d.pick(&ta), unit3(*d.pick(&ax)));
                let o = unit3(cross(a, if a[0].abs() < 0.8 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] }));
                let x = (qaxis(a, t), add3(sc3(a, l), sc3(o, e)));
                let ctx = || format!("{:?} {:?}", x.0, x.1);
                r.key(hash_u(8, &[i]));
                let (f, g) = (dq::<f64>(&x), dq::<f32>(&x));
                params(&f, &ctx, r);
                params(&g, &ctx, r);
                params(&-f, &ctx, r);
                powers(&f, &ctx, r);
                powers(&g, &ctx, r);
                build::<f64>(a, sc3(o, e), t, l, r);
                build::<f32>(a, sc3(o, e), t, l, r);
            });
            let mut an = angles(true);
            an.extend(FAR);
            let cs = [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, -2.0, 1.0], [3.0, 4.0, -5.0], [0.01, 0.0, 0.02], [1e-9, 2e-9, 0.0], [0.0, 1e-14, 0.0], [1e6, 0.0, -1e6]];
            let ds = [0.0, 1.0, -2.0, 0.125, 30.0, 1e-9, -1e-14, 1e6];
            let ax = axes();
            c.space("screws", (an.len() * cs.len() * ds.len() * ax.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let (l, p, t, s) = (*d.pick(&ax), *d.pick(&cs), *d.pick(&an), *d.pick(&ds));
                r.key(hash_u(2, &[i]));
                build::<f64>(l, p, t, s, r);
                build::<f32>(l, p, t, s, r);
            });
            let v = [-3.0, -1.0, 0.0, 0.5, 2.0];
            let bo = bin_oct();
            c.space("translation grid", 125 * bo.len() as u64, |i, r| {
                let mut d = Dec(i);
                let p = [*d.pick(&v), *d.pick(&v), *d.pick(&v)];
                let x = (*d.pick(&bo), p);
                r.key(hash_u(3, &[i]));
                let ctx = || format!("{:?}", x);
                params(&dq::<f64>(&x), &ctx, r);
                params(&dq::<f32>(&x), &ctx, r);
                powers(&dq::<f64>(&x), &ctx, r);
                powers(&dq::<f32>(&x), &ctx, r);
            });
            let mut ms: Vec<(Q, [f64; 3])> = Vec::new();
            for (i, q) in unit_quats(0).iter().enumerate() { ms.push((*q, ts[i % 17])); for k in 1..c.qt(2, 5) { ms.push((*q, ts[(i + 5 * k) % 17])) } }
            let n = ms.len() as u64;
            c.space("all pairs of poses", n * n, |i, r| {
                let (a, b) = (&ms[(i / n) as usize], &ms[(i % n) as usize]);
                r.key(hash_u(4, &[i]));
                let ctx = || format!("{:?} to {:?}", a, b);
                lerp(&dq::<f64>(a), &dq::<f64>(b), &ctx, r);
                lerp(&dq::<f32>(a), &dq::<f32>(b), &ctx, r);
            });
            // nearly equal poses and poses a turn apart
            let ax = axes();
            let de = [0.0, 1e-16, 1e-12, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.1, 2.0 * PI, 2.0 * PI - 1e-6, PI, PI - 1e-4, PI + 1e-4];
            let dt = [[0.0; 3], [1e-6, 0.0, 0.0], [0.0, 1.0, -2.0], [0.0, 1e-9, 1e-9], [0.0, 0.0, -1e-12]];
            let base = unit_quats(0);
            c.space("poses close to each other", (base.len() * ax.len() * de.len() * 5 * 2) as u64, |i, r| {
                let mut d = Dec(i);
                let neg = d.take(2) == 1;
                let (e, t, a, q) = (*d.pick(&de), *d.pick(&dt), *d.pick(&ax), *d.pick(&base));
                let p = ts[(i % 17) as usize];
                r.key(hash_u(5, &[i]));
                let x = (q, p);
                let mut y = (qmul(qaxis(a, e), q), add3(p, t));
                if neg { y.0 = qsc(y.0, -1.0) }
                let ctx = || format!("{:?} to {:?}", x, y);
                lerp(&dq::<f64>(&x), &dq::<f64>(&y), &ctx, r);
                lerp(&dq::<f32>(&x), &dq::<f32>(&y), &ctx, r);
            });
        },
    );
}
