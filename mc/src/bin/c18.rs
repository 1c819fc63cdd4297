//! C18: a dual quaternion's normalise / inverse / equality depend only on its components.
use mc::adapt::*;
use mc::fam::PI;
use mc::refm::*;
use mc::*;

#[derive(Clone, Copy)]
struct St<T> { d: DualQuaternion<T> }
type D = [f64; 8];
fn re(d: &D) -> Q { [d[0], d[1], d[2], d[3]] }
fn du(d: &D) -> Q { [d[4], d[5], d[6], d[7]] }
fn mk(a: Q, b: Q) -> D { [a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]] }
fn dmul(a: &D, b: &D) -> D { mk(qmul(re(a), re(b)), qadd(qmul(re(a), du(b)), qmul(du(a), re(b)))) }
fn map2(a: &D, b: &D, f: impl Fn(f64, f64) -> f64) -> D { std::array::from_fn(|i| f(a[i], b[i])) }
fn dconj(a: &D) -> D { mk(qconj(re(a)), qconj(du(a))) }
/// division by the dual-number norm |r| + eps (r.d)/|r|
fn dunit(a: &D) -> D {
    let (r, d) = (re(a), du(a));
    let n = nrm(&r);
    mk(qsc(r, 1.0 / n), qsub(qsc(d, 1.0 / n), qsc(r, qdot(r, d) / n.powi(3))))
}
fn dinv(a: &D) -> D {
    let (r, d) = (re(a), du(a));
    let i = qsc(qconj(r), 1.0 / qdot(r, r));
    mk(i, qsc(qmul(qmul(i, d), i), -1.0))
}
/// the top-level hidden marker, as far as the Debug text shows one
fn marked<T: Fl>(d: &DualQuaternion<T>) -> bool { format!("{:?}", d).ends_with("normalized: true }") }
fn canon<T: Fl>(s: &St<T>) -> Vec<u64> {
    let sc = if T::EPS > 1e-10 { 512.0 } else { 17179869184.0 };
    let mut v: Vec<u64> = adq(&s.d).iter().map(|x| ((x * sc).round() as i64) as u64).collect();
    let t = format!("{:?}", s.d);
    // the markers of the value and of its two parts
    v.push(t.match_indices("normalized: ").fold(0, |h, (i, _)| h * 2 + t[i..].starts_with("normalized: true") as u64));
    v
}
fn tol<T: Fl>() -> f64 { if T::EPS > 1e-10 { 2e-4 } else { 1e-11 } }
const ONE: D = [1.0, 0., 0., 0., 0., 0., 0., 0.];

fn judge<T: Fl>(x: &DualQuaternion<T>, r: &mut Rec) {
    let a = adq(x);
    let (n, m) = (nrm(&re(&a)), nrm(&a));
    let q = |q: Quaternion<T>| Quaternion::new(q.real(), q.imag());
    let fresh = DualQuaternion::new(q(x.real()), q(x.dual()));
    let w = || format!("{} {:?}", T::NAME, x);
    r.class(if marked(x) { "marked normalised" } else { "not marked" });
    r.check("equal components compare equal", *x == fresh && fresh == *x && !(*x != fresh), w);
    r.check("unequal components compare unequal", *x != fresh + DualQuaternion::one() && *x != fresh + DualQuaternion::new_from_translation(&V3::z_axis()), w);
    let t = tol::<T>();
    if n == 0.0 {
        r.class("zero real part");
        r.check("a zero real part cannot be normalised", x.normalize().is_none(), w);
        return;
    }
    let k = 1.0 + m / n;
    let u = x.normalize();
    if !r.check("a non-zero real part can be normalised", u.is_some(), w) { return }
    let u = u.unwrap();
    let ua = adq(&u);
    let e = dunit(&a);
    let tt = t * k * k;
    r.check("normalising gives a real part of norm one", le((nrm(&re(&ua)) - 1.0).abs(), t), || format!("{} -> {:?}", w(), u));
    r.check("normalising gives orthogonal parts", le(qdot(re(&ua), du(&ua)).abs(), tt), || format!("{} -> {:?}", w(), u));
    r.check("normalising keeps the rotation direction", le(distv(&re(&ua), &qsc(re(&a), 1.0 / n)), t), || format!("{} -> {:?}", w(), u));
    r.check("normalising divides by the dual-number norm", le(distv(&ua, &e), tt), || format!("{} -> {:?}, expected {:?}", w(), u, e));
    let again = u.normalize();
    r.check("normalising a unit changes nothing", again.is_some() && le(distv(&adq(&again.unwrap()), &ua), tt), || format!("{} -> {:?} -> {:?}", w(), u, again));
    r.check("reported normalised after normalising", u.is_normalized(), || format!("{} -> {:?}", w(), u));
    if (n - 1.0).abs() > 1e-3 && n > 1e-3 { r.check("not reported normalised with another norm", !x.is_normalized(), w); }
    for (y, ya, k, nm) in [(x, &a, k, "value"), (&u, &ua, 1.0 + nrm(&ua), "normalised value")] {
        let i = y.inverse();
        let tt = 4.0 * t * k * k * k;
        let (p, q) = (adq(&(*y * i)), adq(&(i * *y)));
        r.check("inverse on either side gives the unit", le(distv(&p, &ONE), tt) && le(distv(&q, &ONE), tt), || format!("{}: {} {:?} inverse {:?} products {:?} {:?}", w(), nm, y, i, p, q));
        let e = dinv(ya);
        r.check("inverse depends only on the components", le(distv(&adq(&i), &e), tt * (1.0 + 1.0 / n.min(1.0)) * (1.0 + nrm(&e))), || format!("{}: {} inverse {:?}, expected {:?}", w(), nm, i, e));
    }
    let kk = DualQuaternion::new(qn::<T>([0.3, -1.0, 0.5, 2.0]), qn::<T>([1.0, 0.25, -1.0, 0.5]));
    let (p, q) = (adq(&(kk / *x)), adq(&(kk / fresh)));
    r.check("quotient depends only on the components", le(distv(&p, &q), 8.0 * t * k * k * (1.0 + nrm(&q))), || format!("{}: {:?} against {:?}", w(), p, q));
}

const NAMES: &[&str] = &[
    "normalize", "conj", "conj_as_dual", "conj_combined", "inverse", "neg", "times 2", "times -0.25", "plus one", "minus one", "plus itself", "times itself", "times its conjugate",
    "times motion", "motion times", "times rotation", "times translation", "translation times", "times general", "general times", "plus motion", "minus general", "over motion", "over general", "over itself reversed",
    "norm", "half power", "screw_lerp to motion", "through homogeneous", "rebuilt", "rotation part", "translation part", "rotation and translation", "screw parameters", "point of translation", "plus dual unit", "minus real part",
];
fn unit_like(a: &D, t: f64) -> bool { (nrm(&re(a)) - 1.0).abs() < t && qdot(re(a), du(a)).abs() < t }

fn apply<T: Fl>(x: &DualQuaternion<T>, k: usize, r: &mut Rec) -> Option<DualQuaternion<T>> {
    let v = adq(x);
    let (n, m) = (nrm(&re(&v)), nrm(&v));
    let f = T::of;
    let t = tol::<T>();
    let rot = Quaternion::rotation(f(PI / 2.0), &v3::<T>([0.0, 0.0, 1.0]));
    let mot = DualQuaternion::new_from_rot_trans(&rot, &v3::<T>([1.0, -2.0, 0.5]));
    let gen = DualQuaternion::new(qn::<T>([1.0, -2.0, 0.5, 2.0]), qn::<T>([0.5, 1.0, 0.0, -1.0]));
    let tra = DualQuaternion::new_from_translation(&v3::<T>([0.0, 3.0, -1.0]));
    let dr = DualQuaternion::new_from_rotation(&rot);
    let unit = unit_like(&v, t.max(1e-6));
    let mut model: Option<D> = None;
    let g = |d: &DualQuaternion<T>| adq(d);
    let out = match NAMES[k] {
        "normalize" => { if n < 1e-2 && n > 0.0 { return None } x.normalize()? }
        "conj" => { model = Some(dconj(&v)); x.conj() }
        "conj_as_dual" => { model = Some(mk(re(&v), qsc(du(&v), -1.0))); x.conj_as_dual() }
        "conj_combined" => { model = Some(mk(qconj(re(&v)), qsc(qconj(du(&v)), -1.0))); x.conj_combined() }
        "inverse" => { if n < 1e-2 { return None } x.inverse() }
        "neg" => { model = Some(v.map(|y| -y)); -*x }
        "times 2" => { model = Some(v.map(|y| y * 2.0)); *x * f(2.0) }
        "times -0.25" => { model = Some(v.map(|y| y * -0.25)); *x * f(-0.25) }
        "plus one" => { model = Some(map2(&v, &ONE, |a, b| a + b)); *x + DualQuaternion::one() }
        "minus one" => { model = Some(map2(&v, &ONE, |a, b| a - b)); *x - DualQuaternion::one() }
        "plus itself" => { model = Some(v.map(|y| y * 2.0)); *x + *x }
        "times itself" => { model = Some(dmul(&v, &v)); *x * *x }
        "times its conjugate" | "norm" => { model = Some(dmul(&v, &dconj(&v))); if NAMES[k] == "norm" { x.norm() } else { *x * x.conj() } }
        "times motion" => { model = Some(dmul(&v, &g(&mot))); *x * mot }
        "motion times" => { model = Some(dmul(&g(&mot), &v)); mot * *x }
        "times rotation" => { model = Some(dmul(&v, &g(&dr))); *x * dr }
        "times translation" => { model = Some(dmul(&v, &g(&tra))); *x * tra }
        "translation times" => { model = Some(dmul(&g(&tra), &v)); tra * *x }
        "times general" => { model = Some(dmul(&v, &g(&gen))); *x * gen }
        "general times" => { model = Some(dmul(&g(&gen), &v)); gen * *x }
        "plus motion" => { model = Some(map2(&v, &g(&mot), |a, b| a + b)); *x + mot }
        "minus general" => { model = Some(map2(&v, &g(&gen), |a, b| a - b)); *x - gen }
        "over motion" => { model = Some(dmul(&v, &dinv(&g(&mot)))); *x / mot }
        "over general" => { model = Some(dmul(&v, &dinv(&g(&gen)))); *x / gen }
        "over itself reversed" => { if n < 1e-2 { return None } *x / x.conj_combined() }
        "half power" => { if !unit { return None } x.pow(f(0.5)) }
        "screw_lerp to motion" => { if !unit { return None } DualQuaternion::screw_lerp(x, &mot, f(0.25)) }
        "through homogeneous" => { if !unit { return None } DualQuaternion::new_from_homogeneous(&x.to_homogeneous()) }
        "rebuilt" => { model = Some(v); DualQuaternion::new(x.real(), x.dual()) }
        "rotation part" => { if (n - 1.0).abs() > t { return None } model = Some(mk(re(&v), [0.0; 4])); DualQuaternion::new_from_rotation(&x.real()) }
        "translation part" => { if m > 20.0 { return None } DualQuaternion::new_from_translation(&x.get_translation()) }
        "rotation and translation" => { if n < 1e-2 || m > 20.0 { return None } DualQuaternion::new_from_rot_trans(&x.real(), &x.get_translation()) }
        "screw parameters" => { if !unit || nrm(&v[1..4]) < 1e-2 { return None } let (l, m, th, d) = x.get_screw_parameters(); DualQuaternion::new_from_screw_parameters(&l, &m, th, d) }
        "point of translation" => { if m > 20.0 { return None } DualQuaternion::new_from_point(&x.get_translation()) }
        "plus dual unit" => { let e = [0., 0., 0., 0., 1., 0., 0., 0.]; model = Some(map2(&v, &e, |a, b| a + b)); *x + DualQuaternion::new(Quaternion::zero(), Quaternion::one()) }
        _ => { model = Some(mk([0.0; 4], du(&v))); *x - DualQuaternion::new(x.real(), Quaternion::zero()) }
    };
    let o = adq(&out);
    if let Some(e) = model {
        let s = (1.0 + nrm(&e)).max(m).max(1.0) * m.max(1.0);
        r.check("operation gives its components", le(distv(&o, &e), 16.0 * t * s), || format!("{} {} of {:?}: {:?}, expected {:?}", T::NAME, NAMES[k], x, out, e));
    }
    if !o.iter().all(|x| x.is_finite()) || nrm(&o) > 50.0 { return None }
    let nr = nrm(&re(&o));
    if nr < 0.05 && nr > 0.0 {
        // rounding residue of an exact zero: continue from the exact value instead
        return None;
    }
    Some(out)
}
fn go<T: Fl>(c: &Ctx, depth: usize) {
    let f = T::of;
    let mut init: Vec<St<T>> = Vec::new();
    let mut add = |d: DualQuaternion<T>| init.push(St { d });
    let rot = Quaternion::rotation(f(1.0), &v3::<T>([1.0, -2.0, 2.0]));
    add(DualQuaternion::one());
    add(DualQuaternion::zero());
    add(DualQuaternion::new_from_translation(&v3::<T>([1.0, 2.0, 3.0])));
    add(DualQuaternion::new_from_rotation(&rot));
    add(DualQuaternion::new_from_rot_trans(&rot, &v3::<T>([-1.0, 0.5, 2.0])));
    add(DualQuaternion::new_from_rotation_matrix(&m33::<T>(&rodrigues(unit3([1.0, 1.0, 1.0]), 2.0))));
    add(DualQuaternion::new_from_homogeneous(&m44::<T>(&homog(&rodrigues([0.0, 1.0, 0.0], PI), [1.0, 0.0, -1.0]))));
    add(DualQuaternion::new_from_array([f(0.5), f(0.5), f(-0.5), f(0.5), f(1.0), f(2.0), f(-1.0)]));
    add(DualQuaternion::new_from_point(&v3::<T>([0.0, 1.0, -2.0])));
    add(DualQuaternion::new(qn::<T>([1.0, 2.0, -1.0, 0.5]), qn::<T>([0.5, -1.0, 2.0, 1.0])));
    add(DualQuaternion::new(qn::<T>([1.0, 0.0, 0.0, 0.0]), qn::<T>([1.0, 0.0, 0.0, 0.0])));
    add(DualQuaternion::new(Quaternion::zero(), qn::<T>([0.5, -1.0, 2.0, 1.0])));
    add(DualQuaternion::new_from_vecs(&V4::new_from(f(3.0), f(0.0), f(4.0), f(0.0)), &V4::new_from(f(0.0), f(1.0), f(1.0), f(0.0))));
    add(DualQuaternion::new_from_screw_parameters(&v3::<T>([0.0, 0.0, 1.0]), &v3::<T>([1.0, 2.0, 0.0]), f(1.5), f(0.7)));
    c.list(&format!("{} initial values", T::NAME), &init, |s, r| { r.key(hash_f(1, &adq(&s.d))); r.sample(|| format!("{:?}", s.d)); judge(&s.d, r) });
    c.bfs(&format!("{} operation histories", T::NAME), &init, NAMES.len(), depth, c.qt(6_000_000, 12_000_000), |s, a, r| {
        let d = apply(&s.d, a, r)?;
        r.key(hash_f(2 + marked(&d) as u64, &adq(&d)));
        judge(&d, r);
        r.sample(|| format!("{} gives {:?}", NAMES[a], d));
        Some(St { d })
    }, canon);
}

/// the same clauses at every size of the real part and of the dual part relative to it, to rounding
fn sized<T: Fl>(x: &DualQuaternion<T>, r: &mut Rec) {
    let a = adq(x);
    let n = nrm(&re(&a));
    let k = 1.0 + nrm(&du(&a)) / n;
    let t = 64.0 * T::EPS;
    let w = || format!("{} {:?}", T::NAME, x);
    let e = dunit(&a);
    match x.normalize() {
        Some(u) => {
            let ua = adq(&u);
            r.check("normalised to a unit dual quaternion at every size", le(distv(&re(&ua), &re(&e)), t) && le(distv(&du(&ua), &du(&e)), t * k) && le((nrm(&re(&ua)) - 1.0).abs(), t) && le(qdot(re(&ua), du(&ua)).abs(), t * k), || format!("{} -> {:?}, expected {:?}", w(), u, e));
            r.check("reported normalised after normalising", u.is_normalized(), || format!("{} -> {:?}", w(), u));
        }
        None => { r.check("a non-zero real part can be normalised", n < 2.0 * T::EPS, w); }
    }
    if n * n > 4.0 * T::EPS {
        let i = x.inverse();
        for p in [adq(&(*x * i)), adq(&(i * *x))] {
            r.check("inverse on either side gives the unit at every size", le(distv(&re(&p), &re(&ONE)), t) && le(nrm(&du(&p)), t * k), || format!("{} inverse {:?} product {:?}", w(), i, p));
        }
    }
    if (n - 1.0).abs() > 64.0 * T::EPS && n > 4.0 * T::EPS { r.check("not reported normalised with another norm", !x.is_normalized(), w); }
    let q = |q: Quaternion<T>| Quaternion::new(q.real(), q.imag());
    r.check("equal components compare equal", *x == DualQuaternion::new(q(x.real()), q(x.dual())), w);
    for k in 0..8 {
        let mut b = a;
        b[k] = if b[k] == 0.0 { n * 1e-3 } else { b[k] * (1.0 + 4.0 * T::EPS) };
        r.check("one different component compares unequal", *x != dqn::<T>(&b), || format!("{} against {:?}", w(), b));
    }
}
fn dqn<T: Fl>(a: &D) -> DualQuaternion<T> { DualQuaternion::new(qn::<T>([a[0], a[1], a[2], a[3]]), qn::<T>([a[4], a[5], a[6], a[7]])) }
fn sizes<T: Fl>(c: &Ctx) {
    let (lo, hi) = if T::EPS > 1e-10 { (-6, 8) } else { (-15, 60) };
    let mut ex: Vec<f64> = (lo..=hi).map(|k| 10f64.powi(k)).collect();
    ex.extend([0.9, 0.99, 0.999, 0.9999, 0.99999, 1.0001, 1.001, 1.01, 1.1, 2.0, 0.5, 1.5, 1.0 + 1e-10]);
    let rel = [0.0, 1e-30, 1e-15, 1e-9, 1e-6, 1e-3, 0.3, 1.0, 5.0, 100.0, 1e5, 1e9, 1e16];
    let vals = [-1.0, 0.0, 0.5];
    let reals: Vec<Q> = (0..81).map(|i| { let mut d = Dec(i); std::array::from_fn(|_| *d.pick(&vals)) }).filter(|q: &Q| nrm(q) > 0.0).collect();
    let duals: Vec<Q> = { let mut v: Vec<Q> = (0..8).map(|k| { let mut q = [0.0; 4]; q[k / 2] = if k % 2 == 0 { 1.0 } else { -1.0 }; q }).collect(); v.extend([[1.0, -2.0, 0.5, 3.0], [-0.5, 1.0, 1.0, -1.0]]); v };
    // norms next to one
    let no = fam::near_one();
    c.space(&format!("{} norms next to one", T::NAME), (reals.len() * duals.len() * no.len()) as u64, |i, r| {
        let mut d = Dec(i);
        let (f, q, p) = (*d.pick(&no), qunit(*d.pick(&reals)), *d.pick(&duals));
        // parts orthogonal as for a motion, and as they are
        for o in [p, qsub(p, qsc(q, qdot(p, q)))] {
            let x = DualQuaternion::new(qn::<T>(qsc(q, f)), qn::<T>(o));
            r.key(hash_f(8, &adq(&x)));
            sized(&x, r);
            judge(&x, r);
        }
        let u = DualQuaternion::new_from_rot_trans(&qn::<T>(q), &v3::<T>([p[1], p[2], p[3]]));
        let v = u * T::of(f);
        sized(&v, r);
        judge(&v, r);
    });
    c.space(&format!("{} every size", T::NAME), (reals.len() * duals.len() * rel.len() * ex.len()) as u64, |i, r| {
        let mut d = Dec(i);
        let (q, p, l, e) = (*d.pick(&reals), *d.pick(&duals), *d.pick(&rel), *d.pick(&ex));
        // a dual part too short for the precision is left out
        if l > 0.0 && e * l < T::MINP * 1e20 { return }
        let x = DualQuaternion::new(qn::<T>(qsc(q, e)), qn::<T>(qsc(p, e * l)));
        r.key(hash_f(7, &adq(&x)));
        sized(&x, r);
        // from marked values
        if l <= 100.0 {
            let u = DualQuaternion::new_from_rot_trans(&qn::<T>(q), &v3::<T>([l * p[1], l * p[2], l * p[3] + l * p[0]]));
            sized(&(u * T::of(e)), r);
            sized(&-u, r);
        }
    });
}

/// the same components through every constructor that takes components, the parts marked where they are units
fn constructors<T: Fl>(c: &Ctx) {
    let vals = [0.0, 1.0, -0.6, 0.8, 2.0];
    let duals: Vec<Q> = vec![[0.0; 4], [1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.6, -0.8, 0.0], [0.5, -1.0, 2.0, 0.25], [0.0, 0.0, 0.0, -3.0]];
    c.space(&format!("{} every constructor from components", T::NAME), 625 * 6, |i, r| {
        let mut d = Dec(i);
        let a: Q = std::array::from_fn(|_| *d.pick(&vals));
        let b = *d.pick(&duals);
        r.key(hash_u(21, &[T::EPS.to_bits(), i]));
        let (v, u) = (V4::new(a.map(T::of)), V4::new(b.map(T::of)));
        let (p, q) = (qn::<T>(a), qn::<T>(b));
        let mark = |x: Quaternion<T>| { let m = x.normalize(); match m { Some(m) if aq(&m) == aq(&x) => m, _ => x } };
        for x in [DualQuaternion::new(p, q), DualQuaternion::new(mark(p), q), DualQuaternion::new(p, mark(q)), DualQuaternion::new(mark(p), mark(q)), DualQuaternion::new_from_vecs(&v, &u)] {
            r.check("constructed from its components", adq(&x) == adq(&DualQuaternion::new(p, q)), || format!("{:?} from {:?} {:?}", x, a, b));
            judge(&x, r);
        }
    });
}

/// a value against every value that shares its components up to signs and order, and every structure of the components
fn equality<T: Fl>(c: &Ctx) {
    let sh = fam::shapes::<8>();
    let st = 1;
    c.every(&format!("{} equality against flipped and rearranged components", T::NAME), (sh.len() * (256 + 56)) as u64, st, |i, r| {
        let mut d = Dec(i);
        let (m, a) = (d.take(256 + 56), *d.pick(&sh));
        let mut b = a;
        if m < 256 { for k in 0..8 { if m >> k & 1 == 1 { b[k] = -a[k] } } } else { let (p, q) = ((m - 256) / 7, (m - 256) % 7); let q = if q >= p { q + 1 } else { q }; if p < q { b.swap(p, q) } else { b.rotate_left(p); b.swap(0, q) } }
        r.key(hash_u(51, &[T::EPS.to_bits(), i]));
        let (x, y) = (dqn::<T>(&a), dqn::<T>(&b));
        let e = adq(&x) == adq(&y);
        let w = || format!("{} {:?} and {:?}", T::NAME, x, y);
        r.check(if e { "equal components compare equal" } else { "one different component compares unequal" }, (x == y) == e && (y == x) == e && (x != y) != e, w);
        if nrm(&re(&a)) > 1e-3 && nrm(&re(&b)) > 1e-3 {
            let (u, v) = (x.normalize().unwrap(), y.normalize().unwrap());
            let (fu, fv) = (dqn::<T>(&adq(&u)), dqn::<T>(&adq(&v)));
            let e = adq(&u) == adq(&v);
            r.check(if e { "equal components compare equal" } else { "one different component compares unequal" }, [(u, v), (v, u), (fu, v), (u, fv), (fv, u), (v, fu)].iter().all(|(p, q)| (p == q) == e && (p != q) != e), || format!("normalised {}", w()));
        }
    });
    let sh4 = fam::shapes::<4>();
    let mut all = sh;
    let st = c.qt(3, 1);
    for (i, x) in sh4.iter().enumerate() { for (j, y) in sh4.iter().enumerate() { if (i + 5 * j) % st == 0 { all.push(mk(*x, *y)) } } }
    c.list(&format!("{} components of every structure", T::NAME), &all, |a, r| {
        r.key(hash_f(52, a));
        let n = nrm(&re(a));
        if n > 1e-3 || n == 0.0 {
            let x = dqn::<T>(a);
            if n > 0.0 { sized(&x, r) }
            if nrm(a) < 50.0 {
                judge(&x, r);
                if n > 0.0 { if let Some(u) = x.normalize() { judge(&u, r) } }
                let u = qn::<T>(re(a));
                if n > 0.0 { judge(&DualQuaternion::new_from_rot_trans(&u, &v3::<T>([a[5], a[6], a[7]])), r) }
            }
        }
    });
}

/// values that carry markers
fn marked_values<T: Fl>() -> Vec<DualQuaternion<T>> {
    let f = T::of;
    let rots: Vec<Quaternion<T>> = vec![Quaternion::one(), Quaternion::rotation(f(1.0), &v3::<T>([1.0, -2.0, 2.0])), qn::<T>([0.0, 0.0, 1.0, 0.0]), qn::<T>([0.5, 0.5, -0.5, 0.5]), qn::<T>([-1.0, 0.0, 0.0, 0.0]), Quaternion::rotation(f(4.0), &v3::<T>([0.0, 0.0, 1.0]))];
    let mut ms: Vec<DualQuaternion<T>> = Vec::new();
    for q in &rots {
        ms.push(DualQuaternion::new_from_rotation(q));
        for t in [[0.0, 0.0, 0.0], [1.0, 2.0, 3.0], [0.0, 0.0, -2.0]] { ms.push(DualQuaternion::new_from_rot_trans(q, &v3::<T>(t))) }
    }
    ms.push(DualQuaternion::one());
    for t in [[1.0, 2.0, 3.0], [0.0, 0.0, 0.0], [0.0, -4.0, 0.0]] { ms.push(DualQuaternion::new_from_translation(&v3::<T>(t))); ms.push(DualQuaternion::new_from_point(&v3::<T>(t))) }
    ms.push(DualQuaternion::new_from_rotation_matrix(&m33::<T>(&rodrigues(unit3([1.0, 1.0, 1.0]), 2.0))));
    ms.push(DualQuaternion::new(qn::<T>([1.0, 2.0, -1.0, 0.5]), qn::<T>([0.5, -1.0, 2.0, 1.0])).normalize().unwrap());
    ms
}

/// marked values with operands and parameters of every size and next to one
fn close<T: Fl>(c: &Ctx) {
    let f = T::of;
    let ms = marked_values::<T>();
    let mut ks = fam::near_one();
    let (lo, hi) = if T::EPS > 1e-10 { (-5, 5) } else { (-12, 12) };
    for e in lo..=hi { for m in [1.0, 3.0] { ks.push(m * 10f64.powi(e)) } }
    ks.extend([0.5, 0.25, 0.75, 2.0, 1.5, std::f64::consts::FRAC_1_SQRT_2, std::f64::consts::SQRT_2]);
    for k in fam::near_one() { if k < 1.0 { ks.push(1.0 - k) } }
    let mut dirs: Vec<D> = (0..8).map(|k| { let mut a = [0.0; 8]; a[k] = 1.0; a }).collect();
    dirs.push(mk(qunit([1.0, -2.0, 2.0, 0.5]), [0.0; 4]));
    dirs.push(mk([0.0; 4], qunit([1.0, -2.0, 2.0, 0.5])));
    dirs.push(mk(qunit([0.5, -0.5, 0.5, 0.5]), [0.5, 1.0, 0.0, -1.0]));
    dirs.push(adq(&DualQuaternion::new_from_rot_trans(&Quaternion::rotation(f(1.0), &v3::<T>([0.0, 0.0, 1.0])), &v3::<T>([1.0, -1.0, 0.5]))));
    const OPS: usize = 12;
    c.space(&format!("{} marked values with operands of every size", T::NAME), (ms.len() * ks.len() * dirs.len() * OPS * 2) as u64, |i, r| {
        let mut d = Dec(i);
        let (op, s, g, k, x) = (d.take(OPS), d.take(2), *d.pick(&dirs), *d.pick(&ks), *d.pick(&ms));
        let k = if s == 1 { -k } else { k };
        let y = dqn::<T>(&g.map(|v| v * k));
        let (a, b) = (adq(&x), adq(&y));
        let none = None;
        let z1 = nrm(&re(&b)) == 0.0;
        let (z, e) = match op {
            0 => (x + y, Some(map2(&a, &b, |p, q| p + q))), 1 => (y + x, Some(map2(&a, &b, |p, q| p + q))), 2 => (x - y, Some(map2(&a, &b, |p, q| p - q))), 3 => (y - x, Some(map2(&b, &a, |p, q| p - q))),
            4 => (x * y, Some(dmul(&a, &b))), 5 => (y * x, Some(dmul(&b, &a))),
            6 => { if z1 || k * k < 4.0 * T::EPS { return } (x / y, Some(dmul(&a, &dinv(&b)))) }
            7 => (y / x, Some(dmul(&b, &dinv(&a)))),
            8 => { if k.abs() > 5.0 { return } (x.pow(f(k)), none) }
            9 => { if k.abs() > 1.0 || z1 || !unit_like(&g, 64.0 * T::EPS) { return } (DualQuaternion::screw_lerp(&x, &dqn::<T>(&g), f(k)), none) }
            10 => (x * f(k), Some(a.map(|v| v * k))),
            _ => (x * (DualQuaternion::one() + y), Some(dmul(&a, &map2(&ONE, &b, |p, q| p + q)))),
        };
        r.key(hash_u(61, &[T::EPS.to_bits(), i]));
        let o = adq(&z);
        if !o.iter().all(|v| v.is_finite()) { return }
        let w = || format!("{} operation {} of {:?} and {:?} ({}): {:?}", T::NAME, op, x, y, k, z);
        if let Some(e) = e { let m = (1.0 + nrm(&a)).powi(2) * (1.0 + nrm(&g)).powi(2) * if op < 4 || op > 10 { 1.0 + k.abs() } else if op == 6 { 1.0 / k.abs() } else { k.abs() }; r.check("operation gives its components", le(distv(&o, &e), 64.0 * T::EPS * m), || format!("{}, expected {:?}", w(), e)); }
        for z in [z, -z, z.conj(), z * f(2.0)] {
            let za = adq(&z);
            let (n, m) = (nrm(&re(&za)), nrm(&za));
            if n > 4.0 * T::EPS && m < 1e6 * n { sized(&z, r) }
            if m <= 50.0 && (n == 0.0 || n >= 0.05) { judge(&z, r) }
        }
    });
}

/// every pair of a marked value with the operands an implementation could treat specially
fn specials<T: Fl>(c: &Ctx) {
    let f = T::of;
    let ms = marked_values::<T>();
    let ok = |a: &D| { let n = nrm(&re(a)); nrm(a) <= 50.0 && (n == 0.0 || n >= 0.05) };
    let ss = [0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 0.5, 3.0, 10.0, -0.25, 1.0 + 4.0 * T::EPS, 1.0 - 4.0 * T::EPS, 1.5, 1.0 + 1e-2, 1.0 - 1e-2];
    c.space(&format!("{} marked values with special numbers", T::NAME), (ms.len() * ss.len()) as u64, |i, r| {
        let mut d = Dec(i);
        let (s, x) = (*d.pick(&ss), *d.pick(&ms));
        let y = x * f(s);
        r.key(hash_u(11, &[i]));
        if ok(&adq(&y)) { judge(&y, r) }
    });
    let partner = |x: &DualQuaternion<T>, k: usize| -> D {
        let a = adq(x);
        let z = [0.0; 4];
        match k {
            0 => [0.0; 8], 1 => ONE, 2 => ONE.map(|y| -y), 3 => a, 4 => a.map(|y| -y), 5 => a.map(|y| 2.0 * y), 6 => a.map(|y| 0.5 * y), 7 => dconj(&a), 8 => dconj(&a).map(|y| -y),
            9 => mk(re(&a), z), 10 => mk(z, du(&a)), 11 => mk(z, [1.0, 0.0, 0.0, 0.0]), 12 => mk(z, [0.0, 0.0, 2.0, 0.0]), 13 => mk([0.5, 0.0, 0.0, 0.0], z), 14 => mk([0.0, 1.0, 0.0, 0.0], z),
            15 => mk(re(&a), qsc(du(&a), -1.0)), 16 => mk(qsc(re(&a), 2.0), z), 17 => mk(re(&a), re(&a)), 18 => mk([1.0, 0.0, 0.0, 0.0], [1.0, 0.0, 0.0, 0.0]), 19 => mk([2.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0]), 20 => a.map(|y| -2.0 * y),
            _ => [1.0, -2.0, 0.5, 2.0, 0.5, 1.0, 0.0, -1.0],
        }
    };
    c.space(&format!("{} marked values with special operands", T::NAME), (ms.len() * 22 * 2 * 8) as u64, |i, r| {
        let mut d = Dec(i);
        let (op, mkd, k, x) = (d.take(8), d.take(2) == 1, d.take(22), *d.pick(&ms));
        let b = partner(&x, k);
        let mut y = dqn::<T>(&b);
        let (a, b) = (adq(&x), adq(&y));
        if mkd { if !unit_like(&b, 64.0 * T::EPS) { return } y = match y.normalize() { Some(u) => u, None => return } }
        if op == 7 && nrm(&re(&b)) == 0.0 { return }
        let (z, e) = match op {
            0 => (x + y, map2(&a, &b, |p, q| p + q)), 1 => (y + x, map2(&a, &b, |p, q| p + q)), 2 => (x - y, map2(&a, &b, |p, q| p - q)), 3 => (y - x, map2(&b, &a, |p, q| p - q)),
            4 => (x * y, dmul(&a, &b)), 5 => (y * x, dmul(&b, &a)), 6 => (y / x, dmul(&b, &dinv(&a))), _ => (x / y, dmul(&a, &dinv(&b))),
        };
        r.key(hash_u(12, &[i]));
        let t = tol::<T>();
        r.check("operation gives its components", le(distv(&adq(&z), &e), 256.0 * t), || format!("{} operation {} of {:?} and {:?}: {:?}, expected {:?}", T::NAME, op, x, y, z, e));
        // a residue of rounding where the exact result is zero is not explored further
        for z in [z, -z, z.conj(), z.conj_as_dual(), z.conj_combined()] { if ok(&adq(&z)) { judge(&z, r) } }
    });
}

fn main() {
    run(
        "C18",
        "model_checking",
        "explicit-state breadth-first search over histories of constructors and 37 operations on the real DualQuaternion, each value judged against a freshly built dual quaternion with the same components and against reference arithmetic; states are the components (up to rounding) with the hidden markers; distinct states are non-trivial",
        &["values are explored while the norm of the real part is zero or at least 0.05 and the whole at most 50", "rotation constructors get unit quaternions and rotation matrices; powers, screw interpolation and matrix conversion start from unit values"],
        |c| {
            equality::<f64>(c);
            equality::<f32>(c);
            constructors::<f64>(c);
            constructors::<f32>(c);
            close::<f64>(c);
            close::<f32>(c);
            specials::<f64>(c);
            specials::<f32>(c);
            sizes::<f64>(c);
            sizes::<f32>(c);
            go::<f64>(c, 4);
            go::<f32>(c, c.qt(3, 4));
        },
    );
}
