//! C11: a quaternion's behaviour depends only on its components, whatever made it.
use mc::adapt::*;
use mc::fam::PI;
use mc::refm::*;
use mc::*;

#[derive(Clone, Copy)]
struct St<T> { q: Quaternion<T> }

/// the hidden marker, as far as the value's Debug text shows one
fn marked<T: Fl>(q: &Quaternion<T>) -> bool { format!("{:?}", q).contains("normalized: true") }

fn canon<T: Fl>(s: &St<T>) -> Vec<u64> {
    // values that differ only by rounding behave alike
    let sc = if T::EPS > 1e-10 { 2048.0 } else { 68719476736.0 };
    let mut v: Vec<u64> = aq(&s.q).iter().map(|x| ((x * sc).round() as i64) as u64).collect();
    v.push(marked(&s.q) as u64);
    v
}
fn tol<T: Fl>() -> f64 { if T::EPS > 1e-10 { 2e-4 } else { 1e-11 } }

/// everything the property says about one value
fn judge<T: Fl>(q: &Quaternion<T>, r: &mut Rec) {
    let a = aq(q);
    let n = nrm(&a);
    let fresh = Quaternion::new(q.real(), q.imag());
    let w = || format!("{} {:?}", T::NAME, q);
    r.class(if marked(q) { "marked normalised" } else { "not marked" });
    r.check("equal components compare equal", *q == fresh && fresh == *q && !(*q != fresh), w);
    let other = fresh + Quaternion::one();
    r.check("unequal components compare unequal", *q != other, w);
    let t = tol::<T>();
    // normalise
    match q.normalize() {
        Some(u) => {
            r.check("zero cannot be normalised", n > 0.0, w);
            r.check("normalised value has norm one", le((nrm(&aq(&u)) - 1.0).abs(), t), || format!("{} -> {:?}", w(), u));
            r.check("normalising keeps the direction", le(distv(&aq(&u), &qsc(a, 1.0 / n)), t), || format!("{} -> {:?}", w(), u));
            let again = u.normalize();
            r.check("normalising twice changes nothing", again.is_some() && le(distv(&aq(&again.unwrap()), &aq(&u)), t), || format!("{} -> {:?}", w(), again));
        }
        None => { r.check("a non-zero quaternion can be normalised", n < 2.0 * T::EPS, w); }
    }
    if n * n > 4.0 * T::MINP {
        let u = q.normalize_q();
        r.check("normalising keeps the direction", le(distv(&aq(&u), &qsc(a, 1.0 / n)), t), || format!("{} normalize_q {:?}", w(), u));
    }
    // inverse
    match q.inverse() {
        Some(i) => {
            r.check("zero has no inverse", n > 0.0, w);
            let one = [1.0, 0.0, 0.0, 0.0];
            r.check("inverse on either side gives one", le(distv(&aq(&(*q * i)), &one), 4.0 * t) && le(distv(&aq(&(i * *q)), &one), 4.0 * t), || format!("{} inverse {:?}", w(), i));
            let back = i.inverse();
            r.check("inverse of the inverse", match back { Some(b) => le(distv(&aq(&b), &a), 8.0 * t * n.max(1.0)), None => n * n > 0.2 / T::EPS }, || format!("{} -> {:?}", w(), back));
        }
        None => { r.check("a non-zero quaternion has an inverse", n * n < 2.0 * T::EPS, w); }
    }
    // anything else that could look at the marker
    let same = |x: [f64; 4], y: [f64; 4]| { let s = nrm(&x).max(1.0); le(distv(&x, &y), 8.0 * t * s) };
    if n > 1e-3 {
        r.check("logarithm depends only on the components", same(aq(&q.ln()), aq(&fresh.ln())), || format!("{}: {:?} against {:?}", w(), q.ln(), fresh.ln()));
        r.check("root depends only on the components", same(aq(&q.sqrt()), aq(&fresh.sqrt())), || format!("{}: {:?} against {:?}", w(), q.sqrt(), fresh.sqrt()));
        let (x, y) = (q.axis_angle(), fresh.axis_angle());
        r.check("angle depends only on the components", le((x.1 - y.1).to().abs(), 8.0 * t), w);
        let im = nrm(&a[1..]) / n;
        if im > 1e-2 { r.check("axis depends only on the components", match (x.0, y.0) { (Some(p), Some(q)) => le(distv(&a3(&p), &a3(&q)), 64.0 * t / im), _ => false }, w); }
        let k = qn::<T>([0.3, -1.0, 0.5, 2.0]);
        r.check("quotient depends only on the components", same(aq(&(k / *q)), aq(&(k / fresh))), w);
    }
    if n < 20.0 {
        let e = n.exp();
        r.check("exponential depends only on the components", le(distv(&aq(&q.exp()), &aq(&fresh.exp())), 8.0 * t * e), w);
        if n < 5.0 && n > 1e-2 {
            r.check("sine and cosine depend only on the components", le(distv(&aq(&q.sin()), &aq(&fresh.sin())), 64.0 * t * e) && le(distv(&aq(&q.cos()), &aq(&fresh.cos())), 64.0 * t * e), w);
        }
    }
}

const NAMES: &[&str] = &[
    "normalize", "normalize_q", "conj", "neg", "inverse", "exp", "ln", "sqrt", "argq", "times 2", "times -0.5", "over 4", "plus one", "minus one", "plus itself", "times itself", "over itself conjugate",
    "times rotation", "rotation times", "times general", "general times", "plus rotation", "minus general", "over rotation", "over general", "slerp to rotation", "derivative", "power", "through matrix", "through Euler angles", "through axis and angle", "rebuilt", "sin", "cos", "rotation vector of the imaginary part", "plus i", "halved sum with its conjugate",
];

fn apply<T: Fl>(q: &Quaternion<T>, a: usize, r: &mut Rec) -> Option<Quaternion<T>> {
    let v = aq(q);
    let n = nrm(&v);
    let unit = (n - 1.0).abs() < tol::<T>().max(1e-6);
    let f = T::of;
    let rot = Quaternion::rotation(f(PI / 2.0), &v3::<T>([0.0, 0.0, 1.0]));
    let gen = qn::<T>([1.0, -2.0, 0.5, 2.0]);
    let t = tol::<T>();
    let mut model: Option<Q> = None;
    let out = match NAMES[a] {
        "normalize" => q.normalize()?,
        "normalize_q" => { if n * n < 4.0 * T::MINP { return None } q.normalize_q() }
        "conj" => { model = Some(qconj(v)); q.conj() }
        "neg" => { model = Some(qsc(v, -1.0)); -*q }
        "inverse" => q.inverse()?,
        "exp" => { if n > 3.0 { return None } model = Some(qexp(v)); q.exp() }
        "ln" => { if n < 1e-2 { return None } q.ln() }
        "sqrt" => { if n < 1e-2 { return None } q.sqrt() }
        "argq" => { if nrm(&v[1..]) < 1e-2 { return None } q.argq() }
        "times 2" => { model = Some(qsc(v, 2.0)); *q * f(2.0) }
        "times -0.5" => { model = Some(qsc(v, -0.5)); *q * f(-0.5) }
        "over 4" => { model = Some(qsc(v, 0.25)); *q / f(4.0) }
        "plus one" => { model = Some(qadd(v, [1.0, 0.0, 0.0, 0.0])); *q + Quaternion::one() }
        "minus one" => { model = Some(qsub(v, [1.0, 0.0, 0.0, 0.0])); *q - Quaternion::one() }
        "plus itself" => { model = Some(qsc(v, 2.0)); *q + *q }
        "times itself" => { model = Some(qmul(v, v)); *q * *q }
        "over itself conjugate" => { if n < 1e-2 { return None } *q / q.conj() }
        "times rotation" => { model = Some(qmul(v, aq(&rot))); *q * rot }
        "rotation times" => { model = Some(qmul(aq(&rot), v)); rot * *q }
        "times general" => { model = Some(qmul(v, aq(&gen))); *q * gen }
        "general times" => { model = Some(qmul(aq(&gen), v)); gen * *q }
        "plus rotation" => { model = Some(qadd(v, aq(&rot))); *q + rot }
        "minus general" => { model = Some(qsub(v, aq(&gen))); *q - gen }
        "over rotation" => { model = Some(qmul(v, qconj(aq(&rot)))); *q / rot }
        "over general" => { model = Some(qsc(qmul(v, qconj(aq(&gen))), 1.0 / qdot(aq(&gen), aq(&gen)))); *q / gen }
        "slerp to rotation" => { if !unit { return None } Quaternion::slerp(*q, rot, f(0.25)) }
        "derivative" => { model = Some(qsc(qmul([0.0, 1.0, -1.0, 2.0], v), 0.5)); q.derivative(&v3::<T>([1.0, -1.0, 2.0])) }
        "power" => { if n < 1e-2 || n > 10.0 { return None } q.pow(qn::<T>([0.5, 0.25, 0.0, -0.5])) }
        "through matrix" => { if !unit { return None } Quaternion::from_rotation(&q.to_rotation()) }
        "through Euler angles" => { if !unit { return None } let e = q.to_euler_angles(); Quaternion::from_euler_angles(e.0, e.1, e.2) }
        "through axis and angle" => { if n < 1e-2 || nrm(&v[1..]) / n < 1e-2 { return None } let (x, g) = q.axis_angle(); Quaternion::rotation(g, &x?) }
        "rebuilt" => { model = Some(v); Quaternion::new(q.real(), q.imag()) }
        "sin" => { if n > 2.0 || n < 1e-2 { return None } q.sin() }
        "cos" => { if n > 2.0 || n < 1e-2 { return None } q.cos() }
        "rotation vector of the imaginary part" => Quaternion::rotation_norm_encoded(&q.imag()),
        "plus i" => { model = Some(qadd(v, [0.0, 1.0, 0.0, 0.0])); *q + qn::<T>([0.0, 1.0, 0.0, 0.0]) }
        _ => { model = Some([v[0], 0.0, 0.0, 0.0]); (*q + q.conj()) / f(2.0) }
    };
    let o = aq(&out);
    if let Some(m) = model {
        let s = nrm(&m).max(n).max(1.0);
        r.check("operation gives its components", le(distv(&o, &m), 16.0 * t * s), || format!("{} {} of {:?}: {:?}, expected {:?}", T::NAME, NAMES[a], q, out, m));
    }
    // keep the explored values where every step is well conditioned
    if !o.iter().all(|x| x.is_finite()) || nrm(&o) > 100.0 { return None }
    if nrm(&o) < 1e-2 && nrm(&o) > T::EPS { return None }
    Some(out)
}

fn go<T: Fl>(c: &Ctx, depth: usize) {
    let f = T::of;
    let mut init: Vec<St<T>> = Vec::new();
    let mut add = |q: Quaternion<T>| init.push(St { q });
    add(Quaternion::one());
    add(Quaternion::zero());
    add(Quaternion::new_real(f(1.0)));
    add(Quaternion::new_real(f(-2.0)));
    add(Quaternion::new_imag(&v3::<T>([0.0, 3.0, -4.0])));
    add(qn::<T>([1.0, 1.0, 1.0, 10.0]));
    add(qn::<T>([0.5, 0.5, -0.5, 0.5]));
    add(Quaternion::new_from_vec(&V4::new_from(f(0.0), f(0.6), f(0.0), f(0.8))));
    add(Quaternion::from([f(0.1), f(-0.2), f(0.3), f(0.4)]));
    add(Quaternion::rotation(f(1.0), &v3::<T>([1.0, -2.0, 2.0])));
    add(Quaternion::rotation(f(PI), &v3::<T>([1.0, 1.0, 0.0])));
    add(Quaternion::rotation_norm_encoded(&v3::<T>([0.0, 2.0, 0.0])));
    add(Quaternion::rotation_norm_encoded(&v3::<T>([0.0, 0.0, 0.0])));
    add(Quaternion::from_euler_angles(f(0.3), f(-0.7), f(2.0)));
    add(Quaternion::from_rotation(&m33::<T>(&rodrigues(unit3([1.0, 1.0, 1.0]), 2.0))));
    c.list(&format!("{} initial values", T::NAME), &init, |s, r| { r.key(hash_f(1, &aq(&s.q))); r.sample(|| format!("{:?}", s.q)); judge(&s.q, r) });
    c.bfs(&format!("{} operation histories", T::NAME), &init, NAMES.len(), depth, c.qt(4_000_000, 12_000_000), |s, a, r| {
        let q = apply(&s.q, a, r)?;
        r.key(hash_f(marked(&q) as u64, &aq(&q)));
        judge(&q, r);
        r.sample(|| format!("{} gives {:?}", NAMES[a], q));
        Some(St { q })
    }, canon);
}

/// the same clauses at every size, to rounding
fn sized<T: Fl>(q: &Quaternion<T>, r: &mut Rec) {
    let a = aq(q);
    let n = nrm(&a);
    let t = 32.0 * T::EPS;
    let w = || format!("{} {:?}", T::NAME, q);
    for (nm, u) in [("normalize", q.normalize()), ("normalize_q", Some(q.normalize_q()))] {
        match u {
            Some(u) => { r.check("normalised to norm one in the same direction at every size", le(distv(&aq(&u), &qsc(a, 1.0 / n)), t), || format!("{} {} {:?}", w(), nm, u)); }
            None => { r.check("a non-zero quaternion can be normalised", n < 2.0 * T::EPS, w); }
        }
    }
    match q.inverse() {
        Some(i) => { r.check("inverse on either side gives one at every size", le(distv(&aq(&(*q * i)), &[1.0, 0.0, 0.0, 0.0]), t) && le(distv(&aq(&(i * *q)), &[1.0, 0.0, 0.0, 0.0]), t), || format!("{} inverse {:?}", w(), i)); }
        None => { r.check("a non-zero quaternion has an inverse", n * n < 2.0 * T::EPS, w); }
    }
    let f = Quaternion::new(q.real(), q.imag());
    r.check("equal components compare equal", *q == f, w);
    for k in 0..4 {
        let mut b = a;
        b[k] = if b[k] == 0.0 { n * 1e-3 } else { b[k] * (1.0 + 4.0 * T::EPS) };
        r.check("one different component compares unequal", *q != qn::<T>(b) && qn::<T>(b) != *q, || format!("{} against {:?}", w(), b));
    }
}
fn sizes<T: Fl>(c: &Ctx) {
    // squares neither overflow nor underflow
    let (lo, hi) = if T::EPS > 1e-10 { (-18, 17) } else { (-150, 150) };
    let mut ex: Vec<f64> = (lo..=hi).map(|k| 10f64.powi(k)).collect();
    ex.extend([0.9, 0.99, 0.999, 0.9999, 0.99999, 0.9999999, 1.0 + 1e-7, 1.00001, 1.0001, 1.001, 1.01, 1.1, 1.0 - 1e-10, 1.0 + 1e-10, 2.0, 0.5, 0.25, 1.5]);
    let vals = [-1.0, -0.5, 0.0, 0.25, 1.0, 3.0];
    // norms next to one: every structure of the components
    let sh: Vec<Q> = fam::shapes::<4>().into_iter().filter(|q| nrm(q) > 0.0).map(qunit).collect();
    let no = fam::near_one();
    c.every(&format!("{} norms next to one", T::NAME), (sh.len() * no.len()) as u64, 1, |i, r| {
        let mut d = Dec(i);
        let (a, f) = (*d.pick(&sh), *d.pick(&no));
        let q = qn::<T>(qsc(a, f));
        r.key(hash_f(8, &aq(&q)));
        sized(&q, r);
        judge(&q, r);
        if let Some(u) = qn::<T>(a).normalize() { let v = u * T::of(f); sized(&v, r); judge(&v, r) }
    });
    c.space(&format!("{} every size", T::NAME), 6u64.pow(4) * ex.len() as u64, |i, r| {
        let mut d = Dec(i);
        let a: Q = std::array::from_fn(|_| *d.pick(&vals));
        if nrm(&a) == 0.0 { return }
        let e = *d.pick(&ex);
        let q = qn::<T>(qsc(a, e));
        r.key(hash_f(7, &aq(&q)));
        sized(&q, r);
        // the same size reached from a marked value
        if let Some(u) = qn::<T>(a).normalize() { sized(&(u * T::of(e)), r); if e >= 1e-30 { sized(&(u / T::of(1.0 / e)), r) } }
        sized(&-q, r);
        sized(&q.conj(), r);
    });
}

/// a value against every value that shares its components up to signs and order
fn equality<T: Fl>(c: &Ctx) {
    let sh = fam::shapes::<4>();
    let ps = fam::perms(4);
    c.space(&format!("{} equality against flipped and rearranged components", T::NAME), (sh.len() * 16 * 24) as u64, |i, r| {
        let mut d = Dec(i);
        let (m, p, a) = (d.take(16), d.pick(&ps), *d.pick(&sh));
        let b: Q = std::array::from_fn(|k| a[p[k]] * if m >> k & 1 == 1 { -1.0 } else { 1.0 });
        r.key(hash_u(51, &[T::EPS.to_bits(), i]));
        let (x, y) = (qn::<T>(a), qn::<T>(b));
        let e = aq(&x) == aq(&y);
        let w = || format!("{} {:?} and {:?}", T::NAME, x, y);
        r.check(if e { "equal components compare equal" } else { "one different component compares unequal" }, (x == y) == e && (y == x) == e && (x != y) != e, w);
        // the same with marked values
        if nrm(&a) > 0.0 {
            let (u, v) = (x.normalize().unwrap(), y.normalize().unwrap());
            let (fu, fv) = (qn::<T>(aq(&u)), qn::<T>(aq(&v)));
            let e = aq(&u) == aq(&v);
            r.check(if e { "equal components compare equal" } else { "one different component compares unequal" }, [(u, v), (v, u), (fu, v), (u, fv), (fv, u), (v, fu)].iter().all(|(p, q)| (p == q) == e && (p != q) != e), || format!("normalised {}", w()));
        }
        if p.iter().enumerate().all(|(i, x)| i == *x) && m == 0 && nrm(&a) > 0.0 { if nrm(&a) < 100.0 { judge(&x, r); if nrm(&a) > 0.0 { judge(&x.normalize().unwrap(), r) } } sized(&x, r); }
    });
}

/// the same components through every constructor that takes components
fn constructors<T: Fl>(c: &Ctx) {
    let vals = [0.0, 1.0, -1.0, 0.6, -0.8, 0.5, 2.0, -3.0];
    c.space(&format!("{} every constructor from components", T::NAME), 8u64.pow(4), |i, r| {
        let mut d = Dec(i);
        let a: Q = std::array::from_fn(|_| *d.pick(&vals));
        let v: [T; 4] = a.map(T::of);
        r.key(hash_u(21, &[T::EPS.to_bits(), i]));
        let im = V3::new_from(v[1], v[2], v[3]);
        let n = qn::<T>(a).normalize();
        let mut l = vec![Quaternion::new(v[0], im), Quaternion::new_from(v[0], v[1], v[2], v[3]), Quaternion::new_from_vec(&V4::new(v)), Quaternion::from(v)];
        if a[1..] == [0.0; 3] { l.push(Quaternion::new_real(v[0])) }
        if a[0] == 0.0 { l.push(Quaternion::new_imag(&im)) }
        // the parts of values that are marked
        if let Some(n) = n { let u = n + qn::<T>(qsub(a, aq(&n))); if aq(&u) == a { l.push(u) } }
        for q in l {
            r.check("constructed from its components", aq(&q) == aq(&Quaternion::new(v[0], im)), || format!("{:?} from {:?}", q, a));
            judge(&q, r);
        }
    });
}

/// values that carry a marker
fn marked_values<T: Fl>() -> Vec<Quaternion<T>> {
    let f = T::of;
    {
        let mut v = vec![Quaternion::one()];
        for k in 0..4 { for s in [1.0, -1.0] { let mut a = [0.0; 4]; a[k] = s; v.push(qn::<T>(a).normalize().unwrap()); } }
        for a in [[0.5, 0.5, -0.5, 0.5], [0.6, 0.0, 0.8, 0.0], [-0.8, 0.0, 0.0, 0.6], [0.0, 0.6, -0.8, 0.0], [1.0, -2.0, 3.0, 0.5]] { v.push(qn::<T>(a).normalize().unwrap()); }
        v.push(Quaternion::rotation(f(1.0), &v3::<T>([1.0, -2.0, 2.0])));
        v.push(Quaternion::rotation(f(-4.0), &v3::<T>([0.0, 1.0, 0.0])));
        v.push(Quaternion::rotation_norm_encoded(&v3::<T>([0.0, 2.0, 0.0])));
        v.push(Quaternion::from_euler_angles(f(0.3), f(-0.7), f(2.0)));
        v
    }
}

/// marked values with operands and parameters of every size and next to one
fn close<T: Fl>(c: &Ctx) {
    let f = T::of;
    let mut ms = marked_values::<T>();
    ms.extend([qn::<T>([0.5, 0.5, -0.5, 0.5]), qn::<T>([1.0, -2.0, 0.5, 2.0])]);
    let mut ks = fam::near_one();
    ks.extend(fam::near_one().into_iter().map(|k| k * 2.0));
    let (lo, hi) = if T::EPS > 1e-10 { (-6, 6) } else { (-14, 14) };
    for e in lo..=hi { for m in [1.0, 3.0] { ks.push(m * 10f64.powi(e)) } }
    ks.extend([0.5, 0.25, 0.75, 1.5, std::f64::consts::FRAC_1_SQRT_2, std::f64::consts::SQRT_2, PI, PI / 2.0, 2.0 * PI]);
    for k in fam::near_one() { if k < 1.0 { ks.push(1.0 - k) } }
    let dirs: Vec<Q> = [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, -1.0, 0.0], [0.0, 0.0, 0.0, 1.0], [0.0, 0.6, 0.0, -0.8], [0.5, -0.5, 0.5, 0.5], [1.0, -2.0, 2.0, 0.5], [0.0, 1.0, 1.0, 1.0]].into_iter().map(qunit).collect();
    const OPS: usize = 16;
    c.space(&format!("{} marked values with operands of every size", T::NAME), (ms.len() * ks.len() * dirs.len() * OPS * 2) as u64, |i, r| {
        let mut d = Dec(i);
        let (op, s, g, k, x) = (d.take(OPS), d.take(2), *d.pick(&dirs), *d.pick(&ks), *d.pick(&ms));
        let k = if s == 1 { -k } else { k };
        let y = qn::<T>(qsc(g, k));
        let (a, b) = (aq(&x), aq(&y));
        let inv = |q: Q| qsc(qconj(q), 1.0 / qdot(q, q));
        let none = None;
        let (z, e) = match op {
            0 => (x + y, Some(qadd(a, b))), 1 => (y + x, Some(qadd(b, a))), 2 => (x - y, Some(qsub(a, b))), 3 => (y - x, Some(qsub(b, a))),
            4 => (x * y, Some(qmul(a, b))), 5 => (y * x, Some(qmul(b, a))),
            6 => { if k * k < 4.0 * T::EPS { return } (x / y, Some(qmul(a, inv(b)))) }
            7 => (y / x, Some(qmul(b, inv(a)))),
            8 => (x.derivative(&y.imag()), Some(qsc(qmul([0.0, b[1], b[2], b[3]], a), 0.5))),
            9 => { if k.abs() > 5.0 { return } (y.exp(), none) }
            10 => { if k.abs() > 5.0 { return } ((x * f(k)).exp(), none) }
            11 => ((x * f(k)).sqrt(), none), 12 => ((x * f(k)).ln(), none),
            13 => { if k.abs() > 5.0 { return } (x.pow(Quaternion::new_real(f(k))), none) }
            14 => { if k.abs() > 5.0 { return } (x.pow(y), none) }
            _ => { if !(0.0..=1.0).contains(&k) || !marked(&x) { return } (Quaternion::slerp(x, qn::<T>(g), f(k)), none) }
        };
        r.key(hash_u(61, &[T::EPS.to_bits(), i]));
        let o = aq(&z);
        if !o.iter().all(|v| v.is_finite()) { return }
        let w = || format!("{} operation {} of {:?} and {:?} ({}): {:?}", T::NAME, op, x, y, k, z);
        if let Some(e) = e { let m = nrm(&e).max(if op < 4 { nrm(&a).max(nrm(&b)) } else { 0.0 }); r.check("operation gives its components", le(distv(&o, &e), 64.0 * T::EPS * m), || format!("{}, expected {:?}", w(), e)); }
        for z in [z, -z, z.conj(), z * f(2.0)] {
            let n = nrm(&aq(&z));
            if n > 0.0 && n > 4.0 * T::MINP.sqrt() && n < 0.1 / T::MINP.sqrt() { sized(&z, r) }
            if n == 0.0 || (n > 1e-2 && n < 100.0) { judge(&z, r) }
        }
    });
}

/// every pair of a marked value with the operands an implementation could treat specially
fn specials<T: Fl>(c: &Ctx) {
    let f = T::of;
    let ms = marked_values::<T>();
    // scalars
    let ss = [0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 0.5, 3.0, 10.0, -0.25, 1.0 + 4.0 * T::EPS, 1.0 - 4.0 * T::EPS, 1.5, 0.75, 1.0 + 1e-3, 1.0 - 1e-3, -1.0 - 1e-3];
    c.space(&format!("{} marked values with special numbers", T::NAME), (ms.len() * ss.len() * 4) as u64, |i, r| {
        let mut d = Dec(i);
        let (op, s, x) = (d.take(4), *d.pick(&ss), *d.pick(&ms));
        let y = match op { 0 => x * f(s), 1 => { if s == 0.0 { return } x / f(s) } 2 => x * qn::<T>([s, 0.0, 0.0, 0.0]), _ => x + Quaternion::new_real(f(s)) };
        r.key(hash_u(11, &[i]));
        let n = nrm(&aq(&y));
        if n > 100.0 || (n > 0.0 && n < 1e-2) { return }
        judge(&y, r);
    });
    // the operand is derived from the value itself, or stands alone; marked where it is a unit
    let partner = |x: Quaternion<T>, k: usize| -> Quaternion<T> {
        let a = aq(&x);
        match k {
            0 => Quaternion::zero(), 1 => Quaternion::one(), 2 => qn::<T>([-1.0, 0.0, 0.0, 0.0]), 3 => x, 4 => qn::<T>(qsc(a, -1.0)),
            5 => qn::<T>(qsc(a, 2.0)), 6 => qn::<T>(qsc(a, 0.5)), 7 => qn::<T>(qconj(a)), 8 => qn::<T>(qsc(qconj(a), -1.0)),
            9 => qn::<T>([0.0, 1.0, 0.0, 0.0]), 10 => qn::<T>([0.0, 0.0, 1.0, 0.0]), 11 => qn::<T>([0.0, 0.0, 0.0, 1.0]),
            12 => qn::<T>([2.0, 0.0, 0.0, 0.0]), 13 => qn::<T>([0.0, 2.0, 0.0, -1.0]), 14 => qn::<T>([a[0], 0.0, 0.0, 0.0]), 15 => qn::<T>([0.0, a[1], a[2], a[3]]),
            16 => qn::<T>([a[1], -a[0], a[3], -a[2]]), 17 => qn::<T>(qsc(a, -2.0)), _ => qn::<T>([1.0, 1.0, -2.0, 0.5]),
        }
    };
    c.space(&format!("{} marked values with special operands", T::NAME), (ms.len() * 19 * 2 * 12) as u64, |i, r| {
        let mut d = Dec(i);
        let (op, mk, k, x) = (d.take(12), d.take(2) == 1, d.take(19), *d.pick(&ms));
        let mut y = partner(x, k);
        let (a, b) = (aq(&x), aq(&y));
        if mk { if (nrm(&b) - 1.0).abs() > 8.0 * T::EPS { return } y = match y.normalize() { Some(u) => u, None => return } }
        let inv = |q: Q| qsc(qconj(q), 1.0 / qdot(q, q));
        if matches!(op, 7 | 9) && nrm(&b) == 0.0 { return }
        let (z, e) = match op {
            0 => (x + y, qadd(a, b)), 1 => (y + x, qadd(a, b)), 2 => (x - y, qsub(a, b)), 3 => (y - x, qsub(b, a)), 4 => (x * y, qmul(a, b)), 5 => (y * x, qmul(b, a)),
            6 => (y / x, qmul(b, inv(a))), 7 => (x / y, qmul(a, inv(b))), 8 => (x.derivative(&y.imag()), qsc(qmul([0.0, b[1], b[2], b[3]], a), 0.5)), 9 => ((x / y) * y, a),
            10 => { let z = x + y; (z - x, b) } _ => ((x - y) + y, a),
        };
        r.key(hash_u(12, &[i]));
        let t = tol::<T>();
        r.check("operation gives its components", le(distv(&aq(&z), &e), 16.0 * t), || format!("{} operation {} of {:?} and {:?}: {:?}, expected {:?}", T::NAME, op, x, y, z, e));
        let n = nrm(&aq(&z));
        // a residue of rounding where the exact result is zero is not explored further
        if n > 100.0 || (n > 0.0 && n < 1e-2) { return }
        judge(&z, r);
        judge(&-z, r);
        judge(&z.conj(), r);
    });
}

/// interpolation between operands of any norm, marked or not
fn interpolated<T: Fl>(c: &Ctx) {
    let f = T::of;
    let mut qs: Vec<Quaternion<T>> = vec![Quaternion::one(), Quaternion::zero()];
    for a in [[0.5, 0.5, -0.5, 0.5], [0.6, 0.0, 0.8, 0.0], [-0.8, 0.0, 0.0, 0.6], [0.0, 0.0, 0.6, 0.8], [-0.5, -0.5, 0.5, -0.5], [0.0, 1.0, 0.0, 0.0], [0.36, 0.48, -0.8, 0.0]] {
        for e in [1.0, -1.0, 0.5, 0.25, 1.5, 2.0, 10.0, 0.03125] { qs.push(qn::<T>(qsc(a, e))) }
        let u = qn::<T>(a).normalize().unwrap();
        qs.extend([u, -u, u.conj(), u * f(2.0), u + Quaternion::one()]);
    }
    let ts = [0.0, 0.125, 0.25, 0.5, 0.75, 1.0];
    c.space(&format!("{} interpolation between operands of any norm", T::NAME), (qs.len() * qs.len() * ts.len()) as u64, |i, r| {
        let mut d = Dec(i);
        let (t, x, y) = (*d.pick(&ts), *d.pick(&qs), *d.pick(&qs));
        let z = Quaternion::slerp(x, y, f(t));
        r.key(hash_u(41, &[T::EPS.to_bits(), i]));
        let n = nrm(&aq(&z));
        if n.is_finite() && n < 100.0 && n > 1e-2 { judge(&z, r); judge(&-z, r); judge(&(z * f(3.0)), r) }
    });
}

/// quaternions that come out of dual quaternions
fn parts<T: Fl>(c: &Ctx) {
    let f = T::of;
    let mut qs: Vec<Quaternion<T>> = Vec::new();
    for a in [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [-1.0, 0.0, 0.0, 0.0], [0.5, 0.5, -0.5, 0.5], [0.6, 0.0, 0.8, 0.0], [0.0, 0.0, -0.6, 0.8], [2.0, 0.0, 0.0, 0.0], [0.0, 0.0, 3.0, 0.0], [1.0, -2.0, 0.5, 2.0], [0.25, 0.0, 0.0, -0.5]] {
        qs.push(qn::<T>(a));
        if (nrm(&a) - 1.0).abs() < 1e-9 { qs.push(qn::<T>(a).normalize().unwrap()) }
    }
    qs.push(Quaternion::rotation(f(1.0), &v3::<T>([1.0, -2.0, 2.0])));
    qs.push(Quaternion::zero());
    let n = qs.len();
    let two = true;
    c.space(&format!("{} parts of dual quaternions", T::NAME), (n * n * 26 * 26) as u64, |i, r| {
        let mut d = Dec(i);
        let (p, q, a, b) = (*d.pick(&qs), *d.pick(&qs), d.take(26), d.take(26));
        if !two && b != 0 && a % 5 != b % 5 { return }
        r.key(hash_u(31, &[T::EPS.to_bits(), i]));
        let step = |x: DualQuaternion<T>, k: usize| -> Option<DualQuaternion<T>> {
            let v = adq(&x);
            let n = nrm(&v[..4]);
            let ok = n > 1e-2 && n < 50.0;
            let unit = (n - 1.0).abs() < 1e-6 && qdot([v[0], v[1], v[2], v[3]], [v[4], v[5], v[6], v[7]]).abs() < 1e-6;
            let other = DualQuaternion::new_from_rot_trans(&Quaternion::rotation(f(2.0), &v3::<T>([0.0, 1.0, 1.0])), &v3::<T>([1.0, -2.0, 0.5]));
            Some(match k {
                0 => x, 1 => x * f(2.0), 2 => x * f(-0.25), 3 => -x, 4 => x.conj(), 5 => x.conj_as_dual(), 6 => x.conj_combined(), 7 => x + x, 8 => x + DualQuaternion::one(), 9 => x - DualQuaternion::one(),
                10 => x * x, 11 => x * other, 12 => other * x, 13 => { if !ok { return None } x.inverse() } 14 => { if !ok { return None } x.normalize()? } 15 => x.norm(), 16 => { if !ok { return None } other / x }
                17 => { if !unit { return None } x.pow(f(0.5)) } 18 => { if !unit { return None } DualQuaternion::screw_lerp(&x, &other, f(0.3)) } 19 => { if !unit { return None } DualQuaternion::new_from_homogeneous(&x.to_homogeneous()) }
                20 => { if !unit { return None } DualQuaternion::new_from_rotation(&x.real()) } 21 => DualQuaternion::new(x.dual(), x.real()), 22 => { if !ok { return None } DualQuaternion::new_from_rot_trans(&x.real(), &x.get_translation()) }
                23 => { if !unit { return None } x.log()? } 24 => DualQuaternion::new_from_vecs(&V4::new([f(v[0]), f(v[1]), f(v[2]), f(v[3])]), &V4::new([f(v[4]), f(v[5]), f(v[6]), f(v[7])])), _ => x - other,
            })
        };
        let x = match step(DualQuaternion::new(p, q), a).and_then(|x| step(x, b)) { Some(x) => x, None => return };
        for z in [x.real(), x.dual(), x.to_quaternion_translation().0] {
            let n = nrm(&aq(&z));
            // rounding residues are not explored
            if n.is_finite() && n < 100.0 && (n == 0.0 || n > 1e-2) { judge(&z, r) }
        }
    });
}

fn main() {
    run(
        "C11",
        "model_checking",
        "explicit-state breadth-first search over histories of constructors and 37 operations on the real Quaternion, each value judged against a freshly built quaternion with the same components and against reference arithmetic; states are the components (up to rounding) with the hidden marker; distinct states are non-trivial",
        &["values are explored while their norm is zero or within [0.01, 100]; slerp and conversions only from unit values", "norms below the library's zero threshold (one rounding unit) count as zero"],
        |c| {
            equality::<f64>(c);
            equality::<f32>(c);
            constructors::<f64>(c);
            constructors::<f32>(c);
            parts::<f64>(c);
            parts::<f32>(c);
            interpolated::<f64>(c);
            interpolated::<f32>(c);
            close::<f64>(c);
            close::<f32>(c);
            specials::<f64>(c);
            specials::<f32>(c);
            sizes::<f64>(c);
            sizes::<f32>(c);
            go::<f64>(c, c.qt(4, 5));
            go::<f32>(c, c.qt(4, 5));
        },
    );
}
