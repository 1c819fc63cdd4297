//! C14: quaternion exp, ln, pow, sqrt, sin, cos.
use mc::adapt::*;
use mc::fam::*;
use mc::refm::*;
use mc::*;

/// sine and cosine in closed form: w + n v, v unit
fn sincos(q: Q) -> (Q, Q) {
    let n = nrm(&q[1..]);
    let v = if n > 0.0 { sc3([q[1], q[2], q[3]], 1.0 / n) } else { [0.0; 3] };
    let (s, c) = q[0].sin_cos();
    let (sh, ch) = (n.sinh(), n.cosh());
    let a = sc3(v, c * sh);
    let b = sc3(v, -s * sh);
    ([s * ch, a[0], a[1], a[2]], [c * ch, b[0], b[1], b[2]])
}
/// the same as power series
fn sincos_series(q: Q) -> (Q, Q) {
    let mut t = [1.0, 0.0, 0.0, 0.0];
    let (mut s, mut c) = ([0.0; 4], t);
    for k in 1..60 {
        t = qsc(qmul(t, q), 1.0 / k as f64);
        match k % 4 { 1 => s = qadd(s, t), 2 => c = qsub(c, t), 3 => s = qsub(s, t), _ => c = qadd(c, t) }
    }
    (s, c)
}
fn ln_ref(q: Q) -> Q {
    let n = nrm(&q[1..]);
    let a = n.atan2(q[0]);
    let k = if n > 0.0 { a / n } else { 0.0 };
    [nrm(&q).ln(), q[1] * k, q[2] * k, q[3] * k]
}

fn direct<T: Fl>(q: &Q, r: &mut Rec) {
    let x = qn::<T>(*q);
    let a = aq(&x);
    let (w0, n) = (a[0], nrm(&a[1..]));
    let w = || format!("{} {:?}", T::NAME, a);
    if n > 1e-18 && n < 1e18 {
        let g = aq(&x.argq());
        r.check("argument is the unit direction of the imaginary part", g[0] == 0.0 && le(distv(&g[1..], &[a[1] / n, a[2] / n, a[3] / n]), 8.0 * T::EPS), || format!("{}: {:?}", w(), g));
        r.check("length of the imaginary part", le((x.abs_imag().to() - n).abs(), 8.0 * T::EPS * n), || format!("{}: {:?}", w(), x.abs_imag()));
    }
    let big = T::max_value().to().ln() - 2.0;
    if w0.abs() > big || n > 1e6 { return }
    let e = aq(&x.exp());
    let er = qexp(a);
    let k = 64.0 * T::EPS * (2.0 + nrm(&a));
    r.check("exponential is its power series", le(distv(&e, &er), k * w0.exp()), || format!("{}: {:?}, expected {:?}", w(), e, er));
    if n > 0.8 * big { return }
    let (s, c) = sincos(a);
    let t = k * n.cosh();
    let (gs, gc) = (aq(&x.sin()), aq(&x.cos()));
    r.check("sine is its power series", le(distv(&gs, &s), t), || format!("{}: {:?}, expected {:?}", w(), gs, s));
    r.check("cosine is its power series", le(distv(&gc, &c), t), || format!("{}: {:?}, expected {:?}", w(), gc, c));
    if nrm(&a) < 3.0 {
        let (s, c) = sincos_series(a);
        r.check("sine is its power series", le(distv(&gs, &s), t + 1e-13), || format!("{}: {:?}, series {:?}", w(), gs, s));
        r.check("cosine is its power series", le(distv(&gc, &c), t + 1e-13), || format!("{}: {:?}, series {:?}", w(), gc, c));
    }
    if n == 0.0 {
        r.class("real");
        let real = |y: f64| [y, 0.0, 0.0, 0.0];
        r.check("real functions on real quaternions", le(distv(&e, &real(w0.exp())), k * w0.exp()) && le(distv(&gs, &real(w0.sin())), t) && le(distv(&gc, &real(w0.cos())), t), || format!("{}: {:?} {:?} {:?}", w(), e, gs, gc));
    }
    // the logarithm undoes the exponential inside the principal strip
    if n < PI - 0.05 && n > 1e-3 && w0.abs() < big / 2.0 - 2.0 {
        let l = aq(&x.exp().ln());
        r.check("logarithm of the exponential", le(distv(&l, &a), k * 64.0), || format!("{}: {:?}", w(), l));
    }
}
fn inverse_fns<T: Fl>(q: &Q, r: &mut Rec) {
    let x = qn::<T>(*q);
    let a = aq(&x);
    let m = nrm(&a);
    let n = nrm(&a[1..]);
    // squares stay in range
    if !(m * m < T::max_value().to() / 16.0 && m * m > T::MINP * 1e6) { return }
    let w = || format!("{} {:?}", T::NAME, a);
    r.class(if n == 0.0 { if a[0] < 0.0 { "negative real" } else { "positive real" } } else { "general" });
    let l = aq(&x.ln());
    // near a negative real the direction of the imaginary part is that of the input, whatever its length
    let k = 64.0 * T::EPS;
    let el = ln_ref(a);
    if a[0] < 0.0 && n / m <= 2.0 * T::EPS {
        r.check("logarithm of a negative real has argument one half turn", le((l[0] - el[0]).abs(), k * (1.0 + el[0].abs())) && le((nrm(&l[1..]) - PI).abs(), k * 4.0), || format!("{}: {:?}", w(), l));
    } else {
        r.check("logarithm has the principal argument", le(distv(&l, &el), k * (2.0 + el[0].abs())), || format!("{}: {:?}, expected {:?}", w(), l, el));
    }
    let back = aq(&x.ln().exp());
    let kk = k * (4.0 + m.ln().abs());
    r.check("logarithm is a right inverse of the exponential", le(distv(&back, &a), kk * m), || format!("{}: {:?}", w(), back));
    r.check("logarithm is a right inverse of the exponential", le(distv(&qexp(l), &a), kk * m), || format!("{}: series of {:?} is {:?}", w(), l, qexp(l)));
    let s = x.sqrt();
    let sa = aq(&s);
    r.check("square root squares back", le(distv(&aq(&(s * s)), &a), kk * m) && le(distv(&qmul(sa, sa), &a), kk * m), || format!("{}: root {:?}", w(), s));
    r.check("square root is the principal one", sa[0] >= -kk * m.sqrt(), || format!("{}: root {:?}", w(), s));
    if n == 0.0 && a[0] > 0.0 {
        r.check("real functions on real quaternions", le(distv(&l, &[a[0].ln(), 0.0, 0.0, 0.0]), k * (2.0 + a[0].ln().abs())) && le(distv(&sa, &[a[0].sqrt(), 0.0, 0.0, 0.0]), kk * m.sqrt()), || format!("{}: {:?} {:?}", w(), l, sa));
    }
}
fn power<T: Fl>(q: &Q, p: &Q, r: &mut Rec) {
    let (x, y) = (qn::<T>(*q), qn::<T>(*p));
    let (a, b) = (aq(&x), aq(&y));
    let (m, n) = (nrm(&a), nrm(&a[1..]));
    if n > 0.0 && n / m <= 4.0 * T::EPS { return }
    // a negative real base has a free imaginary direction: take the one the logarithm reports
    let l = if n == 0.0 && a[0] < 0.0 { aq(&x.ln()) } else { ln_ref(a) };
    let z = qmul(b, l);
    // the argument of the exponential is rounded to its own size
    if z[0].abs() > 20.0 || T::EPS * nrm(&z) > 1e-5 { return }
    let e = qexp(z);
    let g = aq(&x.pow(y));
    let t = 256.0 * T::EPS * (2.0 + nrm(&b) * (1.0 + nrm(&l))) * z[0].exp();
    r.check("power is the exponential of exponent times logarithm", le(distv(&g, &e), t), || format!("{} {:?} to the {:?}: {:?}, expected {:?}", T::NAME, a, b, g, e));
    if n == 0.0 && a[0] > 0.0 && nrm(&b[1..]) == 0.0 {
        r.check("real functions on real quaternions", le(distv(&g, &[a[0].powf(b[0]), 0.0, 0.0, 0.0]), t), || format!("{} {:?} to the {:?}: {:?}", T::NAME, a, b, g));
    }
    // small integer exponents are repeated products
    if nrm(&b[1..]) == 0.0 && b[0].fract() == 0.0 && b[0].abs() <= 5000.0 {
        let mut e = [1.0, 0.0, 0.0, 0.0];
        for _ in 0..b[0].abs() as usize { e = qmul(e, a) }
        if b[0] < 0.0 { e = qsc(qconj(e), 1.0 / qdot(e, e)) }
        // the products lose a rounding unit each
        let t = t + 4.0 * b[0].abs() * f64::EPSILON * nrm(&e);
        r.check("integer powers are repeated products", le(distv(&g, &e), t), || format!("{} {:?} to the {:?}: {:?}, expected {:?}", T::NAME, a, b, g, e));
    }
}

fn main() {
    run(
        "C14",
        "exploration",
        "every quaternion w + n v with w and n from ladders (singular values, neighbourhoods, several periods) and v from a lattice of directions, scaled by a ladder of sizes for the logarithm and the root, and every base/exponent pair of smaller families, is executed on the real code and compared with closed forms and power series; non-trivial: distinct inputs",
        &["logarithm, root and power of zero are not judged", "sine and cosine of quaternions with imaginary part shorter than two square roots of the rounding unit are judged to that length"],
        |c| {
            let ws = [0.0, 0.5, -0.5, 1.0, -1.0, 2.0, -2.0, 0.1, 1e-3, 1e-8, -1e-6, 3.0, -4.0, PI, -PI / 2.0, PI / 2.0, 6.0, -7.0, 20.0, -20.0, 50.0, -60.0, 80.0, 300.0, -300.0, 600.0, 1e-5, -1e-12, 1e-20];
            let ns = [0.0, 1e-20, 1e-16, 1e-15, 1e-12, 1e-9, 1e-8, 3e-8, 1e-7, 1e-6, 1e-4, 1e-3, 0.01, 0.1, 0.5, 1.0, PI / 2.0, 2.0, 3.0, 3.13, PI, 3.15, 4.0, 2.0 * PI, 7.0, 9.0, 20.0, 31.0, 60.0, 100.0, 500.0, 1234.5, 1e5, 1e7];
            let mut ax = axes();
            { let m = c.qt(7, 13); for i in 0..m * m * m { let a = [(i / (m * m)) as f64 - (m / 2) as f64, (i / m % m) as f64 - (m / 2) as f64, (i % m) as f64 - (m / 2) as f64]; if nrm(&a) > 0.0 { ax.push(a) } } }
            c.space("real part, imaginary length and direction", (ws.len() * ns.len() * ax.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let (w, n) = (*d.pick(&ws), *d.pick(&ns));
                let v = sc3(unit3(*d.pick(&ax)), n);
                let q = [w, v[0], v[1], v[2]];
                r.key(hash_f(1, &q));
                r.sample(|| format!("{:?}", q));
                direct::<f64>(&q, r);
                direct::<f32>(&q, r);
            });
            let al = [0.0, 1.0, -1.0, 0.5, -2.0, 3.0, 1e-4];
            c.space("every quaternion over a small alphabet", (al.len() as u64).pow(4), |i, r| {
                let mut d = Dec(i);
                let q: Q = std::array::from_fn(|_| *d.pick(&al));
                r.key(hash_f(2, &q));
                direct::<f64>(&q, r);
                direct::<f32>(&q, r);
                if nrm(&q) > 0.0 { inverse_fns::<f64>(&q, r); inverse_fns::<f32>(&q, r) }
            });
            let ang: Vec<f64> = angles(true).into_iter().filter(|x| x.abs() <= PI + 0.01).chain([PI - 1e-9, PI - 1e-8, PI - 1e-12, 1e-9, 1e-12]).collect();
            let sz = [1.0, 2.0, 0.5, 1e-3, 1e3, 1e-6, 1e6, 10.0, 0.1, 100.0, 1e-9, 1e9, 1e-15, 1e15, 1e-30, 1e30, 1e-100, 1e100];
            c.space("argument, direction and size", (ang.len() * ax.len() * sz.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let s = *d.pick(&sz);
                let t = *d.pick(&ang);
                let u = unit3(*d.pick(&ax));
                let q = qsc([t.cos(), u[0] * t.sin(), u[1] * t.sin(), u[2] * t.sin()], s);
                r.key(hash_f(3, &q));
                inverse_fns::<f64>(&q, r);
                inverse_fns::<f32>(&q, r);
            });
            c.space("real quaternions", 2 * 141, |i, r| {
                let v = 10f64.powf((i / 2) as f64 / 5.0 - 14.0) * if i % 2 == 0 { 1.0 } else { -1.0 };
                r.key(hash_f(4, &[v]));
                inverse_fns::<f64>(&[v, 0.0, 0.0, 0.0], r);
                inverse_fns::<f32>(&[v, 0.0, 0.0, 0.0], r);
                if v.abs() < 20.0 { direct::<f64>(&[v, 0.0, 0.0, 0.0], r); direct::<f32>(&[v, 0.0, 0.0, 0.0], r) }
            });
            // marked (normalised) bases take another path through the logarithm
            let us = unit_quats(0);
            // every structure of the components
            let sh = shapes::<4>();
            c.space("quaternions of every structure", (sh.len() * 8) as u64, |i, r| {
                let mut d = Dec(i);
                let q = qsc(*d.pick(&sh), *d.pick(&[1.0, 0.125, 0.01, 1e-3, 0.3, 2.0, 1e4, 1e-7]));
                r.key(hash_f(7, &q));
                direct::<f64>(&q, r);
                direct::<f32>(&q, r);
                if nrm(&q) > 0.0 { inverse_fns::<f64>(&q, r); inverse_fns::<f32>(&q, r) }
            });
            let few: Vec<Q> = sh.iter().copied().chain([[1.0, 1.0, 1.0, 10.0], [0.5, -0.5, 0.5, 0.5], [-2.0, 0.3, 0.0, 1.0], [3.0, 0.0, 0.0, 0.0]]).collect();
            c.space("powers of every structure", (sh.len() * few.len() * 4) as u64, |i, r| {
                let mut d = Dec(i);
                let (s, a, b) = (d.take(4), *d.pick(&sh), *d.pick(&few));
                r.key(hash_u(8, &[i]));
                let (q, p) = match s { 0 => (b, qsc(a, 0.125)), 1 => (b, qsc(a, 1e-3)), 2 => (a, qsc(b, 0.125)), _ => (qsc(a, 1e-3), qsc(b, 0.05)) };
                if nrm(&q) == 0.0 { return }
                power::<f64>(&q, &p, r);
                power::<f32>(&q, &p, r);
            });
            c.list("normalised bases", &us, |q, r| {
                r.key(hash_f(5, q));
                let x = qn::<f64>(*q).normalize().unwrap();
                let f = qn::<f64>(*q);
                for (g, e) in [(x.ln(), f.ln()), (x.sqrt(), f.sqrt()), (x.exp(), f.exp()), (x.sin(), f.sin()), (x.cos(), f.cos())] {
                    r.check("a normalised value gives the same results", le(distv(&aq(&g), &aq(&e)), 1e-13), || format!("{:?}: {:?} against {:?}", x, g, e));
                }
                let b = aq(&x.ln().exp());
                r.check("logarithm is a right inverse of the exponential", le(distv(&b, q), 1e-13), || format!("{:?}: {:?}", x, b));
            });
            let mut base: Vec<Q> = us.iter().step_by(c.qt(2, 1)).copied().collect();
            for s in [0.25, 3.0, 1e-3, 1e3, 1e-6, 1e7, 1e-12, 1e12] { for k in 0..base.len().min(60) { base.push(qsc(base[k], s)) } }
            base.extend([[2.0, 0.0, 0.0, 0.0], [-2.0, 0.0, 0.0, 0.0], [-1.0, 0.0, 0.0, 0.0], [0.5, 0.0, 0.0, 0.0], [1.0, 1.0, 1.0, 10.0], [1.0, -2.0, 0.5, 2.0]]);
            let mut ex: Vec<Q> = [0.0, 1.0, -1.0, 2.0, -2.0, 3.0, 4.0, 0.5, -0.5, 1.5, 0.1, 0.01, -1e-3, 1e-6, 1e-10, 10.0, -7.0, 0.75].iter().map(|x| [*x, 0.0, 0.0, 0.0]).collect();
            for i in 0..81 { ex.push([0, 1, 2, 3].map(|k| ((i / 3u32.pow(k)) % 3) as f64 - 1.0)) }
            ex.extend([[0.5, 0.25, -1.5, 2.0], [0.0, 0.0, 0.0, 0.3], [2.0, -1.0, 0.0, 0.0]]);
            // large exponents of bases next to one, and of any unit base
            let mut bs: Vec<Q> = us.iter().copied().collect();
            for a in axes() { for t in [1e-6, 1e-4, 1e-3, 5e-3, 0.02] { for m in [1.0, 1.0001, 0.9995, 1.003] { bs.push(qsc(qaxis(a, t), m)) } } }
            let big = [5.0, 6.0, 7.0, 8.0, 9.0, 12.0, 15.0, 16.0, 17.0, 20.0, 31.0, 32.0, 33.0, 50.0, 63.0, 64.0, 65.0, 99.0, 100.0, 101.0, 127.0, 128.0, 129.0, 200.0, 255.0, 256.0, 257.0, 300.0, 365.5, 500.0, 511.0, 512.0, 513.0, 1000.0, 1023.0, 1024.0, 1025.0, 2047.5, 4095.0, 4096.0, 4097.0, 1e4, 32767.0, 32768.0, 65535.0, 65536.0, 65537.0, 1e5, 1e6];
            c.space("large exponents", (bs.len() * big.len() * 4) as u64, |i, r| {
                let mut d = Dec(i);
                let (k, e, q) = (d.take(4), *d.pick(&big), d.pick(&bs));
                r.key(hash_u(9, &[i]));
                let p = match k { 0 => [e, 0.0, 0.0, 0.0], 1 => [-e, 0.0, 0.0, 0.0], 2 => [0.0, e, 0.0, 0.0], _ => [1.0, -0.5 * e, 0.25 * e, e] };
                power::<f64>(q, &p, r);
                power::<f32>(q, &p, r);
            });
            c.space("bases and exponents", (base.len() * ex.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let (q, p) = (d.pick(&base), d.pick(&ex));
                r.key(hash_u(6, &[i]));
                power::<f64>(q, p, r);
                power::<f32>(q, p, r);
            });
        },
    );
}
