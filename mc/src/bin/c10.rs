//! C10: quaternion algebra over any scalar type.
use mc::adapt::*;
use mc::scal::Fp;
use mc::*;
use num::rational::Ratio;
use num::{One, Zero};

type R64 = Ratio<i64>;
type G<T> = [T; 4];

/// e_i e_j = sign * e_k
const T4: [[(usize, i64); 4]; 4] = [
    [(0, 1), (1, 1), (2, 1), (3, 1)],
    [(1, 1), (0, -1), (3, 1), (2, -1)],
    [(2, 1), (3, -1), (0, -1), (1, 1)],
    [(3, 1), (2, 1), (1, -1), (0, -1)],
];
fn rmul<T: Sc>(a: &G<T>, b: &G<T>) -> (G<T>, T) {
    let mut r = [T::zero(); 4];
    let mut mag = T::zero();
    for i in 0..4 {
        for j in 0..4 {
            let (k, s) = T4[i][j];
            let p = a[i] * b[j];
            r[k] = if s > 0 { r[k] + p } else { r[k] - p };
            mag = mag + p.abs();
        }
    }
    (r, mag)
}
fn q<T: Sc>(a: &G<T>) -> Quaternion<T> { Quaternion::new_from(a[0], a[1], a[2], a[3]) }
fn arr<T: Sc>(q: &Quaternion<T>) -> G<T> { let v = q.imag(); [q.real(), v[0], v[1], v[2]] }
fn cl<T: Sc>(a: &G<T>, b: &G<T>, mag: T) -> bool { (0..4).all(|i| T::close(a[i], b[i], mag, 8)) }
fn m1<T: Sc>(a: &G<T>) -> T { a.iter().fold(T::zero(), |s, x| s + x.abs()) }

/// one quaternion and one scalar
fn single<T: Sc>(a: &G<T>, s: T, r: &mut Rec) {
    let w = || format!("{} {:?} scalar {:?}", T::TNAME, a, s);
    let x = q(a);
    let v = V3::new_from(a[1], a[2], a[3]);
    r.check("constructors and accessors", arr(&x) == *a && arr(&Quaternion::new(a[0], v)) == *a && arr(&Quaternion::new_from_vec(&V4::new_from(a[0], a[1], a[2], a[3]))) == *a && arr(&Quaternion::from(*a)) == *a && *x.imag() == [a[1], a[2], a[3]], w);
    r.check("real constructor", arr(&Quaternion::new_real(a[0])) == [a[0], T::zero(), T::zero(), T::zero()], w);
    r.check("imaginary constructor", arr(&Quaternion::new_imag(&v)) == [T::zero(), a[1], a[2], a[3]], w);
    r.check("negation", arr(&-x) == a.map(|y| T::zero() - y), w);
    r.check("conjugate", arr(&x.conj()) == [a[0], T::zero() - a[1], T::zero() - a[2], T::zero() - a[3]], w);
    r.check("scaling", arr(&(x * s)) == a.map(|y| y * s), || format!("{}: {:?}", w(), x * s));
    if !s.is_zero() { r.check("division by a scalar", (0..4).all(|i| { let (g, e) = (arr(&(x / s))[i], a[i] / s); g == e || T::close(g, e, e.abs(), 2) }), || format!("{}: {:?}", w(), x / s)); }
    let (n, mag) = rmul(a, &[a[0], T::zero() - a[1], T::zero() - a[2], T::zero() - a[3]]);
    r.check("squared norm", T::close(x.abs2(), n[0], mag, 8) && T::close(x.dot(x), n[0], mag, 8), || format!("{}: {:?} {:?}", w(), x.abs2(), x.dot(x)));
    for p in [x * x.conj(), x.conj() * x] { r.check("product with the conjugate is the squared norm", cl(&arr(&p), &[n[0], T::zero(), T::zero(), T::zero()], mag), || format!("{}: {:?}", w(), p)); }
    let (o, z) = (Quaternion::<T>::one(), Quaternion::<T>::zero());
    let (og, zg) = ([T::one(), T::zero(), T::zero(), T::zero()], [T::zero(); 4]);
    r.check("unit and zero values", arr(&o) == og && arr(&z) == zg && arr(&<Quaternion<T> as One>::one()) == og && arr(&<Quaternion<T> as Zero>::zero()) == zg, w);
    r.check("unit is neutral", arr(&(x * o)) == *a && arr(&(o * x)) == *a, || format!("{}: {:?} {:?}", w(), x * o, o * x));
    r.check("zero is neutral for sums", arr(&(x + z)) == *a && arr(&(z + x)) == *a && arr(&(x - z)) == *a && arr(&(x - x)) == zg, w);
    r.check("zero test", Zero::is_zero(&x) == (*a == zg) && Zero::is_zero(&z), w);
    r.check("unit test", One::is_one(&x) == (*a == og) && One::is_one(&o), w);
}
fn pair<T: Sc>(a: &G<T>, b: &G<T>, r: &mut Rec) {
    let (x, y) = (q(a), q(b));
    let w = || format!("{} {:?} and {:?}", T::TNAME, a, b);
    let s: G<T> = std::array::from_fn(|i| a[i] + b[i]);
    let d: G<T> = std::array::from_fn(|i| a[i] - b[i]);
    r.check("sum and difference", arr(&(x + y)) == s && arr(&(x - y)) == d, w);
    let (p, mag) = rmul(a, b);
    let g = arr(&(x * y));
    r.check("product is the Hamilton product", cl(&g, &p, mag), || format!("{}: {:?}, expected {:?}", w(), g, p));
    let dt = (0..4).fold(T::zero(), |s, i| s + a[i] * b[i]);
    r.check("dot product", T::close(x.dot(y), dt, mag, 4), || format!("{}: {:?}", w(), x.dot(y)));
    r.check("conjugate reverses products", cl(&arr(&(x * y).conj()), &arr(&(y.conj() * x.conj())), mag), w);
    let sq = m1(a) * m1(b);
    r.check("squared norms multiply", T::close((x * y).abs2(), x.abs2() * y.abs2(), sq * sq, 24), w);
    r.check("equality is equality of components", (x == y) == (*a == *b) && x == q(a), w);
    // not mutated (Copy), but the operands are still what they were
    r.check("operands unchanged", arr(&x) == *a && arr(&y) == *b, w);
}
fn triple<T: Sc>(a: &G<T>, b: &G<T>, c: &G<T>, r: &mut Rec) {
    let (x, y, z) = (q(a), q(b), q(c));
    let w = || format!("{} {:?} {:?} {:?}", T::TNAME, a, b, c);
    let m3 = m1(a) * m1(b) * m1(c);
    r.check("product is associative", cl(&arr(&((x * y) * z)), &arr(&(x * (y * z))), m3), w);
    let m2 = m1(a) * (m1(b) + m1(c));
    r.check("product distributes", cl(&arr(&(x * (y + z))), &arr(&(x * y + x * z)), m2) && cl(&arr(&((y - z) * x)), &arr(&(y * x - z * x)), m2), w);
    r.check("sum is associative", cl(&arr(&((x + y) + z)), &arr(&(x + (y + z))), m1(a) + m1(b) + m1(c)), w);
}
/// the products of components, added up for each component of the product alone
fn mags<T: Sc>(a: &G<T>, b: &G<T>) -> G<T> {
    let mut m = [T::zero(); 4];
    for i in 0..4 { for j in 0..4 { let k = T4[i][j].0; m[k] = m[k] + (a[i] * b[j]).abs() } }
    m
}
/// operands whose components differ by many orders of magnitude: every component to its own rounding
fn unlike<T: Fl + Sc>(a: &[f64; 4], b: &[f64; 4], s: f64, r: &mut Rec) {
    let (a, b) = (a.map(T::of), b.map(T::of));
    let (x, y) = (q(&a), q(&b));
    let w = || format!("{} {:?} and {:?}", T::TNAME, a, b);
    let (p, _) = rmul(&a, &b);
    let m = mags(&a, &b);
    for (nm, g) in [("product", arr(&(x * y))), ("reversed product of the conjugates", arr(&(y.conj() * x.conj()).conj()))] {
        r.check("every component of the product to its own rounding", (0..4).all(|k| T::close(g[k], p[k], m[k], 8)), || format!("{} {}: {:?}, expected {:?}", w(), nm, g, p));
    }
    r.check("sum and difference at unlike magnitudes", arr(&(x + y)) == std::array::from_fn(|i| a[i] + b[i]) && arr(&(x - y)) == std::array::from_fn(|i| a[i] - b[i]), w);
    r.check("negation and conjugate at unlike magnitudes", arr(&-x) == a.map(|v| -v) && arr(&x.conj()) == [a[0], -a[1], -a[2], -a[3]], w);
    let dt = (0..4).fold(T::zero(), |s, i| s + a[i] * b[i]);
    let dm = (0..4).fold(T::zero(), |s, i| s + (a[i] * b[i]).abs());
    r.check("dot product at unlike magnitudes", T::close(x.dot(y), dt, dm, 4), || format!("{}: {:?}", w(), x.dot(y)));
    r.check("unit is neutral at unlike magnitudes", arr(&(x * Quaternion::one())) == a && arr(&(Quaternion::one() * x)) == a, w);
    let s = T::of(1.0 / s);
    r.check("scaling at unlike magnitudes", arr(&(x * s)) == a.map(|v| v * s), w);
    r.check("division by a scalar at unlike magnitudes", (0..4).all(|i| { let (g, e) = (arr(&(x / y.real()))[i], a[i] / y.real()); y.real().is_zero() || g == e || T::close(g, e, e.abs(), 2) }), || format!("{}: {:?}", w(), x / y.real()));
    r.check("equality at unlike magnitudes", (x == y) == (a == b), w);
    let h = [T::zero(), b[1], b[2], b[3]];
    let (e, _) = rmul(&h, &a);
    let m = mags(&h, &a);
    let g = arr(&x.derivative(&V3::new_from(b[1], b[2], b[3])));
    let half = T::of(0.5);
    r.check("every component of the derivative to its own rounding", (0..4).all(|k| T::close(g[k], e[k] * half, m[k], 8)), || format!("{}: {:?}", w(), g));
}
/// floats only: division by quaternions and the derivative
fn fpair<T: Fl + Sc>(a: &[f64; 4], b: &[f64; 4], r: &mut Rec) {
    let (x, y) = (qn::<T>(*a), qn::<T>(*b));
    let (a, b) = (aq(&x), aq(&y));
    let w = || format!("{} {:?} and {:?}", T::NAME, a, b);
    let n2 = refm::qdot(b, b);
    let sc = refm::nrm(&a);
    if n2 > 8.0 * T::EPS && n2 < 1e24 && sc < 1e12 && (sc == 0.0 || sc > 1e-12) {
        let d = x / y;
        let e = refm::qsc(refm::qmul(a, refm::qconj(b)), 1.0 / n2);
        r.check("division by a quaternion", refm::distv(&aq(&d), &e) <= 64.0 * T::EPS * sc / n2.sqrt(), || format!("{}: {:?}, expected {:?}", w(), d, e));
        r.check("dividing and multiplying back", refm::distv(&aq(&(d * y)), &a) <= 64.0 * T::EPS * sc, || format!("{}: {:?}", w(), d * y));
    }
    let rate = [b[1], b[2], b[3]];
    let g = aq(&x.derivative(&v3::<T>(rate)));
    let e = refm::qsc(refm::qmul([0.0, rate[0], rate[1], rate[2]], a), 0.5);
    r.check("derivative is half the rate times the quaternion", refm::distv(&g, &e) <= 32.0 * T::EPS * sc * refm::nrm(&rate), || format!("{}: {:?}, expected {:?}", w(), g, e));
}

fn conv<T: Sc>(a: &[i64; 4]) -> G<T> { a.map(T::from_i) }
fn all_types(a: &[i64; 4], b: &[i64; 4], r: &mut Rec) {
    fn go<T: Sc>(a: &[i64; 4], b: &[i64; 4], r: &mut Rec) { pair::<T>(&conv(a), &conv(b), r); single::<T>(&conv(a), conv(b)[1], r) }
    go::<i32>(a, b, r);
    go::<i64>(a, b, r);
    go::<f32>(a, b, r);
    go::<f64>(a, b, r);
    go::<Fp<101>>(a, b, r);
    go::<R64>(a, b, r);
}
fn flt(a: &[f64; 4], b: &[f64; 4], r: &mut Rec) {
    pair::<f64>(a, b, r);
    single::<f64>(a, b[0], r);
    fpair::<f64>(a, b, r);
    let (x, y) = (a.map(|v| v as f32), b.map(|v| v as f32));
    pair::<f32>(&x, &y, r);
    single::<f32>(&x, y[0], r);
    fpair::<f32>(a, b, r);
}
fn grid(n: usize, i: u64, lo: i64) -> [i64; 4] { let mut d = Dec(i); std::array::from_fn(|_| d.take(n) as i64 + lo) }

fn main() {
    run(
        "C10",
        "exploration",
        "every pair (triple) of quaternions with components in the stated integer ranges, over i32, i64, f32, f64, a prime field and rationals; the principal lattice of degree 6 in the eight components of a pair (which determines any polynomial of that degree); every pair over a float alphabet with bounded changes; non-trivial: distinct operand tuples",
        &["integer operands small enough not to overflow", "float operands whose products neither overflow nor underflow"],
        |c| {
            let n = c.qt(5u64, 7);
            let m = n.pow(4);
            let lo = -(n as i64 / 2);
            c.space(&format!("all pairs with components in {}..={}", lo, -lo), m * m, |i, r| {
                let (a, b) = (grid(n as usize, i / m, lo), grid(n as usize, i % m, lo));
                r.key(hash_u(1, &[i]));
                r.sample(|| format!("{:?} {:?}", a, b));
                all_types(&a, &b, r);
                fpair::<f64>(&a.map(|x| x as f64), &b.map(|x| x as f64), r);
                fpair::<f32>(&a.map(|x| x as f64), &b.map(|x| x as f64), r);
            });
            c.space("all triples with components in -1..=1", 81 * 81 * 81, |i, r| {
                let (a, b, e) = (grid(3, i / 6561, -1), grid(3, i / 81 % 81, -1), grid(3, i % 81, -1));
                r.key(hash_u(2, &[i]));
                triple::<i64>(&a, &b, &e, r);
                triple::<f64>(&conv(&a), &conv(&b), &conv(&e), r);
            });
            {
                // three quaternions over {0,1,2} shifted: unlike components
                c.space("all triples over the field of three elements", 81 * 81 * 81, |i, r| {
                    let (a, b, e) = (grid(3, i / 6561, 0), grid(3, i / 81 % 81, 0), grid(3, i % 81, 0));
                    r.key(hash_u(3, &[i]));
                    triple::<Fp<3>>(&conv(&a), &conv(&b), &conv(&e), r);
                    triple::<i32>(&conv(&a), &conv(&b), &conv(&e), r);
                });
            }
            let dg = c.qt(9, 11);
            c.space(&format!("principal lattice of degree {} in eight components", dg), lattice_size(8, dg), |i, r| {
                let mut p = [0u8; 8];
                lattice_point(8, dg, i, &mut p);
                r.key(hash_u(4, &[i]));
                let a: [i64; 4] = std::array::from_fn(|k| p[k] as i64);
                let b: [i64; 4] = std::array::from_fn(|k| p[k + 4] as i64);
                pair::<Fp<101>>(&conv(&a), &conv(&b), r);
                all_types(&a.map(|x| x * 7 - 3), &b.map(|x| 5 - 3 * x), r);
            });
            let dg = c.qt(7, 8);
            c.space(&format!("principal lattice of degree {} in twelve components", dg), lattice_size(12, dg), |i, r| {
                let mut p = [0u8; 12];
                lattice_point(12, dg, i, &mut p);
                r.key(hash_u(5, &[i]));
                let f = |o: usize| -> [i64; 4] { std::array::from_fn(|k| p[k + o] as i64 * 3 - 4) };
                triple::<i64>(&f(0), &f(4), &f(8), r);
                triple::<Fp<101>>(&conv(&f(0)), &conv(&f(4)), &conv(&f(8)), r);
                triple::<f32>(&conv(&f(0)), &conv(&f(4)), &conv(&f(8)), r);
            });
            // floats: every quaternion over an alphabet of unlike magnitudes, against fixed partners
            let al = [0.0, -0.0, 1.0, -1.0, 0.5, -3.0, 0.1, 1e-3, -1e-6, 1e3, -1e6, 7.25, -0.7071067811865476];
            let part: [[f64; 4]; 12] = [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, -1.0, 0.0], [0.0, 0.0, 0.0, 2.0], [0.1, -0.2, 0.3, -0.4], [3.0, 5.0, -7.0, 11.0], [1e-3, 2e-3, -1e-3, 5e-3], [1e4, -2e4, 3e4, 1e3], [0.5, 0.5, 0.5, 0.5], [1.0, 1e-4, 1e-4, 0.0], [0.0, 0.6, 0.0, 0.8], [-1.0, 0.0, 0.0, 0.0]];
            let na = al.len() as u64;
            c.space("every quaternion over a float alphabet with fixed partners", na.pow(4) * 12, |i, r| {
                let mut d = Dec(i);
                let b = *d.pick(&part);
                let a: [f64; 4] = std::array::from_fn(|_| *d.pick(&al));
                r.key(hash_u(6, &[i]));
                r.sample(|| format!("{:?} {:?}", a, b));
                flt(&a, &b, r);
            });
            // zero and unit tests, equality: up to two components away from zero or one by very little or very much
            fn tests<T: Fl + Sc>(i: u64, r: &mut Rec) {
                let vals = [1.0, -1.0, 1e-30, -1e-30, T::MINP, -T::MINP / 8.0, T::EPS, 1e-20, 1e-14, -1e-10, 1e-7, -1e-5, 0.01, 7.0, -1e5, 1e8, 1e12, -1e30, 1.0 + T::EPS, 1.0 - T::EPS, 0.0, -0.0, f64::INFINITY, f64::NAN];
                let mut d = Dec(i);
                let (p, q, x, y) = (d.take(4), d.take(4), *d.pick(&vals), *d.pick(&vals));
                for b in [0.0, 1.0] {
                    let mut a = [b, 0.0, 0.0, 0.0];
                    a[p] = x;
                    a[q] = y;
                    let g = qn::<T>(a);
                    let a = aq(&g);
                    let z = Quaternion::<T>::zero();
                    let o = Quaternion::<T>::one();
                    let w = || format!("{} {:?}", T::NAME, a);
                    r.check("zero test", num::Zero::is_zero(&g) == (a == [0.0; 4]) && (g == z) == (a == [0.0; 4]), w);
                    r.check("unit test", num::One::is_one(&g) == (a == [1.0, 0.0, 0.0, 0.0]) && (g == o) == (a == [1.0, 0.0, 0.0, 0.0]), w);
                }
            }
            c.space("zero and unit tests with up to two other components", 16 * 24 * 24, |i, r| {
                r.key(hash_u(8, &[i]));
                tests::<f64>(i, r);
                tests::<f32>(i, r);
            });
            // components many orders of magnitude apart, with the partner's the other way round
            fn orders<T: Fl + Sc>(i: u64, s: f64, r: &mut Rec) {
                let mut d = Dec(i);
                let a: [f64; 4] = std::array::from_fn(|_| *d.pick(&[0.0, 1.0, s, -s, -3.0 * s]));
                let b: [f64; 4] = std::array::from_fn(|_| *d.pick(&[0.0, -1.0, 1.0 / s, -1.0 / s, 0.7 / s]));
                unlike::<T>(&a, &b, s, r);
                unlike::<T>(&b, &a, 1.0 / s, r);
            }
            let so = [1e-170, 1e-30, 1e-9, 1e-4, 1e5, 1e10, 1e60, 1e170];
            let sf = [1e-25, 1e-10, 1e-4, 1e3, 1e5, 1e10, 1e15, 1e25];
            c.space("components many orders of magnitude apart", 390_625 * so.len() as u64, |i, r| {
                r.key(hash_u(9, &[i]));
                let k = (i / 390_625) as usize;
                orders::<f64>(i % 390_625, so[k], r);
                orders::<f32>(i % 390_625, sf[k], r);
            });
            // every structure of the components
            let sh = fam::shapes::<4>();
            let st = 1;
            c.every("pairs of operands of every structure", (sh.len() * sh.len()) as u64, st, |i, r| {
                let (p, q) = (i as usize / sh.len(), i as usize % sh.len());
                r.key(hash_u(11, &[i]));
                flt(&sh[p], &sh[q], r);
            });
            // operands at every order of magnitude
            let ladder = [1e-110, 1e-60, 1e-25, 1e-18, 1e-17, 1e-14, 1e-13, 1e-11, 1e-10, 1e-8, 1e-7, 3e-6, 1e-5, 1e-4, 1e-2, 0.3, 1.0, 4.0, 50.0, 3e2, 2e3, 1e5, 1e7, 1e8, 1e10, 1e13, 1e14, 1e16, 1e25, 1e60, 1e110];
            let nl = ladder.len();
            c.space("operands at every magnitude", (144 * nl * nl) as u64, |i, r| {
                let mut d = Dec(i);
                let (s, t) = (*d.pick(&ladder), *d.pick(&ladder));
                let (a, b) = (d.pick(&part).map(|x| x * s), d.pick(&part).map(|x| x * t));
                r.key(hash_u(10, &[i]));
                let sg = |x: f64| (1e-13..1e13).contains(&x);
                if s * t < 1e120 && s * t > 1e-120 && s < 1e70 && t < 1e70 && s > 1e-70 && t > 1e-70 {
                    pair::<f64>(&a, &b, r);
                    single::<f64>(&a, b[0], r);
                    unlike::<f64>(&a, &b, t, r);
                    fpair::<f64>(&a, &b, r);
                }
                // squares of products stay in range
                if sg(s) && sg(t) && s * t < 1e14 && s * t > 1e-13 {
                    let (x, y) = (a.map(|v| v as f32), b.map(|v| v as f32));
                    pair::<f32>(&x, &y, r);
                    single::<f32>(&x, y[0], r);
                    unlike::<f32>(&a, &b, t, r);
                    fpair::<f32>(&a, &b, r);
                }
            });
            let us = fam::unit_quats(c.qt(1, 2));
            let nu = us.len() as u64;
            c.space("all pairs of unit quaternions, scaled", nu * nu * 3, |i, r| {
                let mut d = Dec(i);
                let s = [1.0, 4.0, -0.3][d.take(3)];
                let (a, b) = (us[d.take(nu as usize)].map(|x| x * s), us[d.take(nu as usize)]);
                r.key(hash_u(7, &[i]));
                flt(&a, &b, r);
            });
        },
    );
}
