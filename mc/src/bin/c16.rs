//! C16: the algebra of dual quaternions over any scalar type.
use mc::adapt::*;
use mc::scal::Fp;
use mc::*;
use num::rational::Ratio;
use num::{One, Zero};

type G<T> = [T; 8];
const T4: [[(usize, i64); 4]; 4] = [
    [(0, 1), (1, 1), (2, 1), (3, 1)],
    [(1, 1), (0, -1), (3, 1), (2, -1)],
    [(2, 1), (3, -1), (0, -1), (1, 1)],
    [(3, 1), (2, 1), (1, -1), (0, -1)],
];
/// (a + eps b)(c + eps d) with eps^2 = 0, by the table of the eight basis elements
fn rmul<T: Sc>(a: &G<T>, b: &G<T>) -> (G<T>, T) {
    let mut r = [T::zero(); 8];
    let mut mag = T::zero();
    for i in 0..8 {
        for j in 0..8 {
            if i >= 4 && j >= 4 { continue }
            let (k, s) = T4[i % 4][j % 4];
            let k = k + if i >= 4 || j >= 4 { 4 } else { 0 };
            let p = a[i] * b[j];
            r[k] = if s > 0 { r[k] + p } else { r[k] - p };
            mag = mag + p.abs();
        }
    }
    (r, mag)
}
fn qq<T: Sc>(a: &[T]) -> Quaternion<T> { Quaternion::new_from(a[0], a[1], a[2], a[3]) }
fn dq<T: Sc>(a: &G<T>) -> DualQuaternion<T> { DualQuaternion::new(qq(&a[..4]), qq(&a[4..])) }
fn arr<T: Sc>(d: &DualQuaternion<T>) -> G<T> { let (p, q) = (d.real(), d.dual()); let (u, v) = (p.imag(), q.imag()); [p.real(), u[0], u[1], u[2], q.real(), v[0], v[1], v[2]] }
fn cl<T: Sc>(a: &G<T>, b: &G<T>, mag: T) -> bool { (0..8).all(|i| T::close(a[i], b[i], mag, 16)) }
fn m1<T: Sc>(a: &G<T>) -> T { a.iter().fold(T::zero(), |s, x| s + x.abs()) }
fn signs<T: Sc>(a: &G<T>, s: [i64; 8]) -> G<T> { std::array::from_fn(|i| if s[i] > 0 { a[i] } else { T::zero() - a[i] }) }
const QC: [i64; 8] = [1, -1, -1, -1, 1, -1, -1, -1];
const DC: [i64; 8] = [1, 1, 1, 1, -1, -1, -1, -1];
const CC: [i64; 8] = [1, -1, -1, -1, -1, 1, 1, 1];

fn single<T: Sc>(a: &G<T>, s: T, r: &mut Rec) {
    let w = || format!("{} {:?} scalar {:?}", T::TNAME, a, s);
    let x = dq(a);
    let v4 = |a: &[T]| V4::new_from(a[0], a[1], a[2], a[3]);
    r.check("constructors and accessors", arr(&x) == *a && arr(&DualQuaternion::new_from_vecs(&v4(&a[..4]), &v4(&a[4..]))) == *a, w);
    let z3 = [T::zero(); 3];
    let p = DualQuaternion::new_from_point(&V3::new_from(a[5], a[6], a[7]));
    r.check("point constructor", arr(&p) == [T::one(), z3[0], z3[1], z3[2], T::zero(), a[5], a[6], a[7]], || format!("{}: {:?}", w(), p));
    let p = DualQuaternion::new_from_rotation(&qq(&a[..4]));
    r.check("rotation constructor", arr(&p) == [a[0], a[1], a[2], a[3], T::zero(), z3[0], z3[1], z3[2]], || format!("{}: {:?}", w(), p));
    r.check("negation", arr(&-x) == signs(a, [-1; 8]), || format!("{}: {:?}", w(), -x));
    r.check("scaling", arr(&(x * s)) == a.map(|y| y * s), || format!("{}: {:?}", w(), x * s));
    r.check("quaternion conjugate", arr(&x.conj()) == signs(a, QC), || format!("{}: {:?}", w(), x.conj()));
    r.check("dual conjugate", arr(&x.conj_as_dual()) == signs(a, DC), || format!("{}: {:?}", w(), x.conj_as_dual()));
    r.check("combined conjugate", arr(&x.conj_combined()) == signs(a, CC), || format!("{}: {:?}", w(), x.conj_combined()));
    let (n, mag) = rmul(a, &signs(a, QC));
    r.check("norm is the product with the quaternion conjugate", cl(&arr(&x.norm()), &n, mag), || format!("{}: {:?}", w(), x.norm()));
    let (o, z) = (DualQuaternion::<T>::one(), DualQuaternion::<T>::zero());
    let mut og = [T::zero(); 8];
    og[0] = T::one();
    let zg = [T::zero(); 8];
    r.check("unit and zero values", arr(&o) == og && arr(&z) == zg && arr(&<DualQuaternion<T> as One>::one()) == og && arr(&<DualQuaternion<T> as Zero>::zero()) == zg, w);
    r.check("unit is neutral", arr(&(x * o)) == *a && arr(&(o * x)) == *a, || format!("{}: {:?} {:?}", w(), x * o, o * x));
    r.check("zero is neutral for sums", arr(&(x + z)) == *a && arr(&(z + x)) == *a && arr(&(x - z)) == *a && arr(&(x - x)) == zg, w);
    r.check("zero and unit tests", Zero::is_zero(&x) == (*a == zg) && Zero::is_zero(&z) && One::is_one(&x) == (*a == og) && One::is_one(&o), w);
}
fn pair<T: Sc>(a: &G<T>, b: &G<T>, r: &mut Rec) {
    let (x, y) = (dq(a), dq(b));
    let w = || format!("{} {:?} and {:?}", T::TNAME, a, b);
    r.check("sum and difference", arr(&(x + y)) == std::array::from_fn(|i| a[i] + b[i]) && arr(&(x - y)) == std::array::from_fn(|i| a[i] - b[i]), w);
    let (p, mag) = rmul(a, b);
    let g = arr(&(x * y));
    r.check("product follows the dual-number rules", cl(&g, &p, mag), || format!("{}: {:?}, expected {:?}", w(), g, p));
    r.check("quaternion conjugate reverses products", cl(&arr(&(x * y).conj()), &arr(&(y.conj() * x.conj())), mag), w);
    r.check("combined conjugate reverses products", cl(&arr(&(x * y).conj_combined()), &arr(&(y.conj_combined() * x.conj_combined())), mag), w);
    r.check("dual conjugate keeps products", cl(&arr(&(x * y).conj_as_dual()), &arr(&(x.conj_as_dual() * y.conj_as_dual())), mag), w);
    r.check("equality is equality of components", (x == y) == (a == b) && x == dq(a), w);
}
fn triple<T: Sc>(a: &G<T>, b: &G<T>, c: &G<T>, r: &mut Rec) {
    let (x, y, z) = (dq(a), dq(b), dq(c));
    let w = || format!("{} {:?} {:?} {:?}", T::TNAME, a, b, c);
    r.check("product is associative", cl(&arr(&((x * y) * z)), &arr(&(x * (y * z))), m1(a) * m1(b) * m1(c)), w);
    let m2 = m1(a) * (m1(b) + m1(c));
    r.check("product distributes", cl(&arr(&(x * (y + z))), &arr(&(x * y + x * z)), m2) && cl(&arr(&((y - z) * x)), &arr(&(y * x - z * x)), m2), w);
}
fn division<T: Fl + Sc>(a: &[f64; 8], b: &[f64; 8], r: &mut Rec) {
    let (x, y) = (dq(&a.map(T::of)), dq(&b.map(T::of)));
    let (a, b) = (adq(&x), adq(&y));
    let (n, m) = (refm::nrm(&b[..4]), refm::nrm(&b));
    let s = refm::nrm(&a);
    if n * n < 8.0 * T::EPS || m > 1e12 || s > 1e12 || s < 1e-12 { return }
    // relative error of the quotient grows with the ratio of the parts
    let k = 1.0 + m / n;
    let d = x / y;
    r.class("division");
    let t = 256.0 * T::EPS * s * k * k * k;
    r.check("dividing and multiplying back on the right", refm::distv(&adq(&(d * y)), &a) <= t, || format!("{} {:?} over {:?}: {:?}, times the divisor {:?}", T::NAME, a, b, d, d * y));
    let i = y.inverse();
    let one = [1.0, 0., 0., 0., 0., 0., 0., 0.];
    let t = 256.0 * T::EPS * k * k * k;
    r.check("inverse on either side gives the unit", refm::distv(&adq(&(i * y)), &one) <= t && refm::distv(&adq(&(y * i)), &one) <= t, || format!("{} {:?}: {:?}", T::NAME, b, i));
}
/// operands whose components differ by many orders of magnitude: every component to its own rounding
fn unlike<T: Fl + Sc>(a: &[f64; 8], b: &[f64; 8], s: f64, r: &mut Rec) {
    let (a, b) = (a.map(T::of), b.map(T::of));
    let (x, y) = (dq(&a), dq(&b));
    let w = || format!("{} {:?} and {:?}", T::TNAME, a, b);
    let (p, _) = rmul(&a, &b);
    let mut m = [T::zero(); 8];
    for i in 0..8 { for j in 0..8 { if i < 4 || j < 4 { let k = T4[i % 4][j % 4].0 + if i >= 4 || j >= 4 { 4 } else { 0 }; m[k] = m[k] + (a[i] * b[j]).abs() } } }
    let g = arr(&(x * y));
    r.check("every component of the product to its own rounding", (0..8).all(|k| T::close(g[k], p[k], m[k], 16)), || format!("{}: {:?}, expected {:?}", w(), g, p));
    r.check("sum and difference at unlike magnitudes", arr(&(x + y)) == std::array::from_fn(|i| a[i] + b[i]) && arr(&(x - y)) == std::array::from_fn(|i| a[i] - b[i]), w);
    r.check("negation and conjugates at unlike magnitudes", arr(&-x) == signs(&a, [-1; 8]) && arr(&x.conj()) == signs(&a, QC) && arr(&x.conj_as_dual()) == signs(&a, DC) && arr(&x.conj_combined()) == signs(&a, CC), w);
    let s = T::of(1.0 / s);
    r.check("scaling at unlike magnitudes", arr(&(x * s)) == a.map(|v| v * s), w);
    r.check("unit is neutral at unlike magnitudes", arr(&(x * DualQuaternion::one())) == a && arr(&(DualQuaternion::one() * x)) == a, w);
    r.check("equality at unlike magnitudes", (x == y) == (a == b), w);
}
fn conv<T: Sc>(a: &[i64; 8]) -> G<T> { a.map(T::from_i) }
fn all_types(a: &[i64; 8], b: &[i64; 8], r: &mut Rec) {
    fn go<T: Sc>(a: &[i64; 8], b: &[i64; 8], r: &mut Rec) { pair::<T>(&conv(a), &conv(b), r); single::<T>(&conv(a), conv(b)[1], r) }
    go::<i32>(a, b, r);
    go::<i64>(a, b, r);
    go::<f32>(a, b, r);
    go::<f64>(a, b, r);
    go::<Fp<101>>(a, b, r);
    go::<Ratio<i64>>(a, b, r);
    division::<f64>(&a.map(|x| x as f64), &b.map(|x| x as f64), r);
    division::<f32>(&a.map(|x| x as f64), &b.map(|x| x as f64), r);
}

fn main() {
    run(
        "C16",
        "exploration",
        "every ordered pair of dual quaternions in the stated finite spaces (components in {-1,0,1} against a spanning family, the principal lattice of degree 5 in sixteen components, which determines any polynomial of that degree, bounded changes of dense bases, all triples of signed basis elements and dense values) over i32, i64, f32, f64, a prime field and rationals, on the real operators against the dual-number multiplication table; non-trivial: distinct operands",
        &["integer operands small enough not to overflow", "division is judged for divisors whose squared real norm is above the library's zero threshold (8 eps)"],
        |c| {
            // partners: the sixteen signed basis elements and dense ones
            let mut part: Vec<[i64; 8]> = Vec::new();
            for k in 0..8 { for s in [1, -1] { let mut a = [0; 8]; a[k] = s; part.push(a) } }
            part.extend([[1, 2, -3, 4, 5, -6, 7, -8], [-2, 3, 5, -7, 11, 13, -17, 19], [1, 1, 1, 1, 1, 1, 1, 1], [0; 8], [3, 0, 0, 0, 0, 1, -1, 2], [0, 2, 0, -1, 3, 0, 0, 5]]);
            let np = part.len() as u64;
            let n = 5u64.pow(8);
            let b = 5usize;
            c.space(&format!("every dual quaternion with components in a range of {} against a spanning family", b), n * np, |i, r| {
                let mut d = Dec(i);
                let p = d.pick(&part);
                let a: [i64; 8] = std::array::from_fn(|_| d.take(b) as i64 - b as i64 / 2);
                r.key(hash_u(1, &[i]));
                r.sample(|| format!("{:?} {:?}", a, p));
                pair::<i64>(&conv(&a), &conv(p), r);
                pair::<f64>(&conv(&a), &conv(p), r);
                single::<i64>(&conv(&a), p[3], r);
                single::<f64>(&conv(&a), p[3] as f64, r);
                division::<f64>(&p.map(|x| x as f64), &a.map(|x| x as f64), r);
            });
            let dg = c.qt(5, 6);
            c.space(&format!("principal lattice of degree {} in sixteen components", dg), lattice_size(16, dg), |i, r| {
                let mut p = [0u8; 16];
                lattice_point(16, dg, i, &mut p);
                r.key(hash_u(2, &[i]));
                let a: [i64; 8] = std::array::from_fn(|k| p[k] as i64);
                let b: [i64; 8] = std::array::from_fn(|k| p[k + 8] as i64);
                pair::<Fp<101>>(&conv(&a), &conv(&b), r);
                all_types(&a.map(|x| x * 7 - 3), &b.map(|x| 5 - 3 * x), r);
            });
            let dg = c.qt(4, 5);
            c.space(&format!("principal lattice of degree {} in twenty-four components", dg), lattice_size(24, dg), |i, r| {
                let mut p = [0u8; 24];
                lattice_point(24, dg, i, &mut p);
                r.key(hash_u(3, &[i]));
                let f = |o: usize| -> [i64; 8] { std::array::from_fn(|k| p[k + o] as i64 * 3 - 4) };
                triple::<i64>(&f(0), &f(8), &f(16), r);
                triple::<Fp<101>>(&conv(&f(0)), &conv(&f(8)), &conv(&f(16)), r);
                triple::<f32>(&conv(&f(0)), &conv(&f(8)), &conv(&f(16)), r);
            });
            c.space("all triples of the spanning family", np * np * np, |i, r| {
                let mut d = Dec(i);
                let (a, b, e) = (*d.pick(&part), *d.pick(&part), *d.pick(&part));
                r.key(hash_u(4, &[i]));
                triple::<i64>(&a, &b, &e, r);
                triple::<f64>(&conv(&a), &conv(&b), &conv(&e), r);
            });
            // zero and unit tests, equality: up to two components away from zero or one by very little or very much
            fn tests<T: Fl + Sc>(i: u64, r: &mut Rec) {
                let vals = [1.0, -1.0, 1e-30, -1e-30, T::MINP, -T::MINP / 8.0, T::EPS, 1e-20, 1e-14, -1e-10, 1e-7, -1e-5, 0.01, 7.0, -1e5, 1e8, 1e12, -1e30, 1.0 + T::EPS, 1.0 - T::EPS, 0.0, -0.0, f64::INFINITY, f64::NAN];
                let mut d = Dec(i);
                let (p, q, x, y) = (d.take(8), d.take(8), *d.pick(&vals), *d.pick(&vals));
                let mut one = [0.0; 8];
                one[0] = 1.0;
                for b in [0.0, 1.0] {
                    let mut a = [0.0; 8];
                    a[0] = b;
                    a[p] = x;
                    a[q] = y;
                    let g = dq(&a.map(T::of));
                    let a = adq(&g);
                    let w = || format!("{} {:?}", T::NAME, a);
                    r.check("zero test", Zero::is_zero(&g) == (a == [0.0; 8]) && (g == DualQuaternion::<T>::zero()) == (a == [0.0; 8]), w);
                    r.check("unit test", One::is_one(&g) == (a == one) && (g == DualQuaternion::<T>::one()) == (a == one), w);
                }
            }
            c.space("zero and unit tests with up to two other components", 64 * 24 * 24, |i, r| {
                r.key(hash_u(6, &[i]));
                tests::<f64>(i, r);
                tests::<f32>(i, r);
            });
            // special operands: every pair of values with at most two non-zero components out of a signed alphabet
            let sp = [1i64, -1, 2, -3];
            let few: Vec<[i64; 8]> = {
                let mut v = vec![[0i64; 8]];
                for p in 0..8 { for &x in &sp { let mut a = [0; 8]; a[p] = x; v.push(a); } }
                for p in 0..8 { for q in p + 1..8 { for &x in &sp { for &y in &sp { let mut a = [0; 8]; a[p] = x; a[q] = y; v.push(a); } } } }
                v
            };
            let nf = few.len() as u64;
            c.space("every pair of values with at most two non-zero components, by special scalars", nf * nf, |i, r| {
                let (a, b) = (few[(i / nf) as usize], few[(i % nf) as usize]);
                r.key(hash_u(7, &[i]));
                pair::<i64>(&a, &b, r);
                if i % nf < 40 { for s in [0, 1, -1, 2, -2, 7] { single::<i64>(&a, s, r); single::<f32>(&conv(&a), s as f32, r); single::<f64>(&conv(&a), s as f64, r) } }
                division::<f64>(&a.map(|x| x as f64), &b.map(|x| x as f64), r);
            });
            // components many orders of magnitude apart, with the partner's the other way round: three values for every component
            // of one operand, the other with one of four dense patterns
            fn orders<T: Fl + Sc>(i: u64, s: f64, r: &mut Rec) {
                let mut d = Dec(i);
                let pat = d.take(6);
                let sg = d.take(2);
                let a: [f64; 8] = std::array::from_fn(|_| *d.pick(&[0.0, 1.0, -s]));
                let t = 1.0 / s;
                let b = match pat { 0 => [1.0, t, t, -t, -t, 1.0, t, 1.0], 1 => [t, 1.0, 0.0, -1.0, 1.0, t, t, 0.0], 2 => [0.0, t, 0.7 * t, 0.0, t, -t, 1.0, 3.0], 3 => [t, -t, t, 1.0, t, 0.0, 0.0, 0.0], 4 => [1.0, 0.0, 0.0, 0.0, 0.0, t, -t, 2.0 * t], _ => [-1.0, t, 0.0, 0.0, 0.0, 0.0, 0.0, t] };
                let b = if sg == 1 { b.map(|x| -x) } else { b };
                unlike::<T>(&a, &b, s, r);
                unlike::<T>(&b, &a, t, r);
            }
            let so = [1e-170, 1e-30, 1e-9, 1e-4, 1e5, 1e10, 1e60, 1e170];
            let sf = [1e-25, 1e-10, 1e-4, 1e3, 1e5, 1e10, 1e15, 1e25];
            let per = 12 * 6561;
            c.space("components many orders of magnitude apart", per * so.len() as u64, |i, r| {
                r.key(hash_u(8, &[i]));
                let k = (i / per) as usize;
                orders::<f64>(i % per, so[k], r);
                orders::<f32>(i % per, sf[k], r);
            });
            // operands at every order of magnitude, whole or the dual part alone
            let ladder = [1e-60, 1e-25, 1e-18, 1e-17, 1e-14, 1e-13, 1e-11, 1e-10, 1e-8, 1e-7, 3e-6, 1e-5, 1e-4, 1e-2, 0.3, 1.0, 4.0, 50.0, 3e2, 2e3, 1e5, 1e7, 1e8, 1e10, 1e13, 1e14, 1e16, 1e25, 1e60];
            let nl = ladder.len();
            let pats: [[f64; 8]; 4] = [[1.0, 2.0, -3.0, 4.0, 0.5, -0.25, 7.0, -8.0], [0.5, 0.5, -0.5, 0.5, 1.0, -1.0, 1.0, 1.0], [-0.6, 0.0, 0.8, 0.0, 10.0, 20.0, -5.0, 1.0], [0.0, -1.0, 0.0, 2.0, 0.0, 0.0, 3.0, 0.0]];
            c.space("operands at every magnitude", (64 * nl * nl) as u64, |i, r| {
                let mut d = Dec(i);
                let (s, t) = (*d.pick(&ladder), *d.pick(&ladder));
                let (hs, ht) = (d.take(2) == 1, d.take(2) == 1);
                let f = |a: [f64; 8], h: bool, s: f64| -> [f64; 8] { std::array::from_fn(|k| if h && k < 4 { a[k] } else { a[k] * s }) };
                let (a, b) = (f(*d.pick(&pats), hs, s), f(*d.pick(&pats), ht, t));
                r.key(hash_u(9, &[i]));
                pair::<f64>(&a, &b, r);
                single::<f64>(&a, b[0], r);
                unlike::<f64>(&a, &b, t, r);
                division::<f64>(&a, &b, r);
                let sg = |x: f64| (1e-13..1e13).contains(&x);
                if sg(s) && sg(t) && s * t < 1e14 && s * t > 1e-13 {
                    let (x, y) = (a.map(|v| v as f32), b.map(|v| v as f32));
                    pair::<f32>(&x, &y, r);
                    single::<f32>(&x, y[0], r);
                    unlike::<f32>(&a, &b, t, r);
                    division::<f32>(&a, &b, r);
                }
            });
            // every structure of the components, whole and part by part
            let sh8 = fam::shapes::<8>();
            let sh4 = fam::shapes::<4>();
            let mut sh: Vec<[f64; 8]> = sh8.clone();
            let st = c.qt(3, 1);
            for (i, x) in sh4.iter().enumerate() { for (j, y) in sh4.iter().enumerate() { if (i + 3 * j) % st == 0 { sh.push([x[0], x[1], x[2], x[3], y[0], y[1], y[2], y[3]]) } } }
            let ps = [[1.0, 2.0, -3.0, 4.0, 0.5, -0.25, 7.0, -8.0], [-0.6, 0.0, 0.8, 0.0, 10.0, 20.0, -5.0, 1.0]];
            c.list("operands of every structure", &sh, |a, r| {
                r.key(hash_f(10, a));
                single::<f64>(a, 2.5, r);
                single::<f32>(&a.map(|x| x as f32), -0.75, r);
                for b in ps.iter().chain([&a.map(|x| -x), &signs(a, QC), &signs(a, DC), &signs(a, CC), a]) {
                    pair::<f64>(a, b, r);
                    division::<f64>(b, a, r);
                    division::<f64>(a, b, r);
                    pair::<f32>(&a.map(|x| x as f32), &b.map(|x| x as f32), r);
                    division::<f32>(b, a, r);
                }
            });
            // floats: dense bases with up to two (three) changed components
            let bases: [[f64; 8]; 5] = [[1.0, 2.0, -3.0, 4.0, 0.5, -0.25, 7.0, -8.0], [0.5, 0.5, -0.5, 0.5, 1.0, -1.0, 1.0, 1.0], [0.1, -0.2, 0.3, -0.4, 0.5, -0.6, 0.7, -0.8], [1.0, 0.0, 0.0, 0.0, 0.0, 1.0, -2.0, 3.0], [-0.6, 0.0, 0.8, 0.0, 10.0, 20.0, -5.0, 1.0]];
            let al = [0.0, 1.0, -1.0, 1e-3, 1e3, 0.3, -1e-6, -7.5];
            let cnt = fam::dev_count(8, al.len() as u64, 3);
            c.space("dense float operands with bounded changes", cnt * 25, |i, r| {
                let mut d = Dec(i);
                let (x, y) = (*d.pick(&bases), *d.pick(&bases));
                let mut dv = Vec::new();
                fam::dev_at(8, al.len() as u64, d.0, &mut dv);
                let mut a = x;
                for (k, v) in &dv { a[*k] = al[*v] }
                r.key(hash_u(5, &[i]));
                for (p, q) in [(a, y), (y, a)] {
                    pair::<f64>(&p, &q, r);
                    single::<f64>(&p, q[2], r);
                    division::<f64>(&p, &q, r);
                    pair::<f32>(&p.map(|v| v as f32), &q.map(|v| v as f32), r);
                    single::<f32>(&p.map(|v| v as f32), q[2] as f32, r);
                    division::<f32>(&p, &q, r);
                }
            });
        },
    );
}
