//! C27: Display implementations (components, order, destination, failing writers).
use mc::adapt::*;
use mc::*;
use num::traits::{Num, One, Zero};
use std::fmt::{self, Display, Write};
use std::ops::*;

const KINDS: [(&str, usize); 12] = [("V2", 2), ("V3", 3), ("V4", 4), ("V5", 5), ("V6", 6), ("M22", 4), ("M33", 9), ("M44", 16), ("M55", 25), ("M66", 36), ("Quaternion", 4), ("DualQuaternion", 8)];

fn with<T: Num + Copy + Display, R>(kind: usize, c: &[T], f: impl FnOnce(&dyn Display) -> R) -> R {
    fn g<T: Copy, const N: usize>(c: &[T]) -> [[T; N]; N] { std::array::from_fn(|i| std::array::from_fn(|j| c[i * N + j])) }
    fn v<T: Copy, const N: usize>(c: &[T]) -> [T; N] { std::array::from_fn(|i| c[i]) }
    let q = |k: usize| Quaternion::new_from(c[k], c[k + 1], c[k + 2], c[k + 3]);
    match kind {
        0 => f(&V2::new(v(c))),
        1 => f(&V3::new(v(c))),
        2 => f(&V4::new(v(c))),
        3 => f(&V5::new(v(c))),
        4 => f(&V6::new(v(c))),
        5 => f(&M22::new(g(c))),
        6 => f(&M33::new(g(c))),
        7 => f(&M44::new(g(c))),
        8 => f(&M55::new(g(c))),
        9 => f(&M66::new(g(c))),
        10 => f(&q(0)),
        _ => f(&DualQuaternion::new(q(0), q(4))),
    }
}

/// A component that writes a token of its own and can refuse to be written.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Tok(i64);
const REFUSE: i64 = -777;
impl Display for Tok {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.0 == REFUSE { return Err(fmt::Error) }
        f.write_str(&format!("<{}>", self.0))
    }
}
macro_rules! op { ($($t:ident $m:ident $o:tt),*) => { $( impl $t for Tok { type Output = Tok; fn $m(self, o: Tok) -> Tok { Tok(self.0 $o o.0) } } )* } }
op!(Add add +, Sub sub -, Mul mul *, Div div /, Rem rem %);
impl Zero for Tok { fn zero() -> Tok { Tok(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl One for Tok { fn one() -> Tok { Tok(1) } }
impl Num for Tok { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<Tok, ()> { Err(()) } }

fn tokens(s: &str) -> Vec<i64> {
    let mut v = Vec::new();
    for p in s.split('<').skip(1) {
        v.push(p.split('>').next().and_then(|x| x.parse().ok()).unwrap_or(i64::MIN));
    }
    v
}
/// all the numbers of a text, in order (labels and brackets are not numbers)
fn numbers(s: &str) -> Vec<f64> {
    s.split(|c: char| c.is_whitespace() || "|[](),;:{}".contains(c)).filter_map(|t| t.parse::<f64>().ok()).collect()
}
/// A destination that refuses its `fail_at`-th piece.
/// `once`: it accepts the later ones again.
struct W { text: String, calls: usize, fail_at: usize, once: bool, failed: bool }
impl W { fn new(fail_at: usize) -> W { W { text: String::new(), calls: 0, fail_at, once: false, failed: false } } }
impl Write for W {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed && !self.once { return Err(fmt::Error) }
        if self.calls == self.fail_at && !self.failed { self.failed = true; return Err(fmt::Error) }
        self.calls += 1;
        self.text.push_str(s);
        Ok(())
    }
}
const FLAGS: [&str; 8] = ["{}", "{:+}", "{:#}", "{:>60}", "{:<60.1}", "{:^9.4}", "{:05}", "{:*^80.0}"];
fn put(w: &mut dyn Write, flag: usize, d: &dyn Display) -> fmt::Result {
    match flag {
        0 => write!(w, "{}", d),
        1 => write!(w, "{:+}", d),
        2 => write!(w, "{:#}", d),
        3 => write!(w, "{:>60}", d),
        4 => write!(w, "{:<60.1}", d),
        5 => write!(w, "{:^9.4}", d),
        6 => write!(w, "{:05}", d),
        _ => write!(w, "{:*^80.0}", d),
    }
}
fn arrangement(a: usize, n: usize) -> Vec<i64> {
    (0..n as i64).map(|i| match a { 0 => i + 1, 1 => n as i64 - i, 2 => 5, 3 => i % 3, 4 => (i * 7 + 3) % n as i64 + 100, _ => -(i + 1) }).collect()
}
fn values() -> Vec<f64> {
    vec![0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 0.25, 0.125, 1.25, -2.75, 3.14159, -2.71828, 9.99, 9.994, 9.996, 99.995, -99.994, 0.004, -0.004, 0.006, -0.006, 0.0149, 10.0, 100.0, 1000.5, -12345.67, 1e6, -1e6, 123456789.0, 1e15, 1e-10, -1e-10, 1e-300, 1e30, -1e30, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 7.0, 42.42, 255.0, -8.08]
}
fn same_number(x: f64, y: f64) -> bool {
    (x.is_nan() && y.is_nan()) || x == y || (x - y).abs() <= 0.005 * (1.0 + 1e-9) + 1e-15 * x.abs()
}
fn num_case<T: Num + Copy + Display>(kind: usize, c: &[T], f: impl Fn(T) -> f64, r: &mut Rec) {
    let t = with(kind, c, |d| format!("{}", d));
    let e: Vec<f64> = c.iter().map(|x| f(*x)).collect();
    let g = numbers(&t);
    r.check("the numbers are the components in order", g.len() == e.len() && g.iter().zip(&e).all(|(a, b)| same_number(*b, *a)), || format!("{} {:?}: {:?}", KINDS[kind].0, e, t));
    r.check("formatting again gives the same text", with(kind, c, |d| format!("{}", d)) == t, || format!("{} {:?}", KINDS[kind].0, e));
}

fn child(kind: usize, variant: usize) {
    let n = KINDS[kind].1;
    let x: Vec<f64> = (0..n).map(|i| [i as f64 + 0.5, 0.0, f64::NAN, -1e9 * i as f64][variant % 4]).collect();
    let mut s = String::new();
    let _ = with(kind, &x, |d| write!(s, "{}", d));
    let mut w = W::new(variant);
    let _ = with(kind, &x, |d| write!(w, "{:>9}", d));
    let y: Vec<i32> = (0..n as i32).collect();
    let _ = with(kind, &y, |d| write!(s, "{}", d));
    std::hint::black_box((&s, &w.text));
}

fn main() {
    if let Ok(v) = std::env::var("MC_FORMAT_CHILD") {
        let v: Vec<usize> = v.split(',').map(|x| x.parse().unwrap()).collect();
        return child(v[0], v[1]);
    }
    run(
        "C27",
        "exploration",
        "one case is one value formatted into a destination of the checker's own; distinct by type, components, format flags and failure point",
        &["effects other than on the destination are observed on the standard streams of a child process"],
        |cx| {
            cx.space("tokens", (KINDS.len() * 6 * FLAGS.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let (k, a, fl) = (d.take(KINDS.len()), d.take(6), d.take(FLAGS.len()));
                let c = arrangement(a, KINDS[k].1);
                let t: Vec<Tok> = c.iter().map(|x| Tok(*x)).collect();
                let mut w = W::new(usize::MAX);
                let res = with(k, &t, |d| put(&mut w, fl, d));
                r.key(hash_u(1, &[k as u64, a as u64, fl as u64]));
                r.sample(|| format!("{} {} -> {:?}", KINDS[k].0, FLAGS[fl], w.text));
                r.check("formatting into a willing destination succeeds", res.is_ok(), || format!("{} {}", KINDS[k].0, FLAGS[fl]));
                r.check("every component is written once, in order", tokens(&w.text) == c, || format!("{} {}: {:?}", KINDS[k].0, FLAGS[fl], w.text));
                let mut w2 = W::new(usize::MAX);
                let _ = with(k, &t, |d| put(&mut w2, fl, d));
                r.check("formatting again gives the same text", w2.text == w.text, || format!("{} {}: {:?} {:?}", KINDS[k].0, FLAGS[fl], w.text, w2.text));
            });
            cx.space("failing destination", (KINDS.len() * 3 * 400) as u64, |i, r| {
                let mut d = Dec(i);
                let (at, k, fl) = (d.take(400), d.take(KINDS.len()), [0, 3, 6][d.take(3)]);
                let c = arrangement(0, KINDS[k].1);
                let t: Vec<Tok> = c.iter().map(|x| Tok(*x)).collect();
                let mut full = W::new(usize::MAX);
                let _ = with(k, &t, |d| put(&mut full, fl, d));
                if at >= full.calls { return }
                r.key(hash_u(2, &[k as u64, at as u64, fl as u64]));
                r.class("failure points");
                for once in [false, true] {
                    let mut w = W::new(at);
                    w.once = once;
                    let res = with(k, &t, |d| put(&mut w, fl, d));
                    r.check("a failing destination's error is returned", res.is_err() && w.failed, || format!("{} piece {} of {} fails{}: {:?}", KINDS[k].0, at, full.calls, if once { " once" } else { " and all later ones" }, w.text));
                }
            });
            cx.space("failing component", (KINDS.len() * 36) as u64, |i, r| {
                let mut d = Dec(i);
                let (k, p) = (d.take(KINDS.len()), d.take(36));
                if p >= KINDS[k].1 { return }
                let mut c = arrangement(0, KINDS[k].1);
                c[p] = REFUSE;
                let t: Vec<Tok> = c.iter().map(|x| Tok(*x)).collect();
                let mut w = W::new(usize::MAX);
                let res = with(k, &t, |d| put(&mut w, 0, d));
                r.key(hash_u(3, &[k as u64, p as u64]));
                r.check("a component's error is returned", res.is_err(), || format!("{} component {}: {:?}", KINDS[k].0, p, w.text));
                r.check("the components before it are written", tokens(&w.text) == c[..p], || format!("{} component {}: {:?}", KINDS[k].0, p, w.text));
            });
            let vals = values();
            let nv = vals.len();
            // every component at every value, the others at two base patterns
            cx.space("numbers f64", (KINDS.len() * 36 * nv * 2) as u64, |i, r| {
                let mut d = Dec(i);
                let (k, p, v, b) = (d.take(KINDS.len()), d.take(36), d.take(nv), d.take(2));
                if p >= KINDS[k].1 { return }
                let mut c: Vec<f64> = (0..KINDS[k].1).map(|j| if b == 0 { j as f64 + 0.25 } else { -((j * j) as f64) - 0.5 }).collect();
                c[p] = vals[v];
                r.key(hash_f(4 + k as u64, &c));
                num_case(k, &c, |x| x, r);
                let c: Vec<f32> = c.iter().map(|x| *x as f32).collect();
                num_case(k, &c, |x| x as f64, r);
            });
            let ints: Vec<i64> = vec![0, 1, -1, 2, 9, 10, -10, 99, 100, 1000, -1000, 12345, i32::MAX as i64, i32::MIN as i64];
            cx.space("numbers i32 i64", (KINDS.len() * 36 * ints.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let (k, p, v) = (d.take(KINDS.len()), d.take(36), d.take(ints.len()));
                if p >= KINDS[k].1 { return }
                let mut c: Vec<i64> = (0..KINDS[k].1 as i64).map(|j| j * 3 - 7).collect();
                c[p] = ints[v];
                r.key(hash_u(30 + k as u64, &[p as u64, v as u64]));
                num_case(k, &c, |x| x as f64, r);
                let c: Vec<i32> = c.iter().map(|x| *x as i32).collect();
                num_case(k, &c, |x| x as f64, r);
            });
            // all pairs of values for the small types
            cx.space("number pairs", (nv * nv) as u64, |i, r| {
                let mut d = Dec(i);
                let (a, b) = (*d.pick(&vals), *d.pick(&vals));
                r.key(hash_f(60, &[a, b]));
                num_case(0, &[a, b], |x| x, r);
                num_case(1, &[a, b, a], |x| x, r);
                num_case(5, &[a, b, b, a], |x| x, r);
                num_case(10, &[b, a, a, b], |x| x, r);
                num_case(11, &[b, a, a, b, a, b, b, a], |x| x, r);
            });
            // equal components with different histories (different hidden markers)
            let q: Vec<Quaternion<f64>> = vec![
                Quaternion::one(), Quaternion::rotation(0.0, &V3::new_from(0.0, 0.0, 1.0)), Quaternion::rotation(0.7, &V3::new_from(1.0, 2.0, 3.0)),
                Quaternion::from_euler_angles(0.1, 0.2, 0.3), Quaternion::new_from(3.0, 4.0, 0.0, 0.0).normalize().unwrap_or(Quaternion::one()), Quaternion::new_from(1.0, 2.0, -3.0, 0.5), Quaternion::new_from(0.0, 0.0, 0.0, 0.0).exp(),
            ];
            cx.space("histories", (q.len() * q.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let (a, b) = (*d.pick(&q), *d.pick(&q));
                let plain = |a: &Quaternion<f64>| Quaternion::new_from(a.real(), a.imag()[0], a.imag()[1], a.imag()[2]);
                r.key(hash_u(70, &[i]));
                r.check("text depends only on the components", format!("{}", a) == format!("{}", plain(&a)), || format!("{:?}: {}", a, a));
                let p = DualQuaternion::new(plain(&a), plain(&b));
                for m in [DualQuaternion::new(a, b), DualQuaternion::new(plain(&a), b)] {
                    r.check("text depends only on the components", format!("{}", m) == format!("{}", p), || format!("{:?}: {}", m, m));
                }
                for m in [DualQuaternion::new_from_rotation(&a), DualQuaternion::new_from_translation(&b.imag()), DualQuaternion::new_from_rot_trans(&a, &b.imag())] {
                    let p = DualQuaternion::new(plain(&m.real()), plain(&m.dual()));
                    r.check("text depends only on the components", format!("{}", m) == format!("{}", p), || format!("{:?}: {}", m, m));
                }
            });
            // nothing on the standard streams
            let me = std::env::current_exe().expect("own path");
            cx.space("standard streams", (KINDS.len() * 4) as u64, |i, r| {
                let mut d = Dec(i);
                let (k, v) = (d.take(KINDS.len()), d.take(4));
                let o = std::process::Command::new(&me).env("MC_FORMAT_CHILD", format!("{},{}", k, v)).stdin(std::process::Stdio::null()).output().expect("child process");
                r.key(hash_u(80, &[i]));
                r.check("formatting writes nothing to standard output", o.stdout.is_empty(), || format!("{}: {:?}", KINDS[k].0, String::from_utf8_lossy(&o.stdout)));
                r.check("formatting writes nothing to standard error", o.stderr.is_empty(), || format!("{}: {:?}", KINDS[k].0, String::from_utf8_lossy(&o.stderr)));
                r.check("formatting returns", o.status.success(), || format!("{}: {:?}", KINDS[k].0, o.status));
            });
        },
    );
}
