//! C07: vector norms, normalisation, dot and cross products.
use mc::adapt::*;
use mc::refm::*;
use mc::*;

macro_rules! norms {
    ($V:ident, $n:literal, $t:ty, $a:expr, $b:expr, $r:expr) => {{
        const N: usize = $n;
        let r: &mut Rec = $r;
        let a: [$t; N] = $a.map(|x| x as $t);
        let b: [$t; N] = $b.map(|x| x as $t);
        let x: [f64; N] = a.map(|v| v as f64);
        let y: [f64; N] = b.map(|v| v as f64);
        let eps = <$t>::EPSILON as f64;
        let (mut v, w) = ($V::new(a), $V::new(b));
        let t = || format!("{} {:?}", stringify!($t), a);
        // squares must neither overflow nor vanish in this precision
        let (lo, hi) = if eps > 1e-10 { (1e-18, 1e18) } else { (1e-150, 1e150) };
        let fits = |z: &[f64; N]| z.iter().all(|c| *c == 0.0 || (c.abs() > lo && c.abs() < hi));
        if fits(&x) {
            let e = nrm(&x);
            let tol = 16.0 * N as f64 * eps;
            let g = v.norm2() as f64;
            r.check("Euclidean norm", le((g - e).abs(), tol * e), || format!("{}: {:e}, expected {:e}", t(), g, e));
            let g = v.norm_l() as f64;
            let e1: f64 = x.iter().map(|c| c.abs()).sum();
            r.check("sum norm", le((g - e1).abs(), tol * e1), || format!("{}: {:e}, expected {:e}", t(), g, e1));
            let g = v.norm_inf() as f64;
            let ei = x.iter().fold(0.0f64, |m, c| m.max(c.abs()));
            r.check("maximum norm", g == ei, || format!("{}: {:e}, expected {:e}", t(), g, ei));
            match v.normalize() {
                Ok(u) => {
                    let u: [f64; N] = std::array::from_fn(|i| u[i] as f64);
                    if r.check("the zero vector cannot be normalised", e != 0.0, t) {
                        r.class("normalised");
                        r.check("normalised vector has norm one", le((nrm(&u) - 1.0).abs(), tol), || format!("{}: {:?}", t(), u));
                        r.check("normalised vector keeps its direction", (0..N).all(|i| le((u[i] - x[i] / e).abs(), tol * (x[i] / e).abs() + 1e-300f64.max(1e-40 * (eps > 1e-10) as u8 as f64))), || format!("{}: {:?}", t(), u));
                    }
                }
                Err(_) => {
                    r.class("zero");
                    r.check("a non-zero vector can be normalised", e == 0.0, t);
                    r.check("a failed normalisation leaves the vector alone", (0..N).all(|i| v[i] == a[i]), t);
                }
            }
            if fits(&y) {
                let d = (w * $V::new(a)) as f64;
                let ed: f64 = (0..N).map(|i| x[i] * y[i]).sum();
                let em: f64 = (0..N).map(|i| (x[i] * y[i]).abs()).sum();
                r.check("dot product", le((d - ed).abs(), tol * em + 1e-300f64.max(1e-37 * (eps > 1e-10) as u8 as f64)), || format!("{:?} . {:?} = {:e}, expected {:e}", a, b, d, ed));
            }
        }
    }};
}
macro_rules! size {
    ($c:expr, $V:ident, $n:literal, $vals:expr) => {{
        const N: usize = $n;
        let vals: &[f64] = $vals;
        let both = |a: [f64; N], b: [f64; N], r: &mut Rec| {
            norms!($V, $n, f64, a, b, &mut *r);
            norms!($V, $n, f32, a, b, &mut *r);
        };
        let total = (vals.len() as u64).pow(N as u32);
        $c.space(&format!("size {}: every vector over {:?}", N, vals), total, |i, r| {
            let mut d = Dec(i);
            let a: [f64; N] = std::array::from_fn(|_| *d.pick(vals));
            let b: [f64; N] = std::array::from_fn(|i| a[(i + 1) % N] * 0.5 - i as f64);
            r.key(hash_f(N as u64, &a));
            r.sample(|| format!("{:?}", a));
            both(a, b, r);
            // integer instantiation
            let ai = a.map(|x| (x * 4.0) as i32);
            let v = $V::new(ai);
            r.check("sum norm", v.norm_l() == ai.iter().map(|x| x.abs()).sum::<i32>(), || format!("i32 {:?}: {}", ai, v.norm_l()));
            r.check("maximum norm", v.norm_inf() == ai.iter().map(|x| x.abs()).max().unwrap(), || format!("i32 {:?}: {}", ai, v.norm_inf()));
        });
        // magnitudes: dense patterns scaled, with up to two components at an unlike magnitude
        let mags = [1.0, 0.03, 2e-3, 1e-4, 1e-5, 1e-6, 1e-8, 1e-10, 1e-12, 1e-14, 1e-16, 1e-17, 1e-30, 1e-60, 1e-100, 1e-140, 30.0, 2e3, 1e5, 1e7, 1e8, 1e10, 1e12, 1e14, 1e16, 1e17, 1e30, 1e60, 1e140];
        let over = [0.0, 1e-20, 1e20, -1e-3, 1e3, -1.0];
        let per = fam::dev_count(N as u64, over.len() as u64, 2);
        $c.space(&format!("size {}: magnitudes", N), per * mags.len() as u64 * 3, |i, r| {
            let mut d = Dec(i);
            let m = *d.pick(&mags);
            let p = d.take(3);
            let mut dv = Vec::new();
            fam::dev_at(N as u64, over.len() as u64, d.0, &mut dv);
            let mut a: [f64; N] = std::array::from_fn(|i| match p { 0 => 1.0 + i as f64, 1 => if i % 2 == 0 { -0.75 } else { 0.5 }, _ => -1.0 / (i as f64 + 3.0) });
            for (k, v) in dv { a[k] = over[v] }
            let a = a.map(|x| x * m);
            let b: [f64; N] = std::array::from_fn(|i| 2.0 - 1.5 * i as f64);
            r.key(hash_f(50 + N as u64, &a));
            both(a, b, r);
        });
        let sh = fam::shapes::<N>();
        let n = sh.len() as u64;
        $c.every(&format!("size {}: pairs of vectors of every structure", N), n * n, (n * n / $c.qt(4_000_000, 100_000_000)).max(1), |i, r| {
            let (a, b) = (sh[(i / n) as usize], sh[(i % n) as usize]);
            r.key(hash_u(70 + N as u64, &[i]));
            both(a, b, r);
        });
        // a norm next to one (or a squared norm or sum of components next to it)
        let no = fam::near_one();
        $c.every(&format!("size {}: norms next to one", N), n * no.len() as u64 * 2, 1, |i, r| {
            let (a, f, k) = (sh[(i % n) as usize], no[(i / n) as usize % no.len()], (i / n) as usize / no.len());
            let m = match k { 0 => nrm(&a), _ => a.iter().map(|x| x.abs()).sum::<f64>() };
            if m == 0.0 { return }
            let a = a.map(|x| x / m * f);
            let b: [f64; N] = std::array::from_fn(|i| a[(i + 1) % N]);
            r.key(hash_u(80 + N as u64, &[i]));
            both(a, b, r);
        });
        // two components nearly equal or opposite, or the whole vector nearly equal or opposite to its partner
        let de = fam::DELTA;
        $c.space(&format!("size {}: nearly equal components", N), (de.len() * N * N * 2 * 6) as u64, |i, r| {
            let mut d = Dec(i);
            let (e, x, y, s, p) = (*d.pick(&de), d.take(N), d.take(N), [1.0, -1.0][d.take(2)], d.take(6));
            let mut a: [f64; N] = std::array::from_fn(|i| match p % 3 { 0 => 1.0 + i as f64, 1 => if i % 2 == 0 { -0.75 } else { 0.5 }, _ => -1.0 / (i as f64 + 3.0) });
            // partner: the same up to one component (x = y: up to a common factor)
            let b: [f64; N] = std::array::from_fn(|i| if x == y || i == y { s * a[i] * (1.0 + e) } else { s * a[i] });
            if p >= 3 { a[y] = s * a[x] * (1.0 + if x == y { e } else { -e }) }
            r.key(hash_u(60 + N as u64, &[i]));
            both(a, b, r);
            both(b, a, r);
        });
    }};
}

fn cross_case<T: Sc>(u: [T; 3], v: [T; 3], r: &mut Rec) {
    let (x, y) = (V3::new(u), V3::new(v));
    let g = x.cross(y);
    let h = y.cross(x);
    let p = |a: usize, b: usize| u[a] * v[b] - u[b] * v[a];
    let m = |a: usize, b: usize| (u[a] * v[b]).abs() + (u[b] * v[a]).abs();
    let e = [p(1, 2), p(2, 0), p(0, 1)];
    let mg = [m(1, 2), m(2, 0), m(0, 1)];
    let w = || format!("{} {:?} x {:?} = {:?}, expected {:?}", T::TNAME, u, v, g, e);
    r.check("cross product", (0..3).all(|i| T::close(g[i], e[i], mg[i], 4)), w);
    r.check("cross product is anticommutative", (0..3).all(|i| T::close(g[i], -h[i], mg[i], 4)), w);
    let dot = |z: [T; 3]| (0..3).fold(T::zero(), |s, i| s + z[i] * g[i]);
    let dm = |z: [T; 3]| (0..3).fold(T::zero(), |s, i| s + (z[i]).abs() * mg[i]);
    r.check("cross product is orthogonal to its factors", T::close(dot(u), T::zero(), dm(u), 12) && T::close(dot(v), T::zero(), dm(v), 12), w);
}

fn main() {
    run(
        "C07",
        "exploration",
        "every vector of each enumerated space (full component alphabets per size, magnitude ladders with up to two deviating components, both precisions and integers) is evaluated by the real methods and judged by the definitions; cross product on all pairs over small alphabets and finite fields; non-trivial: distinct vectors",
        &["float norms are judged where the squares of the components neither overflow nor underflow", "tolerance 16 n eps relative"],
        |c| {
            size!(c, V2, 2, &[0.0, -0.0, 1.0, -1.0, 2.0, -3.0, 0.5, -0.25, 7.0, 1e-3, -1e3, 1e6, 0.1]);
            size!(c, V3, 3, &[0.0, 1.0, -1.0, 2.0, -3.0, 0.5, -0.25, 7.0, -1e3, 0.1]);
            size!(c, V4, 4, &[0.0, 1.0, -1.0, 2.0, -3.0, 0.5, -0.25, 7.0]);
            size!(c, V5, 5, if c.thorough() { &[0.0, 1.0, -1.0, 2.0, -3.0, 0.5, -7.0, 0.25, 11.0, -1.5, 4.0, 1e-3] } else { &[0.0, 1.0, -1.0, 2.0, -3.0, 0.5, -7.0, 0.25] });
            size!(c, V6, 6, if c.thorough() { &[0.0, 1.0, -1.0, 2.0, -3.0, 0.5, 4.0, -7.0, 0.25, 1e-3] } else { &[0.0, 1.0, -1.0, 2.0, -3.0, 0.5, 4.0] });
            let ints = [0i64, 1, -1, 2, -3];
            c.space("cross product: all integer pairs", 5u64.pow(6), |i, r| {
                let mut d = Dec(i);
                let u: [i64; 3] = std::array::from_fn(|_| *d.pick(&ints));
                let v: [i64; 3] = std::array::from_fn(|_| *d.pick(&ints));
                r.key(hash_u(8, &[i]));
                cross_case(u, v, r);
                cross_case(u.map(|x| x as i32), v.map(|x| x as i32), r);
                cross_case(u.map(|x| x as f64 * 0.3), v.map(|x| x as f64 * 1.7 + 0.1), r);
                cross_case(u.map(|x| x as f32 * 0.3), v.map(|x| x as f32 * 1.7 + 0.1), r);
            });
            c.space("cross product: every pair over F5", 5u64.pow(6), |i, r| {
                let mut d = Dec(i);
                let u: [scal::Fp<5>; 3] = std::array::from_fn(|_| scal::Fp(d.take(5) as u32));
                let v: [scal::Fp<5>; 3] = std::array::from_fn(|_| scal::Fp(d.take(5) as u32));
                r.key(hash_u(9, &[i]));
                cross_case(u, v, r);
            });
            c.space("cross product: nearly parallel factors", (fam::axes().len() * fam::axes().len() * fam::DELTA.len() * 4) as u64, |i, r| {
                let ax = fam::axes();
                let mut d = Dec(i);
                let (u, w, e, k) = (*d.pick(&ax), *d.pick(&ax), *d.pick(&fam::DELTA), d.take(4));
                let s = [1.0, -1.0, 3.0, -0.3][k];
                let v: [f64; 3] = std::array::from_fn(|i| s * (u[i] + e * w[i]));
                r.key(hash_u(11, &[i]));
                cross_case(u, v, r);
                cross_case(u.map(|x| x as f32), v.map(|x| x as f32), r);
            });
            let ax = fam::axes();
            let m = [1.0, 0.05, 2e-3, 1e-4, 1e-6, 1e-8, 1e-10, 1e-13, 1e-17, 1e-25, 1e-60, 1e-110, 40.0, 3e3, 1e5, 1e8, 1e10, 1e14, 1e18, 1e40, 1e100];
            let n = m.len();
            c.space("cross product: axes at unlike magnitudes", (ax.len() * ax.len() * n * n) as u64, |i, r| {
                let mut d = Dec(i);
                let (s, t) = (*d.pick(&m), *d.pick(&m));
                let (u, v) = (*d.pick(&ax), *d.pick(&ax));
                r.key(hash_u(10, &[i]));
                // one factor written with its own magnitudes per component
                let v2 = [v[0] * t, v[1], v[2] * t];
                let (u, v) = (sc3(u, s), sc3(v, t));
                cross_case(u, v, r);
                cross_case(u, v2, r);
                cross_case(v2, u, r);
                // single precision where neither factors nor products leave its range
                let (th, tl) = (t.max(1.0), t.min(1.0));
                if s * th * s.max(th) < 1e34 && s * tl * s.min(tl) > 1e-30 {
                    let f = |z: [f64; 3]| z.map(|x| if x.abs() < 1e-19 { 0.0 } else { x as f32 });
                    cross_case(f(u), f(v), r);
                    cross_case(f(u), f(v2), r);
                }
            });
        },
    );
}
