//! C06: construction, reads and in-place edits against a grid of entries.
use mc::adapt::*;
use mc::*;
use static_math::traits::LinearAlgebra;
use static_math::{m22_new, m33_new, m44_new, m55_new, m66_new};

fn g<T, const N: usize>(f: impl Fn(usize, usize) -> T) -> [[T; N]; N] { std::array::from_fn(|i| std::array::from_fn(|j| f(i, j))) }

macro_rules! structure {
    ($modn:ident, $M:ident, $V:ident, $n:literal, $upper:ident, $lower:ident, $closed_vals:expr, $init_depth:expr, $quad:expr) => {
        mod $modn {
            use super::*;
            pub const N: usize = $n;
            type G<T> = [[T; N]; N];

            /// every read of `m` agrees with the grid `a`
            pub fn reads<T: Sc + Send>(m: &$M<T>, a: &G<T>, r: &mut Rec) {
                let before = *m;
                let w = || format!("{}x{} {:?}", N, N, a);
                r.check("pair indexing", (0..N).all(|i| (0..N).all(|j| m[(i, j)] == a[i][j])), || format!("{} read {:?}", w(), m));
                r.check("row indexing", (0..N).all(|i| m[i] == a[i]) && (0..N).all(|i| (0..N).all(|j| m[i][j] == a[i][j])), || format!("{} read {:?}", w(), m));
                r.check("as an array", **m == *a && m.len() == N && m.iter().zip(a.iter()).all(|(x, y)| x == y), w);
                let v = m.as_vec();
                r.check("flat list", v.len() == N * N && (0..N * N).all(|k| v[k] == a[k / N][k % N]), || format!("{}: {:?}", w(), v));
                let rows = m.get_rows();
                r.check("row extraction", (0..N).all(|i| (0..N).all(|j| rows[i][j] == a[i][j])), || format!("{}: {:?}", w(), rows));
                let cols = m.get_cols();
                r.check("column extraction", (0..N).all(|i| (0..N).all(|j| cols[j][i] == a[i][j])), || format!("{}: {:?}", w(), cols));
                r.check("construction from columns", $M::new_from_vecs(cols) == *m, || format!("{}: {:?}", w(), $M::new_from_vecs(cols)));
                let d = m.get_diagonal();
                r.check("diagonal", (0..N).all(|i| d[i] == a[i][i]), || format!("{}: {:?}", w(), d));
                r.check("shape", m.rows() == N && m.cols() == N, w);
                r.check("construction from an array", $M::new(*a) == *m && $M::from(*a) == *m, w);
                structure!(@tri $upper, $lower, m, a, r, w);
                r.check("reads leave the value unchanged", *m == before && **m == *a, w);
            }
            pub fn reads_float<T: Fl>(m: &$M<T>, a: &G<T>, r: &mut Rec) {
                let w = || format!("{}x{} {} {:?}", N, N, T::NAME, a);
                let t = LinearAlgebra::transpose(m);
                r.check("transposition", (0..N).all(|i| (0..N).all(|j| t[(i, j)] == a[j][i])), || format!("{}: {:?}", w(), t));
                let s: f64 = (0..N).map(|i| a[i][i].to()).sum();
                let sa: f64 = (0..N).map(|i| a[i][i].to().abs()).sum();
                r.check("trace", le_((LinearAlgebra::trace(m).to() - s).abs(), 16.0 * T::EPS * sa), || format!("{}: {:?}", w(), LinearAlgebra::trace(m)));
                let f: f64 = a.as_flattened().iter().map(|x| x.to() * x.to()).sum::<f64>().sqrt();
                let h = LinearAlgebra::norm2(m).to();
                r.check("Frobenius norm", le_((h - f).abs(), 64.0 * T::EPS * f), || format!("{}: {:?}, expected {:?}", w(), h, f));
                r.check("shape", LinearAlgebra::rows(m) == N && LinearAlgebra::cols(m) == N && LinearAlgebra::shape(m) == (N, N), w);
                r.check("reads leave the value unchanged", **m == *a, w);
            }
            pub fn run_all(c: &Ctx) {
                let id = |s: &str| format!("{}x{} {}", N, N, s);
                // distinct entries in every arrangement of a few patterns, several scalar types
                c.space(&id("reads of matrices with distinct entries"), (N * N * 4) as u64, |i, r| {
                    let mut d = Dec(i);
                    let rot = d.take(N * N);
                    let mul = [1i64, 3, 5, 7][d.take(4)];
                    r.key(hash_u(N as u64, &[i, 1]));
                    let val = |i: usize, j: usize| (((i * N + j + rot) % (N * N)) as i64 * mul) - 8;
                    r.sample(|| format!("{:?}", g::<i64, N>(val)));
                    let a = g::<i32, N>(|i, j| val(i, j) as i32);
                    reads(&$M::new(a), &a, r);
                    let a = g::<i64, N>(|i, j| val(i, j));
                    reads(&$M::new(a), &a, r);
                    let a = g::<f32, N>(|i, j| val(i, j) as f32 + 0.5);
                    reads(&$M::new(a), &a, r);
                    reads_float(&$M::new(a), &a, r);
                    let a = g::<f64, N>(|i, j| val(i, j) as f64 * 0.1);
                    reads(&$M::new(a), &a, r);
                    reads_float(&$M::new(a), &a, r);
                    let a = g::<f64, N>(|i, j| val(i, j) as f64 * 1e6);
                    reads_float(&$M::new(a), &a, r);
                    r.check("identity", *$M::<f64>::identity() == g(|i, j| (i == j) as u8 as f64), || "identity".into());
                    r.check("zeros", *$M::<f64>::zeros() == [[0.0; N]; N], || "zeros".into());
                    // mapping every entry
                    let m = $M::new(a).for_each(|x| x * 2.0 - 3.0);
                    r.check("mapping every entry", *m == g(|i, j| a[i][j] * 2.0 - 3.0), || format!("{:?} -> {:?}", a, m));
                    let seen = std::cell::Cell::new(0);
                    let b = g::<i64, N>(|i, j| val(i, j));
                    let m = $M::new(b).for_each(|x| { seen.set(seen.get() + 1); x * x });
                    r.check("mapping every entry", *m == g(|i, j| b[i][j] * b[i][j]) && seen.get() == N * N, || format!("{:?} -> {:?} ({} calls)", b, m, seen.get()));
                    let z = $M::new(b).for_each(|x| if x == b[0][0] { 777 } else { x });
                    r.check("mapping every entry", *z == g(|i, j| if b[i][j] == b[0][0] { 777 } else { b[i][j] }), || format!("{:?}", z));
                });
                // one entry differing: equality, trace, norm, zero entry values and signs
                let vals = [0.0, -0.0, 1.0, -1.0, 2.5, -1e-3, 1e5];
                c.space(&id("reads with up to two special entries"), fam::dev_count((N * N) as u64, vals.len() as u64, 2), |i, r| {
                    let mut dv = Vec::new();
                    fam::dev_at((N * N) as u64, vals.len() as u64, i, &mut dv);
                    let mut a = g::<f64, N>(|i, j| (i * N + j) as f64 - 3.25);
                    for (k, v) in dv { a[k / N][k % N] = vals[v] }
                    r.key(hash_f(N as u64, a.as_flattened()));
                    let m = $M::new(a);
                    reads(&m, &a, r);
                    reads_float(&m, &a, r);
                    let b = a.map(|x| x.map(|y| y as f32));
                    reads_float(&$M::new(b), &b, r);
                });
                // every structure of the components on the diagonal, in a row or in a column; next to special matrices
                let sh = fam::shapes::<N>();
                c.space(&id("diagonals, rows and columns of every structure"), (sh.len() * (2 * N + 1) * 2) as u64, |i, r| {
                    let mut d = Dec(i);
                    let (k, alt, v) = (d.take(2 * N + 1), d.take(2), *d.pick(&sh));
                    let mut a = g::<f64, N>(|i, j| if alt == 0 { (i * N + j) as f64 * 0.37 - 3.25 } else { 0.0 });
                    for j in 0..N { if k < N { a[k][j] = v[j] } else if k < 2 * N { a[j][k - N] = v[j] } else { a[j][j] = v[j] } }
                    r.key(hash_f(200 + N as u64, a.as_flattened()));
                    let m = $M::new(a);
                    reads(&m, &a, r);
                    reads_float(&m, &a, r);
                    let b = a.map(|x| x.map(|y| y as f32));
                    reads(&$M::new(b), &b, r);
                    reads_float(&$M::new(b), &b, r);
                    // flipped signs, exchanged entries: equality looks at every entry
                    for p in 0..N * N {
                        let mut o = a;
                        o[p / N][p % N] = -o[p / N][p % N];
                        r.check("equality is entrywise", ($M::new(o) == m) == (o == a) && ($M::new(o) != m) == (o != a), || format!("{:?} and {:?}", o, a));
                        let q = (p * 5 + i as usize) % (N * N);
                        let mut o = a;
                        o.as_flattened_mut().swap(p, q);
                        r.check("equality is entrywise", ($M::new(o) == m) == (o == a) && (m == $M::new(o)) == (o == a), || format!("{:?} and {:?}", o, a));
                        o = a;
                        o[p / N][p % N] = -o[p / N][p % N];
                        o[q / N][q % N] = -o[q / N][q % N];
                        r.check("equality is entrywise", ($M::new(o) == m) == (o == a), || format!("{:?} and {:?}", o, a));
                    }
                });
                let near = fam::Near::<N>::new(true);
                let bs = fam::bases::<N>();
                let st = 1;
                c.every(&id("reads next to special matrices"), near.count() + bs.len() as u64, st, |i, r| {
                    let mut a = if i < bs.len() as u64 { bs[i as usize].1 } else { near.at(i - bs.len() as u64) };
                    for s in [1.0, -0.5] {
                        for x in a.as_flattened_mut() { *x *= s }
                        r.key(hash_f(300 + N as u64, a.as_flattened()));
                        let m = $M::new(a);
                        reads(&m, &a, r);
                        reads_float(&m, &a, r);
                        let b = a.map(|x| x.map(|y| y as f32));
                        reads(&$M::new(b), &b, r);
                        reads_float(&$M::new(b), &b, r);
                    }
                });
                // and of every structure
                let gs = fam::grids::<N>();
                c.space(&id("reads of matrices of every structure"), gs.len() as u64, |i, r| {
                    let a = gs[i as usize];
                    r.key(hash_f(400 + N as u64, a.as_flattened()));
                    let m = $M::new(a);
                    reads(&m, &a, r);
                    reads_float(&m, &a, r);
                    let b = a.map(|x| x.map(|y| y as f32));
                    reads(&$M::new(b), &b, r);
                    reads_float(&$M::new(b), &b, r);
                });
                let mags = [1e-140, 1e-60, 1e-25, 1e-17, 1e-13, 1e-10, 3e-8, 1e-7, 1e-6, 1e-4, 0.05, 1.0, 30.0, 1e4, 1e7, 1e12, 1e17, 1e50, 1e140];
                let nm = mags.len() as u64;
                c.space(&id("magnitudes"), 2 * nm * nm * (N * N + 1) as u64, |i, r| {
                    let mut d = Dec(i);
                    let (s, t) = (*d.pick(&mags), *d.pick(&mags));
                    let k = d.take(N * N + 1);
                    let alt = d.take(2) == 1;
                    let mut a = g::<f64, N>(|i, j| { let v = (i * N + j) as f64 * 0.37 - 3.25; if alt { v.abs() + 0.1 } else { v } });
                    for (x, v) in a.as_flattened_mut().iter_mut().enumerate() { *v *= if x == k { t } else { s } }
                    r.key(hash_f(100 + N as u64, a.as_flattened()));
                    let m = $M::new(a);
                    reads(&m, &a, r);
                    reads_float(&m, &a, r);
                    if (1e-17..1e17).contains(&s) && (1e-17..1e17).contains(&t) {
                        let b = a.map(|x| x.map(|y| y as f32));
                        reads(&$M::new(b), &b, r);
                        reads_float(&$M::new(b), &b, r);
                    }
                });
                // out of range indices: every pair with a coordinate just outside or far outside
                let far = [0usize, 1, N - 1, N, N + 1, 2 * N, N * N - 1, N * N, usize::MAX];
                c.space(&id("out-of-range indices panic"), (far.len() * far.len()) as u64, |k, r| {
                    let mut d = Dec(k);
                    let (i, j) = (*d.pick(&far), *d.pick(&far));
                    r.key(hash_u(N as u64, &[k, 2]));
                    let a = g::<i32, N>(|i, j| (i * N + j) as i32);
                    let m = $M::new(a);
                    let out = i >= N || j >= N;
                    r.check("out-of-range pair index panics", catch(|| m[(i, j)]).is_err() == out, || format!("{}x{} [({}, {})]", N, N, i, j));
                    r.check("out-of-range row index panics", catch(|| m[i]).is_err() == (i >= N), || format!("{}x{} [{}]", N, N, i));
                    r.check("out-of-range element of a row panics", catch(|| m[i][j]).is_err() == out, || format!("{}x{} [{}][{}]", N, N, i, j));
                    let mut w = m;
                    r.check("out-of-range write panics", catch(|| w[(i, j)] = 99).is_err() == out, || format!("{}x{} [({}, {})] =", N, N, i, j));
                    let exp = g::<i32, N>(|x, y| if !out && (x, y) == (i, j) { 99 } else { a[x][y] });
                    r.check("a write changes only the named entry", *w == exp, || format!("{:?}", w));
                    let mut w = m;
                    r.check("out-of-range row write panics", catch(|| w[i][j] = 98).is_err() == out, || format!("{}x{} [{}][{}] =", N, N, i, j));
                    let exp = g::<i32, N>(|x, y| if !out && (x, y) == (i, j) { 98 } else { a[x][y] });
                    r.check("a write changes only the named entry", *w == exp, || format!("{:?}", w));
                });
                edits(c);
            }

            #[derive(Clone)]
            struct S { m: $M<f64>, a: G<f64> }
            fn edits(c: &Ctx) {
                // entries live in Z/q so that the graph closes for small sizes
                let q: f64 = $closed_vals;
                let wrap = move |x: f64| x.rem_euclid(q);
                let cells = N * N;
                let swaps = N * (N - 1) / 2;
                let na = 2 * cells + swaps + 5 + if N == 6 { 8 } else { 0 };
                let step = |s: &S, act: usize, r: &mut Rec| -> Option<S> {
                    let mut n = s.clone();
                    let mut k = act;
                    let what;
                    if k < cells {
                        let (i, j) = (k / N, k % N);
                        let v = wrap(s.a[i][j] + 1.0);
                        n.m[(i, j)] = v;
                        n.a[i][j] = v;
                        what = "write through a pair index";
                    } else if k < 2 * cells {
                        k -= cells;
                        let (i, j) = (k / N, k % N);
                        let v = wrap(s.a[i][j] + q - 1.0);
                        n.m[i][j] = v;
                        n.a[i][j] = v;
                        what = "write through a row index";
                    } else if k < 2 * cells + swaps {
                        k -= 2 * cells;
                        let mut x = 0;
                        while k >= N - 1 - x { k -= N - 1 - x; x += 1 }
                        let y = x + 1 + k;
                        n.m.swap(x, y);
                        n.a.swap(x, y);
                        what = "row exchange";
                    } else {
                        k -= 2 * cells + swaps;
                        match k {
                            0 => {
                                n.m = n.m.for_each(|x| wrap(x * 2.0 + 1.0));
                                for x in n.a.as_flattened_mut() { *x = wrap(*x * 2.0 + 1.0) }
                                what = "mapping every entry";
                            }
                            1 => {
                                n.m = LinearAlgebra::transpose(&n.m);
                                n.a = g(|i, j| s.a[j][i]);
                                what = "transposition";
                            }
                            2 => {
                                for row in n.m.iter_mut() { row.reverse() }
                                for row in n.a.iter_mut() { row.reverse() }
                                what = "in-place iteration";
                            }
                            3 => {
                                n.m = $M::new_from_vecs(n.m.get_rows());
                                n.a = g(|i, j| s.a[j][i]);
                                what = "rows taken as columns";
                            }
                            4 => {
                                let (x, y) = (n.m[(0, 0)], n.m[(N - 1, N - 1)]);
                                n.m[(0, 0)] = y;
                                n.m[(N - 1, N - 1)] = x;
                                n.a[0][0] = s.a[N - 1][N - 1];
                                n.a[N - 1][N - 1] = s.a[0][0];
                                what = "exchange of two entries";
                            }
                            _ => {
                                let k = k - 5;
                                let quad = k % 4 + 1;
                                let bl: [[f64; 3]; 3] = if k < 4 { g(|i, j| wrap((i * 3 + j) as f64 + s.a[i][j])) } else { g(|i, j| s.a[(i + 3) % N][(j + 2) % N]) };
                                let f: fn(&mut $M<f64>, [[f64; 3]; 3], usize) = $quad;
                                f(&mut n.m, bl, quad);
                                let (ro, co) = (if quad > 2 { 3 } else { 0 }, if quad % 2 == 0 { 3 } else { 0 });
                                for i in 0..3 { for j in 0..3 { n.a[(ro + i) % N][(co + j) % N] = bl[i][j] } }
                                what = "block copy into a quadrant";
                            }
                        }
                    }
                    r.check(what, *n.m == n.a, || format!("{}x{} {:?} became {:?}, expected {:?}", N, N, s.a, n.m, n.a));
                    reads(&n.m, &n.a, r);
                    reads_float(&n.m, &n.a, r);
                    r.key(hash_f(N as u64, n.a.as_flattened()));
                    r.sample(|| format!("{:?}", n.a));
                    Some(n)
                };
                let init: Vec<S> = [g(|_, _| 0.0), g(|i, j| wrap((i * N + j) as f64)), g(|i, j| wrap((i + 2 * j) as f64))].into_iter().map(|a: G<f64>| S { m: $M::new(a), a }).collect();
                let depth = c.qt($init_depth.1, $init_depth.1 + 1);
                c.bfs(&format!("{}x{} edit sequences, entries mod {}", N, N, q), &init, na, depth, c.qt(5_000_000, 100_000_000), step, |s| s.a.as_flattened().iter().map(|x| x.to_bits()).collect());
            }
        }
    };
    (@tri none, none, $m:ident, $a:ident, $r:ident, $w:ident) => {};
    (@tri $upper:ident, $lower:ident, $m:ident, $a:ident, $r:ident, $w:ident) => {
        let (u, l) = ($m.$upper(), $m.$lower());
        let mut k = 0;
        let mut ok = u.len() == N * (N - 1) / 2 && l.len() == u.len();
        for i in 0..N { for j in i + 1..N { ok = ok && u[k] == $a[i][j]; k += 1 } }
        $r.check("upper triangle", ok, || format!("{}: {:?}", $w(), u));
        let mut k = 0;
        let mut ok = true;
        for i in 0..N { for j in 0..i { ok = ok && l[k] == $a[i][j]; k += 1 } }
        $r.check("lower triangle", ok, || format!("{}: {:?}", $w(), l));
    };
}
fn le_(a: f64, b: f64) -> bool { a <= b }

structure!(s2, M22, V2, 2, none, none, 4.0, (40, 40), |_, _, _| unreachable!());
structure!(s3, M33, V3, 3, get_upper_triagular, get_lower_triangular, 3.0, (40, 40), |_, _, _| unreachable!());
structure!(s4, M44, V4, 4, get_upper_triagular, get_lower_triangular, 2.0, (40, 40), |_, _, _| unreachable!());
structure!(s5, M55, V5, 5, get_upper_triagular, get_lower_triangular, 25.0, (3, 4), |_, _, _| unreachable!());
structure!(s6, M66, V6, 6, get_upper_triangular, get_lower_triangular, 36.0, (3, 3), |m, b, q| m.copy_elements_from(&M33::new(b), q));

macro_rules! vector {
    ($c:expr, $V:ident, $n:literal, $($k:literal),*) => {{
        const N: usize = $n;
        #[derive(Clone)]
        struct S { v: $V<f64>, a: [f64; N] }
        let reads = |v: &$V<f64>, a: &[f64; N], r: &mut Rec| {
            r.check("vector reads", (0..N).all(|i| v[i] == a[i]) && **v == *a && v.len() == N && v.iter().zip(a).all(|(x, y)| x == y) && &v[..] == &a[..], || format!("{:?} vs {:?}", v, a));
            r.check("vector construction", $V::new(*a) == *v && $V::from(*a) == *v && $V::new_from($(a[$k]),*) == *v, || format!("{:?}", a));
            let t: $V<f64> = (*a).into();
            r.check("vector equality is componentwise", t == *v && (0..N).all(|i| { let mut b = *a; b[i] += b[i].abs().max(1.0); $V::new(b) != *v }), || format!("{:?}", a));
        };
        let step = |s: &S, act: usize, r: &mut Rec| -> Option<S> {
            let mut n = s.clone();
            if act < N {
                n.v[act] = (s.a[act] + 1.0) % 4.0;
                n.a[act] = (s.a[act] + 1.0) % 4.0;
            } else if act < 2 * N - 1 {
                n.v.swap(act - N, act - N + 1);
                n.a.swap(act - N, act - N + 1);
            } else {
                for x in n.v.iter_mut() { *x = (*x * 3.0) % 4.0 }
                for x in n.a.iter_mut() { *x = (*x * 3.0) % 4.0 }
            }
            r.check("vector edits", *n.v == n.a, || format!("{:?} became {:?}, expected {:?}", s.a, n.v, n.a));
            reads(&n.v, &n.a, r);
            r.key(hash_f(100 + N as u64, &n.a));
            Some(n)
        };
        let a: [f64; N] = std::array::from_fn(|i| (i % 4) as f64);
        $c.bfs(&format!("vector {} edit sequences", N), &[S { v: $V::new([0.0; N]), a: [0.0; N] }, S { v: $V::new(a), a }], 2 * N, 60, 300_000, step, |s: &S| s.a.iter().map(|x| x.to_bits()).collect());
        let sh = fam::shapes::<N>();
        $c.space(&format!("vector {} of every structure", N), (sh.len() * 5) as u64, |i, r| {
            let mut d = Dec(i);
            let s = *d.pick(&[1.0, -0.3, 1e-9, 1e7, 1e-140]);
            let a = d.pick(&sh).map(|x| x * s);
            r.key(hash_f(200 + N as u64, &a));
            let v = $V::new(a);
            reads(&v, &a, r);
            for p in 0..N { for q in 0..N {
                let (mut o, mut f) = (a, a);
                o.swap(p, q);
                f[p] = -f[p];
                if p != q { f[q] = -f[q] }
                r.check("vector equality is componentwise", ($V::new(o) == v) == (o == a) && ($V::new(f) == v) == (f == a) && ($V::new(f) != v) == (f != a) && (v == $V::new(f)) == (f == a), || format!("{:?} {:?} {:?}", a, o, f));
            } }
        });
        $c.space(&format!("vector {} out-of-range indices panic", N), 6, |k, r| {
            let i = [0, N - 1, N, N + 1, 2 * N, usize::MAX][k as usize];
            let a: [i32; N] = std::array::from_fn(|i| i as i32 * 3 + 1);
            let v = $V::new(a);
            r.key(hash_u(N as u64, &[k, 9]));
            r.check("out-of-range vector index panics", catch(|| v[i]).is_err() == (i >= N), || format!("{} [{}]", N, i));
            let mut w = v;
            r.check("out-of-range vector write panics", catch(|| w[i] = 0).is_err() == (i >= N), || format!("{} [{}]", N, i));
            r.check("zeros, ones", *$V::<i32>::zeros() == [0; N] && *$V::<i32>::ones() == [1; N], || "wrong".into());
            let b: [f32; N] = std::array::from_fn(|i| i as f32 * 1.5 - 1.0);
            r.check("vector construction", *$V::new_from($(b[$k]),*) == b && *$V::from(b) == b, || format!("{:?}", b));
        });
    }};
}

fn specials(c: &Ctx) {
    c.space("literal macros and component constructors", 36, |i, r| {
        let o = i as i32 * 11;
        r.key(hash_u(5, &[i]));
        let e = |k: i32| k + o;
        let m = m22_new!(e(1), e(2); e(3), e(4));
        r.check("2x2 literal", *m == g::<i32, 2>(|i, j| e((i * 2 + j) as i32 + 1)) && M22::new_from(e(1), e(2), e(3), e(4)) == m, || format!("{:?}", m));
        let m = m33_new!(e(1), e(2), e(3); e(4), e(5), e(6); e(7), e(8), e(9));
        r.check("3x3 literal", *m == g::<i32, 3>(|i, j| e((i * 3 + j) as i32 + 1)), || format!("{:?}", m));
        let m = m44_new!(e(1), e(2), e(3), e(4); e(5), e(6), e(7), e(8); e(9), e(10), e(11), e(12); e(13), e(14), e(15), e(16));
        r.check("4x4 literal", *m == g::<i32, 4>(|i, j| e((i * 4 + j) as i32 + 1)), || format!("{:?}", m));
        let m = m55_new!(e(1), e(2), e(3), e(4), e(5); e(6), e(7), e(8), e(9), e(10); e(11), e(12), e(13), e(14), e(15); e(16), e(17), e(18), e(19), e(20); e(21), e(22), e(23), e(24), e(25));
        r.check("5x5 literal", *m == g::<i32, 5>(|i, j| e((i * 5 + j) as i32 + 1)), || format!("{:?}", m));
        let m = m66_new!(e(1), e(2), e(3), e(4), e(5), e(6); e(7), e(8), e(9), e(10), e(11), e(12); e(13), e(14), e(15), e(16), e(17), e(18);
            e(19), e(20), e(21), e(22), e(23), e(24); e(25), e(26), e(27), e(28), e(29), e(30); e(31), e(32), e(33), e(34), e(35), e(36));
        r.check("6x6 literal", *m == g::<i32, 6>(|i, j| e((i * 6 + j) as i32 + 1)), || format!("{:?}", m));
    });
    // 4x4 sub-matrices for every removed row and column, every single distinguished entry
    c.space("4x4 sub-matrices", 16 * 17, |k, r| {
        let mut d = Dec(k);
        let (si, sj) = (d.take(4), d.take(4));
        let h = d.0 as usize;
        let a = g::<i32, 4>(|i, j| if h < 16 { (i * 4 + j == h) as i32 * 7 } else { (i * 4 + j) as i32 });
        r.key(hash_u(6, &[k]));
        let s = M44::new(a).get_submatrix((si, sj));
        let e = g::<i32, 3>(|i, j| a[i + (i >= si) as usize][j + (j >= sj) as usize]);
        r.check("sub-matrix drops the selected row and column", *s == e, || format!("{:?} without ({}, {}) = {:?}, expected {:?}", a, si, sj, s, e));
    });
    // all block copies: quadrant x target pattern x source pattern, and invalid quadrants
    c.space("6x6 block copies", 8 * 37 * 10, |k, r| {
        let mut d = Dec(k);
        let quad = [1usize, 2, 3, 4, 0, 5, 6, usize::MAX][d.take(8)];
        let t = d.take(37);
        let s = d.take(10);
        let a = g::<i32, 6>(|i, j| if t < 36 { (i * 6 + j == t) as i32 * 5 } else { (i * 6 + j) as i32 + 100 });
        let b = g::<i32, 3>(|i, j| if s < 9 { (i * 3 + j == s) as i32 * 9 } else { -((i * 3 + j) as i32) - 1 });
        r.key(hash_u(7, &[k]));
        let mut m = M66::new(a);
        let res = catch(|| m.copy_elements_from(&M33::new(b), quad));
        if (1..=4).contains(&quad) {
            let (ro, co) = (if quad > 2 { 3 } else { 0 }, if quad % 2 == 0 { 3 } else { 0 });
            let e = g::<i32, 6>(|i, j| if i / 3 * 3 == ro && j / 3 * 3 == co { b[i % 3][j % 3] } else { a[i][j] });
            r.check("block copy into a quadrant", res.is_ok() && *m == e, || format!("quadrant {}: {:?}, expected {:?}", quad, m, e));
        } else {
            r.check("invalid quadrant is refused and changes nothing", res.is_err() && *m == a, || format!("quadrant {}: {:?}", quad, m));
        }
    });
    // block copies of floats at every magnitude, special values included, bit by bit
    let ms = [1e-300, 1e-110, 1e-40, 1e-25, 1e-18, 1e-14, 1e-10, 1e-8, 1e-6, 1e-4, 1e-2, 1.0, 7.0, 300.0, 1e5, 1e8, 1e12, 1e16, 1e30, 1e110, 1e300, f64::INFINITY, f64::NAN, -0.0];
    c.space("block copies of floats", (4 * ms.len() * 10) as u64, |i, r| {
        let mut d = Dec(i);
        let (quad, m, s) = (d.take(4) + 1, *d.pick(&ms), d.take(10));
        r.key(hash_u(8, &[i]));
        let a = g::<f64, 6>(|i, j| (i * 6 + j) as f64 * 0.5 - 3.0);
        let b = g::<f64, 3>(|i, j| if s == 9 || i * 3 + j == s { m * (1.0 + (i * 3 + j) as f64 * 0.25) } else { -1.5 * (i * 3 + j) as f64 });
        fn go<T: Fl>(a: &[[f64; 6]; 6], b: &[[f64; 3]; 3], quad: usize, r: &mut Rec) {
            let a = a.map(|x| x.map(T::of));
            let b = b.map(|x| x.map(T::of));
            let mut m = M66::new(a);
            m.copy_elements_from(&M33::new(b), quad);
            let (ro, co) = (if quad > 2 { 3 } else { 0 }, if quad % 2 == 0 { 3 } else { 0 });
            let ok = (0..36).all(|k| { let (i, j) = (k / 6, k % 6); let e = if i / 3 * 3 == ro && j / 3 * 3 == co { b[i % 3][j % 3] } else { a[i][j] }; m[(i, j)].to().to_bits() == e.to().to_bits() });
            r.check("block copy into a quadrant", ok, || format!("quadrant {}: {:?} of {:?}", quad, m, b));
        }
        go::<f64>(&a, &b, quad, r);
        go::<f32>(&a, &b, quad, r);
    });
    // blocks and targets of every structure, and blocks that already agree with the target except in a few places
    let (g3, g6) = (fam::grids::<3>(), fam::grids::<6>());
    c.space("block copies of every structure", (4 * g6.len() * 4) as u64, |i, r| {
        let mut d = Dec(i);
        let (quad, k, x) = (d.take(4) + 1, d.take(4), d.take(g6.len()));
        let a = g6[x];
        let (ro, co) = (if quad > 2 { 3 } else { 0 }, if quad % 2 == 0 { 3 } else { 0 });
        let cur = g::<f64, 3>(|i, j| a[ro + i][co + j]);
        let p = x % 9;
        let b = match k {
            0 => g3[x % g3.len()],
            1 => g::<f64, 3>(|i, j| if i * 3 + j == p { cur[i][j] + 1e-9 } else { cur[i][j] }),
            2 => g::<f64, 3>(|i, j| -cur[j][i]),
            _ => g::<f64, 3>(|i, j| a[3 - ro + i][3 - co + j]),
        };
        r.key(hash_u(9, &[i]));
        let mut m = M66::new(a);
        m.copy_elements_from(&M33::new(b), quad);
        let e = g::<f64, 6>(|i, j| if i / 3 * 3 == ro && j / 3 * 3 == co { b[i % 3][j % 3] } else { a[i][j] });
        r.check("block copy into a quadrant", *m == e, || format!("quadrant {}: {:?} of {:?}", quad, m, b));
    });
}

fn main() {
    run(
        "C06",
        "model_checking",
        "explicit-state search over in-place edit sequences: a state is the real matrix next to a plain grid, every transition executes the real edit and then compares every read (indexing, rows, columns, triangles, diagonal, flat list, transposition, trace, norm, shape, reconstruction) with the grid; sizes 2-4 close (all reachable states), 5-6 to the stated depth; plus enumerated construction, out-of-range, sub-matrix and block-copy spaces; non-trivial: distinct grids",
        &["entries are taken modulo a small number so that the state graph is finite", "trace and norm up to rounding, everything else exact"],
        |c| {
            s2::run_all(c);
            s3::run_all(c);
            s4::run_all(c);
            s5::run_all(c);
            s6::run_all(c);
            vector!(c, V2, 2, 0, 1);
            vector!(c, V3, 3, 0, 1, 2);
            vector!(c, V4, 4, 0, 1, 2, 3);
            vector!(c, V5, 5, 0, 1, 2, 3, 4);
            vector!(c, V6, 6, 0, 1, 2, 3, 4, 5);
            specials(c);
        },
    );
}
