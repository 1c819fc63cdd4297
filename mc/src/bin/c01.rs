//! C01: arithmetic of vectors and matrices, entry by entry, on every size and scalar type.
use mc::adapt::*;
use mc::refm::A;
use mc::scal::Fp;
use mc::*;
use num::rational::Ratio;

type R<'a> = &'a mut Rec;

fn eqv<T: Sc, const N: usize>(r: R, key: &'static str, got: [T; N], exp: [T; N], mag: [T; N], what: impl Fn() -> String) {
    let ok = (0..N).all(|i| T::close(got[i], exp[i], mag[i], 2 * N));
    r.check(key, ok, || format!("{} size {}: {} gave {:?}, expected {:?}", T::TNAME, N, what(), got, exp));
}
fn eqm<T: Sc, const N: usize>(r: R, key: &'static str, got: [[T; N]; N], exp: [[T; N]; N], mag: [[T; N]; N], what: impl Fn() -> String) {
    let ok = (0..N).all(|i| (0..N).all(|j| T::close(got[i][j], exp[i][j], mag[i][j], 2 * N)));
    r.check(key, ok, || format!("{} {}x{}: {} gave {:?}, expected {:?}", T::TNAME, N, N, what(), got, exp));
}
fn mm<T, const N: usize>(f: impl Fn(usize, usize) -> T) -> [[T; N]; N] { std::array::from_fn(|i| std::array::from_fn(|j| f(i, j))) }
fn vv<T, const N: usize>(f: impl Fn(usize) -> T) -> [T; N] { std::array::from_fn(f) }

/// all operations on a pair of matrices and a scalar
fn matrices<T: Sc, V: Vx<T, N>, M: Mx<T, V, N>, const N: usize>(a: &[[T; N]; N], b: &[[T; N]; N], s: T, div: bool, r: R) {
    let (x, y) = (M::mk(*a), M::mk(*b));
    let ab = |z: T| z.abs();
    let w = || format!("A={:?} B={:?} s={:?}", a, b, s);
    let sum = mm(|i, j| a[i][j] + b[i][j]);
    let dif = mm(|i, j| a[i][j] - b[i][j]);
    let mag = mm(|i, j| ab(a[i][j]) + ab(b[i][j]));
    eqm(r, "matrix + matrix", (x + y).arr(), sum, mag, w);
    eqm(r, "matrix - matrix", (x - y).arr(), dif, mag, w);
    let mut z = x;
    z += y;
    eqm(r, "matrix += matrix", z.arr(), sum, mag, w);
    let mut z = x;
    z -= y;
    eqm(r, "matrix -= matrix", z.arr(), dif, mag, w);
    eqm(r, "-matrix", (-x).arr(), mm(|i, j| -a[i][j]), mm(|i, j| ab(a[i][j])), w);
    eqm(r, "matrix * scalar", (x * s).arr(), mm(|i, j| a[i][j] * s), mm(|i, j| ab(a[i][j] * s)), w);
    if div {
        eqm(r, "matrix / scalar", (x / s).arr(), mm(|i, j| a[i][j] / s), mm(|i, j| ab(a[i][j] / s)), w);
    }
    let dot = |i: usize, j: usize| (0..N).fold(T::zero(), |t, k| t + a[i][k] * b[k][j]);
    let dm = |i: usize, j: usize| (0..N).fold(T::zero(), |t, k| t + ab(a[i][k] * b[k][j]));
    eqm(r, "matrix * matrix", (x * y).arr(), mm(dot), mm(dm), w);
    // equality is entrywise
    let same = (0..N).all(|i| (0..N).all(|j| a[i][j] == b[i][j]));
    r.check("matrix == matrix", (x == y) == same, || w());
}
/// all operations on two vectors, a matrix and a scalar
fn vectors<T: Sc, V: Vx<T, N>, M: Mx<T, V, N>, const N: usize>(u: &[T; N], v: &[T; N], m: &[[T; N]; N], s: T, div: bool, r: R) {
    let (x, y, mt) = (V::mk(*u), V::mk(*v), M::mk(*m));
    let ab = |z: T| z.abs();
    let w = || format!("u={:?} v={:?} s={:?} M={:?}", u, v, s, m);
    let mag = vv(|i| ab(u[i]) + ab(v[i]));
    let sum = vv(|i| u[i] + v[i]);
    let dif = vv(|i| u[i] - v[i]);
    eqv(r, "vector + vector", (x + y).arr(), sum, mag, w);
    eqv(r, "vector - vector", (x - y).arr(), dif, mag, w);
    let mut z = x;
    z += y;
    eqv(r, "vector += vector", z.arr(), sum, mag, w);
    let mut z = x;
    z -= y;
    eqv(r, "vector -= vector", z.arr(), dif, mag, w);
    eqv(r, "-vector", (-x).arr(), vv(|i| -u[i]), vv(|i| ab(u[i])), w);
    eqv(r, "vector * scalar", (x * s).arr(), vv(|i| u[i] * s), vv(|i| ab(u[i] * s)), w);
    if div {
        eqv(r, "vector / scalar", (x / s).arr(), vv(|i| u[i] / s), vv(|i| ab(u[i] / s)), w);
    }
    let d = x * y;
    let de = (0..N).fold(T::zero(), |t, k| t + u[k] * v[k]);
    let dm = (0..N).fold(T::zero(), |t, k| t + ab(u[k] * v[k]));
    r.check("vector * vector (dot)", T::close(d, de, dm, 2 * N), || format!("{} gave {:?}, expected {:?}", w(), d, de));
    eqv(r, "matrix * vector", (mt * x).arr(), vv(|i| (0..N).fold(T::zero(), |t, k| t + m[i][k] * u[k])), vv(|i| (0..N).fold(T::zero(), |t, k| t + ab(m[i][k] * u[k]))), w);
    eqv(r, "vector * matrix", M::vecmul(x, mt).arr(), vv(|j| (0..N).fold(T::zero(), |t, k| t + u[k] * m[k][j])), vv(|j| (0..N).fold(T::zero(), |t, k| t + ab(u[k] * m[k][j]))), w);
    let same = (0..N).all(|i| u[i] == v[i]);
    r.check("vector == vector", (x == y) == same, || w());
}

/// zero/identity values and tests
fn neutral<T: Sc, V: Vx<T, N>, M: Mx<T, V, N>, const N: usize>(c: &Ctx) {
    let (o, l) = (T::zero(), T::one());
    c.space(&format!("{} {}: neutral elements", T::TNAME, N), (N * N + 1) as u64 * 3, |i, r| {
        let mut d = Dec(i);
        let val = *d.pick(&[l, T::from_i(-3), l + l]);
        let k = d.0 as usize;
        r.key(hash_u(N as u64, &[i, T::TNAME.len() as u64]));
        let z = mm::<T, N>(|_, _| o);
        let id = mm::<T, N>(|i, j| if i == j { l } else { o });
        r.check("zero matrix", M::zeros_().arr() == z && M::zero_().arr() == z, || format!("{:?}", M::zeros_()));
        r.check("identity matrix", M::identity_().arr() == id && M::one_().arr() == id, || format!("{:?}", M::identity_()));
        r.check("zero vector", V::zeros_().arr() == [o; N] && <V as num::Zero>::zero().arr() == [o; N], || format!("{:?}", V::zeros_()));
        r.check("ones vector", V::ones_().arr() == [l; N], || format!("{:?}", V::ones_()));
        r.check("is_zero(zero)", M::zeros_().is_zero_() && V::zeros_().is_zero(), || "false".into());
        r.check("is_one(identity)", M::identity_().is_one_() && !M::zeros_().is_one_(), || "wrong".into());
        if k < N * N && val != o {
            let mut a = z;
            a[k / N][k % N] = val;
            r.check("is_zero only for zero", !M::mk(a).is_zero_(), || format!("{:?}", a));
            let mut b = id;
            b[k / N][k % N] = b[k / N][k % N] + val;
            r.check("is_one only for identity", !M::mk(b).is_one_(), || format!("{:?}", b));
            if k < N {
                let mut u = [o; N];
                u[k] = val;
                r.check("vector is_zero only for zero", !V::mk(u).is_zero(), || format!("{:?}", u));
            }
            let x = M::mk(a);
            r.check("I*A = A*I = A, A+0 = A", x * M::identity_() == x && M::identity_() * x == x && x + M::zeros_() == x, || format!("{:?}", a));
        }
    });
}

/// zero and identity tests on values that nearly cancel or nearly agree
fn zero_tests<T: Sc, V: Vx<T, N>, M: Mx<T, V, N>, const N: usize>(c: &Ctx, tiny: &[T]) {
    let (o, l) = (T::zero(), T::one());
    let neg = o - l;
    c.space(&format!("{} {}: zero test on every vector over -1, 0, 1", T::TNAME, N), 3u64.pow(N as u32), |i, r| {
        let mut d = Dec(i);
        let v: [T; N] = std::array::from_fn(|_| *d.pick(&[o, l, neg]));
        r.key(hash_u(N as u64 * 3 + T::TNAME.len() as u64, &[i, 91]));
        let z = v.iter().all(|x| *x == o);
        r.check("vector is_zero only for zero", V::mk(v).is_zero() == z, || format!("{:?}", v));
    });
    let mut vals = vec![l, neg];
    vals.extend_from_slice(tiny);
    let nv = vals.len();
    let nn = N * N;
    c.space(&format!("{} {}: zero and identity tests with up to two other entries", T::TNAME, N), (nn * nn * nv * nv) as u64, |i, r| {
        let mut d = Dec(i);
        let (p, q, x, y) = (d.take(nn), d.take(nn), *d.pick(&vals), *d.pick(&vals));
        r.key(hash_u(N as u64 * 3 + T::TNAME.len() as u64, &[i, 92]));
        let z = mm::<T, N>(|_, _| o);
        let id = mm::<T, N>(|i, j| if i == j { l } else { o });
        let set = |mut m: [[T; N]; N], f: &dyn Fn(T, T) -> T| { m[p / N][p % N] = f(m[p / N][p % N], x); m[q / N][q % N] = f(m[q / N][q % N], y); m };
        let a = set(z, &|_, v| v);
        r.check("is_zero only for zero", M::mk(a).is_zero_() == (a == z), || format!("{:?}", a));
        r.check("is_one only for identity", M::mk(a).is_one_() == (a == id), || format!("{:?}", a));
        for b in [set(id, &|_, v| v), set(id, &|u, v| u + v)] {
            r.check("is_one only for identity", M::mk(b).is_one_() == (b == id), || format!("{:?}", b));
            r.check("is_zero only for zero", M::mk(b).is_zero_() == (b == z), || format!("{:?}", b));
        }
        if p < N && q < N {
            let mut u = [o; N];
            u[p] = x;
            u[q] = y;
            r.check("vector is_zero only for zero", V::mk(u).is_zero() == (u == [o; N]), || format!("{:?}", u));
        }
    });
}

/// degree-2 principal lattice in all the variables of the bilinear operations
fn lattice<T: Sc, V: Vx<T, N>, M: Mx<T, V, N>, const N: usize>(c: &Ctx) {
    let n = 2 * N * N + 1;
    c.space(&format!("{} {}x{}: degree-2 lattice, matrix pairs", T::TNAME, N, N), lattice_size(n, 2), |i, r| {
        let mut p = vec![0u8; n];
        lattice_point(n, 2, i, &mut p);
        let g = |k: usize| T::from_i(p[k] as i64);
        let a = mm(|x, y| g(x * N + y));
        let b = mm(|x, y| g(N * N + x * N + y));
        let s = g(2 * N * N);
        r.key(hash_u(N as u64 * 7 + T::TNAME.len() as u64, &[i]));
        matrices::<T, V, M, N>(&a, &b, s, s != T::zero(), r);
    });
    let n = N * N + 2 * N + 1;
    c.space(&format!("{} {}: degree-2 lattice, vectors and matrix", T::TNAME, N), lattice_size(n, 2), |i, r| {
        let mut p = vec![0u8; n];
        lattice_point(n, 2, i, &mut p);
        let g = |k: usize| T::from_i(p[k] as i64);
        let m = mm(|x, y| g(x * N + y));
        let u = vv(|x| g(N * N + x));
        let v = vv(|x| g(N * N + N + x));
        let s = g(N * N + 2 * N);
        r.key(hash_u(N as u64 * 7 + T::TNAME.len() as u64, &[i, 5]));
        vectors::<T, V, M, N>(&u, &v, &m, s, s != T::zero(), r);
    });
}

/// base pairs (with a bounded number of changed entries on either side)
fn pairs<T: Sc, V: Vx<T, N>, M: Mx<T, V, N>, const N: usize>(c: &Ctx) {
    let bs: Vec<A<N>> = fam::bases::<N>().into_iter().map(|x| x.1).collect();
    let cv = |x: f64| T::from_i((x * 16.0) as i64);
    let scal = [T::from_i(3), T::from_i(-1), T::one(), T::from_i(-7), T::from_i(2), T::zero()];
    let nb = bs.len() as u64;
    c.space(&format!("{} {}x{}: all pairs of base matrices", T::TNAME, N, N), nb * nb * scal.len() as u64, |i, r| {
        let mut d = Dec(i);
        let s = *d.pick(&scal);
        let (p, q) = (d.pick(&bs), d.pick(&bs));
        r.key(hash_u(N as u64 * 31 + T::TNAME.len() as u64, &[i]));
        r.sample(|| format!("{:?} {:?}", p, q));
        let a = mm(|i, j| cv(p[i][j]));
        let b = mm(|i, j| cv(q[i][j]));
        matrices::<T, V, M, N>(&a, &b, s, s != T::zero(), r);
        for k in 0..N {
            let u = vv(|j| b[k][j]);
            let v = vv(|j| b[j][(k + 1) % N]);
            vectors::<T, V, M, N>(&u, &v, &a, s, s != T::zero(), r);
        }
    });
    // up to two changed cells in the concatenation (A,B,s)
    let vals: Vec<T> = [0, 1, -1, 100, -37].iter().map(|x| T::from_i(*x)).collect();
    let cells = 2 * N * N + 1;
    let pick: Vec<(usize, usize)> = vec![(7, 8), (9, 10), (11, 7), (1, 12), (0, 7), (16, 2)];
    let per = fam::dev_count(cells as u64, vals.len() as u64, if N >= 5 { 2 } else { c.qt(2, 3) });
    c.space(&format!("{} {}x{}: base pairs, bounded changes", T::TNAME, N, N), per * pick.len() as u64, |i, r| {
        let (p, q) = pick[(i % pick.len() as u64) as usize];
        let mut dv = Vec::new();
        fam::dev_at(cells as u64, vals.len() as u64, i / pick.len() as u64, &mut dv);
        let mut a = mm(|i, j| cv(bs[p][i][j]));
        let mut b = mm(|i, j| cv(bs[q][i][j]));
        let mut s = T::from_i(3);
        for (cell, v) in dv {
            if cell < N * N {
                a[cell / N][cell % N] = vals[v];
            } else if cell < 2 * N * N {
                let k = cell - N * N;
                b[k / N][k % N] = vals[v];
            } else {
                s = vals[v];
            }
        }
        r.key(hash_u(N as u64 * 131 + T::TNAME.len() as u64, &[i]));
        matrices::<T, V, M, N>(&a, &b, s, s != T::zero(), r);
        let u = vv(|j| b[0][j]);
        let v = vv(|j| b[j][N - 1]);
        vectors::<T, V, M, N>(&u, &v, &a, s, s != T::zero(), r);
        vectors::<T, V, M, N>(&v, &u, &b, s, s != T::zero(), r);
    });
}

/// every vector over a small alphabet against matrices of every structure
fn small_vectors<T: Sc, V: Vx<T, N>, M: Mx<T, V, N>, const N: usize>(c: &Ctx) {
    let bs: Vec<A<N>> = fam::bases::<N>().into_iter().map(|x| x.1).collect();
    let ms: Vec<[[T; N]; N]> = bs.iter().map(|b| mm(|i, j| T::from_i((b[i][j] * 16.0) as i64))).collect();
    let al: Vec<T> = (if N <= 3 { vec![0, 1, -1, 2, -2, 5] } else { vec![0, 1, -1] }).into_iter().map(T::from_i).collect();
    let nv = (al.len() as u64).pow(N as u32);
    c.space(&format!("{} {}: every small vector against every base matrix", T::TNAME, N), nv * ms.len() as u64, |i, r| {
        let mut d = Dec(i);
        let k = d.take(ms.len());
        let u: [T; N] = std::array::from_fn(|_| *d.pick(&al));
        // the partner and the scalar vary with the case
        let v: [T; N] = vv(|j| u[(j + k) % N] + T::from_i(((i >> j) % 3) as i64 - 1));
        let s = T::from_i([1, -1, 2, 3, -5][(i % 5) as usize]);
        r.key(hash_u(N as u64 * 41 + T::TNAME.len() as u64, &[i, 77]));
        vectors::<T, V, M, N>(&u, &v, &ms[k], s, true, r);
    });
}

/// operands of every structure against unlike, equal, opposite and transposed ones
fn structures<T: Sc, V: Vx<T, N>, M: Mx<T, V, N>, const N: usize>(c: &Ctx) {
    let g = fam::grids::<N>();
    let exact = T::close(T::from_i(1), T::from_i(1), T::from_i(1), 1) && T::from_i(1) / T::from_i(2) == T::zero();
    // whole numbers: sixteen times the entries
    let cv = |x: f64| -> T { if exact { T::from_i((x * 16.0).clamp(-1e7, 1e7) as i64) } else { T::from_f(x) } };
    let sc = [2.0, -1.0, 0.5, -3.0, 1.0, 7.0, 0.0];
    let n = 8usize;
    c.every(&format!("{} {}x{}: operands of every structure", T::TNAME, N, N), (g.len() * n) as u64, 1, |i, r| {
        let mut d = Dec(i);
        let (k, x) = (d.take(n), d.take(g.len()));
        let a: [[T; N]; N] = mm(|i, j| cv(g[x][i][j]));
        let o = &g[(x * 7 + 11) % g.len()];
        let b: [[T; N]; N] = match k {
            0 => mm(|i, j| cv(o[i][j])),
            1 => a,
            2 => mm(|i, j| -a[i][j]),
            3 => mm(|i, j| a[j][i]),
            4 => mm(|i, j| cv(g[x][N - 1 - i][j])),
            5 => mm(|i, j| if i == j { T::one() } else { T::zero() }),
            6 => mm(|i, j| if (i + j) % 2 == 0 { a[i][j] } else { cv(o[i][j]) }),
            _ => mm(|i, j| T::from_i((i * 5 + j * 3) as i64 % 7 - 2)),
        };
        let s = cv(sc[(x + k) % sc.len()]);
        r.key(hash_u(N as u64 * 59 + T::TNAME.len() as u64, &[i, 177]));
        r.sample(|| format!("{:?} {:?}", a, b));
        matrices::<T, V, M, N>(&a, &b, s, s != T::zero(), r);
        matrices::<T, V, M, N>(&b, &a, s, s != T::zero(), r);
        for j in 0..N {
            vectors::<T, V, M, N>(&a[j], &b[(j + k) % N], &a, s, s != T::zero(), r);
            vectors::<T, V, M, N>(&b[j], &a[(j + 1) % N], &b, s, s != T::zero(), r);
        }
    });
    // vectors of every structure in pairs, and against matrices
    let h = fam::shapes::<N>();
    c.every(&format!("{} {}: vectors of every structure", T::TNAME, N), (h.len() * h.len()) as u64, 1, |i, r| {
        let (x, y) = ((i as usize) / h.len(), (i as usize) % h.len());
        let (u, v): ([T; N], [T; N]) = (vv(|j| cv(h[x][j])), vv(|j| cv(h[y][j])));
        let m: [[T; N]; N] = mm(|a, b| cv(g[i as usize % g.len()][a][b]));
        let s = cv(sc[(x + y) % sc.len()]);
        r.key(hash_u(N as u64 * 67 + T::TNAME.len() as u64, &[i, 178]));
        vectors::<T, V, M, N>(&u, &v, &m, s, s != T::zero(), r);
    });
}

/// float-only: magnitudes, and one NaN anywhere must reach exactly the entries that depend on it
fn floats<T: Sc + Fl, V: Vx<T, N>, M: Mx<T, V, N>, const N: usize>(c: &Ctx) {
    let bs: Vec<A<N>> = fam::bases::<N>().into_iter().map(|x| x.1).collect();
    let big = if <T as Fl>::EPS < 1e-10 { 1e150 } else { 1e17 };
    let mags = [1.0, 1e-3, 1e6, 1e-9, 1e12, -1e4, 1e-15, 1e15, big, 1.0 / big];
    let some = [7usize, 8, 10, 11, 13, 15, 17];
    let size = (some.len() * some.len() * mags.len() * mags.len()) as u64;
    c.space(&format!("{} {}x{}: magnitudes", <T as Fl>::NAME, N, N), size, |i, r| {
        let mut d = Dec(i);
        let (ma, mb) = (*d.pick(&mags), *d.pick(&mags));
        let (p, q) = (&bs[*d.pick(&some)], &bs[*d.pick(&some)]);
        let a = mm(|i, j| T::of(p[i][j] * ma / 3.0));
        let b = mm(|i, j| T::of(q[i][j] * mb / 7.0));
        let s = T::of(mb / 11.0);
        r.key(hash_u(N as u64 * 977 + <T as Fl>::NAME.len() as u64, &[i]));
        matrices::<T, V, M, N>(&a, &b, s, true, r);
        vectors::<T, V, M, N>(&b[0], &a[N - 1], &a, s, true, r);
        vectors::<T, V, M, N>(&a[1], &b[1], &b, s, true, r);
    });
    // every order of magnitude against every other, on few bases, with the columns of one operand unlike
    let ladder = [1e-110, 1e-60, 1e-25, 1e-18, 1e-17, 1e-14, 1e-13, 1e-11, 1e-10, 1e-8, 1e-7, 1e-5, 1e-4, 1e-2, 0.3, 1.0, 4.0, 50.0, 3e2, 2e3, 1e5, 1e7, 1e8, 1e10, 1e13, 1e14, 1e16, 1e18, 1e25, 1e60, 1e110];
    let fits = |x: f64| <T as Fl>::EPS < 1e-10 || (1e-30..1e30).contains(&x);
    let few = [8usize, 13, 17];
    c.space(&format!("{} {}x{}: every pair of magnitudes", <T as Fl>::NAME, N, N), (9 * ladder.len() * ladder.len() * 3) as u64, |i, r| {
        let mut d = Dec(i);
        let (ma, mb) = (*d.pick(&ladder), *d.pick(&ladder));
        let (p, q) = (&bs[*d.pick(&few)], &bs[*d.pick(&few)]);
        let pat = d.take(3);
        // the entries outside the scaled ones stay at one; whatever leaves the range of the precision is left out
        if !fits(ma * mb) || !fits(ma / mb) || !fits(ma) || !fits(mb) { return }
        let part = |i: usize, j: usize, m: f64| match pat { 0 => m, 1 => if j % 2 == 0 { m } else { 1.0 }, _ => if (i + j) % 3 == 0 { m } else { 1.0 } };
        let a = mm(|i, j| T::of(p[i][j] * part(i, j, ma) / 3.0));
        let b = mm(|i, j| T::of(q[i][j] * part(j, i, mb) / 7.0));
        let s = T::of(mb / 11.0);
        r.key(hash_u(N as u64 * 983 + <T as Fl>::NAME.len() as u64, &[i]));
        matrices::<T, V, M, N>(&a, &b, s, true, r);
        vectors::<T, V, M, N>(&b[0], &a[N - 1], &a, s, true, r);
        vectors::<T, V, M, N>(&a[1], &b[1], &b, s, true, r);
    });
    // operands that are nearly equal or opposite, or whose entries are
    let de = fam::DELTA;
    c.space(&format!("{} {}x{}: nearly equal operands", <T as Fl>::NAME, N, N), (some.len() * de.len() * 2 * (N * N + 2)) as u64, |i, r| {
        let mut d = Dec(i);
        let (p, e, s, k) = (&bs[*d.pick(&some)], *d.pick(&de), [1.0, -1.0][d.take(2)], d.take(N * N + 2));
        let x: A<N> = mm(|i, j| if k == N * N + 1 { 1.0 + e * p[i][j] } else { p[i][j] + 0.5 });
        // every entry off by the same factor, or a single one
        let y: A<N> = mm(|i, j| if k >= N * N || k == i * N + j { s * x[i][j] * (1.0 + e) } else { s * x[i][j] });
        let (a, b) = (mm(|i, j| T::of(x[i][j])), mm(|i, j| T::of(y[i][j])));
        r.key(hash_u(N as u64 * 991 + <T as Fl>::NAME.len() as u64, &[i]));
        let s = T::of(s * (1.0 + e));
        matrices::<T, V, M, N>(&a, &b, s, true, r);
        for j in [0, N - 1] {
            vectors::<T, V, M, N>(&a[j], &b[j], &b, s, true, r);
            vectors::<T, V, M, N>(&b[j], &a[(j + 1) % N], &a, s, true, r);
        }
    });
    let nan = T::of(f64::NAN);
    c.space(&format!("{} {}x{}: one NaN component", <T as Fl>::NAME, N, N), (some.len() * (2 * N * N + 1)) as u64, |i, r| {
        let mut d = Dec(i);
        let p = &bs[*d.pick(&some)];
        let k = d.0 as usize;
        let mut a = mm(|i, j| T::of(p[i][j] + 0.5));
        let mut b = mm(|i, j| T::of(p[j][i] - 2.0));
        let mut s = T::of(3.0);
        if k < N * N {
            a[k / N][k % N] = nan;
        } else if k < 2 * N * N {
            b[(k - N * N) / N][(k - N * N) % N] = nan;
        } else {
            s = nan;
        }
        r.key(hash_u(N as u64 * 1009 + <T as Fl>::NAME.len() as u64, &[i]));
        matrices::<T, V, M, N>(&a, &b, s, true, r);
        vectors::<T, V, M, N>(&b[0], &a[N - 1], &a, s, true, r);
        vectors::<T, V, M, N>(&a[1], &b[N - 1], &b, s, true, r);
    });
}

/// every pair over a finite field
fn field_all<const P: u32, V: Vx<Fp<P>, N>, M: Mx<Fp<P>, V, N>, const N: usize>(c: &Ctx) {
    let cells = 2 * N * N;
    let size = (P as u64).pow(cells as u32) * P as u64;
    c.space(&format!("F{} {}x{}: every pair of matrices and every scalar", P, N, N), size, |i, r| {
        let mut d = Dec(i);
        let s = Fp(d.take(P as usize) as u32);
        let mut g = || Fp::<P>(d.take(P as usize) as u32);
        let mut a = [[Fp(0); N]; N];
        let mut b = a;
        for x in 0..N { for y in 0..N { a[x][y] = g(); b[x][y] = g(); } }
        r.key(hash_u(P as u64 * 10 + N as u64, &[i]));
        matrices::<Fp<P>, V, M, N>(&a, &b, s, s.0 != 0, r);
        vectors::<Fp<P>, V, M, N>(&a[0], &b[0], &b, s, s.0 != 0, r);
    });
}
fn field_vec<const P: u32, V: Vx<Fp<P>, N>, M: Mx<Fp<P>, V, N>, const N: usize>(c: &Ctx) {
    let size = (P as u64).pow(2 * N as u32 + 1);
    c.space(&format!("F{} {}: every pair of vectors and every scalar", P, N), size, |i, r| {
        let mut d = Dec(i);
        let s = Fp(d.take(P as usize) as u32);
        let mut g = || Fp::<P>(d.take(P as usize) as u32);
        let u: [Fp<P>; N] = vv(|_| Fp(0)).map(|_: Fp<P>| g());
        let v: [Fp<P>; N] = u.map(|_| g());
        let m = mm(|i, j| if i == j { u[i] } else { v[(i + j) % N] });
        r.key(hash_u(P as u64 * 100 + N as u64, &[i]));
        vectors::<Fp<P>, V, M, N>(&u, &v, &m, s, s.0 != 0, r);
    });
}

fn left(c: &Ctx) {
    // scalar on the left where offered, with constants
    let vals = [0.0f64, 1.0, -1.0, 2.5, -7.0, 1e6, 1e-6, 0.1];
    macro_rules! vl { ($V:ident, $n:literal, $t:ty, $r:expr, $k:expr, $s:expr) => {{
        let u: [$t; $n] = std::array::from_fn(|i| if i == $k % $n { vals[$k / $n % vals.len()] as $t } else { (i as $t) * 1.25 - 2.0 });
        let s = $s as $t;
        let g = s * $V::new(u);
        let e: [$t; $n] = std::array::from_fn(|i| u[i] * s);
        eqv::<$t, $n>($r, "scalar * vector", std::array::from_fn(|i| g[i]), e, e.map(|x| x.abs()), || format!("{} * {:?}", s, u));
    }} }
    macro_rules! ml { ($M:ident, $n:literal, $t:ty, $r:expr, $k:expr, $s:expr) => {{
        let k = $k % ($n * $n);
        let a: [[$t; $n]; $n] = mm(|i, j| if i * $n + j == k { vals[$k / ($n * $n) % vals.len()] as $t } else { (i * $n + j) as $t * 1.5 - 3.0 });
        let s = $s as $t;
        let g = s * $M::new(a);
        eqm::<$t, $n>($r, "scalar * matrix", mm(|i, j| g[(i, j)]), mm(|i, j| a[i][j] * s), mm(|i, j| (a[i][j] * s).abs()), || format!("{} * {:?}", s, a));
    }} }
    c.space("scalar on the left", 36 * 8 * 8, |i, r| {
        let mut d = Dec(i);
        let s = *d.pick(&vals);
        let k = d.0 as usize;
        r.key(hash_u(77, &[i]));
        vl!(V2, 2, f32, r, k, s);
        vl!(V3, 3, f32, r, k, s);
        vl!(V3, 3, f64, r, k, s);
        vl!(V4, 4, f32, r, k, s);
        vl!(V5, 5, f32, r, k, s);
        vl!(V6, 6, f32, r, k, s);
        ml!(M22, 2, f32, r, k, s);
        ml!(M33, 3, f32, r, k, s);
        ml!(M33, 3, f64, r, k, s);
    });
    let lad = [1e-200, 1e-110, 1e-60, 1e-30, 1e-25, 1e-17, 1e-14, 1e-11, 1e-10, 1e-8, 1e-6, 1e-5, 1e-4, 1e-2, 0.3, 1.0, 3.0, 40.0, 2e3, 1e5, 1e7, 1e8, 1e10, 1e13, 1e14, 1e17, 1e25, 1e30, 1e60, 1e110, 1e200];
    macro_rules! vm { ($V:ident, $n:literal, $t:ty, $r:expr, $m:expr, $s:expr) => {{
        let u: [$t; $n] = std::array::from_fn(|i| ($m * (i as f64 * 1.25 - 2.0)) as $t);
        let s = $s as $t;
        let g = s * $V::new(u);
        let e: [$t; $n] = std::array::from_fn(|i| u[i] * s);
        if e.iter().chain(&u).all(|x| *x == 0.0 || x.is_normal()) && s.is_normal() { eqv::<$t, $n>($r, "scalar * vector", std::array::from_fn(|i| g[i]), e, e.map(|x| x.abs()), || format!("{} * {:?}", s, u)); }
    }} }
    macro_rules! mmg { ($M:ident, $n:literal, $t:ty, $r:expr, $m:expr, $s:expr) => {{
        let a: [[$t; $n]; $n] = mm(|i, j| ($m * ((i * $n + j) as f64 * 1.5 - 3.0)) as $t);
        let s = $s as $t;
        let g = s * $M::new(a);
        let e: [[$t; $n]; $n] = mm(|i, j| a[i][j] * s);
        if e.as_flattened().iter().chain(a.as_flattened()).all(|x| *x == 0.0 || x.is_normal()) && s.is_normal() { eqm::<$t, $n>($r, "scalar * matrix", mm(|i, j| g[(i, j)]), e, mm(|i, j| e[i][j].abs()), || format!("{} * {:?}", s, a)); }
    }} }
    c.space("scalar on the left at every magnitude", (lad.len() * lad.len() * 2) as u64, |i, r| {
        let mut d = Dec(i);
        let (m, s) = (*d.pick(&lad), *d.pick(&lad));
        let s = if d.take(2) == 0 { s } else { -s };
        r.key(hash_u(78, &[i]));
        vm!(V2, 2, f32, r, m, s);
        vm!(V3, 3, f32, r, m, s);
        vm!(V3, 3, f64, r, m, s);
        vm!(V4, 4, f32, r, m, s);
        vm!(V5, 5, f32, r, m, s);
        vm!(V6, 6, f32, r, m, s);
        mmg!(M22, 2, f32, r, m, s);
        mmg!(M33, 3, f32, r, m, s);
        mmg!(M33, 3, f64, r, m, s);
    });
    c.space("constants", 1, |_, r| {
        use static_math::*;
        r.check("zero constants", [V2_ZEROS[0], V2_ZEROS[1], V3_ZEROS[0], V3_ZEROS[1], V3_ZEROS[2]].iter().chain((*V4_ZEROS).iter()).chain((*V5_ZEROS).iter()).chain((*V6_ZEROS).iter()).all(|x| *x == 0.0), || "not zero".into());
        r.check("axis constants", *X_AXIS == [1.0, 0.0, 0.0] && *Y_AXIS == [0.0, 1.0, 0.0] && *Z_AXIS == [0.0, 0.0, 1.0], || "wrong".into());
        r.check("2D axis constants", *vector2::X_AXIS == [1.0, 0.0] && *vector2::Y_AXIS == [0.0, 1.0], || "wrong".into());
        r.check("axis constructors", *V3::<f64>::x_axis() == [1.0, 0.0, 0.0] && *V3::<f64>::y_axis() == [0.0, 1.0, 0.0] && *V3::<f64>::z_axis() == [0.0, 0.0, 1.0] && *V3::<i32>::x_axis() == [1, 0, 0], || "wrong".into());
        r.check("2x2 constants", *matrix2x2::M22_ZEROS == [[0.0; 2]; 2] && *matrix2x2::M22_IDENT == [[1.0, 0.0], [0.0, 1.0]], || "wrong".into());
        for k in 0..256u32 {
            let b = |s: u32| V4::new_from(k >> s & 1 == 1, k >> (s + 1) & 1 == 1, k >> (s + 2) & 1 == 1, k >> (s + 3) & 1 == 1);
            let (x, y) = (b(0), b(4));
            let z = x & y;
            r.check("boolean vector & is componentwise", (0..4).all(|i| z[i] == (x[i] && y[i])), || format!("{:?} & {:?} = {:?}", x, y, z));
        }
    });
}

macro_rules! sizes {
    ($f:ident, $c:expr, $t:ty) => {
        $f::<$t, V2<$t>, M22<$t>, 2>($c);
        $f::<$t, V3<$t>, M33<$t>, 3>($c);
        $f::<$t, V4<$t>, M44<$t>, 4>($c);
        $f::<$t, V5<$t>, M55<$t>, 5>($c);
        $f::<$t, V6<$t>, M66<$t>, 6>($c);
    };
}

macro_rules! sizes_with {
    ($f:ident, $c:expr, $t:ty, $x:expr) => {
        $f::<$t, V2<$t>, M22<$t>, 2>($c, $x);
        $f::<$t, V3<$t>, M33<$t>, 3>($c, $x);
        $f::<$t, V4<$t>, M44<$t>, 4>($c, $x);
        $f::<$t, V5<$t>, M55<$t>, 5>($c, $x);
        $f::<$t, V6<$t>, M66<$t>, 6>($c, $x);
    };
}

fn main() {
    run(
        "C01",
        "exploration",
        "each case executes every arithmetic operation of one size and scalar type on one pair of operands and compares every component with the textbook loop evaluated in the same scalar type; cases enumerate: all operands over small finite fields, the degree-2 principal lattice of all operand entries (complete for the bilinear/linear formulas), all pairs of structured base matrices, bounded changes of entries, magnitudes, and a NaN in every single component; all cases are distinct operand pairs and non-trivial",
        &["floats: 4(2n+2) eps times the sum of |terms|; integers, rationals, field elements: exact"],
        |c| {
            sizes!(neutral, c, f64);
            sizes!(neutral, c, i32);
            sizes!(neutral, c, f32);
            sizes_with!(zero_tests, c, f64, &[f64::MIN_POSITIVE, -1e-310, f64::EPSILON, 1e-20, -1e-18, 1e-14, -1e-10, 1e-8, 1e-6, -1e-4, 0.01, 3.0, -200.0, 1e5, 1e8, -1e12, 1e30, -1e200, -0.0, f64::NAN, f64::INFINITY]);
            sizes_with!(zero_tests, c, f32, &[f32::MIN_POSITIVE, -1e-40, f32::EPSILON, 1e-20, -1e-18, 1e-14, -1e-10, 1e-8, 1e-6, -1e-4, 0.01, 3.0, -200.0, 1e5, 1e8, -1e12, -1e30, -0.0, f32::NAN, f32::INFINITY]);
            sizes_with!(zero_tests, c, i32, &[65536, i32::MIN / 2, 2]);
            sizes!(lattice, c, i64);
            sizes!(lattice, c, f64);
            sizes!(pairs, c, i32);
            sizes!(pairs, c, i64);
            sizes!(pairs, c, f32);
            sizes!(pairs, c, f64);
            sizes!(pairs, c, Ratio<i64>);
            sizes!(small_vectors, c, i32);
            sizes!(small_vectors, c, f64);
            sizes!(structures, c, i64);
            sizes!(structures, c, f64);
            sizes!(structures, c, f32);
            sizes!(floats, c, f64);
            sizes!(floats, c, f32);
            left(c);
            field_all::<2, V2<Fp<2>>, M22<Fp<2>>, 2>(c);
            field_all::<3, V2<Fp<3>>, M22<Fp<3>>, 2>(c);
            field_all::<2, V3<Fp<2>>, M33<Fp<2>>, 3>(c);
            field_vec::<5, V2<Fp<5>>, M22<Fp<5>>, 2>(c);
            field_vec::<5, V3<Fp<5>>, M33<Fp<5>>, 3>(c);
            field_vec::<3, V4<Fp<3>>, M44<Fp<3>>, 4>(c);
            field_vec::<3, V5<Fp<3>>, M55<Fp<3>>, 5>(c);
            field_vec::<2, V6<Fp<2>>, M66<Fp<2>>, 6>(c);
            {
                field_all::<5, V2<Fp<5>>, M22<Fp<5>>, 2>(c);
                field_all::<7, V2<Fp<7>>, M22<Fp<7>>, 2>(c);
                field_vec::<3, V6<Fp<3>>, M66<Fp<3>>, 6>(c);
                field_vec::<7, V4<Fp<7>>, M44<Fp<7>>, 4>(c);
            }
            if c.thorough() {
                field_all::<3, V3<Fp<3>>, M33<Fp<3>>, 3>(c);
                field_vec::<5, V5<Fp<5>>, M55<Fp<5>>, 5>(c);
                field_vec::<11, V3<Fp<11>>, M33<Fp<11>>, 3>(c);
            }
        },
    );
}
