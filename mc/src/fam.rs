//! Structured matrix families and alphabets.
use crate::refm::*;

/// Named dense and structured base matrices of integer entries (exactly representable in f32).
pub fn bases<const N: usize>() -> Vec<(String, A<N>)> {
    let mut v: Vec<(String, A<N>)> = Vec::new();
    let primes = [2., 3., 5., 7., 11., 13., 17., 19., 23., 29., 31., 37., 41., 43., 47., 53., 59., 61., 67., 71., 73., 79., 83., 89., 97., 101., 103., 107., 109., 113., 127., 131., 137., 139., 149., 151.];
    let small = |i: usize, j: usize| ((i * i * 3 + 5 * j + i * j * 7 + 1) % 7) as f64 - 3.0;
    let small2 = |i: usize, j: usize| ((i * 5 + j * j * 3 + i * j + 2) % 5) as f64 - 2.0;
    let pos = |i: usize, j: usize| 1.0 + ((i * 7 + j * 4 + i * j * 3) % 9) as f64;
    let mut push = |n: &str, f: &dyn Fn(usize, usize) -> f64| {
        let mut a = zero::<N>();
        for i in 0..N { for j in 0..N { a[i][j] = f(i, j) } }
        v.push((n.to_string(), a));
    };
    push("zero", &|_, _| 0.0);
    push("identity", &|i, j| (i == j) as u8 as f64);
    push("minus identity", &|i, j| -((i == j) as u8 as f64));
    push("anti-identity", &|i, j| (i + j == N - 1) as u8 as f64);
    push("cyclic", &|i, j| ((i + 1) % N == j) as u8 as f64);
    push("diagonal", &|i, j| if i == j { (i as f64 + 2.0) * if i % 2 == 0 { 1.0 } else { -1.0 } } else { 0.0 });
    push("ones", &|_, _| 1.0);
    push("dense small", &|i, j| small(i, j) + if i == j { 6.0 } else { 0.0 });
    push("dense small 2", &|i, j| small2(i, j) + if i + j == N - 1 { 5.0 } else { 0.0 });
    push("dense positive", &|i, j| pos(i, j));
    push("dense negative", &|i, j| -pos(j, i) - if i == j { 4.0 } else { 0.0 });
    push("primes", &|i, j| primes[(i * N + j) % 36] * if (i * j) % 3 == 1 { -1.0 } else { 1.0 });
    push("no diagonal", &|i, j| if i == j { 0.0 } else { small(i, j) + 4.0 });
    push("upper", &|i, j| if i <= j { pos(i, j) } else { 0.0 });
    push("lower", &|i, j| if i >= j { -pos(i, j) + 1.0 - 2.0 * (i == j) as u8 as f64 } else { 0.0 });
    push("strict upper", &|i, j| if i < j { pos(i, j) } else { 0.0 });
    push("symmetric", &|i, j| pos(i.min(j), i.max(j)) - if i == j { 12.0 } else { 0.0 });
    push("antisymmetric", &|i, j| if i == j { 0.0 } else if i < j { pos(i, j) } else { -pos(j, i) });
    push("tridiagonal", &|i, j| if i.abs_diff(j) <= 1 { small(i, j) + 4.0 } else { 0.0 });
    push("checkerboard", &|i, j| if (i + j) % 2 == 0 { pos(i, j) } else { 0.0 });
    push("odd checkerboard", &|i, j| if (i + j) % 2 == 1 { pos(i, j) } else { 0.0 });
    push("toeplitz", &|i, j| ((N + i - j) as f64) - if i == j { 9.0 } else { 0.0 });
    push("hankel", &|i, j| ((i + j) * (i + j) % 7) as f64 + 1.0);
    push("rank one", &|i, j| (i as f64 + 1.0) * (2.0 - j as f64));
    push("rank deficient", &|i, j| if i == N - 1 { pos(0, j) + pos(1 % N, j) } else { pos(i, j) });
    push("repeated row", &|i, j| if i == N - 1 { small(0, j) + 1.0 } else { small(i, j) + 1.0 });
    push("repeated column", &|i, j| if j == N - 1 { small(i, 0) } else { small(i, j) });
    push("arrow", &|i, j| if i == 0 || j == 0 || i == j { pos(i, j) + 1.0 } else { 0.0 });
    push("first column zero", &|i, j| if j == 0 { 0.0 } else { pos(i, j) });
    push("zero leading entry", &|i, j| if i == 0 && j == 0 { 0.0 } else { small(i, j) + 2.0 + if i == j { 3.0 } else { 0.0 } });
    push("dominant anti-diagonal", &|i, j| small(i, j) + if i + j == N - 1 { 20.0 } else { 0.0 });
    push("graded", &|i, j| (1i64 << (i + j)) as f64 + if i == j { 3.0 } else { -1.0 } * (i as f64));
    push("rows of unlike size", &|i, j| (small(i, j) + if i == j { 5.0 } else { 0.5 }) * [1.0, 64.0, 0.125, 8.0, 256.0, 0.5][i]);
    push("columns of unlike size", &|i, j| (small(i, j) + if i == j { 5.0 } else { 0.5 }) * [16.0, 0.25, 1.0, 128.0, 0.0625, 4.0][j]);
    push("halves", &|i, j| (small(i, j) + if i == j { 5.0 } else { 0.0 }) * 0.5 + 0.25);
    push("rotation like", &|i, j| if i < 2 && j < 2 { [[0.6, -0.8], [0.8, 0.6]][i][j] } else { (i == j) as u8 as f64 });
    for k in 1..N {
        push(&format!("block lower-left zero {}", k), &|i, j| if i >= k && j < k { 0.0 } else { small(i, j) + 4.0 + if i == j { 5.0 } else { 0.0 } });
        push(&format!("block upper-right zero {}", k), &|i, j| if i < k && j >= k { 0.0 } else { small2(i, j) + 3.0 + if i == j { 5.0 } else { 0.0 } });
        push(&format!("block diagonal {}", k), &|i, j| if (i < k) != (j < k) { 0.0 } else { small(i, j) + 4.0 + if i == j { 3.0 } else { 0.0 } });
        push(&format!("block anti-diagonal {}", k), &|i, j| if (i < k) == (j < k) { 0.0 } else { pos(i, j) + if i + j == N - 1 { 7.0 } else { 0.0 } });
        push(&format!("row {} zero", k), &|i, j| if i == k { 0.0 } else { pos(i, j) });
        push(&format!("homogeneous {}", k), &|i, j| if i == N - 1 { (j == N - 1) as u8 as f64 } else { small(i, j) + k as f64 + if i == j { 5.0 } else { 0.0 } });
    }
    drop(push);
    v
}

/// all permutations of 0..n
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]] }
    let mut r = Vec::new();
    for p in perms(n - 1) {
        for k in 0..n {
            let mut q = p.clone();
            q.insert(k, n - 1);
            r.push(q);
        }
    }
    r.sort();
    r
}

/// Deviation-bounded neighbours: `dev_count(cells, vals, 2)` = all ways to change at most 2 cells
/// to one of `vals` values. Decodes index -> list of (cell, value index).
pub fn dev_count(cells: u64, vals: u64, k: u64) -> u64 {
    let mut t = 1;
    if k >= 1 { t += cells * vals }
    if k >= 2 { t += cells * (cells - 1) / 2 * vals * vals }
    if k >= 3 { t += cells * (cells - 1) * (cells - 2) / 6 * vals * vals * vals }
    t
}
pub fn dev_at(cells: u64, vals: u64, mut idx: u64, out: &mut Vec<(usize, usize)>) {
    out.clear();
    if idx == 0 { return }
    idx -= 1;
    if idx < cells * vals {
        out.push(((idx / vals) as usize, (idx % vals) as usize));
        return;
    }
    idx -= cells * vals;
    let two = cells * (cells - 1) / 2 * vals * vals;
    if idx < two {
        let vv = idx % (vals * vals);
        let mut p = idx / (vals * vals);
        let mut a = 0;
        while p >= cells - 1 - a { p -= cells - 1 - a; a += 1 }
        let b = a + 1 + p;
        out.push((a as usize, (vv / vals) as usize));
        out.push((b as usize, (vv % vals) as usize));
        return;
    }
    idx -= two;
    let v3 = vals * vals * vals;
    let vv = idx % v3;
    let mut p = idx / v3;
    for a in 0..cells {
        let m = cells - 1 - a;
        let c = m * (m - 1) / 2;
        if p >= c { p -= c; continue }
        for b in a + 1..cells {
            let m2 = cells - 1 - b;
            if p >= m2 { p -= m2; continue }
            let c3 = b + 1 + p;
            out.push((a as usize, (vv / (vals * vals)) as usize));
            out.push((b as usize, (vv / vals % vals) as usize));
            out.push((c3 as usize, (vv % vals) as usize));
            return;
        }
    }
}

/// magnitudes used to scale bases
pub const SCALES: [f64; 9] = [1.0, -1.0, 0.5, 1024.0, 9.5367431640625e-7, 1048576.0, 3.0, -0.001953125, 0.0009765625];

pub const PI: f64 = std::f64::consts::PI;
/// angles: multiples of pi/12 in [-2pi, 2pi], offsets around the singular ones, and far ones
pub fn angles(extra: bool) -> Vec<f64> {
    let mut v = vec![0.0];
    for k in 1..=24 {
        v.push(k as f64 * PI / 12.0);
        v.push(-(k as f64) * PI / 12.0);
    }
    if extra {
        for b in [0.0, PI / 2.0, PI, 3.0 * PI / 2.0] {
            for d in [1e-1, 1e-2, 1e-3, 1e-4, 1e-6] {
                v.push(b + d);
                v.push(b - d);
                v.push(-b - d);
            }
        }
        v.extend([1.0, -1.0, 0.3, 2.0, -2.5, 3.0, 3.14, 7.0, -9.5, 10.0, 12.5, 25.0, -100.0]);
    }
    v
}
/// rotation axes, not normalised: {-1,0,1}^3 without 0, and skew ones
pub fn axes() -> Vec<[f64; 3]> {
    let mut v = Vec::new();
    for s in 1..=3 {
        for k in 0..27 {
            let a = [(k / 9) as f64 - 1.0, (k / 3 % 3) as f64 - 1.0, (k % 3) as f64 - 1.0];
            if a.iter().filter(|x| **x != 0.0).count() == s { v.push(a) }
        }
    }
    // every order of the magnitudes
    v.extend([[4.0, 2.0, -1.0], [2.0, -1.0, 4.0], [-1.0, 4.0, -2.0], [4.0, 1.0, 2.0], [-2.0, -4.0, -1.0], [1.0, -2.0, -4.0]]);
    // nearly equal, nearly opposite components
    v.extend([[1.0, 1.0003, 0.5], [0.5, -1.0, 1.0002], [1.0004, 0.3, -1.0], [1.0, 1.0 + 1e-6, 1.0 - 1e-6], [-1.0, 1.0 + 1e-9, 2.0], [2.0, 1.0 - 1e-9, 1.0 + 1e-12], [1e-4, 1.0, -1.0003e-4], [-1.0, -1e-9, 1.0 - 1e-5]]);
    v.extend([[3.0, 4.0, 0.0], [0.0, -3.0, 4.0], [1.0, 2.0, 2.0], [2.0, 3.0, 6.0], [-1.0, 4.0, 8.0], [0.36, 0.48, -0.8], [1.0, 1e-3, 0.0], [1e-3, 0.0, 1.0], [1e-6, -1.0, 1e-6], [10.0, -20.0, 5.0], [0.1, 0.2, 0.3], [-5.0, 0.25, 1.0]]);
    v
}
/// translations
pub fn translations() -> Vec<[f64; 3]> {
    vec![[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, -2.0, 0.0], [0.0, 0.0, 3.0], [1.0, 2.0, 3.0], [-4.0, 0.5, 0.25], [0.001, -0.002, 0.003], [100.0, -200.0, 50.0], [1.0, 1.0, 1.0], [-1.0, 0.0, 1.0]]
}
/// unit quaternions of the 48-element binary octahedral group
pub fn bin_oct() -> Vec<Q> {
    let mut v: Vec<Q> = Vec::new();
    for i in 0..4 { for s in [1.0, -1.0] { let mut q = [0.0; 4]; q[i] = s; v.push(q) } }
    for m in 0..16 { v.push([0, 1, 2, 3].map(|b| if m >> b & 1 == 1 { -0.5 } else { 0.5 })) }
    let r = 0.5f64.sqrt();
    for i in 0..4 { for j in i + 1..4 { for m in 0..4 { let mut q = [0.0; 4]; q[i] = if m & 1 == 1 { -r } else { r }; q[j] = if m & 2 == 2 { -r } else { r }; v.push(q) } } }
    v
}
/// unit quaternions: the 48-element group, axis-angle grid and rational ones
pub fn unit_quats(level: usize) -> Vec<Q> {
    let mut v = bin_oct();
    let ang: Vec<f64> = match level {
        0 => vec![0.3, -1.0, 2.0, 3.0, 1e-3, PI - 1e-3, PI, -PI / 2.0],
        1 => angles(false).into_iter().chain([0.3, -1.0, 2.0, 3.0, 1e-3, 1e-6, PI - 1e-3, PI - 1e-6, PI + 1e-4, 5.0]).collect(),
        _ => angles(true),
    };
    for a in axes() { for t in &ang { v.push(qaxis(a, *t)) } }
    let p = [[1.0, 2.0, 2.0, 4.0], [2.0, 4.0, -2.0, 1.0], [-4.0, 2.0, 1.0, 2.0], [1.0, 1.0, 3.0, 5.0], [5.0, -3.0, 1.0, 1.0], [1.0, 5.0, 5.0, 7.0], [7.0, 1.0, -5.0, 5.0], [-3.0, 1.0, 1.0, 5.0]];
    for q in p { v.push(qunit(q)) }
    v
}

/// angles of many turns
pub const FAR: [f64; 24] = [40.0, 63.9, -64.1, 100.0, -128.5, 150.0, 256.7, 300.0, 720.0, 1000.5, -1024.0, -1500.0, 2000.0 * PI, 4096.3, 1e4, -12345.0, 65535.0, -65537.5, 3e5, 1e6, -1048577.0, 1e7, 123456789.0, -1e9];
/// factors next to one
pub fn near_one() -> Vec<f64> {
    let mut v = vec![1.0];
    for e in 1..=16 { for m in [1.0, 2.5, 6.0] { let d = m * 10f64.powi(-e); if d < 0.5 { v.push(1.0 + d); v.push(1.0 - d) } } }
    v
}
pub const DELTA: [f64; 8] = [4e-4, 1e-5, 1e-6, 3e-8, 1e-9, 1e-11, 1e-13, 1e-15];
/// matrices next to special ones: two entries, rows or columns nearly equal or opposite; nearly symmetric,
/// the identity, diagonal, triangular or zero up to one entry
pub struct Near<const N: usize> { bs: Vec<A<N>> }
impl<const N: usize> Near<N> {
    pub fn new(all: bool) -> Self {
        let keep = ["identity", "diagonal", "dense small", "dense small 2", "primes", "no diagonal", "symmetric", "halves"];
        Near { bs: bases::<N>().into_iter().filter(|x| all || N < 4 || keep[if N > 4 { 2 } else { 0 }..].contains(&x.0.as_str())).map(|x| x.1).collect() }
    }
    fn kinds() -> [usize; 8] { let c = N * N; [c * (c - 1), N * (N - 1), N * (N - 1), c, c, c, c, c] }
    pub fn count(&self) -> u64 { (self.bs.len() * DELTA.len() * Self::kinds().iter().sum::<usize>()) as u64 }
    pub fn at(&self, i: u64) -> A<N> {
        let (nb, nd) = (self.bs.len() as u64, DELTA.len() as u64);
        let b = self.bs[(i % nb) as usize];
        let e = DELTA[(i / nb % nd) as usize];
        let mut k = (i / nb / nd) as usize;
        let mut kind = 0;
        for n in Self::kinds() { if k < n { break } k -= n; kind += 1 }
        let mut a = b;
        match kind {
            0 => {
                let c = N * N;
                let (mut p, q) = (k / c, k % c);
                // the second entry of a pair: nearly equal when it comes later, nearly opposite when earlier
                if p >= q { p += 1 }
                let v = if b[p / N][p % N] != 0.0 { b[p / N][p % N] } else { a[p / N][p % N] = 2.0; 2.0 };
                a[q / N][q % N] = if p < q { v * (1.0 + e) } else { -v * (1.0 - e) };
            }
            1 | 2 => {
                let (mut p, q) = (k / N, k % N);
                if p >= q { p += 1 }
                for j in 0..N {
                    let d = 1.0 + e * [1.0, -2.0, 3.0, -1.0, 0.5, 2.0][j];
                    let s = if p < q { d } else { -d };
                    if kind == 1 { a[q][j] = b[p][j] * s } else { a[j][q] = b[j][p] * s }
                }
            }
            _ => {
                for x in 0..N { for y in 0..N { match kind {
                    3 => a[x][y] = b[x.min(y)][x.max(y)],
                    4 => a[x][y] = (x == y) as u8 as f64,
                    5 => if x != y { a[x][y] = 0.0 },
                    6 => if x > y { a[x][y] = 0.0 },
                    _ => if x < y { a[x][y] = 0.0 },
                } } }
                let (x, y) = (k / N, k % N);
                a[x][y] = if a[x][y] == 0.0 { e * b[x][y].abs().max(1.0) } else { a[x][y] * (1.0 + e) };
            }
        }
        a
    }
}

/// vectors of every structure: all sign and zero patterns, every order of distinct magnitudes with every
/// sign pattern, every pair of components equal, opposite, nearly equal or nearly opposite next to distinct others,
/// one component dominating or vanishing against the rest
pub fn shapes<const N: usize>() -> Vec<[f64; N]> {
    let mut v: Vec<[f64; N]> = Vec::new();
    let mut seen = std::collections::HashSet::new();
    let mut put = |v: &mut Vec<[f64; N]>, a: [f64; N]| if seen.insert(a.map(|x| (x + 0.0).to_bits())) { v.push(a) };
    if N <= 4 { for k in 0..3usize.pow(N as u32) { put(&mut v, std::array::from_fn(|i| (k / 3usize.pow(i as u32) % 3) as f64 - 1.0)) } }
    let mags = [0.75, 2.0, 3.5, 5.0, 7.0, 11.0, 13.0, 17.0];
    if N <= 4 {
        for p in perms(N) { for m in 0..1usize << N { put(&mut v, std::array::from_fn(|i| mags[p[i]] * if m >> i & 1 == 1 { -1.0 } else { 1.0 })) } }
    } else {
        for s in 0..N { for m in 0..1usize << N { put(&mut v, std::array::from_fn(|i| mags[(i + s) % N] * if m >> i & 1 == 1 { -1.0 } else { 1.0 })) } }
    }
    for i in 0..N { for j in 0..N { if i != j {
        for (n, e) in [0.0].iter().chain(&DELTA).enumerate() { for s in [1.0, -1.0] { for b in 0..2 {
            let mut a: [f64; N] = std::array::from_fn(|k| [[3.5, -2.0, 0.75, 5.0, -7.0, 11.0, -13.0, 8.0], [-0.25, 6.0, -4.0, 0.5, 9.0, -1.5, 12.0, -3.0]][b][(k + n) % 8]);
            a[j] = s * a[i] * (1.0 + e);
            put(&mut v, a);
        } } }
    } } }
    for i in 0..N { for e in [1e-9, 1e-4, 1e4, 1e9] { for s in [1.0, -1.0] {
        let mut a: [f64; N] = std::array::from_fn(|k| [1.0, -2.0, 0.5, 3.0, -0.75, 1.5, -6.0, 2.5][k]);
        a[i] *= s * e;
        put(&mut v, a);
    } } }
    v
}

/// square matrices of every structure: sign patterns (all of them up to size 3, otherwise rows and columns flipped in every way and
/// up to two further flips), zero patterns likewise (blocks of every shape, up to two zeros, up to two non-zero entries), every
/// pair of entries equal, opposite, nearly equal or nearly opposite next to unlike others, one entry, row or column dominating or
/// vanishing against the rest
pub fn grids<const N: usize>() -> Vec<[[f64; N]; N]> {
    let mut v: Vec<[[f64; N]; N]> = Vec::new();
    let mut seen = std::collections::HashSet::new();
    let mut put = |v: &mut Vec<[[f64; N]; N]>, a: [[f64; N]; N]| {
        let k: Vec<u64> = a.iter().flatten().map(|x| (x + 0.0).to_bits()).collect();
        if seen.insert(k) { v.push(a) }
    };
    let mk = |f: &dyn Fn(usize, usize) -> f64| -> [[f64; N]; N] { std::array::from_fn(|i| std::array::from_fn(|j| f(i, j))) };
    // distinct entries, exactly representable with few digits, no two of the same ratio to their neighbours
    let d = |b: usize, i: usize, j: usize| -> f64 {
        let k = i * N + j;
        if b == 0 { 1.0 + ((k * 11 + 3) % 37) as f64 * 0.25 } else { (((k * 7 + 5) % 41) as f64 * 0.5 + 0.75) * if (k * k + i) % 3 == 0 { -1.0 } else { 1.0 } }
    };
    let n2 = N * N;
    if N <= 3 {
        for m in 0..1usize << n2 {
            put(&mut v, mk(&|i, j| d(0, i, j) * if m >> (i * N + j) & 1 == 1 { -1.0 } else { 1.0 }));
            put(&mut v, mk(&|i, j| if m >> (i * N + j) & 1 == 1 { 0.0 } else { d(1, i, j) }));
        }
    }
    for r in 0..1usize << N { for c in 0..1usize << N {
        put(&mut v, mk(&|i, j| d(0, i, j) * if (r >> i ^ c >> j) & 1 == 1 { -1.0 } else { 1.0 }));
        put(&mut v, mk(&|i, j| if r >> i & 1 == 1 && c >> j & 1 == 1 { 0.0 } else { d(1, i, j) }));
    } }
    for b in 0..2 { for p in 0..n2 { for q in 0..=p {
        let at = |i: usize, j: usize| i * N + j == p || i * N + j == q;
        put(&mut v, mk(&|i, j| if at(i, j) { -d(b, i, j) } else { d(b, i, j) }));
        put(&mut v, mk(&|i, j| if at(i, j) { 0.0 } else { d(b, i, j) }));
        put(&mut v, mk(&|i, j| if at(i, j) { d(b, i, j) } else { 0.0 }));
        put(&mut v, mk(&|i, j| if at(i, j) { d(b, i, j) } else { (i == j) as u8 as f64 }));
    } } }
    for p in 0..n2 { for q in 0..n2 { if p != q { for (n, e) in [0.0].iter().chain(&DELTA).enumerate() { for s in [1.0, -1.0] {
        let mut a = mk(&|i, j| d((n + p) % 2, i, j));
        a[q / N][q % N] = s * a[p / N][p % N] * (1.0 + e);
        put(&mut v, a);
    } } } } }
    for e in [1e-9, 1e-4, 1e4, 1e9] { for s in [1.0, -1.0] { for b in 0..2 { for p in 0..n2 + 2 * N + 1 {
        put(&mut v, mk(&|i, j| d(b, i, j) * if p == i * N + j || p == n2 + i || p == n2 + N + j || p == n2 + 2 * N && i == j { s * e } else { 1.0 }));
    } } } }
    // bands and triangles
    for lo in 0..N { for hi in 0..N { for b in 0..2 { put(&mut v, mk(&|i, j| if j + lo >= i && i + hi >= j { d(b, i, j) } else { 0.0 })) } } }
    v
}
