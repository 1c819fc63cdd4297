//! Boring reference mathematics on plain arrays of f64.
pub type A<const N: usize> = [[f64; N]; N];
pub fn zero<const N: usize>() -> A<N> { [[0.0; N]; N] }
pub fn ident<const N: usize>() -> A<N> { let mut r = zero::<N>(); for i in 0..N { r[i][i] = 1.0 } r }
pub fn mul<const N: usize>(a: &A<N>, b: &A<N>) -> A<N> {
    let mut r = zero::<N>();
    for i in 0..N { for j in 0..N { let mut s = 0.0; for k in 0..N { s += a[i][k] * b[k][j] } r[i][j] = s } }
    r
}
pub fn absm<const N: usize>(a: &A<N>) -> A<N> { let mut r = *a; for i in 0..N { for j in 0..N { r[i][j] = a[i][j].abs() } } r }
pub fn mulv<const N: usize>(a: &A<N>, v: &[f64; N]) -> [f64; N] {
    let mut r = [0.0; N];
    for i in 0..N { for k in 0..N { r[i] += a[i][k] * v[k] } }
    r
}
pub fn tr<const N: usize>(a: &A<N>) -> A<N> { let mut r = zero::<N>(); for i in 0..N { for j in 0..N { r[i][j] = a[j][i] } } r }
pub fn add<const N: usize>(a: &A<N>, b: &A<N>) -> A<N> { let mut r = zero::<N>(); for i in 0..N { for j in 0..N { r[i][j] = a[i][j] + b[i][j] } } r }
pub fn sub<const N: usize>(a: &A<N>, b: &A<N>) -> A<N> { let mut r = zero::<N>(); for i in 0..N { for j in 0..N { r[i][j] = a[i][j] - b[i][j] } } r }
pub fn scale<const N: usize>(a: &A<N>, s: f64) -> A<N> { let mut r = zero::<N>(); for i in 0..N { for j in 0..N { r[i][j] = a[i][j] * s } } r }
pub fn maxabs<const N: usize>(a: &A<N>) -> f64 { let mut m: f64 = 0.0; for r in a { for x in r { if x.is_nan() { return f64::NAN } m = m.max(x.abs()) } } m }
/// max |a-b|, NaN-propagating
pub fn dist<const N: usize>(a: &A<N>, b: &A<N>) -> f64 { maxabs(&sub(a, b)) }
pub fn distv(a: &[f64], b: &[f64]) -> f64 {
    let mut m: f64 = 0.0;
    if a.len() != b.len() { return f64::INFINITY }
    for (x, y) in a.iter().zip(b) { let d = (x - y).abs(); if d.is_nan() { return f64::NAN } m = m.max(d) }
    m
}
/// `x <= t` that is false for NaN
pub fn le(x: f64, t: f64) -> bool { x <= t }

/// Leibniz sum over all injective choices of columns for the given rows, organised by the set of columns
/// used so far: entry `mask` is (signed sum, sum of |terms|) over the assignments using exactly `mask`.
fn leibniz<const N: usize>(a: &A<N>, rows: &[usize], out: &mut [(f64, f64)]) {
    for x in out.iter_mut() { *x = (0.0, 0.0) }
    out[0] = (1.0, 1.0);
    for mask in 1usize..1 << N {
        let k = mask.count_ones() as usize;
        if k > rows.len() { continue }
        let row = rows[k - 1];
        let mut t = (0.0, 0.0);
        for c in 0..N {
            if mask >> c & 1 == 0 || a[row][c] == 0.0 { continue }
            let p = out[mask & !(1 << c)];
            // inversions contributed: used columns greater than c
            let s = if (mask >> (c + 1)).count_ones() % 2 == 1 { -1.0 } else { 1.0 };
            t.0 += p.0 * a[row][c] * s;
            t.1 += p.1 * a[row][c].abs();
        }
        out[mask] = t;
    }
}
/// determinant as the Leibniz sum; returns (det, sum of |terms|)
pub fn det<const N: usize>(a: &A<N>) -> (f64, f64) {
    let mut o = [(0.0, 0.0); 64];
    let rows: [usize; N] = std::array::from_fn(|i| i);
    leibniz(a, &rows, &mut o[..1 << N]);
    o[(1 << N) - 1]
}
/// adjugate with magnitudes: inverse = adj / det
pub fn adj<const N: usize>(a: &A<N>) -> (A<N>, A<N>) {
    let mut r = zero::<N>();
    let mut s = zero::<N>();
    let mut o = [(0.0, 0.0); 64];
    for i in 0..N {
        let mut rows = [0usize; N];
        let mut n = 0;
        for k in 0..N { if k != i { rows[n] = k; n += 1 } }
        leibniz(a, &rows[..n], &mut o[..1 << N]);
        for j in 0..N {
            let (d, q) = o[((1 << N) - 1) & !(1 << j)];
            r[j][i] = if (i + j) % 2 == 1 { -d } else { d };
            s[j][i] = q;
        }
    }
    (r, s)
}

// ---------------------------------------------------------------- 3-vectors, quaternions (w,x,y,z)
pub type Q = [f64; 4];
pub fn cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
pub fn dot3(a: [f64; 3], b: [f64; 3]) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
pub fn nrm(a: &[f64]) -> f64 { a.iter().map(|x| x * x).sum::<f64>().sqrt() }
pub fn unit3(a: [f64; 3]) -> [f64; 3] { let n = nrm(&a); [a[0] / n, a[1] / n, a[2] / n] }
pub fn sc3(a: [f64; 3], s: f64) -> [f64; 3] { [a[0] * s, a[1] * s, a[2] * s] }
pub fn add3(a: [f64; 3], b: [f64; 3]) -> [f64; 3] { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
pub fn sub3(a: [f64; 3], b: [f64; 3]) -> [f64; 3] { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
pub fn qmul(a: Q, b: Q) -> Q {
    // table of basis products: e_i e_j = sign * e_k
    const T: [[(usize, f64); 4]; 4] = [
        [(0, 1.0), (1, 1.0), (2, 1.0), (3, 1.0)],
        [(1, 1.0), (0, -1.0), (3, 1.0), (2, -1.0)],
        [(2, 1.0), (3, -1.0), (0, -1.0), (1, 1.0)],
        [(3, 1.0), (2, 1.0), (1, -1.0), (0, -1.0)],
    ];
    let mut r = [0.0; 4];
    for i in 0..4 { for j in 0..4 { let (k, s) = T[i][j]; r[k] += s * a[i] * b[j] } }
    r
}
pub fn qconj(a: Q) -> Q { [a[0], -a[1], -a[2], -a[3]] }
pub fn qadd(a: Q, b: Q) -> Q { [a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]] }
pub fn qsub(a: Q, b: Q) -> Q { [a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3]] }
pub fn qsc(a: Q, s: f64) -> Q { [a[0] * s, a[1] * s, a[2] * s, a[3] * s] }
pub fn qdot(a: Q, b: Q) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3] }
pub fn qunit(a: Q) -> Q { let n = qdot(a, a).sqrt(); qsc(a, 1.0 / n) }
/// rotation matrix of a unit quaternion, by conjugating the basis vectors
pub fn qmat(q: Q) -> A<3> {
    let mut r = zero::<3>();
    for c in 0..3 {
        let mut e = [0.0; 4];
        e[c + 1] = 1.0;
        let w = qmul(qmul(q, e), qconj(q));
        for i in 0..3 { r[i][c] = w[i + 1] }
    }
    r
}
pub fn qaxis(axis: [f64; 3], ang: f64) -> Q { let u = unit3(axis); let (s, c) = (ang / 2.0).sin_cos(); [c, u[0] * s, u[1] * s, u[2] * s] }
/// Rodrigues in component form: v cos + (u x v) sin + u (u.v)(1-cos)
pub fn rodrigues(u: [f64; 3], ang: f64) -> A<3> {
    let (s, c) = ang.sin_cos();
    let mut r = zero::<3>();
    for k in 0..3 {
        let mut e = [0.0; 3];
        e[k] = 1.0;
        let w = add3(add3(sc3(e, c), sc3(cross(u, e), s)), sc3(u, dot3(u, e) * (1.0 - c)));
        for i in 0..3 { r[i][k] = w[i] }
    }
    r
}
pub fn hat(v: [f64; 3]) -> A<3> { let mut r = zero::<3>(); for k in 0..3 { let mut e = [0.0; 3]; e[k] = 1.0; let w = cross(v, e); for i in 0..3 { r[i][k] = w[i] } } r }
pub fn homog(r: &A<3>, p: [f64; 3]) -> A<4> { let mut m = ident::<4>(); for i in 0..3 { for j in 0..3 { m[i][j] = r[i][j] } m[i][3] = p[i] } m }
/// matrix exponential: scaling and squaring of the power series
pub fn expm<const N: usize>(a: &A<N>) -> A<N> {
    let n = maxabs(a);
    let mut k = 0;
    let mut s = 1.0;
    while n * s > 0.25 { s *= 0.5; k += 1 }
    let x = scale(a, s);
    let mut r = ident::<N>();
    let mut t = ident::<N>();
    for i in 1..20 { t = scale(&mul(&t, &x), 1.0 / i as f64); r = add(&r, &t) }
    for _ in 0..k { r = mul(&r, &r) }
    r
}
pub fn is_rot(m: &A<3>, tol: f64) -> bool { le(dist(&mul(m, &tr(m)), &ident::<3>()), tol) && le((det(m).0 - 1.0).abs(), tol) }
/// quaternion exponential from its power series with scaling and squaring
pub fn qexp(q: Q) -> Q {
    let n = qdot(q, q).sqrt();
    let mut k = 0;
    let mut s = 1.0;
    while n * s > 0.25 { s *= 0.5; k += 1 }
    let x = qsc(q, s);
    let mut r = [1.0, 0.0, 0.0, 0.0];
    let mut t = r;
    for i in 1..20 { t = qsc(qmul(t, x), 1.0 / i as f64); r = qadd(r, t) }
    for _ in 0..k { r = qmul(r, r) }
    r
}
/// closed-form exponential of a twist with every coefficient evaluated without cancellation
pub fn exp6(w: [f64; 3], v: [f64; 3]) -> A<4> {
    let t = nrm(&w);
    if t == 0.0 { return homog(&ident::<3>(), v) }
    let b = 2.0 * ((t / 2.0).sin() / t).powi(2);
    let c = if t < 0.5 {
        let (mut s, mut k, mut f) = (0.0, 1.0 / 6.0, 3.0);
        for _ in 0..14 { s += k; k *= -t * t / ((f + 1.0) * (f + 2.0)); f += 2.0 }
        s
    } else { (t - t.sin()) / (t * t * t) };
    let h = hat(w);
    let m = add(&add(&ident::<3>(), &scale(&h, b)), &scale(&mul(&h, &h), c));
    homog(&rodrigues(unit3(w), t), mulv(&m, &v))
}
/// linear part of the twist whose exponential has rotation vector `w` and translation `t`
pub fn twist_lin(w: [f64; 3], t: [f64; 3]) -> [f64; 3] {
    let n = nrm(&w);
    let k = if n < 0.05 { 1.0 / 12.0 + n * n / 720.0 + n.powi(4) / 30240.0 + n.powi(6) / 1209600.0 } else { (1.0 - n / 2.0 / (n / 2.0).tan()) / (n * n) };
    let h = hat(w);
    mulv(&add(&sub(&ident::<3>(), &scale(&h, 0.5)), &scale(&mul(&h, &h), k)), &t)
}

/// two homogeneous matrices agree: the rotation block and last row within `tr`, the last column within `tt`
pub fn leh(a: &A<4>, b: &A<4>, tr: f64, tt: f64) -> bool {
    (0..4).all(|i| (0..4).all(|j| le((a[i][j] - b[i][j]).abs(), if j == 3 && i < 3 { tt } else { tr })))
}
