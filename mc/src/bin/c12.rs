//! C12: unit quaternions and rotation matrices describe the same rotation.
use mc::adapt::*;
use mc::fam::*;
use mc::refm::*;
use mc::*;

fn tol<T: Fl>() -> f64 { 256.0 * T::EPS }

/// the matrix of a unit quaternion, and rotating vectors
fn to_matrix<T: Fl>(q: &Q, vs: &[[f64; 3]], r: &mut Rec) {
    let x = qn::<T>(*q);
    let q = qunit(aq(&x));
    let m = x.to_rotation();
    let a = am33(&m);
    let t = tol::<T>();
    let w = || format!("{} {:?}: matrix {:?}", T::NAME, x, a);
    r.check("matrix is a proper rotation", is_rot(&a, t), w);
    r.check("matrix columns are the conjugated axes", le(dist(&a, &qmat(q)), t), w);
    for v in vs {
        let y = v3::<T>(*v);
        let b = a3(&y);
        let s = nrm(&b).max(T::EPS);
        let e = mulv(&qmat(q), &b);
        let g = a3(&(x * y));
        r.check("rotating a vector is multiplying by the matrix", le(distv(&g, &e), t * s), || format!("{} applied to {:?}: {:?}, expected {:?}", w(), b, g, e));
        let g = a3(&(m * y));
        r.check("matrix times the vector", le(distv(&g, &e), t * s), || format!("{} applied to {:?}: {:?}, expected {:?}", w(), b, g, e));
        let g = aq(&(x * Quaternion::new_imag(&y) * x.conj()));
        r.check("rotating a vector is conjugating the pure quaternion", le(distv(&g, &[0.0, e[0], e[1], e[2]]), t * s), || format!("{} applied to {:?}: {:?}, expected {:?}", w(), b, g, e));
    }
}
fn product<T: Fl>(a: &Q, b: &Q, r: &mut Rec) {
    let (x, y) = (qn::<T>(*a), qn::<T>(*b));
    let g = am33(&(x * y).to_rotation());
    let e = am33(&(x.to_rotation() * y.to_rotation()));
    let f = mul(&qmat(*a), &qmat(*b));
    r.check("products of quaternions become products of matrices", le(dist(&g, &f), tol::<T>()) && le(dist(&e, &f), tol::<T>()), || format!("{} {:?} {:?}: {:?} against {:?}", T::NAME, x, y, g, e));
    let g = am33(&x.conj().to_rotation());
    r.check("the conjugate becomes the transpose", le(dist(&g, &tr(&qmat(*a))), tol::<T>()), || format!("{} {:?}: {:?}", T::NAME, x, g));
}
fn from_matrix<T: Fl>(m: &A<3>, q: Option<&Q>, r: &mut Rec) {
    let x = m33::<T>(m);
    let b = am33(&x);
    let g = Quaternion::from_rotation(&x);
    let a = aq(&g);
    // the four regimes of a rotation: which component is large
    r.class(match (0..4).max_by(|i, j| a[*i].abs().total_cmp(&a[*j].abs())).unwrap() { 0 => "scalar part dominates", 1 => "x dominates", 2 => "y dominates", _ => "z dominates" });
    if a[0].abs() < 1e-9 { r.class("half turn") }
    let t = tol::<T>();
    let w = || format!("{} {:?}: {:?}", T::NAME, b, g);
    r.check("converted quaternion is unit", le((nrm(&a) - 1.0).abs(), t), w);
    r.check("converted quaternion rebuilds the matrix", le(dist(&qmat(a), &b), t) && le(dist(&am33(&g.to_rotation()), &b), t), || format!("{} rebuilds {:?}", w(), qmat(a)));
    if let Some(q) = q {
        r.check("converting there and back gives the quaternion up to sign", le(distv(&a, q).min(distv(&a, &qsc(*q, -1.0))), t), || format!("{} expected {:?}", w(), q));
    }
}
fn rot_case<T: Fl>(q: &Q, r: &mut Rec) {
    from_matrix::<T>(&qmat(*q), Some(q), r);
    let x = qn::<T>(*q);
    from_matrix::<T>(&am33(&x.to_rotation()), None, r);
}

fn main() {
    run(
        "C12",
        "exploration",
        "every unit quaternion of the family (48-element binary octahedral group, axis/angle grid, rational points, all integer quaternions of small norm, neighbourhoods of the half turns) is converted both ways by the real code and compared with conjugation of the basis vectors; all pairs of the smaller family for products; non-trivial: distinct rotations",
        &["quaternions given as unit are unit up to rounding"],
        |c| {
            let vs: Vec<[f64; 3]> = vec![[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, -2.0, 3.0], [0.0, 0.0, 0.0], [-0.5, 1e-3, 1e3], [1e6, 1e6, -1e6]];
            let us = unit_quats(2);
            c.list("unit quaternions to matrices", &us, |q, r| {
                r.key(hash_f(1, q));
                r.sample(|| format!("{:?}", q));
                to_matrix::<f64>(q, &vs, r);
                to_matrix::<f32>(q, &vs, r);
            });
            c.list("rotation matrices to quaternions", &us, |q, r| {
                r.key(hash_f(2, q));
                rot_case::<f64>(q, r);
                rot_case::<f32>(q, r);
            });
            // every direction of the integer lattice, normalised: all sign patterns, all dominance orders, many half turns
            let k = c.qt(9i64, 15);
            let n = (2 * k + 1) as u64;
            c.space(&format!("normalised integer quaternions, components in {}..={}", -k, k), n.pow(4), |i, r| {
                let mut d = Dec(i);
                let q: Q = std::array::from_fn(|_| (d.take(n as usize) as i64 - k) as f64);
                if nrm(&q) == 0.0 { return }
                r.key(hash_f(3, &q));
                let u = qunit(q);
                to_matrix::<f64>(&u, &vs[3..4], r);
                rot_case::<f64>(&u, r);
                to_matrix::<f32>(&u, &vs[3..4], r);
                rot_case::<f32>(&u, r);
            });
            // every structure of the components, and of the vector turned
            let sh: Vec<Q> = shapes::<4>().into_iter().filter(|q| nrm(q) > 0.0).map(qunit).collect();
            let s3 = shapes::<3>();
            c.list("unit quaternions of every structure", &sh, |q, r| {
                r.key(hash_f(7, q));
                to_matrix::<f64>(q, &s3, r);
                to_matrix::<f32>(q, &s3, r);
                rot_case::<f64>(q, r);
                rot_case::<f32>(q, r);
            });
            let st = 1;
            c.every("pairs of unit quaternions of every structure", (sh.len() * sh.len()) as u64, st, |i, r| {
                let (p, q) = (i as usize / sh.len(), i as usize % sh.len());
                r.key(hash_u(8, &[i]));
                product::<f64>(&sh[p], &sh[q], r);
                product::<f32>(&sh[p], &sh[q], r);
            });
            // half turns about every lattice axis, approached at several distances: the branch borders
            let ax: Vec<[f64; 3]> = (1..343).map(|i| [(i / 49) as f64 - 3.0, (i / 7 % 7) as f64 - 3.0, (i % 7) as f64 - 3.0]).filter(|a| nrm(a) > 0.0).collect();
            let off = [0.0, 1e-16, 1e-12, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1, 0.5, 1.0, 1.5];
            c.space("neighbourhoods of half turns about lattice axes", (ax.len() * off.len() * 2) as u64, |i, r| {
                let mut d = Dec(i);
                let e: f64 = *d.pick(&off) * if d.take(2) == 0 { 1.0 } else { -1.0 };
                let a = *d.pick(&ax);
                let u = unit3(a);
                let (s, co) = (e / 2.0).sin_cos();
                let q = [-s, u[0] * co, u[1] * co, u[2] * co];
                r.key(hash_f(4, &q));
                rot_case::<f64>(&q, r);
                rot_case::<f32>(&q, r);
            });
            // exact rotation matrices: the 24 signed permutations of determinant one
            let mut oct: Vec<A<3>> = Vec::new();
            for p in perms(3) { for s in 0..8 {
                let mut m = zero::<3>();
                for k in 0..3 { m[k][p[k]] = if s >> k & 1 == 1 { -1.0 } else { 1.0 } }
                if det(&m).0 > 0.0 { oct.push(m) }
            } }
            let all: Vec<A<3>> = oct.iter().copied().chain(oct.iter().flat_map(|a| [[2.0, 3.0, 6.0], [1.0, 2.0, 2.0]].into_iter().map(|v| mul(a, &rodrigues(unit3(v), PI))))).collect();
            c.list("signed permutation rotations and half turns composed with them", &all, |m, r| { r.key(hash_f(5, m.as_flattened())); from_matrix::<f64>(m, None, r); from_matrix::<f32>(m, None, r) });
            let us = unit_quats(c.qt(1, 2));
            let n = us.len() as u64;
            c.space("all pairs of unit quaternions", n * n, |i, r| {
                let (a, b) = (&us[(i / n) as usize], &us[(i % n) as usize]);
                r.key(hash_u(6, &[i]));
                product::<f64>(a, b, r);
                product::<f32>(a, b, r);
            });
        },
    );
}
