//! C22: hat, vee, twist and adjoint maps.
use mc::adapt::*;
use mc::fam::*;
use mc::refm::*;
use mc::*;
use static_math::transformations as tf;

fn tol<T: Fl>() -> f64 { 128.0 * T::EPS }
fn v6<T: Fl>(a: [f64; 6]) -> V6<T> { let a = a.map(T::of); V6::new_from(a[0], a[1], a[2], a[3], a[4], a[5]) }
fn a6<T: Fl>(v: &V6<T>) -> [f64; 6] { std::array::from_fn(|i| v[i].to()) }
fn am66<T: Fl>(m: &M66<T>) -> A<6> { to_m(&Fx::farr(m)) }
fn mulm<T: Fl>(m: &M33<T>, v: &V3<T>) -> [f64; 3] { a3(&(*m * *v)) }

fn hats<T: Fl>(a: [f64; 3], b: [f64; 3], s: f64, r: &mut Rec) {
    let (v, w, k) = (v3::<T>(a), v3::<T>(b), T::of(s));
    let (a, b, s) = (a3(&v), a3(&w), k.to());
    let m = tf::skew_from_vec(&v);
    let ctx = || format!("{} {:?} {:?}: {:?}", T::NAME, a, b, m);
    let t = 8.0 * T::EPS * nrm(&a) * nrm(&b);
    // of a plus s times b
    let tl = 8.0 * T::EPS * (nrm(&a) + nrm(&b) * s.abs());
    r.check("skew matrix times vector is the cross product", le(distv(&mulm(&m, &w), &cross(a, b)), t) && le(distv(&mulm(&m, &w), &a3(&v.cross(w))), t), ctx);
    r.check("skew matrix is antisymmetric with zero diagonal", am33(&m) == hat(a), ctx);
    r.check("vee recovers the vector", a3(&tf::skew_to_vec(&m)) == a, ctx);
    let l = am33(&tf::skew_from_vec(&(v + w * k)));
    let e = am33(&(m + tf::skew_from_vec(&w) * k));
    r.check("skew map is linear", le(dist(&l, &e), tl), ctx);
    let back = a3(&tf::skew_to_vec(&(m + tf::skew_from_vec(&w) * k)));
    r.check("vee is linear", le(distv(&back, &a3(&(v + w * k))), tl), ctx);
    // scalar
    for x in [v[0], k] {
        let m = tf::skew_scalar(x);
        r.check("planar skew matrix", m[(0, 0)].to() == 0.0 && m[(1, 1)].to() == 0.0 && m[(1, 0)].to() == x.to() && m[(0, 1)].to() == -x.to() && tf::vex_m22(&m).to() == x.to(), || format!("{} {:?}: {:?}", T::NAME, x, m));
    }
    // augmented planar: skew of the last component, linear part in the last column
    let g = tf::skew_from_vec_aug(v);
    let e = [[0.0, -a[2], a[0]], [a[2], 0.0, a[1]], [0.0, 0.0, 0.0]];
    r.check("augmented planar skew matrix", am33(&g) == e, || format!("{} {:?}: {:?}", T::NAME, a, g));
}
fn twists<T: Fl>(x: [f64; 6], y: [f64; 6], r: &mut Rec) {
    let (u, w) = (v6::<T>(x), v6::<T>(y));
    let (x, y) = (a6(&u), a6(&w));
    let m = tf::twist_to_se3(&u);
    let g = am44(&m);
    let ctx = || format!("{} {:?} {:?}: {:?}", T::NAME, x, y, m);
    let hw = hat([x[0], x[1], x[2]]);
    let mut e = zero::<4>();
    for i in 0..3 { for j in 0..3 { e[i][j] = hw[i][j] } e[i][3] = x[3 + i] }
    r.check("twist matrix holds the skew of the angular part and the linear part", g == e, ctx);
    r.check("twist matrix gives the twist back", a6(&tf::se3_to_twist(&m)) == x, ctx);
    let t = 16.0 * T::EPS * (nrm(&x) + 2.0 * nrm(&y));
    let two = T::of(2.0);
    r.check("twist map is linear", le(dist(&am44(&tf::twist_to_se3(&(u + w * two))), &am44(&(m + tf::twist_to_se3(&w) * two))), t), ctx);
    let (so, v) = tf::se3_get_parts(&m);
    r.check("twist matrix splits into skew and linear part", am33(&so) == hw && a3(&v) == [x[3], x[4], x[5]], ctx);
    r.check("twist matrix is built from skew and linear part", am44(&tf::se3_from_parts(&so, &v)) == e, ctx);
    // six-dimensional skew: linear part first
    let s6 = tf::skew_v6(u);
    let hw = hat([x[3], x[4], x[5]]);
    let mut e = zero::<4>();
    for i in 0..3 { for j in 0..3 { e[i][j] = hw[i][j] } e[i][3] = x[i] }
    r.check("six-dimensional skew matrix", am44(&s6) == e, || format!("{} {:?}: {:?}", T::NAME, x, s6));
    // exponential coordinates
    let n = nrm(&x[..3]);
    if nrm(&x) > 0.0 {
        let (s, th) = tf::axis_angle6(&u);
        let m = nrm(&x);
        r.check("screw axis times angle gives the coordinates back", le(distv(&a6(&(s * th)), &x), tol::<T>() * m), || format!("{} {:?}: {:?} {:?}", T::NAME, x, s, th));
        let sa = a6(&s);
        // (a rotation below the rounding unit counts as none next to a longer translation)
        if n > 4.0 * T::EPS || n > nrm(&x[3..]) { r.check("screw axis is normalised", le((nrm(&sa[..3]) - 1.0).abs(), tol::<T>()) && le((th.to() - n).abs(), tol::<T>() * n), || format!("{} {:?}: {:?} {:?}", T::NAME, x, s, th)); }
        else if n == 0.0 { r.check("pure translation axis is normalised", le((nrm(&sa[3..]) - 1.0).abs(), tol::<T>()) && sa[..3] == [0.0; 3], || format!("{} {:?}: {:?} {:?}", T::NAME, x, s, th)); }
    }
    if n > 0.0 {
        let v = v3::<T>([x[0], x[1], x[2]]);
        let (w, th) = tf::axis_angle(&v);
        r.check("axis times angle gives the coordinates back", le(distv(&a3(&(w * th)), &a3(&v)), tol::<T>() * n), || format!("{} {:?}: {:?} {:?}", T::NAME, v, w, th));
        r.check("axis is unit and angle the length", le((nrm(&a3(&w)) - 1.0).abs(), tol::<T>()) && le((th.to() - n).abs(), tol::<T>() * n), || format!("{} {:?}: {:?} {:?}", T::NAME, v, w, th));
    }
}
fn screw<T: Fl>(q: [f64; 3], s: [f64; 3], h: f64, r: &mut Rec) {
    let (q, s, h) = (v3::<T>(q), v3::<T>(s), T::of(h));
    let g = a6(&tf::screw_to_axis(&q, &s, h));
    let e = add3(cross(a3(&q), a3(&s)), sc3(a3(&s), h.to()));
    r.check("screw axis is the direction and the moment plus pitch times direction", g[..3] == a3(&s) && le(distv(&g[3..], &e), 16.0 * T::EPS * (nrm(&a3(&q)) + h.to().abs()) * nrm(&a3(&s))), || format!("{} {:?} {:?} {:?}: {:?}, expected {:?}", T::NAME, q, s, h, g, e));
}
fn motion<T: Fl>(x: &(Q, [f64; 3])) -> (M44<T>, A<4>) {
    let m = tf::homogeneous_from_rotation(&m33::<T>(&qmat(x.0)), &v3(x.1));
    let a = am44(&m);
    (m, a)
}
fn rinv(a: &A<4>) -> A<4> {
    let rt = tr(&std::array::from_fn::<_, 3, _>(|i| std::array::from_fn::<_, 3, _>(|j| a[i][j])));
    homog(&rt, sc3(mulv(&rt, &[a[0][3], a[1][3], a[2][3]]), -1.0))
}
/// rotation blocks within `t`, the coupling block within `c`
fn le6(a: &A<6>, b: &A<6>, t: f64, c: f64) -> bool { (0..6).all(|i| (0..6).all(|j| le((a[i][j] - b[i][j]).abs(), if i >= 3 && j < 3 { c } else { t }))) }
fn adj1<T: Fl>(x: &(Q, [f64; 3]), r: &mut Rec) {
    let (m, a) = motion::<T>(x);
    let ad = tf::adjoint(&m);
    // every block to its own rounding, however short the translation
    let s = nrm(&x.1);
    for k in 0..9 {
        let w = match k { 6 => [1.0, -2.0, 0.5, 3.0, 1.0, -1.0], 7 => [0.0, 0.0, 1.0, -2.0, 4.0, 0.5], 8 => [0.25, 3.0, -1.0, 0.0, 0.0, 0.0], _ => std::array::from_fn(|i| (i == k) as u8 as f64) };
        let u = v6::<T>(w);
        let mut t = zero::<4>();
        let hw = hat([w[0], w[1], w[2]]);
        for i in 0..3 { for j in 0..3 { t[i][j] = hw[i][j] } t[i][3] = w[3 + i] }
        let e = mul(&mul(&a, &t), &rinv(&a));
        let g = am44(&tf::twist_to_se3(&(ad * u)));
        r.check("adjoint acts as conjugation of the twist matrix", leh(&g, &e, tol::<T>() * 4.0 * nrm(&w[..3]), tol::<T>() * 4.0 * (nrm(&w[3..]) + s * nrm(&w[..3]))), || format!("{} {:?} twist {:?}: {:?}, expected {:?}", T::NAME, x, w, g, e));
    }
    let gi = tf::adjoint(&tf::homogeneous_inverse(&m));
    r.check("adjoint of the inverse is the inverse", le6(&am66(&(gi * ad)), &ident::<6>(), tol::<T>(), tol::<T>() * s), || format!("{} {:?}: {:?}", T::NAME, x, gi));
}
fn adj2<T: Fl>(x: &(Q, [f64; 3]), y: &(Q, [f64; 3]), r: &mut Rec) {
    let ((m, _), (n, _)) = (motion::<T>(x), motion::<T>(y));
    let g = am66(&tf::adjoint(&(m * n)));
    let e = am66(&(tf::adjoint(&m) * tf::adjoint(&n)));
    r.check("adjoint is multiplicative", le6(&g, &e, tol::<T>(), tol::<T>() * (nrm(&x.1) + nrm(&y.1))), || format!("{} {:?} {:?}: {:?}, product {:?}", T::NAME, x, y, g, e));
}

fn main() {
    run(
        "C22",
        "exploration",
        "every pair of vectors of a small grid, every twist with at most three components of a value list away from several bases, every point/direction/pitch triple of lists, every direction of a family at every pair of 32 orders of magnitude, every rotation of a family with every translation of a list (all ordered pairs of a sub-family) on the real maps, against the cross product and conjugation; the maps being linear, the grids contain a basis of every argument; non-trivial: distinct inputs",
        &["motions passed to the adjoint are rigid up to rounding; the zero vector is not split into axis and angle"],
        |c| {
            let g = [-2.0, -0.5, 0.0, 1.0, 3.0, 1e-3, 1e4, 1e-9, -1e-15];
            c.space("vector pairs", 9u64.pow(6), |i, r| {
                let mut d = Dec(i);
                let a: [f64; 3] = std::array::from_fn(|_| *d.pick(&g));
                let b: [f64; 3] = std::array::from_fn(|_| *d.pick(&g));
                r.key(hash_u(1, &[i]));
                r.sample(|| format!("{:?} {:?}", a, b));
                hats::<f64>(a, b, [2.0, -0.5, 7.0][(i % 3) as usize], r);
                hats::<f32>(a, b, [2.0, -0.5, 7.0][(i % 3) as usize], r);
            });
            let vals = [0.0, 1.0, -1.0, 2.5, -3.0, 0.1, 100.0, -1e-3, 1e-5, 7.0, 1e-9, -1e-12, 1e9];
            let bases: [[f64; 6]; 8] = [[0.0; 6], [1.0, 2.0, 3.0, 4.0, 5.0, 6.0], [-1.0, 0.5, 2.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 2.0, -3.0, 6.0], [3.0, -4.0, 0.0, 12.0, 1.0, -1.0], [0.1, 0.2, -0.3, -0.4, 0.5, 0.6], [1e-9, -2e-9, 1e-9, 3e-9, 0.0, 1e-9], [0.0, 0.0, 0.0, 1e-12, -1e-12, 0.0]];
            let dev = 3;
            let nd = dev_count(6, 13, dev);
            c.space("twists", nd * 64, |i, r| {
                let mut d = Dec(i);
                let (a, b) = (*d.pick(&bases), *d.pick(&bases));
                let mut o = Vec::new();
                dev_at(6, 13, d.0, &mut o);
                let mut x = a;
                for (k, v) in o { x[k] = vals[v] }
                r.key(hash_u(2, &[i]));
                twists::<f64>(x, b, r);
                twists::<f32>(x, b, r);
            });
            c.space("twist grid", 6u64.pow(6), |i, r| {
                let mut d = Dec(i);
                let x: [f64; 6] = std::array::from_fn(|_| vals[d.take(6)]);
                r.key(hash_u(3, &[i]));
                twists::<f64>(x, bases[4], r);
                twists::<f32>(x, bases[4], r);
            });
            let ax = axes();
            let mut ps = translations();
            ps.extend([[1e-9, -3e-9, 2e-9], [0.0, 0.0, 1e-12], [1e10, 2e10, -1e10]]);
            let hs = [0.0, 1.0, -2.0, 0.125, 30.0, 1e-9, -1e-13, 1e9];
            c.space("screw axes", (ax.len() * ps.len() * hs.len() * 2) as u64, |i, r| {
                let mut d = Dec(i);
                let (s, q, h, u) = (*d.pick(&ax), *d.pick(&ps), *d.pick(&hs), d.take(2));
                r.key(hash_u(4, &[i]));
                let s = if u == 0 { unit3(s) } else { s };
                screw::<f64>(q, s, h, r);
                screw::<f32>(q, s, h, r);
            });
            // every structure of the components
            let sh = shapes::<3>();
            c.space("vectors of every structure", (sh.len() * sh.len()) as u64, |i, r| {
                let (a, b) = (sh[i as usize / sh.len()], sh[i as usize % sh.len()]);
                r.key(hash_u(11, &[i]));
                hats::<f64>(a, b, -0.5, r);
                hats::<f32>(a, b, 3.0, r);
                twists::<f64>([a[0], a[1], a[2], b[0], b[1], b[2]], bases[1], r);
                twists::<f32>([a[0], a[1], a[2], b[0], b[1], b[2]], bases[1], r);
                screw::<f64>(a, b, [0.0, 1.0, -0.25][(i % 3) as usize], r);
                screw::<f32>(a, b, [0.0, 1.0, -0.25][(i % 3) as usize], r);
            });
            let s6 = shapes::<6>();
            // rotation or translation part with a norm next to one
            let no = near_one();
            c.space("twists with parts next to unit length", (sh.len() * no.len() * 3) as u64, |i, r| {
                let mut d = Dec(i);
                let (k, f, a) = (d.take(3), *d.pick(&no), *d.pick(&sh));
                let b = sh[(i as usize * 31 + 7) % sh.len()];
                if nrm(&a) == 0.0 { return }
                let u = sc3(unit3(a), f);
                r.key(hash_u(14, &[i]));
                let x = match k { 0 => [u[0], u[1], u[2], b[0], b[1], b[2]], 1 => [0.0, 0.0, 0.0, u[0], u[1], u[2]], _ => { if nrm(&b) == 0.0 { return } let v = sc3(unit3(b), f); [u[0], u[1], u[2], v[0], v[1], v[2]] } };
                twists::<f64>(x, bases[1], r);
                twists::<f32>(x, bases[1], r);
                screw::<f64>(b, u, f, r);
                screw::<f32>(b, u, f, r);
            });
            c.space("twists of every structure", (s6.len() * 40) as u64, |i, r| {
                let mut d = Dec(i);
                let x = *d.pick(&s6);
                let k = d.0 as usize;
                r.key(hash_u(12, &[i]));
                let y = if k < 8 { bases[k] } else if k == 8 { x } else if k == 9 { x.map(|v| -v) } else { s6[(i as usize * 31 + k * 97) % s6.len()] };
                twists::<f64>(x, y, r);
                twists::<f32>(x, y, r);
            });
            let rt = unit_quats(0);
            c.space("adjoints of translations of every structure", (rt.len() * sh.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let x = (*d.pick(&rt), *d.pick(&sh));
                r.key(hash_u(13, &[i]));
                adj1::<f64>(&x, r);
                adj1::<f32>(&x, r);
                let y = (rt[(i as usize * 7 + 5) % rt.len()], sh[(i as usize * 11 + 3) % sh.len()]);
                adj2::<f64>(&x, &y, r);
                adj2::<f32>(&x, &y, r);
            });
            // every order of magnitude, alone and next to another
            let m = [1e-110, 1e-60, 1e-35, 1e-30, 1e-25, 1e-18, 1e-17, 1e-14, 1e-13, 1e-11, 1e-10, 1e-8, 1e-6, 1e-5, 1e-4, 1e-2, 0.2, 1.0, 4.0, 30.0, 1e2, 1e4, 1e7, 1e8, 1e10, 1e12, 1e16, 1e18, 1e30, 1e35, 1e60, 1e110];
            let n = m.len();
            let f32fits = |x: f64, y: f64| (1e-32..1e32).contains(&x) && (1e-32..1e32).contains(&y);
            c.space("vectors at every magnitude", (ax.len() * 5 * n * n) as u64, |i, r| {
                let mut d = Dec(i);
                let (s, t, a) = (*d.pick(&m), *d.pick(&m), *d.pick(&ax));
                let b = ax[[0, 3, 7, 12, 16][d.take(5)] % ax.len()];
                r.key(hash_u(7, &[i]));
                let (a, b) = (sc3(a, s), sc3(b, t));
                hats::<f64>(a, b, 1.5, r);
                hats::<f64>(a, b, s / t, r);
                if f32fits(s, t) && f32fits(s * t, s / t) {
                    hats::<f32>(a, b, 1.5, r);
                    hats::<f32>(a, b, s / t, r);
                }
            });
            c.space("twists at every magnitude", (ax.len() * 5 * n * n) as u64, |i, r| {
                let mut d = Dec(i);
                let (s, t, a) = (*d.pick(&m), *d.pick(&m), *d.pick(&ax));
                let b = ax[[0, 3, 7, 12, 16][d.take(5)] % ax.len()];
                r.key(hash_u(8, &[i]));
                let x = [a[0] * s, a[1] * s, a[2] * s, b[0] * t, b[1] * t, b[2] * t];
                twists::<f64>(x, bases[1], r);
                // norms of both parts stay in range
                if (1e-17..1e17).contains(&s) && (1e-17..1e17).contains(&t) { twists::<f32>(x, bases[1], r) }
            });
            c.space("screw axes at every magnitude", (ax.len() * 5 * n * n) as u64, |i, r| {
                let mut d = Dec(i);
                let (s, t, a) = (*d.pick(&m), *d.pick(&m), *d.pick(&ax));
                let k = d.take(5);
                let b = unit3(ax[[0, 3, 7, 12, 16][k] % ax.len()]);
                r.key(hash_u(9, &[i]));
                let h = if k % 2 == 0 { t } else { -t };
                for z in [1.0, s] {
                    screw::<f64>(sc3(a, s), sc3(b, z), h, r);
                    if f32fits(s, t) && f32fits(s * z, t * z) { screw::<f32>(sc3(a, s), sc3(b, z), h, r) }
                }
            });
            let us0 = unit_quats(0);
            c.space("adjoints at every magnitude", (us0.len() * 5 * n) as u64, |i, r| {
                let mut d = Dec(i);
                let s = *d.pick(&m);
                let b = ax[[0, 3, 7, 12, 16][d.take(5)] % ax.len()];
                let x = (*d.pick(&us0), sc3(b, s));
                r.key(hash_u(10, &[i]));
                adj1::<f64>(&x, r);
                if f32fits(s, s) { adj1::<f32>(&x, r) }
            });
            let us = unit_quats(2);
            let mut ts = translations();
            ts.extend([[2.0, -1.0, 7.0], [1e-6, 2e-6, -1e-6], [1e-9, -3e-9, 2e-9], [0.0, 0.0, 1e-12], [-1e-20, 1e-20, 0.0], [1e10, 2e10, -1e10], [1e3, 1e-3, 1e-9]]);
            c.space("adjoints", (us.len() * ts.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let x = (*d.pick(&us), *d.pick(&ts));
                r.key(hash_u(5, &[i]));
                adj1::<f64>(&x, r);
                adj1::<f32>(&x, r);
            });
            let mut ms: Vec<(Q, [f64; 3])> = Vec::new();
            for (i, q) in unit_quats(0).iter().enumerate() { ms.push((*q, ts[i % 17])); { for k in 1..c.qt(3, 8) { ms.push((*q, ts[(i + 5 * k) % 17])) } } }
            let n = ms.len() as u64;
            c.space("adjoints of products", n * n, |i, r| {
                let (a, b) = (&ms[(i / n) as usize], &ms[(i % n) as usize]);
                r.key(hash_u(6, &[i]));
                adj2::<f64>(a, b, r);
                adj2::<f32>(a, b, r);
            });
        },
    );
}
