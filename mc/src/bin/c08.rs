//! C08: float comparison and slice helpers.
use mc::adapt::*;
use mc::*;
use static_math::slices_methods as sm;
use static_math::utils::*;

/// Some(verdict) when the documented relation decides it clearly (not within rounding of the border)
fn oracle(a: f64, b: f64, eps: f64, min_pos: f64, max: f64) -> Option<bool> {
    if a.is_nan() || b.is_nan() || eps.is_nan() { return Some(false) }
    if a == b { return Some(true) }
    if a.is_infinite() || b.is_infinite() { return Some(false) }
    let clear = |x: f64, t: f64| if (x - t).abs() <= 1e-5 * t.abs() { None } else { Some(x < t) };
    // differences and sums at half scale cannot overflow
    let h = if a.abs() > 1.0 || b.abs() > 1.0 { 0.5 } else { 1.0 };
    let diff = (a * h - b * h).abs();
    let sum = a.abs() * h + b.abs() * h;
    let (fd, fs) = (diff / h, sum / h);
    if a == 0.0 || b == 0.0 { return clear(fd, eps) }
    if fs < min_pos * 0.99 { return clear(fd, eps) }
    if fs < min_pos * 1.01 { let (p, q) = (clear(fd, eps), clear(diff / sum, eps)); return if p == q { p } else { None } }
    let r1 = clear(diff / sum, eps);
    if fs > max * 0.99 {
        // the sum of the magnitudes is capped by the largest finite value
        let r2 = clear(fd / max, eps);
        return if fd > max * 0.99 { if r1 == Some(false) { r1 } else { None } } else if r1 == r2 { r1 } else { None };
    }
    r1
}
fn ne_case<T: Fl>(a: f64, b: f64, e: f64, r: &mut Rec) {
    let (x, y, z) = (T::of(a), T::of(b), T::of(e));
    let (a, b, e) = (x.to(), y.to(), z.to());
    let g = nearly_equal(x, y, z);
    let w = || format!("{} nearly_equal({:e}, {:e}, {:e}) = {}", T::NAME, a, b, e, g);
    r.check("approximate equality is symmetric", g == nearly_equal(y, x, z), w);
    let (mp, mx) = (T::min_positive_value().to(), T::max_value().to());
    if let Some(v) = oracle(a, b, e, mp, mx) {
        r.class(if v { "equal" } else { "different" });
        r.check("approximate equality decides its relation", g == v, w);
    } else {
        r.class("on the border");
    }
    if b == 0.0 && e == T::EPS {
        let g = nearly_zero(x);
        if let Some(v) = oracle(a, 0.0, e, mp, mx) { r.check("nearly zero", g == v, || format!("{} nearly_zero({:e}) = {}", T::NAME, a, g)); }
    }
    // plain difference test
    let g = compare_floats(x, y, z);
    let d = (a - b).abs();
    if !(d - e).is_nan() && (d - e).abs() > 1e-5 * e.abs() || a.is_nan() || b.is_nan() {
        r.check("absolute comparison is a plain difference test", g == (d < e), || format!("{} compare_floats({:e}, {:e}, {:e}) = {}", T::NAME, a, b, e, g));
    }
}

fn main() {
    run(
        "C08",
        "exploration",
        "every triple (a, b, tolerance) over a value ladder that spans zero, subnormals, the negligible border, ordinary values with relative offsets around each tolerance, the overflow border, infinities and NaN, in both precisions, is decided by the real comparison and by the documented relation; every slice over small alphabets up to the stated length for the slice helpers; every pair of component positions for sequence and dual quaternion comparison; non-trivial: distinct inputs",
        &["verdicts within 1e-5 relative of the border are not judged", "sequence comparison is judged on sequences of equal length, extremum search on non-empty NaN-free slices"],
        |c| {
            let eps = [0.0, 1e-300, 1e-16, f64::EPSILON, f32::EPSILON as f64, 1e-10, 1e-6, 1e-3, 0.1, 0.5, 0.9, 1.0, 2.0, 1e10];
            let mut base = vec![0.0, -0.0, 5e-324, 1e-310, f64::MIN_POSITIVE, f64::MIN_POSITIVE / 2.0, f64::MIN_POSITIVE * 0.4, 1e-300, 1e-45, 1e-40, 5e-39, f32::MIN_POSITIVE as f64, 1e-38, 3e-38, 1e-30, 1e-20, 1e-17, 1e-16, 2e-16, 3e-16, 1e-10, 1e-8, 1e-7, 2e-7, 1e-6, 1e-4, 1e-3, 0.1, 0.3, 0.5, 1.0, 2.0, 3.0, 10.0, 1e3, 1e6, 1e10, 1e20, 1e30, 1e38, 1.7e38, 3.3e38, f32::MAX as f64, 1e100, 1e300, 9e307, f64::MAX, f64::INFINITY, f64::NAN];
            base.extend(base.clone().iter().map(|x| -x));
            let n = base.len() as u64;
            c.space("all pairs of the value ladder", n * n * eps.len() as u64, |i, r| {
                let mut d = Dec(i);
                let e = *d.pick(&eps);
                let (a, b) = (*d.pick(&base), *d.pick(&base));
                r.key(hash_u(1, &[i]));
                r.sample(|| format!("{:e} {:e} {:e}", a, b, e));
                ne_case::<f64>(a, b, e, r);
                ne_case::<f32>(a, b, e, r);
            });
            // b = a displaced by k * eps * (|a|+|b|): both sides of the border
            let ks = [0.0, 0.25, 0.5, 0.9, 0.99, 1.01, 1.1, 1.9, 1.99, 2.01, 2.1, 3.0, 4.0, 10.0, 1000.0];
            c.space("relative offsets around each tolerance", n * (eps.len() * ks.len() * 2) as u64, |i, r| {
                let mut d = Dec(i);
                let e = *d.pick(&eps);
                let k = *d.pick(&ks) * if d.take(2) == 0 { 1.0 } else { -1.0 };
                let a = *d.pick(&base);
                r.key(hash_u(2, &[i]));
                ne_case::<f64>(a, a * (1.0 + k * e), e, r);
                ne_case::<f64>(a, a + k * e, e, r);
                ne_case::<f32>(a, a * (1.0 + k * e), e, r);
                ne_case::<f32>(a, a + k * e, e, r);
            });
            // ---- sequences: conjunction over all components
            let off = [0.0, 1e-9, 1e-3, -5.0, f64::NAN];
            for len in 0..=36usize {
                let per = fam::dev_count(len.max(1) as u64, off.len() as u64, if len == 0 { 0 } else { 2 });
                c.space(&format!("sequence comparison, length {}", len), per, |i, r| {
                    let mut dv = Vec::new();
                    fam::dev_at(len as u64, off.len() as u64, i, &mut dv);
                    let a: Vec<f64> = (0..len).map(|k| (k as f64 - 2.0) * 0.75 + 0.5).collect();
                    let mut b = a.clone();
                    for (k, v) in &dv { b[*k] += off[*v] }
                    let e = 1e-6;
                    let exp = (0..len).all(|k| oracle(a[k], b[k], e, f64::MIN_POSITIVE, f64::MAX).unwrap());
                    r.key(hash_u(3 + len as u64, &[i]));
                    r.check("sequence comparison is the conjunction", compare_vecs(&a, &b, e) == exp && compare_vecs(&b, &a, e) == exp, || format!("{:?} {:?}", a, b));
                    let (af, bf): (Vec<f32>, Vec<f32>) = (a.iter().map(|x| *x as f32).collect(), b.iter().map(|x| *x as f32).collect());
                    r.check("sequence comparison is the conjunction", compare_vecs(&af, &bf, 1e-5f32) == exp, || format!("{:?} {:?}", af, bf));
                    // near-zero scan: disjunction
                    let z: Vec<f64> = (0..len).map(|k| match dv.iter().find(|x| x.0 == k) { Some((_, v)) => off[*v], None => 1.0 + k as f64 }).collect();
                    let exp = z.iter().any(|x| x.abs() < 1e-6);
                    r.check("near-zero scan is the disjunction", sm::check_elements(&z, 1e-6) == exp, || format!("{:?}", z));
                });
            }
            let off8 = [1e-9, 1e-3, -5.0, f64::NAN];
            c.space("dual quaternion comparison", fam::dev_count(8, 4, 3) * 3, |i, r| {
                let base = [[1.0, 2.0, -3.0, 4.0, 0.5, -0.25, 7.0, -8.0], [0.0; 8], [1.0, 0.0, 0.0, 0.0, 0.0, 1.0, -2.0, 3.0]][(i % 3) as usize];
                let mut dv = Vec::new();
                fam::dev_at(8, 4, i / 3, &mut dv);
                let mut b = base;
                for (k, v) in dv { b[k] += off8[v] }
                let mk = |a: [f64; 8]| DualQuaternion::new(qn::<f64>([a[0], a[1], a[2], a[3]]), qn::<f64>([a[4], a[5], a[6], a[7]]));
                let exp = (0..8).all(|k| oracle(base[k], b[k], 1e-6, f64::MIN_POSITIVE, f64::MAX).unwrap());
                r.key(hash_u(50, &[i]));
                let g = compare_dual_quaternions(mk(base), mk(b), 1e-6);
                r.check("dual quaternion comparison is the conjunction", g == exp && compare_dual_quaternions(mk(b), mk(base), 1e-6) == exp, || format!("{:?} {:?} -> {}", base, b, g));
            });
            // ---- extremum search, norms, dot, normalisation, projection: every slice
            let ivals = [-7i64, -1, 0, 2, 5];
            for len in 1..=c.qt(9usize, 10) {
                c.space(&format!("every slice of length {}", len), 5u64.pow(len as u32), |i, r| {
                    let mut d = Dec(i);
                    let v: Vec<i64> = (0..len).map(|_| *d.pick(&ivals)).collect();
                    slice_case(&v, r);
                });
            }
            for len in [8usize, 9, 12, 16, 17, 33, 64] {
                let per = fam::dev_count(len as u64, 5, 2);
                c.space(&format!("slices of length {}, two deviations", len), per * 2, |i, r| {
                    let mut dv = Vec::new();
                    fam::dev_at(len as u64, 5, i / 2, &mut dv);
                    let mut v: Vec<i64> = (0..len).map(|k| if i % 2 == 0 { 1 } else { (k as i64 * 7) % 5 - 2 }).collect();
                    for (k, x) in dv { v[k] = ivals[x] * 2 }
                    slice_case(&v, r);
                });
            }
            for len in [65usize, 100, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1025] {
                let per = fam::dev_count(len as u64, 5, if len <= 300 { c.qt(1, 2) } else { 1 });
                c.space(&format!("slices of length {}, few deviations", len), per * 2, |i, r| {
                    let mut dv = Vec::new();
                    fam::dev_at(len as u64, 5, i / 2, &mut dv);
                    let mut v: Vec<i64> = (0..len).map(|k| if i % 2 == 0 { 1 } else { (k as i64 * 7) % 5 - 2 }).collect();
                    for (k, x) in dv { v[k] = ivals[x] * 2 }
                    slice_case(&v, r);
                });
            }
            let pos = [0usize, 1, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 65541];
            c.space("slices beyond 65536 elements", 14 * 14 * 4, |i, r| {
                let mut d = Dec(i);
                let (p, q) = (*d.pick(&pos), *d.pick(&pos));
                let (x, y) = *d.pick(&[(10i64, 10i64), (-14, 4), (0, -14), (10, 0)]);
                let mut v = vec![1i64; 65542];
                v[p] = x;
                v[q] = y;
                slice_case(&v, r);
            });
            // ---- extreme floats
            let fx = [0.0, -0.0, 5e-324, -5e-324, 1e300, -1e300, f64::INFINITY, f64::NEG_INFINITY, 1.0, -1.0];
            for len in 1..=c.qt(6usize, 7) {
                c.space(&format!("every slice of extreme floats of length {}", len), 10u64.pow(len as u32), |i, r| {
                    let mut d = Dec(i);
                    let v: Vec<f64> = (0..len).map(|_| *d.pick(&fx)).collect();
                    r.key(hash_f(70 + len as u64, &v));
                    extreme_case(&v, r);
                });
            }
            // ---- orders of magnitude
            for len in 1..=c.qt(7usize, 8) {
                c.space(&format!("scaled slices of length {}", len), 5u64.pow(len as u32) * SC.len() as u64, |i, r| {
                    let mut d = Dec(i);
                    let s = *d.pick(&SC);
                    let u: Vec<f64> = (0..len).map(|_| *d.pick(&ivals) as f64).collect();
                    r.key(hash_u(80 + len as u64, &[i]));
                    scaled_case::<f64>(&u, s, r);
                    scaled_case::<f32>(&u, s, r);
                });
            }
            // ---- every structure of the components
            fn shapes<const N: usize>(c: &Ctx) {
                let sh = fam::shapes::<N>();
                let sc = [1.0, 1e-5, 1e8, 3e-13];
                c.space(&format!("slices of every structure, length {}", N), (sh.len() * 4) as u64, |i, r| {
                    let mut d = Dec(i);
                    let (s, u) = (*d.pick(&sc), *d.pick(&sh));
                    r.key(hash_u(110 + N as u64, &[i]));
                    scaled_case::<f64>(&u, s, r);
                    scaled_case::<f32>(&u, s, r);
                    extreme_case(&u.map(|x| x * s), r);
                });
                let st = (sh.len() * sh.len() / c.qt(3_000_000, 60_000_000)).max(1) | 1;
                c.every(&format!("pairs of slices of every structure, length {}", N), (sh.len() * sh.len()) as u64, st as u64, |i, r| {
                    let (p, q) = (i as usize / sh.len(), i as usize % sh.len());
                    r.key(hash_u(120 + N as u64, &[i]));
                    pair_case::<f64>(&sh[p], &sh[q], r);
                    pair_case::<f32>(&sh[p], &sh[q], r);
                });
                c.space(&format!("comparison against flipped and exchanged components, length {}", N), (sh.len() << N) as u64 + (sh.len() * N * N) as u64, |i, r| {
                    let n = (sh.len() << N) as u64;
                    let (mut d, m) = if i < n { (Dec(i), 1usize << N) } else { (Dec(i - n), N * N) };
                    let (k, a) = (d.take(m), *d.pick(&sh));
                    let mut b = a;
                    if i < n { for j in 0..N { if k >> j & 1 == 1 { b[j] = -b[j] } } } else { b.swap(k / N, k % N) }
                    r.key(hash_u(130 + N as u64, &[i]));
                    for e in [1e-6, 1e-3] { compare_case::<f64>(&a, &b, e, r); compare_case::<f32>(&a, &b, e, r) }
                });
            }
            shapes::<2>(c);
            shapes::<3>(c);
            shapes::<4>(c);
            shapes::<5>(c);
            shapes::<6>(c);
            shapes::<8>(c);
            // ---- sequence comparisons at every order of magnitude
            let es = [1e-6, 1e-3, 0.25];
            let ks = [0.0, 0.5, 0.98, 1.02, 3.0, 1e4];
            for len in [1usize, 2, 3, 4, 8] {
                c.space(&format!("scaled sequence comparison, length {}", len), (len * len * SC.len() * es.len() * ks.len() * 3) as u64, |i, r| {
                    let mut d = Dec(i);
                    let (p, q, s, e, k) = (d.take(len), d.take(len), *d.pick(&SC), *d.pick(&es), *d.pick(&ks));
                    let m = d.take(3);
                    r.key(hash_u(90 + len as u64, &[i]));
                    seq_case::<f64>(len, p, q, s, e, k, m, r);
                    seq_case::<f32>(len, p, q, s, e, k, m, r);
                });
            }
        },
    );
}

fn extreme_case(v: &[f64], r: &mut Rec) {
    let (mx, mn) = (v.iter().cloned().fold(f64::NEG_INFINITY, f64::max), v.iter().cloned().fold(f64::INFINITY, f64::min));
    let (pm, pn) = (v.iter().position(|x| *x == mx).unwrap(), v.iter().position(|x| *x == mn).unwrap());
    let g = sm::find_max_min(v);
    r.check("extremum search gives the extremes at their first position", g.max == (mx, pm) && g.min == (mn, pn), || format!("{:?}: {:?}", v, g));
    let f: Vec<f32> = v.iter().map(|x| *x as f32).collect();
    let (xf, nf) = (f.iter().cloned().fold(f32::NEG_INFINITY, f32::max), f.iter().cloned().fold(f32::INFINITY, f32::min));
    let h = sm::find_max_min(&f);
    r.check("extremum search gives the extremes at their first position", h.max == (xf, f.iter().position(|x| *x == xf).unwrap()) && h.min == (nf, f.iter().position(|x| *x == nf).unwrap()), || format!("{:?}: {:?}", f, h));
    let e = v.iter().map(|x| x.abs()).fold(0.0, f64::max);
    r.check("maximum norm of a slice uses magnitudes", sm::norm_inf(v) == e, || format!("{:?}: {}", v, sm::norm_inf(v)));
    let e: f64 = v.iter().map(|x| x.abs()).sum();
    let g = sm::norm_l(v);
    r.check("sum norm of a slice", g == e || (g - e).abs() <= 1e-14 * e, || format!("{:?}: {}", v, g));
}

fn slice_case(v: &[i64], r: &mut Rec) {
    let len = v.len();
    r.key(hash_u(60, &v.iter().map(|x| *x as u64).collect::<Vec<_>>()));
    let mx = *v.iter().max().unwrap();
    let mn = *v.iter().min().unwrap();
    let (pm, pn) = (v.iter().position(|x| *x == mx).unwrap(), v.iter().position(|x| *x == mn).unwrap());
    let g = sm::find_max_min(v);
    r.check("extremum search gives the extremes at their first position", g.max == (mx, pm) && g.min == (mn, pn), || format!("{:?}: {:?}", v, g));
    let f: Vec<f64> = v.iter().map(|x| *x as f64 * 0.5).collect();
    let h = sm::find_max_min(&f);
    r.check("extremum search gives the extremes at their first position", h.max == (mx as f64 * 0.5, pm) && h.min == (mn as f64 * 0.5, pn), || format!("{:?}: {:?}", f, h));
    let ch: Vec<u8> = v.iter().map(|x| (*x + 100) as u8).collect();
    let u = sm::find_max_min(&ch);
    r.check("extremum search gives the extremes at their first position", u.max.1 == pm && u.min.1 == pn, || format!("{:?}: {:?}", ch, u));
    let e = v.iter().map(|x| x.abs()).max().unwrap();
    r.check("maximum norm of a slice uses magnitudes", sm::norm_inf(v) == e && sm::norm_inf(&f) == e as f64 * 0.5, || format!("{:?}: {}", v, sm::norm_inf(v)));
    r.check("maximum norm of a slice uses magnitudes", sm::norm_inf(&ch) == *ch.iter().max().unwrap(), || format!("{:?}: {}", ch, sm::norm_inf(&ch)));
    let e: i64 = v.iter().map(|x| x.abs()).sum();
    r.check("sum norm of a slice", sm::norm_l(v) == e && sm::norm_l(&f) == e as f64 * 0.5, || format!("{:?}: {}", v, sm::norm_l(v)));
    let s: f64 = f.iter().map(|x| x * x).sum::<f64>();
    let tol = 8.0 * (len + 2) as f64 * f64::EPSILON;
    let g = sm::norm2(&f);
    r.check("Euclidean norm of a slice", (g - s.sqrt()).abs() <= tol * s.sqrt(), || format!("{:?}: {}", f, g));
    let w: Vec<i64> = (0..len).map(|k| (k as i64 * 5 + 2) % 7 - 3).collect();
    let e: i64 = (0..len).map(|k| v[k] * w[k]).sum();
    r.check("dot product of slices", sm::dot(v, &w) == e && sm::dot(&w, v) == e, || format!("{:?} . {:?} = {}", v, w, sm::dot(v, &w)));
    let wf: Vec<f64> = w.iter().map(|x| *x as f64).collect();
    let ww: f64 = wf.iter().map(|x| x * x).sum();
    if ww > 0.0 {
        let g = sm::project_x_over_y(&f, &wf);
        let e = e as f64 * 0.5 / ww;
        r.check("projection coefficient", (g - e).abs() <= tol * e.abs().max(1.0), || format!("{:?} on {:?}: {} expected {}", f, wf, g, e));
    }
    if s > 0.0 {
        let mut n = f.clone();
        sm::normalize(&mut n);
        let q: f64 = n.iter().map(|x| x * x).sum();
        r.check("normalising a slice", (q - 1.0).abs() <= tol * 4.0 && (0..len).all(|k| (n[k] - f[k] / s.sqrt()).abs() <= tol), || format!("{:?}: {:?}", f, n));
    }
}

/// scales spanning every order of magnitude both precisions can hold
const SC: [f64; 41] = [1e-300, 1e-160, 1e-120, 1e-90, 1e-60, 1e-40, 1e-36, 1e-30, 1e-25, 1e-19, 1e-18, 1e-16, 1e-14, 1e-12, 1e-10, 1e-8, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1, 1.0, 2.0, 10.0, 1e2, 1e3, 1e5, 1e7, 1e8, 1e10, 1e12, 1e14, 1e16, 1e18, 1e20, 1e30, 1e37, 1e60, 1e100, 1e150];

fn scaled_case<T: Fl + Signed2>(u: &[f64], s: f64, r: &mut Rec) {
    let (lo, hi) = (T::min_positive_value().to(), T::max_value().to());
    // every entry and every sum of magnitudes stays in the normal range
    if s < lo * 1e3 || s > hi * 1e-3 { return }
    let len = u.len();
    let v: Vec<T> = u.iter().map(|x| T::of(x * s)).collect();
    // what was really passed, as f64
    let vf: Vec<f64> = v.iter().map(|x| x.to()).collect();
    let u: Vec<f64> = vf.iter().map(|x| x / s).collect();
    let (q, l): (f64, f64) = (u.iter().map(|x| x * x).sum::<f64>().sqrt(), u.iter().map(|x| x.abs()).sum());
    let tol = 8.0 * (len + 2) as f64 * T::EPS;
    let m = vf.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    let n = T::NAME;
    let g = sm::norm_inf(&v).to();
    r.check("maximum norm of a slice uses magnitudes", g == m, || format!("{} {:?}: {}", n, vf, g));
    let g = T::norm_l(&v).to();
    r.check("sum norm of a slice", (g / s - l).abs() <= tol * l, || format!("{} {:?}: {}", n, vf, g));
    let (mx, mn) = (vf.iter().cloned().fold(f64::NEG_INFINITY, f64::max), vf.iter().cloned().fold(f64::INFINITY, f64::min));
    let (pm, pn) = (vf.iter().position(|x| *x == mx).unwrap(), vf.iter().position(|x| *x == mn).unwrap());
    let h = sm::find_max_min(&v);
    r.check("extremum search gives the extremes at their first position", (h.max.0.to(), h.max.1, h.min.0.to(), h.min.1) == (mx, pm, mn, pn), || format!("{} {:?}", n, vf));
    // products of two entries stay in the normal range
    if s < lo.sqrt() * 1e3 || s > hi.sqrt() * 1e-3 { return }
    let g = sm::norm2(&v).to();
    r.check("Euclidean norm of a slice", (g / s - q).abs() <= tol * q, || format!("{} {:?}: {}", n, vf, g));
    let w: Vec<f64> = (0..len).map(|k| ((k as i64 * 5 + 2) % 7 - 3) as f64).collect();
    for (sw, wn) in [(1.0, "w"), (s, "scaled w")] {
        let wt: Vec<T> = w.iter().map(|x| T::of(x * sw)).collect();
        let w: Vec<f64> = wt.iter().map(|x| x.to() / sw).collect();
        let e: f64 = (0..len).map(|k| u[k] * w[k]).sum();
        let a: f64 = (0..len).map(|k| (u[k] * w[k]).abs()).sum();
        for (g, way) in [(T::dot(&v, &wt).to(), "v.w"), (T::dot(&wt, &v).to(), "w.v")] {
            r.check("dot product of slices", (g / s / sw - e).abs() <= tol * a, || format!("{} {} {:?} . {} {:?} = {}", n, way, vf, wn, w, g));
        }
        if q > 0.0 {
            let g = T::project(&wt, &v).to();
            r.check("projection coefficient", (g * s / sw - e / (q * q)).abs() <= tol * a / (q * q), || format!("{} {:?} on {:?}: {}", n, w, vf, g));
        }
        let ww: f64 = w.iter().map(|x| x * x).sum();
        if ww > 0.0 {
            let g = T::project(&v, &wt).to();
            r.check("projection coefficient", (g / s * sw - e / ww).abs() <= tol * a / ww, || format!("{} {:?} on {:?}: {}", n, vf, w, g));
        }
    }
    if q > 0.0 {
        let mut x = v.clone();
        sm::normalize(&mut x);
        r.check("normalising a slice", (0..len).all(|k| (x[k].to() - u[k] / q).abs() <= tol * (u[k] / q).abs()), || format!("{} {:?}: {:?}", n, vf, x));
    }
}

/// one component of a scaled sequence displaced by k times the tolerance, measured against its relation
fn seq_case<T: Fl + Signed2>(len: usize, p: usize, q: usize, s: f64, e: f64, k: f64, mode: usize, r: &mut Rec) {
    let (lo, hi) = (T::min_positive_value().to(), T::max_value().to());
    if s < lo * 1e8 || s > hi * 1e-6 || s > 1e150 { return }
    let a: Vec<f64> = (0..len).map(|i| s * [1.0, -2.5, 3.0, 0.75][i % 4]).collect();
    let mut b = a.clone();
    // relative displacement of one component, sign flip or exchange with another component
    match mode {
        0 => b[p] = a[p] * (1.0 + 2.0 * k * e),
        1 => { b[p] = a[p] * (1.0 - 2.0 * k * e); b[q] = a[q] * (1.0 + 0.01 * e) }
        _ => b.swap(p, q),
    }
    let (at, bt): (Vec<T>, Vec<T>) = (a.iter().map(|x| T::of(*x)).collect(), b.iter().map(|x| T::of(*x)).collect());
    let et = T::of(e);
    let mut exp = Some(true);
    for i in 0..len {
        match oracle(at[i].to(), bt[i].to(), et.to(), lo, hi) {
            Some(false) => { exp = Some(false); break }
            None => exp = None,
            _ => {}
        }
    }
    let w = || format!("{} {:?} {:?} tolerance {:e}", T::NAME, at, bt, e);
    if let Some(x) = exp {
        r.class(if x { "equal sequences" } else { "different sequences" });
        r.check("sequence comparison is the conjunction", compare_vecs(&at, &bt, et) == x && compare_vecs(&bt, &at, et) == x, w);
        if len == 8 {
            let mk = |a: &[T]| DualQuaternion::new(Quaternion::new(a[0], V3::new([a[1], a[2], a[3]])), Quaternion::new(a[4], V3::new([a[5], a[6], a[7]])));
            r.check("dual quaternion comparison is the conjunction", compare_dual_quaternions(mk(&at), mk(&bt), et) == x && compare_dual_quaternions(mk(&bt), mk(&at), et) == x, w);
        }
    }
    // near-zero scan with a tolerance on either side of the smallest magnitude
    let m = at.iter().map(|x| x.to().abs()).fold(f64::INFINITY, f64::min);
    for (f, x) in [(0.99, false), (1.01, true)] {
        r.check("near-zero scan is the disjunction", sm::check_elements(&at, T::of(m * f)) == x, w);
    }
}

fn pair_case<T: Fl + Signed2>(u: &[f64], v: &[f64], r: &mut Rec) {
    let (x, y): (Vec<T>, Vec<T>) = (u.iter().map(|x| T::of(*x)).collect(), v.iter().map(|x| T::of(*x)).collect());
    let (u, v): (Vec<f64>, Vec<f64>) = (x.iter().map(|x| x.to()).collect(), y.iter().map(|x| x.to()).collect());
    let d: f64 = u.iter().zip(&v).map(|(a, b)| a * b).sum();
    let a: f64 = u.iter().zip(&v).map(|(a, b)| (a * b).abs()).sum();
    let tol = 8.0 * (u.len() + 2) as f64 * T::EPS;
    let g = T::dot(&x, &y).to();
    r.check("dot product of slices", (g - d).abs() <= tol * a, || format!("{} {:?} . {:?} = {}", T::NAME, u, v, g));
    let q: f64 = v.iter().map(|x| x * x).sum();
    if q > 0.0 {
        let g = T::project(&x, &y).to();
        r.check("projection coefficient", (g - d / q).abs() <= tol * a / q, || format!("{} {:?} on {:?}: {}", T::NAME, u, v, g));
    }
}
fn compare_case<T: Fl + Signed2>(a: &[f64], b: &[f64], e: f64, r: &mut Rec) {
    let (at, bt): (Vec<T>, Vec<T>) = (a.iter().map(|x| T::of(*x)).collect(), b.iter().map(|x| T::of(*x)).collect());
    let et = T::of(e);
    let mut exp = Some(true);
    for i in 0..a.len() {
        match oracle(at[i].to(), bt[i].to(), et.to(), T::min_positive_value().to(), T::max_value().to()) { Some(false) => { exp = Some(false); break } None => exp = None, _ => {} }
    }
    let w = || format!("{} {:?} {:?} tolerance {:e}", T::NAME, at, bt, e);
    if let Some(x) = exp {
        r.check("sequence comparison is the conjunction", compare_vecs(&at, &bt, et) == x && compare_vecs(&bt, &at, et) == x, w);
        if a.len() == 8 {
            let mk = |a: &[T]| DualQuaternion::new(Quaternion::new(a[0], V3::new([a[1], a[2], a[3]])), Quaternion::new(a[4], V3::new([a[5], a[6], a[7]])));
            r.check("dual quaternion comparison is the conjunction", compare_dual_quaternions(mk(&at), mk(&bt), et) == x && compare_dual_quaternions(mk(&bt), mk(&at), et) == x, w);
        }
    }
}

/// slice helpers whose bounds the shared float trait does not carry
trait Signed2: Sized {
    fn norm_l(v: &[Self]) -> Self;
    fn dot(v: &[Self], w: &[Self]) -> Self;
    fn project(v: &[Self], w: &[Self]) -> Self;
}
macro_rules! signed2 { ($($t:ty)*) => { $(impl Signed2 for $t {
    fn norm_l(v: &[Self]) -> Self { sm::norm_l(v) }
    fn dot(v: &[Self], w: &[Self]) -> Self { sm::dot(v, w) }
    fn project(v: &[Self], w: &[Self]) -> Self { sm::project_x_over_y(v, w) }
})* } }
signed2!(f32 f64);
