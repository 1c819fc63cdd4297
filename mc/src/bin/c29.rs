//! C29: totality on every class of float, repeatability, and untouched arguments.
use mc::ops::*;
use mc::*;

fn ids<T: R>(x: &[T]) -> Vec<u64> { x.iter().map(|v| v.id()).collect() }

/// every operation x every float class per component
fn total<T: R>(cx: &Ctx, vals: &[f64], cap: u64) {
    for op in table::<T>() {
        let cs = Cases::new(op.arity, vals, cap);
        let tag = hash_u(1, &op.name.bytes().map(|b| b as u64).collect::<Vec<_>>());
        cx.space(&format!("{} {}", T::NAME, op.name), cs.size(), |i, r| {
            let x: Vec<T> = cs.at(i).into_iter().map(T::of).collect();
            r.key(hash_u(tag, &ids(&x)));
            let may = (op.may_panic)(&x);
            match catch(|| (op.run)(&x)) {
                Err(e) => {
                    r.class(if may { "documented panic" } else { "panic" });
                    r.check("returns a value", may, || format!("{} {:?}: {}", op.name, x, e));
                }
                Ok((a, after, before)) => {
                    r.class("value");
                    r.sample(|| format!("{:?} -> {:?}", x, a));
                    r.check("arguments are unchanged", ids(&after) == ids(&before), || format!("{} {:?}: {:?} became {:?}", op.name, x, before, after));
                    let b = catch(|| (op.run)(&x));
                    r.check("the same call gives the same bits", b.as_ref().map(|b| ids(&b.0)) == Ok(ids(&a)), || format!("{} {:?}: {:?} then {:?}", op.name, x, a, b));
                }
            }
        });
    }
}

type Call<'a, T> = (&'a Op<T>, Vec<T>, Vec<u64>);
/// the result of a call, or the fact that it panics
fn call<T: R>(op: &Op<T>, x: &[T]) -> Vec<u64> { catch(|| (op.run)(x)).map(|o| ids(&o.0)).unwrap_or(vec![u64::MAX]) }
fn plain<T: R>(op: &Op<T>, vals: &[f64], n: usize) -> Vec<Vec<T>> {
    // spread over the whole space of the operation
    let cs = Cases::new(op.arity, vals, 3_000);
    let m = cs.size();
    (0..(n as u64).min(m)).map(|k| cs.at(k * (m - 1) / (n as u64).min(m).max(2) + k % 3).into_iter().map(T::of).collect()).collect()
}
/// no call on special values (not a number, infinite, extreme, zero) changes the result of a later call: the results to
/// compare with are those of a process in which no such call has been made
fn first<'a, T: R>(cx: &Ctx, t: &'a [Op<T>]) -> Vec<Call<'a, T>> {
    let vals = [0.6, 1.0, -1.0, 0.5, -2.25, 3.0];
    t.iter().flat_map(|op| plain(op, &vals, cx.qt(2, 4)).into_iter().map(move |x| { let b = call(op, &x); (op, x, b) })).collect()
}
fn poison<T: R>(cx: &Ctx, t: &[Op<T>], calls: &[Call<T>]) {
    let big = if T::NAME == "f32" { f32::MAX as f64 } else { f64::MAX };
    let tiny = if T::NAME == "f32" { 1e-45 } else { 5e-324 };
    let special: Vec<Vec<f64>> = vec![vec![f64::NAN], vec![f64::INFINITY], vec![-f64::INFINITY, 1.0], vec![big], vec![tiny], vec![0.0], vec![1.0, f64::NAN, 0.0], vec![0.0, 0.0, 1.0, f64::INFINITY], vec![1.0, 0.0, 0.0, 0.0, -0.0], vec![big, tiny, -big]];
    let n = calls.len() as u64;
    cx.space(&format!("{} a call after any call on special values", T::NAME), t.len() as u64 * special.len() as u64 * n, |i, r| {
        let mut d = Dec(i);
        let b = d.pick(calls);
        let (op, v) = (d.pick(t), d.pick(&special));
        let x: Vec<T> = (0..op.arity).map(|j| T::of(v[j % v.len()])).collect();
        r.key(hash_u(9, &[T::EPS.to_bits(), i]));
        call(op, &x);
        let g = call(b.0, &b.1);
        r.check("a call's result does not depend on the call before it", g == b.2, || format!("{} {:?} after {} {:?}", b.0.name, b.1, op.name, x));
    });
}
/// no call changes the result of a later call
fn pure<T: R>(cx: &Ctx) {
    let t = table::<T>();
    let vals = [0.0, 1.0, -1.0, 0.5, -2.25, 3.0];
    let few = cx.qt(3, 5);
    let calls: Vec<Call<T>> = t.iter().flat_map(|op| plain(op, &vals, few).into_iter().map(move |x| { let b = call(op, &x); (op, x, b) })).collect();
    let n = calls.len() as u64;
    cx.space(&format!("{} a call after any call", T::NAME), n * n, |i, r| {
        let (a, b) = (&calls[(i / n) as usize], &calls[(i % n) as usize]);
        r.key(hash_u(2, &[T::EPS.to_bits(), i]));
        call(a.0, &a.1);
        let g = call(b.0, &b.1);
        r.check("a call's result does not depend on the call before it", g == b.2, || format!("{} {:?} after {} {:?}", b.0.name, b.1, a.0.name, a.1));
    });
    let many = cx.qt(48, 200);
    let own: Vec<Vec<Call<T>>> = t.iter().map(|op| plain(op, &vals, many).into_iter().map(|x| { let b = call(op, &x); (op, x, b) }).collect()).collect();
    cx.space(&format!("{} a call after the same operation on other arguments", T::NAME), (t.len() * many * many) as u64, |i, r| {
        let mut d = Dec(i);
        let c = d.pick(&own);
        let (a, b) = (d.take(many), d.take(many));
        if a >= c.len() || b >= c.len() { return }
        r.key(hash_u(3, &[T::EPS.to_bits(), i]));
        call(c[a].0, &c[a].1);
        let g = call(c[b].0, &c[b].1);
        r.check("a call's result does not depend on the call before it", g == c[b].2, || format!("{} {:?} after {:?}", c[b].0.name, c[b].1, c[a].1));
    });
    let reps = cx.qt(3_000, 70_000);
    cx.space(&format!("{} many calls", T::NAME), n, |i, r| {
        let a = &calls[i as usize];
        r.key(hash_u(4, &[T::EPS.to_bits(), i]));
        for k in 0..reps {
            let g = call(a.0, &a.1);
            if !r.check("the same call gives the same bits however often it is made", g == a.2, || format!("{} {:?}: call {}", a.0.name, a.1, k)) { break }
        }
    });
    // one call on arguments without a special component, made many more times
    let reps = cx.qt(270_000, 2_200_000);
    cx.space(&format!("{} a great many calls", T::NAME), t.len() as u64, |i, r| {
        let op = &t[i as usize];
        let x: Vec<T> = [0.75, -1.25, 0.5, 2.0, -0.375, 1.5, 3.0].iter().cycle().take(op.arity).map(|v| T::of(*v)).collect();
        r.key(hash_u(10, &[T::EPS.to_bits(), i]));
        let a = call(op, &x);
        for k in 0..if a == [u64::MAX] { 16 } else { reps } {
            let g = call(op, &x);
            if g != a { r.check("the same call gives the same bits however often it is made", false, || format!("{} {:?}: call {}", op.name, x, k)); break }
        }
        r.check("the same call gives the same bits however often it is made", true, String::new);
    });
    // every argument tuple of the operations with up to three components, called over and over
    let small: Vec<&Op<T>> = t.iter().filter(|o| o.arity <= 3).collect();
    let reps = cx.qt(4_200, 70_000);
    cx.space(&format!("{} many calls on every argument tuple", T::NAME), small.len() as u64 * 216, |i, r| {
        let op = small[(i / 216) as usize];
        let mut d = Dec(i % 216);
        if (i % 216) as usize >= 6usize.pow(op.arity as u32) { return }
        let x: Vec<T> = (0..op.arity).map(|_| T::of(*d.pick(&vals))).collect();
        r.key(hash_u(6, &[T::EPS.to_bits(), i]));
        let a = call(op, &x);
        // those that panic are slow to repeat
        for k in 0..if a == [u64::MAX] { 16 } else { reps } {
            let g = call(op, &x);
            if !r.check("the same call gives the same bits however often it is made", g == a, || format!("{} {:?}: call {}", op.name, x, k)) { break }
        }
    });
    // arguments that differ in one component, in the sign of one, in the order of two or in all signs: what a
    // remembered result would be looked up by
    let base = |k: usize| -> Vec<f64> { (0..80).map(|j| if k == 0 { 0.75 + ((j * 5 + 2) % 9) as f64 * if j % 2 == 0 { 0.25 } else { -0.375 } } else { [0.6, -0.8, 0.0, 1.0, 0.0, -2.5][(j * k + j / 6) % 6] }).collect() };
    let other = |x: &[T]| -> Vec<T> { x.iter().enumerate().map(|(j, _)| T::of([0.5, -1.75, 2.0, 0.125, -3.0][j % 5])).collect() };
    let bs = cx.qt(2, 5);
    let vars: Vec<u64> = t.iter().map(|o| { let n = o.arity as u64; 4 * n + n * n.saturating_sub(1) / 2 + 2 }).collect();
    let most = *vars.iter().max().unwrap();
    cx.space(&format!("{} a call after the same operation on nearly the same arguments", T::NAME), t.len() as u64 * bs as u64 * most, |i, r| {
        let mut d = Dec(i);
        let o = d.take(t.len());
        let (op, k) = (&t[o], d.take(bs));
        let mut v = d.0;
        if v >= vars[o] { return }
        r.key(hash_u(7, &[T::EPS.to_bits(), i]));
        let n = op.arity;
        let x: Vec<f64> = base(k)[..n].to_vec();
        let mut y = x.clone();
        if v < 4 * n as u64 {
            let j = v as usize / 4;
            y[j] = match v % 4 { 0 => -y[j], 1 => y[j] + 1.0, 2 => y[j] * 1.0625 + 1e-3, _ => 0.0 };
        } else {
            v -= 4 * n as u64;
            if v == 0 { for e in &mut y { *e = -*e } } else if v == 1 { y.reverse() } else {
                v -= 2;
                let (mut a, mut w) = (0, n as u64 - 1);
                while v >= w { v -= w; a += 1; w -= 1 }
                y.swap(a, a + 1 + v as usize);
            }
        }
        let (x, y): (Vec<T>, Vec<T>) = (x.into_iter().map(T::of).collect(), y.into_iter().map(T::of).collect());
        call(op, &other(&y));
        let want = call(op, &y);
        call(op, &x);
        let got = call(op, &y);
        r.check("a call's result does not depend on the call before it", got == want, || format!("{} {:?} after {:?}", op.name, y, x));
    });
    let per = cx.qt(1, 3) as u64;
    let most = t.iter().map(|o| o.arity).max().unwrap() as u64 + 1;
    let m = t.len() as u64;
    cx.space(&format!("{} a call after another operation on nearly the same arguments", T::NAME), m * m * per * most, |i, r| {
        let mut d = Dec(i);
        let (a, b, k, j) = (d.pick(&t), d.pick(&t), d.take(per as usize), d.take(most as usize));
        if j > b.arity { return }
        r.key(hash_u(8, &[T::EPS.to_bits(), i]));
        let x: Vec<f64> = base(k);
        let mut y = x.clone();
        if j > 0 { y[j - 1] = 1.5 - y[j - 1] }
        let (x, y): (Vec<T>, Vec<T>) = (x[..a.arity].iter().map(|v| T::of(*v)).collect(), y[..b.arity].iter().map(|v| T::of(*v)).collect());
        call(b, &other(&y));
        let want = call(b, &y);
        call(a, &x);
        let got = call(b, &y);
        r.check("a call's result does not depend on the call before it", got == want, || format!("{} {:?} after {} {:?}", b.name, y, a.name, x));
    });
    // histories of three calls: two of the operations with hidden markers or branches of their own, then any
    let one: Vec<usize> = (0..calls.len()).step_by(few).collect();
    let m = one.len() as u64;
    if cx.thorough() {
        cx.space(&format!("{} a call after any two calls", T::NAME), m * m * m, |i, r| {
            let mut d = Dec(i);
            let (a, b, c) = (&calls[*d.pick(&one)], &calls[*d.pick(&one)], &calls[*d.pick(&one)]);
            r.key(hash_u(5, &[T::EPS.to_bits(), i]));
            call(a.0, &a.1);
            call(b.0, &b.1);
            let g = call(c.0, &c.1);
            r.check("a call's result does not depend on the calls before it", g == c.2, || format!("{} {:?} after {} and {}", c.0.name, c.1, a.0.name, b.0.name));
        });
    }
}

fn main() {
    run("C29", "exploration", "one case is one operation on one argument list (totality), or one ordered sequence of calls whose last result is compared with the same call made first (purity); distinct by operation and argument bits", &["all not-a-number values count as the same value", "documented panics: an operation's own precondition (zero divisor, zero axis, row without a non-zero number), listed per operation in ops.rs"], |cx| {
        let inf = f64::INFINITY;
        let (t64, t32) = (table::<f64>(), table::<f32>());
        let (f64s, f32s) = (first(cx, &t64), first(cx, &t32));
        poison(cx, &t64, &f64s);
        poison(cx, &t32, &f32s);
        let vals = [0.0, -0.0, 1.0, -1.0, 0.5, 3.0, f64::NAN, inf, -inf, 5e-324, -1e-310, f64::MIN_POSITIVE, f64::MAX, -f64::MAX, 1e200, 1e-200, f64::EPSILON, 3.141592653589793, 2000.75, 1e-7];
        total::<f64>(cx, &vals, cx.qt(30_000, 400_000));
        let vals = [0.0, -0.0, 1.0, -1.0, 0.5, 3.0, f64::NAN, inf, -inf, 1e-45, -1e-40, f32::MIN_POSITIVE as f64, f32::MAX as f64, f32::MIN as f64, 1e25, 1e-25, f32::EPSILON as f64, 3.141592653589793, 2000.75, 1e-3];
        total::<f32>(cx, &vals, cx.qt(30_000, 400_000));
        pure::<f64>(cx);
        pure::<f32>(cx);
    });
}
