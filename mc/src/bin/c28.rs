//! C28: the standard and the no-std configuration build and compute the same results.
//! check.sh builds the crate mc-nostd (static-math without its default features, with `no-std`) first and
//! says how that went in MC_NOSTD_RC / MC_NOSTD_LOG / MC_NOSTD_BIN.
use mc::ops::*;
use mc::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// outputs of the other configuration for one operation and precision: None is a panic
struct Dump { bytes: Vec<u8>, at: Vec<usize> }
impl Dump {
    fn get(&self, i: u64) -> Option<Vec<f64>> {
        let p = self.at[i as usize];
        let n = u32::from_le_bytes(self.bytes[p..p + 4].try_into().unwrap());
        if n == u32::MAX { return None }
        Some((0..n as usize).map(|k| f64::from_le_bytes(self.bytes[p + 4 + 8 * k..p + 12 + 8 * k].try_into().unwrap())).collect())
    }
}
fn cases<T: R>(op: &Op<T>, cap: u64) -> Cases { Cases::new(op.arity, &COMPARE, cap) }

fn compare<T: R>(cx: &Ctx, k: usize, op: &Op<T>, cap: u64, dump: &Dump, tol: f64) {
    let cs = cases(op, cap);
    // failures of this space so far; the search below is not repeated for ever
    let lost = AtomicU64::new(0);
    cx.space(&format!("{} {}", T::NAME, op.name), cs.size(), |i, r| {
        let x: Vec<T> = cs.at(i).into_iter().map(T::of).collect();
        r.key(hash_u(k as u64 * 2 + (T::EPS > 1e-10) as u64, &[i]));
        let a = catch(|| (op.run)(&x)).ok().map(|o| o.0.into_iter().map(|v| v.to()).collect::<Vec<f64>>());
        let b = dump.get(i);
        r.sample(|| format!("{:?}: std {:?} no-std {:?}", x, a, b));
        let near = |a: &Option<Vec<f64>>| match (a, &b) {
            (None, None) => true,
            (Some(a), Some(b)) => {
                let m = a.iter().chain(b).filter(|v| v.is_finite()).fold(1.0f64, |m, v| m.max(v.abs()));
                a.len() == b.len() && a.iter().zip(b).all(|(p, q)| p == q || (p.is_nan() && q.is_nan()) || (p - q).abs() <= tol * m)
            }
            _ => false,
        };
        // where the result jumps (an angle of half a turn either way, a quaternion or its negative), rounding
        // decides the side: then the standard build gives the other result for arguments a few units of
        // rounding away
        let ok = near(&a) || lost.load(Relaxed) < 20 && {
            r.class("compared at a jump");
            let n = x.len();
            let combos = 3u64.pow(n.min(8) as u32);
            [2.0, 8.0, 64.0].iter().any(|k| (0..combos).any(|c| {
                let mut d = Dec(c);
                let y: Vec<T> = x.iter().enumerate().map(|(j, v)| if j >= 8 { *v } else { let v = v.to(); let e = (d.take(3) as f64 - 1.0) * k * T::EPS; T::of(if v == 0.0 { e } else { v * (1.0 + e) }) }).collect();
                near(&catch(|| (op.run)(&y)).ok().map(|o| o.0.into_iter().map(|v| v.to()).collect()))
            }))
        };
        if !ok { lost.fetch_add(1, Relaxed); }
        r.check("both configurations give the same result", ok, || format!("{} {:?}: std {:?}, no-std {:?}", op.name, x, a, b));
    });
}

fn main() {
    run(
        "C28",
        "exploration",
        "one case is one operation on one argument list, executed in both builds of the library; distinct by operation, precision and argument index",
        &["the results of the two maths backends may differ by rounding: tolerance 1e-10 (f64) and 1e-4 (f32) of the largest magnitude; where a result jumps, the result of the standard build for arguments within 64 units of rounding counts too", "the no-std build is compiled for the host target, where the crate's no_std attribute still makes every use of std an error"],
        |cx| {
            let log = std::env::var("MC_NOSTD_LOG").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
            let rc = std::env::var("MC_NOSTD_RC").unwrap_or("none".into());
            cx.space("configuration without the standard library", 1, |_, r| {
                r.key(1);
                r.check("the no-std configuration builds", rc == "0", || log.lines().filter(|l| l.contains("error") || l.contains("-->")).take(12).collect::<Vec<_>>().join(" | "));
            });
            if rc != "0" { return }
            let bin = std::env::var("MC_NOSTD_BIN").expect("path of the no-std program");
            let cap = cx.qt(40_000, 200_000);
            let (t64, t32) = (table::<f64>(), table::<f32>());
            let batch = 2;
            for g in (0..t64.len()).step_by(batch * 8) {
                // one batch: eight programs of the other build at a time
                let hi = (g + batch * 8).min(t64.len());
                let outs: Vec<(usize, Vec<u8>)> = std::thread::scope(|s| {
                    let hs: Vec<_> = (g..hi).step_by(batch).map(|lo| {
                        let bin = &bin;
                        s.spawn(move || {
                            let o = std::process::Command::new(bin).args([lo.to_string(), (lo + batch).min(hi).to_string(), cap.to_string()]).output().expect("run the no-std program");
                            assert!(o.status.success(), "the no-std program failed: {}", String::from_utf8_lossy(&o.stderr));
                            (lo, o.stdout)
                        })
                    }).collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                for (lo, bytes) in outs {
                    let mut p = 0;
                    let mut cut = |n: u64| {
                        let s = p;
                        let mut at = Vec::with_capacity(n as usize);
                        for _ in 0..n {
                            at.push(p - s);
                            let k = u32::from_le_bytes(bytes[p..p + 4].try_into().unwrap());
                            p += 4 + if k == u32::MAX { 0 } else { 8 * k as usize };
                        }
                        Dump { bytes: bytes[s..p].to_vec(), at }
                    };
                    for k in lo..(lo + batch).min(hi) {
                        let d = cut(cases(&t64[k], cap).size());
                        compare(cx, k, &t64[k], cap, &d, 1e-10);
                        let d = cut(cases(&t32[k], cap).size());
                        compare(cx, k, &t32[k], cap, &d, 1e-4);
                    }
                }
            }
        },
    );
}
