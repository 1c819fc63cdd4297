//! C15: spherical linear interpolation.
use mc::adapt::*;
use mc::fam::*;
use mc::refm::*;
use mc::*;

/// point at fraction t of the arc from a to s*b
fn arc(a: Q, b: Q, s: f64, t: f64) -> Q {
    let d = qmul(qconj(a), qsc(b, s));
    let n = nrm(&d[1..]);
    let h = n.atan2(d[0]);
    if n == 0.0 { return a }
    let k = (t * h).sin() / n;
    qmul(a, [(t * h).cos(), d[1] * k, d[2] * k, d[3] * k])
}
fn one<T: Fl>(a: &Q, b: &Q, t: f64, r: &mut Rec) {
    let (x, y, tt) = (qn::<T>(*a), qn::<T>(*b), T::of(t));
    let (a, b, t) = (qunit(aq(&x)), qunit(aq(&y)), tt.to());
    let g = Quaternion::slerp(x, y, tt);
    let ga = aq(&g);
    let d = qdot(a, b);
    let w = || format!("{} from {:?} to {:?} at {} (dot {:e}): {:?}", T::NAME, a, b, t, d, g);
    // below a thousandth the library follows the chord instead of the arc: its angle differs in the third order
    let h = rot_angle(a, b) / 2.0;
    let to = 256.0 * T::EPS + if h < 1.2e-3 { 0.1 * h.powi(3) } else { 0.0 };
    r.check("interpolated quaternion is unit", le((nrm(&ga) - 1.0).abs(), to), w);
    let same = |p: Q| le(distv(&ga, &p).min(distv(&ga, &qsc(p, -1.0))), to);
    // half a turn apart both ways round are equally short
    let cands: Vec<f64> = if d.abs() < to { r.class("half a turn apart"); vec![1.0, -1.0] } else if d < 0.0 { vec![-1.0] } else { vec![1.0] };
    r.class(if d < 0.0 { "opposite hemispheres" } else { "same hemisphere" });
    if 1.0 - d.abs() < 1e-6 { r.class("nearly equal rotations") }
    r.check("interpolation follows the shortest arc at constant speed", cands.iter().any(|s| same(arc(a, b, *s, t))), || format!("{}, expected {:?}", w(), arc(a, b, cands[0], t)));
    if t == 0.0 { r.check("starts at the first rotation", same(a), w); }
    if t == 1.0 { r.check("ends at the second rotation", same(b), w); }
    // the angle from a grows in proportion
    let (ang, whole) = (rot_angle(a, ga), rot_angle(a, b));
    r.check("angle grows in proportion", le((ang - t * whole).abs(), 4.0 * to), || format!("{}: angle {:e} of {:e}", w(), ang, whole));
}
fn rot_angle(a: Q, b: Q) -> f64 { let d = qmul(qconj(a), b); 2.0 * nrm(&d[1..]).atan2(d[0].abs()) }

fn main() {
    run(
        "C15",
        "exploration",
        "every ordered pair of a family of unit quaternions, and every pair (a, a turned by a small or nearly full angle about every axis of a lattice) with angles on both sides of every branch, with every parameter of a grid of [0,1], executed on the real slerp and compared with a times a power of the relative rotation; non-trivial: distinct arguments",
        &["inputs are unit up to rounding", "pairs exactly half a turn apart may go either way round"],
        |c| {
            let ts = [0.0, 1.0, 0.5, 0.25, 0.1, 0.75, 0.999, 1e-3, 1.0 / 3.0];
            let us = unit_quats(1);
            let n = us.len() as u64;
            c.every("all pairs of unit quaternions", n * n * ts.len() as u64, c.qt(7, 1), |i, r| {
                let mut d = Dec(i);
                let t = *d.pick(&ts);
                let (a, b) = (&us[d.take(n as usize)], &us[d.take(n as usize)]);
                r.key(hash_u(1, &[i]));
                r.sample(|| format!("{:?} {:?} {}", a, b, t));
                one::<f64>(a, b, t, r);
                one::<f32>(a, b, t, r);
            });
            let starts: Vec<Q> = us.iter().step_by(c.qt(13, 3)).copied().collect();
            let sh: Vec<Q> = shapes::<4>().into_iter().filter(|q| nrm(q) > 0.0).map(qunit).collect();
            let step = 1;
            c.every("pairs of unit quaternions of every structure", (sh.len() * sh.len()) as u64, step, |i, r| {
                let (p, q) = (i as usize / sh.len(), i as usize % sh.len());
                r.key(hash_u(3, &[i]));
                for t in [ts[p % 9], ts[(p + q) % 9]] {
                    one::<f64>(&sh[p], &sh[q], t, r);
                    one::<f32>(&sh[p], &sh[q], t, r);
                }
            });
            // parameters next to both ends, to one half and to each other
            let ends: Vec<f64> = (0..17).flat_map(|e| [1.0, 2.5, 6.0].map(|m| m * 10f64.powi(-e - 1))).flat_map(|d| [d, 1.0 - d, 0.5 + d, 0.5 - d]).filter(|t| (0.0..=1.0).contains(t)).chain([1e-20, 1e-30, 1e-100, 1e-300, 5e-324]).collect();
            let ps: Vec<(Q, Q)> = us.iter().step_by(3).enumerate().flat_map(|(i, a)| [1, 5, 11, 23, 31].map(|k| (*a, us[(i * 7 + k * k) % us.len()]))).collect();
            c.space("parameters next to the ends and the middle", (ps.len() * ends.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let (t, p) = (*d.pick(&ends), d.pick(&ps));
                r.key(hash_u(4, &[i]));
                one::<f64>(&p.0, &p.1, t, r);
                one::<f32>(&p.0, &p.1, t, r);
            });
            let ax = axes();
            let e = [0.0, 1e-16, 1e-12, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 3e-4, 5e-4, 7e-4, 9e-4, 9.9e-4, 1.01e-3, 1.1e-3, 1.5e-3, 2e-3, 3e-3, 5e-3, 1e-2, 3e-2, 0.1, PI / 2.0 - 1e-3, PI / 2.0 - 1e-9, PI / 2.0, PI / 2.0 + 1e-9, PI / 2.0 + 1e-3];
            c.space("pairs at every distance", (starts.len() * ax.len() * e.len() * 2 * ts.len()) as u64, |i, r| {
                let mut d = Dec(i);
                let t = *d.pick(&ts);
                let s = if d.take(2) == 0 { 1.0 } else { -1.0 };
                // half angle of the relative rotation
                let h = *d.pick(&e);
                let (a, u) = (*d.pick(&starts), *d.pick(&ax));
                let b = qsc(qmul(a, qaxis(u, 2.0 * h)), s);
                r.key(hash_u(2, &[i]));
                one::<f64>(&a, &b, t, r);
                one::<f32>(&a, &b, t, r);
            });
        },
    );
}
