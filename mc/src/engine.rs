//! Exploration engine: exhaustive enumeration of finite index spaces and explicit-state
//! breadth-first search, both executing the real implementation in every case.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A failing case: `key` names the clause of the property, `case` identifies the case.
#[derive(Clone, Debug)]
pub struct Failure {
    pub space: String,
    pub key: String,
    pub case: String,
    pub order: u64,
    pub msg: String,
}

/// Per-worker recorder handed to each case.
pub struct Rec {
    space: String,
    case: String,
    idx: u64,
    hist: Option<Vec<u32>>,
    fails: BTreeMap<String, (Failure, u64)>,
    hashes: Vec<u64>,
    classes: HashMap<&'static str, u64>,
    samples: Vec<String>,
    want_sample: bool,
    checks: u64,
    verbose: bool,
}

const HASH_CAP: usize = 4_000_000;

/// What each worker executes right now, for the supervisor: the recorder of the case and a counter of cases.
struct Slot {
    rec: AtomicPtr<Rec>,
    n: AtomicU64,
    used: AtomicBool,
}
static SLOTS: [Slot; 128] = [const { Slot { rec: AtomicPtr::new(std::ptr::null_mut()), n: AtomicU64::new(0), used: AtomicBool::new(false) } }; 128];
static CRASHED: AtomicU64 = AtomicU64::new(0);
thread_local! { static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) }; }

/// Held by a worker while it executes cases.
struct InFlight(usize);
impl InFlight {
    fn new() -> Self {
        for (k, s) in SLOTS.iter().enumerate() {
            if !s.used.swap(true, AcqRel) {
                SLOT.with(|c| c.set(k));
                return InFlight(k);
            }
        }
        InFlight(usize::MAX)
    }
    #[inline]
    fn case(&self, rec: &mut Rec) {
        if let Some(s) = SLOTS.get(self.0) {
            s.n.fetch_add(1, Relaxed);
            s.rec.store(rec, Release);
        }
    }
    #[inline]
    fn idle(&self) {
        if let Some(s) = SLOTS.get(self.0) {
            s.rec.store(std::ptr::null_mut(), Release);
        }
    }
}
impl Drop for InFlight {
    fn drop(&mut self) {
        self.idle();
        if let Some(s) = SLOTS.get(self.0) {
            s.used.store(false, Release);
        }
    }
}
extern "C" {
    fn signal(n: i32, h: usize) -> usize;
    fn pause() -> i32;
}
/// A stack overflow in the code under test ends in SIGABRT: leave the thread as it is and let the
/// supervisor report its case.
extern "C" fn on_abort(_: i32) {
    let k = SLOT.try_with(|c| c.get()).unwrap_or(usize::MAX);
    CRASHED.store(if k == usize::MAX { 1000 } else { k as u64 + 1 }, SeqCst);
    loop {
        unsafe { pause(); }
    }
}
const HANG_S: u32 = 60;

impl Rec {
    fn new(space: &str) -> Self {
        Rec {
            space: space.to_string(),
            case: String::new(),
            idx: 0,
            hist: None,
            fails: BTreeMap::new(),
            hashes: Vec::new(),
            classes: HashMap::new(),
            samples: Vec::new(),
            want_sample: false,
            checks: 0,
            verbose: false,
        }
    }
    fn case_name(&self) -> String {
        match &self.hist {
            Some(h) => format!("hist:{}", h.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
            None => format!("idx:{}", self.idx),
        }
    }
    /// Report that clause `key` does not hold in this case.
    pub fn fail(&mut self, key: &str, msg: impl FnOnce() -> String) {
        let case = self.case_name();
        let idx = self.idx;
        let space = self.space.clone();
        if self.verbose {
            let m = msg();
            println!("  [{}] {} {} -> {}", space, case, key, m);
            self.fails.entry(key.to_string()).or_insert((Failure { space, key: key.to_string(), case, order: idx, msg: m }, 1));
            return;
        }
        match self.fails.get_mut(key) {
            Some((f, n)) => {
                *n += 1;
                if idx < f.order {
                    *f = Failure { space, key: key.to_string(), case, order: idx, msg: msg() };
                }
            }
            None => {
                let m = msg();
                self.fails.insert(key.to_string(), (Failure { space, key: key.to_string(), case, order: idx, msg: m }, 1));
            }
        }
    }
    /// Decide one clause.
    #[inline]
    pub fn check(&mut self, key: &str, ok: bool, msg: impl FnOnce() -> String) -> bool {
        self.checks += 1;
        if !ok {
            self.fail(key, msg)
        }
        ok
    }
    /// Record the (non-trivial) case's identity for the distinct count.
    #[inline]
    pub fn key(&mut self, h: u64) {
        if self.hashes.len() < HASH_CAP {
            self.hashes.push(h)
        }
    }
    #[inline]
    pub fn class(&mut self, name: &'static str) {
        *self.classes.entry(name).or_insert(0) += 1;
    }
    #[inline]
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.want_sample {
            self.want_sample = false;
            let s = s();
            self.samples.push(format!("{}[{}]: {}", self.space, self.idx, s));
        }
    }
    pub fn index(&self) -> u64 {
        self.idx
    }
    pub fn set_case(&mut self, s: String) {
        self.case = s
    }
}

#[derive(Default)]
struct Totals {
    evaluations: u64,
    checks: u64,
    hashes: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<String>,
    fails: Vec<(Failure, u64)>,
    spaces: Vec<(String, u64, u64)>,
    states: u64,
    transitions: u64,
    traces: u64,
    capped: Vec<String>,
    notes: Vec<String>,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    start: Instant,
    deadline: Duration,
    only: Option<(String, String)>,
    filter: Option<String>,
    tot: Mutex<Totals>,
    threads: usize,
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// quick value or thorough value
    pub fn qt<X>(&self, q: X, t: X) -> X {
        if self.thorough() { t } else { q }
    }
    pub fn note(&self, s: String) {
        self.tot.lock().unwrap().notes.push(s)
    }
    fn over(&self) -> bool {
        self.start.elapsed() > self.deadline
    }
    fn selected(&self, name: &str) -> bool {
        if let Some((s, _)) = &self.only {
            return s == name;
        }
        if let Some(f) = &self.filter {
            return name.contains(f.as_str());
        }
        true
    }

    /// Enumerate every index in 0..size, running `f` (which executes the implementation and decides
    /// the clauses) on each one.
    pub fn space<F: Fn(u64, &mut Rec) + Sync>(&self, name: &str, size: u64, f: F) {
        if !self.selected(name) {
            return;
        }
        if let Some((_, c)) = &self.only {
            let idx: u64 = match c.strip_prefix("idx:") {
                Some(x) => x.parse().expect("replay index"),
                None => return,
            };
            if idx >= size {
                println!("replay: index {} is outside the space {} of size {}", idx, name, size);
                return;
            }
            let mut rec = Rec::new(name);
            rec.verbose = true;
            rec.want_sample = true;
            rec.idx = idx;
            let fl = InFlight::new();
            fl.case(&mut rec);
            run_case(&mut rec, idx, &f);
            drop(fl);
            for s in &rec.samples {
                println!("  case {}", s);
            }
            self.absorb(rec);
            self.tot.lock().unwrap().evaluations += 1;
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let n = self.threads.min(size.max(1) as usize).max(1);
        let chunk = (size / (n as u64 * 64)).clamp(1, 16384);
        let want: Vec<u64> = [0u64, 1, 2, 3, 4].iter().map(|k| if size == 0 { 0 } else { (size - 1) * k / 4 }).collect();
        std::thread::scope(|sc| {
            let mut hs = Vec::new();
            for _ in 0..n {
                let (next, done, stop, f, want) = (&next, &done, &stop, &f, &want);
                let h = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                    let mut rec = Rec::new(name);
                    let fl = InFlight::new();
                    loop {
                        let lo = next.fetch_add(chunk, Relaxed);
                        if lo >= size || stop.load(Relaxed) {
                            break;
                        }
                        let hi = (lo + chunk).min(size);
                        for i in lo..hi {
                            rec.want_sample = want.contains(&i);
                            rec.idx = i;
                            fl.case(&mut rec);
                            run_case(&mut rec, i, f);
                        }
                        done.fetch_add(hi - lo, Relaxed);
                        if self.over() {
                            stop.store(true, Relaxed);
                        }
                    }
                    drop(fl);
                    rec
                }).unwrap();
                hs.push(h);
            }
            let recs: Vec<Rec> = hs.into_iter().map(|h| h.join().expect("worker")).collect();
            for r in recs {
                self.absorb(r);
            }
        });
        let d = done.load(Relaxed);
        let mut t = self.tot.lock().unwrap();
        t.evaluations += d;
        t.spaces.push((name.to_string(), size, d));
        if d < size {
            t.capped.push(format!("{}: {} of {} cases within the time cap", name, d, size));
        }
        if std::env::var("MC_TIMES").is_ok() {
            eprintln!("{:40} {:>12} {:8.2}s", name, size, t0.elapsed().as_secs_f64());
        }
    }

    /// Explore a list of explicit cases.
    /// every `step`-th case of a space (every one when `step` is 1); the step is made prime to the size,
    /// so that every value of every component of a case still occurs
    pub fn every<F: Fn(u64, &mut Rec) + Sync>(&self, name: &str, size: u64, step: u64, f: F) {
        fn gcd(a: u64, b: u64) -> u64 { if b == 0 { a } else { gcd(b, a % b) } }
        let mut s = step.max(1);
        while gcd(s, size.max(1)) != 1 { s += 1 }
        if s == 1 { return self.space(name, size, f) }
        self.space(&format!("{} (one in {})", name, s), size.div_ceil(s), |i, r| f(i * s, r))
    }
    pub fn list<X: Sync, F: Fn(&X, &mut Rec) + Sync>(&self, name: &str, xs: &[X], f: F) {
        self.space(name, xs.len() as u64, |i, r| f(&xs[i as usize], r))
    }

    fn absorb(&self, r: Rec) {
        let mut t = self.tot.lock().unwrap();
        t.checks += r.checks;
        for h in r.hashes {
            if t.hashes.len() < 40_000_000 {
                t.hashes.insert(h);
            }
        }
        for (k, v) in r.classes {
            *t.classes.entry(k.to_string()).or_insert(0) += v;
        }
        if t.samples.len() < 60 {
            t.samples.extend(r.samples);
        }
        for (_, (f, n)) in r.fails {
            if let Some((g, m)) = t.fails.iter_mut().find(|(g, _)| g.space == f.space && g.key == f.key) {
                *m += n;
                if f.order < g.order {
                    *g = f;
                }
            } else {
                t.fails.push((f, n));
            }
        }
    }

    /// Explicit-state breadth-first search. `step` executes the real operation `action` on a state and
    /// decides the clauses on the transition and the successor (None: action not enabled);
    /// `canon` identifies states. Every state's history is re-executed from its initial state and
    /// must reach the same canonical state (trace validation against the implementation).
    pub fn bfs<S, St, Ca>(&self, name: &str, init: &[S], actions: usize, depth: usize, max_states: usize, step: St, canon: Ca)
    where
        S: Clone + Send + Sync,
        St: Fn(&S, usize, &mut Rec) -> Option<S> + Sync,
        Ca: Fn(&S) -> Vec<u64> + Sync,
    {
        if !self.selected(name) {
            return;
        }
        if let Some((_, c)) = &self.only {
            let h: Vec<u32> = match c.strip_prefix("hist:") {
                Some(x) => x.split(',').map(|t| t.parse().expect("history")).collect(),
                None => return,
            };
            let mut rec = Rec::new(name);
            rec.verbose = true;
            let mut s = init[h[0] as usize].clone();
            let fl = InFlight::new();
            for k in 1..h.len() {
                fl.idle();
                rec.hist = Some(h[..=k].to_vec());
                fl.case(&mut rec);
                let r = catch_unwind(AssertUnwindSafe(|| step(&s, h[k] as usize, &mut rec)));
                match r {
                    Ok(Some(n)) => s = n,
                    Ok(None) => println!("  action {} is not enabled", h[k]),
                    Err(e) => {
                        rec.fail("panic", || panic_text(&e));
                        break;
                    }
                }
            }
            drop(fl);
            self.absorb(rec);
            return;
        }
        let t0 = Instant::now();
        // state store: (parent index, action); states of the current frontier only are kept alive
        // keys are compacted to 128 bits, so that millions of states fit in memory
        let canon = |s: &S| -> u128 { let v = canon(s); ((hash_u(0x9e37, &v) as u128) << 64) | hash_u(0x79b9_7f4a, &v) as u128 };
        let mut seen: HashSet<u128> = HashSet::new();
        let mut open = true;
        let mut parent: Vec<(u32, u32)> = Vec::new();
        let mut frontier: Vec<(u32, S)> = Vec::new();
        for (i, s) in init.iter().enumerate() {
            let k = canon(s);
            if seen.insert(k) {
                let id = parent.len() as u32;
                parent.push((u32::MAX, i as u32));
                frontier.push((id, s.clone()));
            }
        }
        let history = |parent: &Vec<(u32, u32)>, mut id: u32| {
            let mut h = Vec::new();
            loop {
                let (p, a) = parent[id as usize];
                h.push(a);
                if p == u32::MAX {
                    break;
                }
                id = p;
            }
            h.reverse();
            h
        };
        let mut transitions = 0u64;
        let mut traces = 0u64;
        let mut capped = None;
        let mut d_reached = 0;
        for d in 0..depth {
            if frontier.is_empty() {
                break;
            }
            d_reached = d + 1;
            let next = AtomicU64::new(0);
            let fr = &frontier;
            let par = &parent;
            let seen_ref = &seen;
            let (step_r, canon_r, hist_r) = (&step, &canon, &history);
            let timed_out = AtomicBool::new(false);
            let tmo = &timed_out;
            let results: Vec<(Rec, Vec<(u128, u32, u32, Option<Box<S>>)>, u64, u64)> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..self.threads)
                    .map(|_| {
                        let next = &next;
                        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                            let mut rec = Rec::new(name);
                            let mut out = Vec::new();
                            let mut tr = 0u64;
                            let mut tv = 0u64;
                            let mut local: HashSet<u128> = HashSet::new();
                            let fl = InFlight::new();
                            loop {
                                let i = next.fetch_add(1, Relaxed) as usize;
                                if i >= fr.len() || tmo.load(Relaxed) {
                                    break;
                                }
                                if self.over() {
                                    tmo.store(true, Relaxed);
                                }
                                let (id, s) = &fr[i];
                                let h = hist_r(par, *id);
                                // trace validation: fresh re-execution of this state's history
                                fl.idle();
                                rec.idx = (d as u64) << 32;
                                rec.hist = Some(h.clone());
                                fl.case(&mut rec);
                                {
                                    let mut q = Rec::new(name);
                                    let mut st = init[h[0] as usize].clone();
                                    let mut ok = true;
                                    for a in &h[1..] {
                                        match catch_unwind(AssertUnwindSafe(|| step_r(&st, *a as usize, &mut q))) {
                                            Ok(Some(n)) => st = n,
                                            _ => {
                                                ok = false;
                                                break;
                                            }
                                        }
                                    }
                                    if !ok || canon_r(&st) != canon_r(s) {
                                        rec.fail("re-execution reaches the same state", || "the same history gave a different state when executed again".to_string());
                                    }
                                    tv += 1;
                                }
                                for a in 0..actions {
                                    let mut hh = h.clone();
                                    hh.push(a as u32);
                                    fl.idle();
                                    rec.hist = Some(hh);
                                    rec.idx = ((d as u64) << 32) + (i as u64) * actions as u64 + a as u64;
                                    rec.want_sample = rec.samples.len() < 2;
                                    fl.case(&mut rec);
                                    let r = catch_unwind(AssertUnwindSafe(|| step_r(s, a, &mut rec)));
                                    match r {
                                        Ok(Some(n)) => {
                                            tr += 1;
                                            let k = canon_r(&n);
                                            if !seen_ref.contains(&k) && local.insert(k) {
                                                out.push((k, *id, a as u32, if d + 1 < depth { Some(Box::new(n)) } else { None }));
                                            }
                                        }
                                        Ok(None) => {}
                                        Err(e) => rec.fail("panic", || panic_text(&e)),
                                    }
                                }
                            }
                            drop(fl);
                            (rec, out, tr, tv)
                        }).unwrap()
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().expect("worker")).collect()
            });
            let mut nf = Vec::new();
            let mut added = 0u64;
            let mut cand: Vec<(u128, u32, u32, Option<Box<S>>)> = Vec::new();
            for (rec, out, tr, tv) in results {
                self.absorb(rec);
                transitions += tr;
                traces += tv;
                cand.extend(out);
            }
            // deterministic order independent of thread scheduling
            cand.sort_by(|a, b| (a.1, a.2).cmp(&(b.1, b.2)));
            for (k, p, a, s) in cand {
                if seen.contains(&k) {
                    continue;
                }
                if parent.len() >= max_states {
                    capped = Some(format!("{}: state cap {} reached at depth {}", name, max_states, d + 1));
                    break;
                }
                let id = parent.len() as u32;
                seen.insert(k);
                parent.push((p, a));
                added += 1;
                if let Some(s) = s { nf.push((id, *s)) }
            }
            frontier = nf;
            open = added > 0;
            if timed_out.load(Relaxed) {
                capped = Some(format!("{}: time cap at depth {}", name, d + 1));
            }
            if capped.is_some() {
                break;
            }
        }
        let mut t = self.tot.lock().unwrap();
        t.states += parent.len() as u64;
        t.transitions += transitions;
        t.traces += traces;
        t.evaluations += transitions;
        t.spaces.push((format!("{} (bfs depth {}{})", name, d_reached, if !open { ", closed" } else { "" }), parent.len() as u64, parent.len() as u64));
        if let Some(c) = capped {
            t.capped.push(c);
        }
        if std::env::var("MC_TIMES").is_ok() {
            eprintln!("{:40} {:>9} states {:>10} tr {:8.2}s", name, parent.len(), transitions, t0.elapsed().as_secs_f64());
        }
    }

    /// Watches the workers: a case that crashes the process or does not terminate is itself a violation.
    fn supervise(&self) -> ! {
        let mut last: Vec<(u64, u32)> = vec![(0, 0); SLOTS.len()];
        let mut idle = 0u32;
        let mut tick = 0u32;
        loop {
            std::thread::sleep(Duration::from_millis(50));
            let c = CRASHED.load(SeqCst);
            if c != 0 {
                self.stuck(SLOTS.get(c as usize - 1).map(|s| s.rec.load(Acquire)), "does not crash", "the process ran out of stack or was aborted");
            }
            tick += 1;
            if tick % 20 != 0 {
                continue;
            }
            let mut busy = false;
            for (k, s) in SLOTS.iter().enumerate() {
                let n = s.n.load(Relaxed);
                if s.used.load(Relaxed) && !s.rec.load(Relaxed).is_null() && last[k].0 == n {
                    last[k].1 += 1;
                    if last[k].1 >= HANG_S {
                        self.stuck(Some(s.rec.load(Acquire)), "terminates", "the case did not finish within 60 s");
                    }
                } else {
                    last[k] = (n, 0);
                }
                busy |= s.used.load(Relaxed);
            }
            idle = if busy { 0 } else { idle + 1 };
            if idle >= 5 * HANG_S && !self.thorough() {
                self.stuck(None, "terminates", "preparing the operands did not finish within 300 s");
            }
        }
    }
    /// `rec`: the recorder of a thread that will not run again
    fn stuck(&self, rec: Option<*mut Rec>, key: &str, msg: &str) -> ! {
        let (space, case, order) = match rec {
            Some(p) if !p.is_null() => {
                let r = unsafe { &*p };
                (r.space.clone(), r.case_name(), r.idx)
            }
            _ => (SETUP.to_string(), "idx:0".to_string(), 0),
        };
        if self.only.is_some() {
            println!("  [{}] {} {} -> {}", space, case, key, msg);
        }
        let fl = Failure { space, key: key.into(), case, order, msg: msg.into() };
        self.tot.lock().unwrap().fails.push((fl, 1));
        self.finish_now()
    }

    fn finish_now(&self) -> ! {
        let code = self.report();
        std::process::exit(code)
    }

    fn report(&self) -> i32 {
        let t = self.tot.lock().unwrap();
        let root = std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into());
        if self.only.is_some() {
            println!("replay: {} clause(s) failed, {} clause evaluations", t.fails.len(), t.checks);
            return if t.fails.is_empty() { 0 } else { 1 };
        }
        let known = load_known(&root, &self.prop);
        let mut bad = 0;
        let mut known_hit = Vec::new();
        let mut fails = t.fails.clone();
        fails.sort_by(|a, b| (&a.0.space, a.0.order).cmp(&(&b.0.space, b.0.order)));
        let dir = format!("{}/replay", root);
        let _ = std::fs::create_dir_all(&dir);
        for (f, n) in &fails {
            if let Some(k) = known.iter().find(|k| k.0 == f.space && k.1 == f.key && (k.2 == "*" || k.2 == f.case)) {
                if !known_hit.contains(&k.3) {
                    known_hit.push(k.3.clone());
                }
                continue;
            }
            bad += 1;
            if bad <= 8 {
                let p = format!("{}/{}-{}.replay", dir, self.prop, bad);
                let body = format!("property={}\nspace={}\ncase={}\nclause={}\nmessage={}\nfailing_cases={}\nreplay_cmd=./check.sh {} --replay {}\n", self.prop, f.space, f.case, f.key, f.msg.replace('\n', " | "), n, self.prop, p);
                let _ = std::fs::write(&p, body);
                println!("VIOLATION property={} replay={}", self.prop, p);
                println!("  clause: {}\n  space: {} {} ({} failing cases in this space)\n  {}", f.key, f.space, f.case, n, f.msg);
            }
        }
        for k in &known_hit {
            println!("KNOWN-FINDING: property={} {}", self.prop, k);
        }
        if self.filter.is_none() {
            self.write_evidence(&t, &root, bad);
        }
        println!(
            "{} {:?}: {} evaluations, {} distinct, {} clause checks, states={} transitions={} traces={} spaces={} exhaustive={} wall={:.1}s violations={}",
            self.prop, self.tier, t.evaluations, t.hashes.len(), t.checks, t.states, t.transitions, t.traces, t.spaces.len(), t.capped.is_empty(), self.start.elapsed().as_secs_f64(), bad
        );
        if bad > 0 { 1 } else { 0 }
    }

    fn write_evidence(&self, t: &Totals, root: &str, bad: usize) {
        let info = INFO.lock().unwrap().clone();
        let mut c = String::new();
        c += &format!("\"evaluations\": {}, \"distinct_nontrivial\": {}, \"clause_checks\": {}", t.evaluations, t.hashes.len(), t.checks);
        if t.states > 0 {
            c += &format!(", \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}", t.states, t.transitions, t.traces);
        }
        c += &format!(", \"rule\": {}", js(&info.rule));
        c += &format!(", \"exhaustive\": {}", t.capped.is_empty());
        c += &format!(", \"caps_hit\": [{}]", t.capped.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
        c += &format!(", \"spaces\": [{}]", t.spaces.iter().map(|(n, s, d)| format!("{{\"name\": {}, \"size\": {}, \"explored\": {}}}", js(n), s, d)).collect::<Vec<_>>().join(", "));
        c += &format!(", \"classes\": {{{}}}", t.classes.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
        if !t.notes.is_empty() {
            c += &format!(", \"notes\": [{}]", t.notes.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
        }
        let mut s: Vec<String> = t.samples.iter().take(24).map(|x| js(x)).collect();
        if s.is_empty() {
            s.push(js("(no sample recorded)"));
        }
        c += &format!(", \"samples\": [{}]", s.join(", "));
        let j = format!(
            "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}}}\n",
            js(&self.prop), js(if self.thorough() { "thorough" } else { "quick" }), self.seed, js(&info.level), c,
            info.assumptions.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "), self.start.elapsed().as_secs_f64(), bad
        );
        let _ = std::fs::create_dir_all(format!("{}/evidence", root));
        if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", root, self.prop), j) {
            eprintln!("cannot write evidence: {}", e);
            std::process::exit(3);
        }
    }
}

#[derive(Clone, Default)]
struct Info {
    level: String,
    rule: String,
    assumptions: Vec<String>,
}
static INFO: Mutex<Info> = Mutex::new(Info { level: String::new(), rule: String::new(), assumptions: Vec::new() });

fn run_case<F: Fn(u64, &mut Rec)>(rec: &mut Rec, i: u64, f: &F) {
    rec.idx = i;
    let r = catch_unwind(AssertUnwindSafe(|| f(i, rec)));
    if let Err(e) = r {
        rec.fail("panic", || panic_text(&e));
    }
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    let s = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    };
    format!("unexpected panic: {}", s)
}

/// Run `f`, turning a panic into Err.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_text(&e))
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

/// known_findings.txt: `finding: property=<id> space=<s> clause=<k> case=<c> what=<text>` with `|` as
/// separator between fields; `fixed:` lines are documentation and suppress nothing.
fn load_known(root: &str, prop: &str) -> Vec<(String, String, String, String)> {
    let mut v = Vec::new();
    if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", root)) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("finding:") {
                let mut m: HashMap<&str, &str> = HashMap::new();
                for part in r.split('|') {
                    if let Some((k, x)) = part.trim().split_once('=') {
                        m.insert(k.trim(), x.trim());
                    }
                }
                if m.get("property") == Some(&prop) {
                    let g = |k: &str| m.get(k).unwrap_or(&"").to_string();
                    v.push((g("space"), g("clause"), g("case"), g("what")));
                }
            }
        }
    }
    v
}

/// Entry point of every check binary.
pub fn run(prop: &str, level: &str, rule: &str, assumptions: &[&str], body: impl Fn(&Ctx)) {
    let args: Vec<String> = std::env::args().collect();
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut only = None;
    let mut filter = None;
    let mut k = 1;
    while k < args.len() {
        match args[k].as_str() {
            "--quick" => tier = Tier::Quick,
            "--thorough" => tier = Tier::Thorough,
            "--space" => {
                filter = Some(args[k + 1].clone());
                k += 1;
            }
            "--replay" => {
                let t = std::fs::read_to_string(&args[k + 1]).expect("replay file");
                let get = |p: &str| t.lines().find_map(|l| l.strip_prefix(p)).expect("replay field").to_string();
                only = Some((get("space="), get("case=")));
                k += 1;
            }
            x => {
                eprintln!("unknown argument {}", x);
                std::process::exit(2);
            }
        }
        k += 1;
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    std::panic::set_hook(Box::new(|_| {}));
    *INFO.lock().unwrap() = Info { level: level.into(), rule: rule.into(), assumptions: assumptions.iter().map(|x| x.to_string()).collect() };
    let ctx = Ctx {
        prop: prop.into(),
        tier,
        seed,
        start: Instant::now(),
        deadline: Duration::from_secs(if tier == Tier::Quick { 400 } else { 3 * 3600 }),
        only,
        filter,
        tot: Mutex::new(Totals::default()),
        threads: std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8),
    };
    unsafe { signal(6, on_abort as extern "C" fn(i32) as usize) };
    std::thread::scope(|sc| {
        let ctx = &ctx;
        sc.spawn(move || ctx.supervise());
        // operands are built with the library itself, from arguments for which it has to give a value
        if let Err(e) = catch_unwind(AssertUnwindSafe(|| body(ctx))) {
            let fl = Failure { space: SETUP.into(), key: "operands can be built".into(), case: "idx:0".into(), order: 0, msg: panic_text(&e) };
            if ctx.only.is_some() {
                println!("  [{}] {} -> {}", fl.space, fl.key, fl.msg);
            }
            ctx.tot.lock().unwrap().fails.push((fl, 1));
        }
        std::process::exit(ctx.report())
    })
}
const SETUP: &str = "(preparing the operands)";

// ---------------------------------------------------------------- index decoding and hashing

/// Mixed-radix decoder.
pub struct Dec(pub u64);
impl Dec {
    #[inline]
    pub fn take(&mut self, n: usize) -> usize {
        let r = (self.0 % n as u64) as usize;
        self.0 /= n as u64;
        r
    }
    #[inline]
    pub fn pick<'a, X>(&mut self, xs: &'a [X]) -> &'a X {
        let i = self.take(xs.len());
        &xs[i]
    }
}

#[inline]
pub fn mix(h: u64, x: u64) -> u64 {
    let mut z = (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z ^= z >> 29;
    z = z.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z ^ (z >> 32)
}
pub fn hash_f(tag: u64, xs: &[f64]) -> u64 {
    xs.iter().fold(mix(0x1234_5678, tag), |h, x| mix(h, x.to_bits()))
}
pub fn hash_u(tag: u64, xs: &[u64]) -> u64 {
    xs.iter().fold(mix(0x1234_5678, tag), |h, x| mix(h, *x))
}

pub fn binom(n: u64, k: u64) -> u64 {
    let k = k.min(n - k.min(n));
    let mut r: u128 = 1;
    for i in 0..k {
        r = r * (n - i) as u128 / (i + 1) as u128;
    }
    r as u64
}

/// The `idx`-th point of the principal lattice {x in N^n : sum x <= d}; there are C(n+d, d).
/// A polynomial in n variables of total degree <= d that vanishes on it is the zero polynomial.
pub fn lattice_point(n: usize, d: usize, mut idx: u64, out: &mut [u8]) {
    // multisets of size d over n+1 symbols (symbol n = slack), as combinations
    for x in out.iter_mut() {
        *x = 0;
    }
    let mut rem = d as u64;
    for v in 0..n {
        // choose value of variable v: number of points with x_v = a is C((n-v-1) + rem-a, rem-a)
        let vars_left = (n - v - 1) as u64;
        let mut a = 0u64;
        loop {
            let cnt = binom(vars_left + rem - a, rem - a);
            if idx < cnt {
                break;
            }
            idx -= cnt;
            a += 1;
        }
        out[v] = a as u8;
        rem -= a;
        if rem == 0 {
            break;
        }
    }
}
pub fn lattice_size(n: usize, d: usize) -> u64 {
    binom((n + d) as u64, d as u64)
}
