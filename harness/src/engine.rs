//! Runs workloads over all cores, collects what was observed, keeps a crash witness.

use crate::ev::{NK, Log};
use crate::rng::{hash_str, mix, Rng};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier { Quick, Thorough }

thread_local! {
    static SILENT: Cell<bool> = Cell::new(false);
    static LAST: RefCell<String> = RefCell::new(String::new());
}

pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() }
                else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "panic".into() };
        let at = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let s = format!("{}{}", m, at);
        if SILENT.with(|x| x.get()) { LAST.with(|l| *l.borrow_mut() = s); } else { eprintln!("harness panic: {}", s); }
    }));
}

/// Run code under test; a panic becomes Err(message).
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let old = SILENT.with(|x| x.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    SILENT.with(|x| x.set(old));
    r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}

/// What one worker observed.
pub struct Obs {
    pub evals: u64,
    pub runs: u64,
    pub set: HashSet<u64>,
    pub n: BTreeMap<String, u64>,
    pub kinds: [u64; NK],
    pub samples: Vec<String>,
    pub want_sample: bool,
}

impl Obs {
    fn new() -> Obs { Obs { evals: 0, runs: 0, set: HashSet::new(), n: BTreeMap::new(), kinds: [0; NK], samples: vec![], want_sample: false } }
    pub fn count(&mut self, k: &str, n: u64) { if n > 0 { if let Some(x) = self.n.get_mut(k) { *x += n; } else { self.n.insert(k.to_string(), n); } } }
    /// a case that is non-trivial in the sense of the rule of its check
    pub fn nontrivial(&mut self, h: u64) { if self.set.len() < 3_000_000 { self.set.insert(h); } }
    pub fn sample(&mut self, f: impl FnOnce() -> String) { if self.want_sample { self.want_sample = false; self.samples.push(f()); } }
    pub fn log(&mut self, l: &Log) { for e in &l.evs { self.kinds[e.k as usize] += 1; } }
    pub fn out(&mut self, o: &crate::h1::Out) {
        self.runs += 1;
        for (i, k) in o.kinds.iter().enumerate() { self.kinds[i] += k; }
        self.count("resume_calls", o.calls);
        self.count("callbacks", o.ncb);
        self.count("interruptions", o.callbacks_false);
        self.count("end_of_slice_snapshots", o.snaps.len() as u64);
        self.count(match &o.fin {
            crate::h1::Fin::More => "outcome_more", crate::h1::Fin::Finished => "outcome_finished", crate::h1::Fin::Err(..) => "outcome_error",
            crate::h1::Fin::Panic(_) => "outcome_panic", crate::h1::Fin::Broken => "outcome_broken",
        }, 1);
        if let crate::h1::Fin::Err(k, _) = &o.fin { let s = format!("error_{:?}", k); self.count(&s, 1); }
    }
}

pub type CaseFn = Box<dyn Fn(u64, &mut Rng, &mut Obs) -> Result<(), String> + Sync + Send>;

pub struct Wk { pub name: &'static str, pub n: u64, pub f: CaseFn, pub exhaustive: bool }

pub fn wk(name: &'static str, n: u64, f: impl Fn(u64, &mut Rng, &mut Obs) -> Result<(), String> + Sync + Send + 'static) -> Wk {
    Wk { name, n, f: Box::new(f), exhaustive: false }
}
pub fn sweep(name: &'static str, n: u64, f: impl Fn(u64, &mut Rng, &mut Obs) -> Result<(), String> + Sync + Send + 'static) -> Wk {
    Wk { name, n, f: Box::new(f), exhaustive: true }
}

pub fn case_rng(seed: u64, prop: &str, w: &str, k: u64) -> Rng {
    Rng::new(mix(seed ^ 0x5EED).wrapping_add(hash_str(prop)) ^ mix(hash_str(w) ^ mix(k)))
}

pub fn one(w: &Wk, seed: u64, prop: &str, k: u64, obs: &mut Obs) -> Result<(), String> {
    let mut r = case_rng(seed, prop, w.name, k);
    match catch_unwind(AssertUnwindSafe(|| (w.f)(k, &mut r, obs))) {
        Ok(x) => x,
        Err(_) => { eprintln!("HARNESS-PANIC workload {} case {}", w.name, k); std::process::exit(4) }
    }
}

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

struct Slots(&'static [AtomicU64]);

pub struct Run<'a> { pub prop: &'a str, pub seed: u64, pub threads: usize, pub progress: Option<String>, pub cap: Duration, pub hang: Duration }

pub struct Report { pub obs: Obs, pub violation: Option<(String, u64, String)>, pub per: Vec<(String, u64, u64, bool)>, pub capped: bool, pub wall: f64 }

pub fn run_all(ws: &[Wk], rn: &Run) -> Report {
    let t0 = Instant::now();
    let stop = AtomicBool::new(false);
    let viol: Mutex<Option<(usize, u64, String)>> = Mutex::new(None);
    let next: Vec<AtomicU64> = ws.iter().map(|_| AtomicU64::new(0)).collect();
    let doneq: Vec<AtomicU64> = ws.iter().map(|_| AtomicU64::new(0)).collect();
    let all: Mutex<Vec<Obs>> = Mutex::new(vec![]);
    let alive = AtomicU64::new(rn.threads as u64);
    // shared memory that survives the death of this process: per worker workload, case, counter
    let slots = match &rn.progress {
        Some(p) => {
            use std::os::fd::AsRawFd;
            let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p).unwrap();
            f.set_len(4096).unwrap();
            let m = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
            assert!(m as isize != -1);
            Slots(unsafe { std::slice::from_raw_parts(m as *const AtomicU64, 512) })
        }
        None => Slots(Box::leak((0..512).map(|_| AtomicU64::new(0)).collect::<Vec<_>>().into_boxed_slice())),
    };
    let capped = AtomicBool::new(false);
    std::thread::scope(|s| {
        for t in 0..rn.threads {
            let (stop, viol, next, doneq, all, alive, slots, capped) = (&stop, &viol, &next, &doneq, &all, &alive, &slots, &capped);
            std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
                let mut obs = Obs::new();
                let slot = &slots.0[1 + t * 4..];
                'w: for (wi, w) in ws.iter().enumerate() {
                    // every workload gets its share of the time, what is left over goes to the later ones
                    let share = rn.cap.mul_f64((wi + 1) as f64 / ws.len() as f64);
                    let batch = (w.n / 2000).clamp(1, 64);
                    loop {
                        let a = next[wi].fetch_add(batch, Relaxed);
                        if a >= w.n { break; }
                        for k in a..(a + batch).min(w.n) {
                            if stop.load(Relaxed) { break 'w; }
                            slot[1].store(k, Relaxed);
                            slot[0].store(wi as u64 + 1, Relaxed);
                            slot[2].store(slot[2].load(Relaxed) + 1, Relaxed);
                            obs.evals += 1;
                            obs.want_sample = k < 2 || k == w.n / 2;
                            if let Err(m) = one(w, rn.seed, rn.prop, k, &mut obs) {
                                let mut v = viol.lock().unwrap();
                                if v.as_ref().map_or(true, |x| (wi, k) < (x.0, x.1)) { *v = Some((wi, k, m)); }
                                stop.store(true, Relaxed);
                            }
                            doneq[wi].fetch_add(1, Relaxed);
                        }
                        if t0.elapsed() > share { capped.store(true, Relaxed); break; }
                    }
                }
                slot[0].store(0, Relaxed);
                all.lock().unwrap().push(obs);
                alive.fetch_sub(1, SeqCst);
            }).unwrap();
        }
        // watchdog
        let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); rn.threads];
        while alive.load(SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            for t in 0..rn.threads {
                let slot = &slots.0[1 + t * 4..];
                let (w, c) = (slot[0].load(Relaxed), slot[2].load(Relaxed));
                if w == 0 || c != last[t].0 { last[t] = (c, Instant::now()); }
                else if last[t].1.elapsed() > rn.hang {
                    slots.0[0].store(t as u64 + 1, Relaxed);
                    eprintln!("watchdog: no progress for {:?} in case {}:{}", rn.hang, ws[w as usize - 1].name, slot[1].load(Relaxed));
                    std::process::exit(3);
                }
            }
        }
    });
    let mut obs = Obs::new();
    for o in all.into_inner().unwrap() {
        obs.evals += o.evals; obs.runs += o.runs;
        obs.set.extend(o.set);
        for (k, v) in o.n { obs.count(&k, v); }
        for i in 0..NK { obs.kinds[i] += o.kinds[i]; }
        obs.samples.extend(o.samples);
    }
    obs.samples.sort();
    let per = ws.iter().enumerate().map(|(i, w)| (w.name.to_string(), w.n, doneq[i].load(SeqCst), w.exhaustive)).collect();
    Report {
        obs, per, capped: capped.load(SeqCst), wall: t0.elapsed().as_secs_f64(),
        violation: viol.into_inner().unwrap().map(|(w, k, m)| (ws[w].name.to_string(), k, m)),
    }
}

pub fn fresh_obs() -> Obs { Obs::new() }

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 0x20 || c as u32 == 0x7F => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
