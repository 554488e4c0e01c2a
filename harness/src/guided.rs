//! Coverage-guided exploration. The harness is built with the compiler's coverage counters and comparison hooks; before
//! a case is judged it is run once with a handler that does nothing, and whatever part of the library's code, count of
//! its executions or outcome of its comparisons that had not been seen yet makes the case a parent of further ones.

use crate::checks::{dress, How, Judge, UJudge};
use crate::engine::*;
use crate::ev::Intr;
use crate::h1::*;
use crate::h1gen as g;
use crate::h2;
use crate::misc::Thin;
use crate::rng::{mix, Rng};
use crate::ut::{self, UK};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------------------------------------
// What the compiler calls
// ------------------------------------------------------------------------------------------------

/// src/guided_rt.c
#[allow(non_upper_case_globals)]
mod cov {
    #[repr(C)]
    pub struct Word { pub n: u8, pub b: [u8; 40] }
    extern "C" {
        pub static mut cov_on: i32;
        pub static cov_nconsts: u64;
        pub static cov_consts: [u64; 2048];
        pub static cov_nwords: u64;
        pub static cov_words: [Word; 512];
        pub fn cov_clear();
        pub fn cov_size() -> u64;
        pub fn cov_collect(had: *mut u8) -> u64;
    }
}

// ------------------------------------------------------------------------------------------------
// Cases
// ------------------------------------------------------------------------------------------------

#[derive(Clone)]
enum In { M(Case), U(UK, Vec<u8>), P(Case, usize, bool, Case) }

pub enum Target {
    M(&'static [Mode], How, Judge),
    U(Vec<UK>, UJudge),
    /// a message on a parser with a history
    P(&'static [Mode]),
}

/// What inputs are made of: operands of comparisons that were run, and what the source says.
struct Dict { sizes: Vec<usize>, bytes: Vec<u8>, wide: Vec<u64>, words: Vec<Vec<u8>>, source: Vec<Vec<u8>>, seen: (usize, usize) }
impl Dict {
    fn constant(&mut self, c: u64) {
        if c < 256 && !self.bytes.contains(&(c as u8)) { self.bytes.push(c as u8); }
        if c > 4 && c < 70_000 && !self.sizes.contains(&(c as usize)) { self.sizes.push(c as usize); }
        if c > 255 && !self.wide.contains(&c) { self.wide.push(c); }
    }
    fn refresh(&mut self) {
        unsafe {
            let now = (cov::cov_nconsts as usize, cov::cov_nwords as usize);
            for i in self.seen.0..now.0 {
                self.constant(cov::cov_consts[i]);
            }
            for i in self.seen.1..now.1 { let w = &cov::cov_words[i]; self.words.push(w.b[..w.n as usize].to_vec()); }
            self.seen = now;
        }
    }
    fn size(&self, r: &mut Rng) -> usize {
        if !self.sizes.is_empty() && r.chance(2, 3) { return (*r.pick(&self.sizes) + r.below(5)).saturating_sub(2); }
        let top = *r.pick(&[5usize, 7, 8, 9, 10, 12]);
        g::edge_len(r, top)
    }
    fn number(&self, r: &mut Rng) -> u64 {
        let x = match r.below(4) { 0 if !self.wide.is_empty() => *r.pick(&self.wide), 1 if !self.sizes.is_empty() => *r.pick(&self.sizes) as u64, 2 if !self.bytes.is_empty() => *r.pick(&self.bytes) as u64, _ => r.u32() as u64 >> r.below(32) };
        x.wrapping_add([0, 0, 0, 1, u64::MAX][r.below(5)])
    }
    fn token(&self, r: &mut Rng) -> Vec<u8> {
        let v = self.plain_token(r);
        if r.chance(1, 5) { v.iter().flat_map(|b| format!("%{:02x}", b).into_bytes()).collect() } else { v }
    }
    fn plain_token(&self, r: &mut Rng) -> Vec<u8> {
        match r.below(4) {
            0 if !self.words.is_empty() && r.chance(3, 4) => r.pick(&self.words).clone(),
            0 if !self.source.is_empty() => r.pick(&self.source).clone(),
            1 if !self.wide.is_empty() => {
                // most characters are compared four or eight at a time
                let w = r.pick(&self.wide).wrapping_add([0, 0, 0, 1, u64::MAX][r.below(5)]);
                let n = if w >> 32 != 0 { 8 } else if w >> 16 != 0 { 4 } else { 2 };
                let b = w.to_le_bytes();
                let mut v = b[..n].to_vec();
                if r.bool() { v.reverse(); }
                if r.chance(1, 4) { v = w.to_string().into_bytes(); } else if r.chance(1, 4) { v = format!("{:x}", w).into_bytes(); }
                v
            }
            2 if !self.bytes.is_empty() => vec![*r.pick(&self.bytes)],
            _ => vec![if r.bool() { *r.pick(g::HOT) } else { r.u8() }],
        }
    }
}

/// Strings and numbers that are written in the library's source: only a supply of bytes to put into inputs.
fn literals(dir: &std::path::Path, d: &mut Dict) {
    let mut es: Vec<_> = match std::fs::read_dir(dir) { Ok(x) => x.flatten().map(|e| e.path()).collect(), Err(_) => return };
    es.sort();
    for p in es {
        if p.is_dir() { if !p.ends_with("test") { literals(&p, d); } continue; }
        if p.extension().map_or(true, |x| x != "rs") || p.ends_with("test.rs") { continue; }
        for l in std::fs::read_to_string(&p).unwrap_or_default().lines() {
            let b = l.trim_start().as_bytes();
            if b.starts_with(b"//") { continue; }
            let mut i = 0;
            while i < b.len() {
                if b[i] == b'"' {
                    let mut w = vec![];
                    i += 1;
                    while i < b.len() && b[i] != b'"' {
                        if b[i] == b'\\' && i + 1 < b.len() {
                            i += 1;
                            w.push(match b[i] { b'r' => 13, b'n' => 10, b't' => 9, b'0' => 0, b'x' => { let h = b.get(i + 1..i + 3).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok()); i += 2; h.unwrap_or(b'x') } c => c });
                        } else { w.push(b[i]); }
                        i += 1;
                    }
                    if w.len() > 1 && w.len() <= 20 && !w.contains(&b' ') && !w.contains(&b'{') && !w.contains(&b'<') && !d.source.contains(&w) && d.source.len() < 400 { d.source.push(w); }
                } else if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
                    let e = i + b[i..].iter().take_while(|c| c.is_ascii_alphanumeric() || **c == b'_').count();
                    let t: String = l.trim_start()[i..e].chars().filter(|c| *c != '_').collect();
                    let n = if let Some(h) = t.strip_prefix("0x") { u64::from_str_radix(h, 16).ok() } else { t.parse().ok() };
                    if let Some(n) = n { d.constant(n); }
                    i = e;
                    continue;
                }
                i += 1;
            }
        }
    }
}

fn cap(v: &mut Vec<u8>, r: &mut Rng) { let m = match r.below(500) { 0 => 70_000, 1..=10 => 5000, 11..=50 => 1500, _ => 400 }; if v.len() > m { v.truncate(m); } }

/// One change of a byte string; `other` is some other input of the kind.
fn change(v: &mut Vec<u8>, other: &[u8], d: &Dict, r: &mut Rng) {
    let n = v.len();
    let at = r.below(n + 1);
    match r.below(15) {
        0 | 1 => g::mutate(r, v),
        2 => { let t = d.token(r); v.splice(at..at, t); }
        3 | 4 => { let t = d.token(r); let e = (at + t.len()).min(n); v.splice(at..e, t); }
        // a byte, or some bytes, many times
        5 if n > 0 => { let i = r.below(n); let k = d.size(r).min(70_000); let b = v[i]; v.splice(i..i, std::iter::repeat(b).take(k)); }
        // a run grows or shrinks to a size
        6 if n > 0 => {
            let i = r.below(n);
            let word = |b: u8| b.is_ascii_alphanumeric();
            let (mut a, mut e) = (i, i + 1);
            if word(v[i]) { while a > 0 && word(v[a - 1]) { a -= 1; } while e < n && word(v[e]) { e += 1; } }
            let k = d.size(r).min(70_000);
            let b = v[i];
            if k < e - a { v.drain(a + k..e); } else { v.splice(e..e, std::iter::repeat(b).take(k - (e - a))); }
        }
        7 if n > 0 => { let i = r.below(n); let e = (i + r.range(1, 40)).min(n); let p = v[i..e].to_vec(); let k = if r.chance(1, 4) { d.size(r).min(1 + 8000 / p.len()) } else { r.range(1, 8) }; let mut x = vec![]; for _ in 0..k { x.extend(&p); } v.splice(e..e, x); }
        8 if !other.is_empty() => { let j = r.below(other.len() + 1); v.truncate(at); v.extend(&other[j..]); }
        9 if !other.is_empty() => { let j = r.below(other.len()); let e = (j + r.range(1, 60)).min(other.len()); v.splice(at..at, other[j..e].iter().copied()); }
        10 if n > 0 => { let e = (at + r.range(1, 20)).min(n); v.drain(at.min(e)..e); }
        11 if n > 1 => { let (a, b) = (r.below(n), r.below(n)); let (a, b) = (a.min(b), a.max(b)); let l = r.range(1, 12).min(n - b); let p = v[b..b + l].to_vec(); v.splice(a..a, p); }
        // another number
        14 if n > 0 => {
            let x = d.number(r);
            let hex = r.chance(1, 3);
            let digit = |b: u8| if hex { b.is_ascii_hexdigit() } else { b.is_ascii_digit() };
            let at = (0..n).cycle().skip(r.below(n)).take(n).find(|i| digit(v[*i]));
            if let Some(i) = at {
                let a = i - v[..i].iter().rev().take_while(|b| digit(**b)).count();
                let e = i + v[i..].iter().take_while(|b| digit(**b)).count();
                let w = e - a;
                let s = match (hex, r.bool()) { (true, true) => format!("{:x}", x), (true, _) => format!("{:0w$X}", x, w = w), (_, true) => format!("{}", x), _ => format!("{:0w$}", x, w = w) };
                v.splice(a..e, s.into_bytes());
            }
        }
        12 if n > 0 => { let i = r.below(n); v[i] = v[i].wrapping_add([1, 255, 2, 254, 32, 224][r.below(6)]); }
        _ if n > 0 => { let i = r.below(n); v[i] = if r.bool() { *r.pick(g::HOT) } else { r.u8() }; }
        _ => v.push(r.u8()),
    }
}

/// One change of a stream of frames that keeps its frames well-formed, mostly.
fn change_frames(v: &mut Vec<u8>, other: &[u8], d: &Dict, r: &mut Rng) {
    let cut = |v: &[u8]| { let mut f = vec![]; let mut i = 0; while i + 9 <= v.len() { let l = (v[i] as usize) << 16 | (v[i + 1] as usize) << 8 | v[i + 2] as usize; let e = (i + 9 + l).min(v.len()); f.push((i, e)); i = e; } f };
    let f = cut(v);
    if f.is_empty() { return change(v, other, d, r); }
    let (a, e) = f[r.below(f.len())];
    match r.below(7) {
        // another payload, and the length with it
        0 | 1 => {
            let mut p = v[a + 9..e].to_vec();
            if r.chance(1, 3) { let k = d.size(r).min(20_000); p.resize(k, r.u8()); } else { change(&mut p, other, d, r); }
            let mut x = vec![(p.len() >> 16) as u8, (p.len() >> 8) as u8, p.len() as u8];
            x.extend(&v[a + 3..a + 9]);
            x.extend(p);
            v.splice(a..e, x);
        }
        2 => { let x = v[a..e].to_vec(); let (b, _) = f[r.below(f.len())]; v.splice(b..b, x); }
        3 => { let o = cut(other); if !o.is_empty() { let (x, y) = o[r.below(o.len())]; v.splice(a..a, other[x..y].iter().copied()); } }
        4 => { let i = a + 3 + r.below(6); v[i] = match r.below(4) { 0 if !d.bytes.is_empty() => *r.pick(&d.bytes), 1 => v[i] ^ 1 << r.below(8), 2 => r.u8(), _ => r.below(12) as u8 }; }
        5 if !d.wide.is_empty() => { let w = *r.pick(&d.wide) as u32; v[a + 5..a + 9].copy_from_slice(&w.to_be_bytes()); }
        _ => { v.drain(a..e); }
    }
}

fn derive(p: &In, q: &In, d: &Dict, how: How, r: &mut Rng) -> In {
    match p {
        In::M(c) => {
            let mut c = c.clone();
            let other: &[u8] = match q { In::M(o) if o.mode == c.mode => &o.input, _ => &[] };
            let k = *r.pick(&[0usize, 1, 1, 1, 1, 2, 2, 3, 5]);
            for _ in 0..k { if c.mode == Mode::H2 && r.chance(2, 3) { change_frames(&mut c.input, other, d, r); } else { change(&mut c.input, other, d, r); } }
            cap(&mut c.input, r);
            let n = c.input.len();
            if c.mode == Mode::Multipart {
                // another delimiter, everywhere
                if r.chance(1, 6) {
                    let mut nb = c.boundary.clone();
                    if r.chance(1, 3) { let b = *r.pick(b"ab-Z"); nb.resize(d.size(r).clamp(1, 300), b); } else { change(&mut nb, &[], d, r); }
                    nb.retain(|b| *b != b'\r');
                    nb.truncate(300);
                    if nb.is_empty() { nb.push(b'b'); }
                    if r.chance(3, 4) {
                        let (mut x, mut i) = (vec![], 0);
                        let old = [b"--", &c.boundary[..]].concat();
                        while i < n { if c.input[i..].starts_with(&old) { x.extend(b"--"); x.extend(&nb); i += old.len(); } else { x.push(c.input[i]); i += 1; } }
                        c.input = x;
                    }
                    c.boundary = nb;
                }
                if r.chance(1, 8) { c.cls = match r.below(4) { 0 => vec![], 1 => vec![Some(r.below(20)), None], 2 => vec![None, Some(d.size(r))], _ => vec![Some(d.size(r)), Some(r.below(9))] }; }
            }
            let n = c.input.len();
            if c.mode == Mode::Url { c.length = match r.below(8) { 0 => r.below(n + 1), 1 => n + r.range(1, 4), 2 => n.saturating_sub(1), 3 => d.size(r), _ => n }; }
            // the cuts and replies of the parent, fresh ones, or one more cut
            let cuts = matches!(how, How::Cut | How::CutIntr);
            if c.frags.iter().sum::<usize>() != n || !cuts || r.chance(1, 3) { c.frags = vec![n]; if cuts && n <= 20_000 { dress(&mut c, r, How::Cut); } else if cuts { c.frags = g::few(r, n); } }
            else if !c.frags.is_empty() && r.chance(1, 3) { let i = r.below(c.frags.len()); let f = c.frags[i]; let a = r.below(f + 1); c.frags[i] = a; c.frags.insert(i + 1, f - a); }
            if matches!(how, How::Intr | How::CutIntr) && r.chance(1, 2) { if r.chance(1, 3) { c.intr = Intr::None; } else { dress(&mut c, r, How::Intr); } }
            In::M(c)
        }
        In::P(h, stop, reset, c) => {
            let (mut h, mut stop, mut reset, mut c) = (h.clone(), *stop, *reset, c.clone());
            let (qh, qc) = match q { In::P(h, _, _, c) => (h.clone(), c.clone()), _ => (h.clone(), c.clone()) };
            let again = |a: Case, b: Case, r: &mut Rng| match derive(&In::M(a.clone()), &In::M(b), d, how, r) { In::M(x) => x, _ => a };
            match r.below(6) {
                0 | 1 => c = again(c, qc, r),
                2 => h = again(h, qh, r),
                3 => { h = again(h, qh, r); c = again(c, qc, r); }
                4 => h = qh,
                _ => c = qc,
            }
            if r.chance(1, 3) { stop = if r.bool() { usize::MAX } else { r.below(12) }; }
            reset = if c.mode == Mode::H2 { true } else if r.chance(1, 3) { !reset } else { reset };
            // reset() keeps the type
            if reset && h.mode != c.mode { if c.mode == Mode::H2 || h.mode == Mode::H2 { h = c.clone(); } else { reset = false; } }
            In::P(h, stop, reset, c)
        }
        In::U(k, s) => {
            let mut s = s.clone();
            let other: &[u8] = match q { In::U(_, o) => o, _ => &[] };
            for _ in 0..*r.pick(&[1usize, 1, 1, 2, 3, 5]) { change(&mut s, other, d, r); }
            cap(&mut s, r);
            let k = match k { UK::Field { .. } if r.chance(1, 10) => ut::field_kind(r), k => *k };
            In::U(k, s)
        }
    }
}

/// The run whose coverage counts.
fn probe(i: &In, h: &mut Thin) {
    match i {
        In::M(c) => {
            h.set(&c.intr, &c.cls);
            let _ = catch(|| unsafe {
                if c.mode == Mode::H2 { let mut p = http_box::http2::Parser::new(); cov::cov_clear(); cov::cov_on = 1; crate::misc::thin2(&mut p, h, &c.input, &c.frags); cov::cov_on = 0; }
                else { let mut p = http_box::http1::Parser::new(); cov::cov_clear(); cov::cov_on = 1; crate::misc::thin1(&mut p, h, c); cov::cov_on = 0; }
            });
        }
        In::P(a, stop, reset, c) => {
            h.set(&c.intr, &c.cls);
            let part = Case { input: a.input[..crate::misc::some(a, *stop)].to_vec(), ..a.clone() };
            let _ = catch(|| unsafe {
                cov::cov_clear();
                cov::cov_on = 1;
                if c.mode == Mode::H2 {
                    let mut p = http_box::http2::Parser::new();
                    crate::misc::thin2(&mut p, h, &part.input, &part.frags);
                    p.reset();
                    crate::misc::thin2(&mut p, h, &c.input, &c.frags);
                } else {
                    let mut p = http_box::http1::Parser::new();
                    crate::misc::thin1(&mut p, h, &part);
                    if *reset { p.reset(); }
                    crate::misc::thin1_again(&mut p, h, c, *reset);
                }
                cov::cov_on = 0;
            });
        }
        In::U(k, s) => { let _ = catch(|| unsafe { cov::cov_clear(); cov::cov_on = 1; crate::misc::thin_util(*k, s); cov::cov_on = 0; }); }
    }
    unsafe { cov::cov_on = 0; }
}

fn initial(t: &Target, r: &mut Rng) -> Vec<In> {
    let mut v = vec![];
    match t {
        Target::M(modes, how, _) => {
            for mut c in g::templates().into_iter().chain(h2::templates2()).filter(|c| modes.contains(&c.mode)) { v.push(In::M(c.clone())); dress(&mut c, r, *how); v.push(In::M(c)); }
            for mut c in crate::vocab::everyday(modes) { if r.chance(1, 3) { c.frags = vec![c.input.len()]; dress(&mut c, r, *how); v.push(In::M(c)); } }
            for m in modes.iter() {
                for _ in 0..60 { let mut c = g::valid(r, *m, false); c.frags = vec![c.input.len()]; dress(&mut c, r, *how); v.push(In::M(c)); }
                for s in 0..g::shapes(*m) { let mut c = g::long_at(r, *m, s, 20); c.frags = vec![c.input.len()]; dress(&mut c, r, *how); v.push(In::M(c)); }
            }
        }
        Target::P(modes) => {
            let cs: Vec<Case> = initial(&Target::M(modes, How::CutIntr, |_, _| Ok(())), r).into_iter().filter_map(|i| match i { In::M(c) => Some(c), _ => None }).collect();
            for c in &cs {
                let h = r.pick(&cs).clone();
                let stop = if r.bool() { usize::MAX } else { r.below(12) };
                let reset = c.mode == Mode::H2 || c.mode == h.mode && r.bool();
                v.push(In::P(h, stop, reset, c.clone()));
            }
        }
        Target::U(ks, _) => for k in ks { for s in crate::vocab::texts() { if r.chance(1, 3) { v.push(In::U(*k, s)); } } for s in ut::templates(*k) { v.push(In::U(*k, s)); } for _ in 0..60 { v.push(In::U(*k, ut::valid(r, *k).0)); } },
    }
    v
}

static ITER: AtomicU64 = AtomicU64::new(0);

/// Explores until the iterations or the time are over.
pub fn explore(prop: &str, seed: u64, shard: u64, iters: u64, limit: Duration, hang: Duration) -> Report {
    let t0 = Instant::now();
    let ts = crate::checks::targets(prop);
    std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(50));
            let i = ITER.load(Relaxed);
            if i != last.0 { last = (i, Instant::now()); }
            else if last.1.elapsed() > hang { println!("HANGS in case {}", i); std::process::exit(3); }
        }
    });
    let mut obs = fresh_obs();
    let mut violation = None;
    let mut n = 0u64;
    let mut capped = false;
    let mut r = Rng::new(mix(seed) ^ mix(crate::rng::hash_str(prop) ^ shard));
    let mut h = Thin::new();
    let mut runs: Vec<(Vec<In>, Vec<In>, Vec<u8>)> = ts.iter().map(|t| (initial(t, &mut r), vec![], vec![0; unsafe { cov::cov_size() } as usize])).collect();
    let mut d = Dict { sizes: vec![], bytes: vec![], wide: vec![], words: vec![], source: vec![], seen: (0, 0) };
    literals(std::path::Path::new(std::option_env!("GUIDED_SOURCE").unwrap_or("/repo/src")), &mut d);
    let mut found = 0u64;
    'all: while n < iters {
        let k = (n % ts.len() as u64) as usize;
        let t = &ts[k];
        let (todo, corpus, seen) = &mut runs[k];
        let how = match t { Target::M(_, how, _) => *how, _ => How::CutIntr };
        let case = match todo.pop() {
            Some(c) => c,
            None => {
                let m = corpus.len();
                let pick = |r: &mut Rng| match r.below(4) { 0 => m - 1 - r.below(m.min(40)), 1 | 2 => (0..4).map(|_| r.below(m)).min_by_key(|i| size(&corpus[*i])).unwrap(), _ => { let (a, b) = (r.below(m), r.below(m)); if size(&corpus[a]) < size(&corpus[b]) { a } else { b } } };
                let (a, b) = (pick(&mut r), pick(&mut r));
                derive(&corpus[a], &corpus[b], &d, how, &mut r)
            }
        };
        obs.evals += 1;
        obs.want_sample = n % 20_011 == 7;
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match (&case, t) {
            (In::M(c), Target::M(_, _, j)) => j(c, &mut obs),
            (In::U(k, s), Target::U(_, j)) => j(*k, s, &mut obs),
            (In::P(h, stop, reset, c), Target::P(_)) => if c.mode == Mode::H2 { crate::checks::reinit_frames(h, *stop, c, &mut obs) } else { crate::checks::reinit(std::slice::from_ref(h), &[*stop], *reset, c, &mut obs) },
            _ => Ok(()),
        }));
        match res {
            Err(_) => { eprintln!("HARNESS-PANIC guided case {}", n); std::process::exit(4) }
            Ok(Err(m)) => { violation = Some(("guided".to_string(), n, m)); break 'all; }
            Ok(Ok(())) => (),
        }
        probe(&case, &mut h);
        let new = unsafe { cov::cov_collect(seen.as_mut_ptr()) };
        if new > 0 || corpus.is_empty() { found += new; corpus.push(case); d.refresh(); }
        n += 1;
        ITER.store(n, Relaxed);
        if n % 64 == 0 && t0.elapsed() > limit { capped = n < iters && iters != u64::MAX; break; }
    }
    obs.count("guided_cases", n);
    obs.count("guided_features", found);
    obs.count("guided_parents", runs.iter().map(|x| x.1.len() as u64).sum());
    obs.count("guided_code_edges", runs.iter().map(|x| x.2.iter().filter(|b| **b != 0).count() as u64).max().unwrap_or(0));
    obs.count("guided_constants", d.sizes.len() as u64 + d.bytes.len() as u64 + d.wide.len() as u64 + d.words.len() as u64);
    if std::env::var("GUIDED_DEBUG").is_ok() {
        eprintln!("sizes {:?} wide {:x?} words {:?}", d.sizes, d.wide, d.words.iter().map(|w| crate::ev::show(w)).collect::<Vec<_>>());
        for x in &runs { for c in x.1.iter().rev().take(8) { match c { In::M(c) => eprintln!("{:?}", c), In::U(k, s) => eprintln!("{:?} {}", k, crate::ev::show(s)), In::P(h, s, x, c) => eprintln!("{:?} {} {} {:?}", h, s, x, c) } } }
    }
    Report { obs, violation, per: vec![("guided".into(), n, n, false)], capped, wall: t0.elapsed().as_secs_f64() }
}

fn size(i: &In) -> usize { match i { In::M(c) => c.input.len(), In::U(_, s) => s.len(), In::P(h, _, _, c) => h.input.len() + c.input.len() } }
